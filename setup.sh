#!/bin/bash
# Nothing is installed: check that the tools and libraries the checks need are
# there. Every check compiles what it needs from /repo's working tree itself.
set -e
for t in g++ objcopy sha1sum sed; do command -v "$t" > /dev/null || { echo "missing: $t"; exit 1; }; done
for h in boost/archive/text_oarchive.hpp fmt/core.h; do
  echo "#include <$h>" | g++ -std=gnu++17 -DFMT_HEADER_ONLY -fsyntax-only -x c++ - || { echo "missing: $h"; exit 1; }
done
mkdir -p "$(dirname "$0")/build" "$(dirname "$0")/evidence" "$(dirname "$0")/replays"
echo "setup done"
