#!/bin/bash
# build.sh <check> <output folder> <repo>: compile one check against the
# sources of the repository. The engine objects are shared and cached by content.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
lc="$1"; out="$2"; repo="$3"
common="-std=gnu++17 -g -O1 -U_FORTIFY_SOURCE -DFMT_HEADER_ONLY -fno-omit-frame-pointer -Wno-free-nonheap-object"
san="$(sed -n 's|^// *SAN: *||p' "$here/checks/$lc.cpp")"
ldflags="$(sed -n 's|^// *LDFLAGS: *||p' "$here/checks/$lc.cpp")"
flags="$common -fsanitize=${san:-address} -D_GLIBCXX_ASSERTIONS -ffp-contract=off $(sed -n 's|^// *FLAGS: *||p' "$here/checks/$lc.cpp" | sed "s|@REPO@|$repo|g")"
objs=""
pids=""
extra="$(sed -n 's|^// *ENGINE: *||p' "$here/checks/$lc.cpp")"
for f in core fs mem $extra; do
  h="$(cat "$here/sim/$f.cpp" "$here"/sim/*.hpp "$here/build.sh" | sha1sum | cut -c1-16)"
  o="$here/build/$f.$h.o"
  if [ ! -f "$o" ]; then
    # the compiler knows the functions of ThreadSanitizer's runtime and will not
    # let us define them under their own names: simts_x becomes __tsan_x here
    ( g++ $common -fsanitize=address -c "$here/sim/$f.cpp" -o "$o.tmp.$$" &&
      objcopy $(nm "$o.tmp.$$" | sed -n 's/.* T simts_\(.*\)/--redefine-sym simts_\1=__tsan_\1/p') "$o.tmp.$$" &&
      mv "$o.tmp.$$" "$o" ) &
    pids="$pids $!"
  fi
  objs="$objs $o"
done
if [ -f "$here/checks/$lc.build" ]; then
  . "$here/checks/$lc.build"
fi
g++ $flags -I"$repo/include" -c "$here/checks/$lc.cpp" -o "$out/$lc.o"
for p in $pids; do wait "$p"; done
g++ -fsanitize=address -rdynamic "$out/$lc.o" $objs $ldflags -lboost_serialization -ldl -lpthread -o "$out/$lc"
