#!/bin/bash
# ./check.sh <ID> [--tier quick|thorough] [--replay F] ...: build the check
# from /repo's working tree and run it.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
repo="${SIM_REPO:-/repo}"
lc="$(echo "$id" | tr 'A-Z' 'a-z')"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
out="$here/build/$id.$$"
mkdir -p "$here/build" "$here/evidence" "$here/replays" "$out" || exit 2
trap 'rm -rf "$out"' EXIT
"$here/build.sh" "$lc" "$out" "$repo" > "$out/log" 2>&1 || { echo "internal error: the check does not build"; tail -60 "$out/log"; exit 2; }
case " $* " in
  *" --replay "*|*" --run "*|*" --hashes "*) "$out/$lc" "$@"; exit $? ;;
esac
"$out/$lc" --tier "$tier" --seed "$seed" --evidence "${SIM_EVIDENCE:-$here/evidence}/$id.json" --replays "$here/replays" "$@"
