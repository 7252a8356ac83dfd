#!/bin/bash
# usage: run.sh PROPERTY quick|thorough [--replay FILE]
# exit 0: the property held on everything explored; 1: VIOLATION line printed; else: the check itself failed
DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$DIR"
prop="$1"
case "$prop" in
C13 | C14 | C15 | C21 | C24 | C25 | C12) targets="mc tools" ;;
C22) targets="mc single" ;;
*) targets="mc" ;;
esac
"$DIR/build.sh" $targets || exit 3
ulimit -c 0
# the scratch directory of this run; removed at the end
base="${TMPDIR:-/tmp}"
[ -d /dev/shm ] && [ -w /dev/shm ] && base=/dev/shm
export VERIF_SCRATCH="$(mktemp -d "$base/cres-mc.XXXXXX")"
trap 'chmod -R u+rwx -- "$VERIF_SCRATCH" 2>/dev/null; rm -r -f -- "$VERIF_SCRATCH"' EXIT
"$DIR/target/bin/mc" "$@"
rc=$?
if [ "$rc" -ge 129 ] && [ "$rc" -ne 137 ] && [ "$rc" -ne 143 ] && [ "$rc" -ne 130 ]; then
    # the code under test took the whole process down (stack overflow, abort)
    f="$DIR/out/$prop-crash.json"
    mkdir -p "$DIR/out"
    printf '{"property": "%s", "tier": "%s", "case": "crash", "what": "the process died of signal %d"}\n' "$prop" "$2" $((rc - 128)) >"$f"
    echo "# the process died of signal $((rc - 128))"
    echo "VIOLATION property=$prop replay=$f"
    rc=1
fi
exit $rc
