#!/bin/bash
# check.sh ID [quick|thorough]: builds what the check of that property needs from /repo's working tree and runs it.
# Exit 0: held; 1: VIOLATION printed; 2: an error of the check (a build failure included).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
id="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
mkdir -p /verif/evidence /verif/out /verif/target
rm -f "/verif/evidence/$id.json"
case "$id" in
C25)
    "$here/build.sh" mct || exit 2
    exec /verif/target/mct/release/mct check "$id"
    ;;
C21 | C22)
    "$here/build.sh" capi
    case $? in
    0) exec /verif/target/capi/capi check "$id" ;;
    3)
        # Only with a compiler that works on a header that is right
        [ "$id" = C21 ] && printf '#include <stdint.h>\nint main(void){return 0;}\n' | gcc -x c -o /verif/target/capi/control - || exit 2
        cp /verif/target/capi/errors /verif/out/replay-C21-header.txt
        echo "VIOLATION property=C21 replay=/verif/out/replay-C21-header.txt"
        exit 1
        ;;
    *) exit 2 ;;
    esac
    ;;
C23 | C24 | C27)
    "$here/build.sh" pyapi || exit 2
    py check "$id"
    ;;
*)
    "$here/build.sh" mc deep || exit 2
    exec /verif/target/mc/release/mc check "$id"
    ;;
esac
