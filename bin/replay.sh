#!/bin/bash
# replay.sh FILE: runs again exactly the case that a VIOLATION line named.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
case "$(basename "$1")" in
replay-C25-*)
    "$here/build.sh" mct || exit 2
    exec /verif/target/mct/release/mct replay "$1"
    ;;
replay-C21-* | replay-C22-*)
    "$here/build.sh" capi || exit $(($? == 3 ? 1 : 2))
    exec /verif/target/capi/capi replay "$1"
    ;;
replay-C23-* | replay-C24-* | replay-C27-*)
    "$here/build.sh" pyapi || exit 2
    py replay "$1"
    ;;
*)
    "$here/build.sh" mc deep || exit 2
    exec /verif/target/mc/release/mc replay "$1"
    ;;
esac
