#!/bin/bash
# build.sh PART...: builds parts of the framework, offline, into /verif/target.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p /verif/target
for part in "$@"; do
    case "$part" in
    mc)
        (cd /verif/harness && CARGO_TARGET_DIR=/verif/target/mc cargo build --release --offline --quiet) ||
            { echo "build of the harness against /repo failed" >&2; exit 2; }
        ;;
    deep)
        (cd /verif/deep && CARGO_TARGET_DIR=/verif/target/deep cargo build --offline --quiet) ||
            { echo "build of the program for long histories against /repo failed" >&2; exit 2; }
        ;;
    mct)
        # The crate under test is compiled with coverage callbacks, which become scheduling points
        mkdir -p /verif/target/mct
        cmp -s /verif/threads/cov.c /verif/target/mct/cov.c || {
            gcc -O2 -c /verif/threads/cov.c -o /verif/target/mct/cov.o && cp /verif/threads/cov.c /verif/target/mct/cov.c ||
                { echo "build of cov.c failed" >&2; exit 2; }
        }
        sancov="-Cllvm-args=-sanitizer-coverage"
        (cd /verif/threads && CARGO_TARGET_DIR=/verif/target/mct \
            RUSTFLAGS="-Awarnings -Cpasses=sancov-module $sancov-level=3 $sancov-trace-pc-guard $sancov-trace-loads=1 $sancov-trace-stores=1 -Clink-arg=/verif/target/mct/cov.o" \
            cargo build --release --offline --quiet) ||
            { echo "build of the thread harness against /repo failed" >&2; exit 2; }
        ;;
    capi)
        # A header that does not fit the library or the C language is a violation of C21 (exit 3)
        out=/verif/target/capi
        mkdir -p $out
        (cd /repo/graphrox-c && CARGO_TARGET_DIR=$out CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --quiet) ||
            { echo "build of graphrox-c failed" >&2; exit 2; }
        lib=$out/debug/libgraphrox.so
        stamp="$(cat /verif/capi/*.c /verif/capi/capi.cpp /repo/graphrox-c/gphrx.h $lib | sha256sum)"
        [ -x $out/capi ] && [ "$(cat $out/stamp 2>/dev/null)" = "$stamp" ] && continue
        rm -f $out/capi
        gcc -O2 -w -fPIC -c /verif/capi/alloc.c -o $out/alloc.o ||
            { echo "build of alloc.c failed" >&2; exit 2; }
        { gcc -std=c99 -w -I/repo/graphrox-c -c /verif/capi/header.c -o $out/header.o &&
            g++ -O1 -std=c++17 -w -I/repo/graphrox-c /verif/capi/capi.cpp $out/header.o $out/alloc.o $lib -Wl,-rpath,$out/debug -lpthread -o $out/capi
        } 2>$out/errors || {
            cat $out/errors >&2
            exit 3
        }
        echo "$stamp" >$out/stamp
        ;;
    pyapi)
        # The module and the library under the name that the module looks for
        out=/verif/target/capi
        mkdir -p $out/py/graphrox
        (cd /repo/graphrox-c && CARGO_TARGET_DIR=$out CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --quiet) ||
            { echo "build of graphrox-c failed" >&2; exit 2; }
        gcc -O2 -w -fPIC -shared /verif/capi/alloc.c -o $out/libmcalloc.so.new -ldl && mv $out/libmcalloc.so.new $out/libmcalloc.so ||
            { echo "build of alloc.c failed" >&2; exit 2; }
        cp /repo/graphrox-py/graphrox/*.py $out/py/graphrox/ &&
            cp $out/debug/libgraphrox.so "$out/py/graphrox/graphrox-$(uname -m)-unknown-linux-gnu.so" || exit 2
        ;;
    *) echo "unknown part $part" >&2; exit 2 ;;
    esac
done
