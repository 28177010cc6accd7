#!/bin/sh
# Compiles the crate under test against the controlled std::sync / std::thread / thread_local!.
# The worker pool's stand-in depends on mc_rt_arc, so both have been built when rust_light is compiled.
# The controlled Arc cannot do everything the standard one can; code it does not suit keeps the latter.
case " $* " in
*" --crate-name rust_light "*)
    out=
    prev=
    for a in "$@"; do
        [ "$prev" = --out-dir ] && out=$a
        prev=$a
    done
    find_lib() {
        lib=$(ls -t "$out"/lib$1-*.rmeta 2>/dev/null | head -n 1)
        [ -n "$lib" ] || lib=$(ls -t "$out"/lib$1-*.rlib 2>/dev/null | head -n 1)
        [ -n "$lib" ] || { echo "$1 has not been built" >&2; exit 1; }
    }
    find_lib mc_rt_arc
    msgs=$(mktemp)
    if "$@" --extern "std=$lib" 2>"$msgs"; then
        cat "$msgs" >&2
        rm -f "$msgs"
        exit 0
    fi
    rm -f "$msgs"
    find_lib mc_rt
    exec "$@" --extern "std=$lib"
    ;;
*" --crate-name mc_rt "*)
    RUSTC_BOOTSTRAP=1 exec "$@"
    ;;
esac
exec "$@"
