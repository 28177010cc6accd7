#!/bin/sh
# the controlled runtime uses two unstable traits for its `Arc`
case " $* " in
*" --crate-name mc_rt "*) RUSTC_BOOTSTRAP=1 exec "$@" ;;
esac
exec "$@"
