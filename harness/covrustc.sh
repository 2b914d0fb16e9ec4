#!/bin/bash
# rustc with edge coverage for the code under test (build.sh cov)
case " $* " in
  *" --crate-name codec "*|*" --crate-name spdmlib "*|*" --crate-name mctp_transport "*|*" --crate-name pcidoe_transport "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard;;
esac
exec "$@"
