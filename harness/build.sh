#!/bin/bash
# build.sh <hashed|raw|cov|hashed-nomut|raw-nomut>
cd "$(dirname "$0")" || exit 2
. ./env.sh
case "$1" in
  hashed) f="hashed,mutauth";;
  raw) f="mutauth";;
  hashed-nomut) f="hashed";;
  raw-nomut) f="";;
  cov) f="hashed,mutauth,cov"; export RUSTC_WRAPPER="$PWD/covrustc.sh";;
  *) exit 2;;
esac
exec cargo build --offline --locked --no-default-features --features "$f" --target-dir "target/$1"
