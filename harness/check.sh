#!/bin/bash
# check.sh <property> <quick|thorough> [variants...]   (default variant: hashed)
# Builds the harness against /repo's working tree and runs one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$(dirname "$here")"
cd "$here" || exit 2
. ./env.sh
id="$1"; tier="$2"; shift 2
variants=("$@"); [ ${#variants[@]} -eq 0 ] && variants=(hashed)
# the deep exploration adds coverage-guided generation
[ "$tier" = thorough ] && [ "$id" != C33 ] && variants+=(cov)
seed="${VERIF_SEED:-1}"
mkdir -p out "$VERIF_ROOT/evidence" "$VERIF_ROOT/replays"
rc=0; viol=""
if [ "$id" = C33 ]; then
  # compares the build it runs in with the other one
  ./build.sh raw > out/build.raw.log 2>&1 || { echo "build of the raw harness failed:"; tail -30 out/build.raw.log; exit 2; }
fi
export PBT_OTHER="$here/target/raw/debug/spdm-pbt"
rm -f "out/$id".*.part
for v in "${variants[@]}"; do
  ./build.sh "$v" > "out/build.$v.log" 2>&1 || { echo "build of the $v harness failed:"; tail -30 "out/build.$v.log"; exit 2; }
  "target/$v/debug/spdm-pbt" run "$id" "$tier" --seed "$seed"
  r=$?
  if [ $r -eq 1 ]; then viol="--violation"; rc=1; elif [ $r -ne 0 ]; then echo "harness error $r"; [ $rc -eq 0 ] && rc=2; fi
done
"target/${variants[0]}/debug/spdm-pbt" merge "$id" "$tier" --seed "$seed" "${variants[@]/#/v=}" $viol
exit $rc
