#!/bin/bash
# Runs the demonstration beside this script under Miri, which sees every data race.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d /tmp/lokky-demo.XXXXXX) || exit 3
trap 'rm -r "$D"' EXIT
mkdir "$D/src" && cp "$H/demo.rs" "$D/src/main.rs" && cp "$H/common.rs" "$D/src/common.rs" || exit 4
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nlokky = { path = "%s" }\n' "$R" > "$D/Cargo.toml"
cd "$D" || exit 4
export MIRIFLAGS="-Zmiri-many-seeds=0..24 -Zmiri-preemption-rate=0.2 -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
timeout 250 cargo +nightly miri run --offline > "$D/out" 2>&1
C=$?
grep -m1 "^error" "$D/out"
exit $C
