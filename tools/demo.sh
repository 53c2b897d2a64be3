#!/bin/bash
# Builds the library of the current directory and the demonstration beside this script.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/lokky-demo.XXXXXX) || exit 3
trap 'rm -r "$D"' EXIT
rustc --edition 2021 -O -Awarnings --crate-type rlib --crate-name lokky -o "$D/liblokky.rlib" src/lib.rs || exit 4
rustc --edition 2021 -O -Awarnings --crate-name demo --extern "lokky=$D/liblokky.rlib" -o "$D/demo" "$H/demo.rs" || exit 5
cd "$D" && timeout 60 ./demo
