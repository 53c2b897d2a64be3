#!/bin/bash
# Builds the library of the current directory without the standard library, and a client of it.
D=$(mktemp -d /tmp/lokky-demo.XXXXXX) || exit 3
trap 'rm -r "$D"' EXIT
rustc --edition 2021 -Awarnings --crate-type rlib --crate-name lokky -o "$D/liblokky.rlib" src/lib.rs || exit 4
if ! rustc --edition 2021 -Awarnings --crate-type rlib --crate-name lokky --cfg 'feature="no_std"' -o "$D/libn.rlib" src/lib.rs; then
    echo "no_std does not build"
    exit 1
fi
cat > "$D/c.rs" <<'X'
#![no_std]
extern crate lokky;
pub fn write<W: core::fmt::Write>() {}
pub fn text() {
    write::<lokky::string::String>();
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}
X
# With std linked there would be a second panic handler.
if ! rustc --edition 2021 -Awarnings --crate-type staticlib -C panic=abort --crate-name c --extern "lokky=$D/libn.rlib" -o "$D/c.a" "$D/c.rs" 2> "$D/err"; then
    cat "$D/err"
    exit 1
fi
