#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=/repo
O="--edition 2018 --cap-lints allow -C debug-assertions=on --crate-type rlib --out-dir $T -L $T"
rustc $O --crate-name httlib_huffman $R/huffman/src/lib.rs || exit 3
rustc $O --crate-name httlib_hpack --extern httlib_huffman=$T/libhttlib_huffman.rlib $R/hpack/src/lib.rs || exit 3
rustc $O --crate-name httlib_protos $R/protos/src/lib.rs || exit 3
rustc --edition 2018 --cap-lints allow -C debug-assertions=on -o $T/demo -L $T --extern httlib_huffman=$T/libhttlib_huffman.rlib --extern httlib_hpack=$T/libhttlib_hpack.rlib --extern httlib_protos=$T/libhttlib_protos.rlib "$D/demo.rs" || exit 3
timeout 60 $T/demo
