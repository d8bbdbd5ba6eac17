"use strict";
// Stand-in for the generated module that holds the compiled wasm.
exports.wasmBytes = new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0]);
