"use strict";
// The environment the library runs in: a WebAssembly whose one module is the native helper (the real
// Rust code, reached over two FIFOs), and a fetch that serves scratch files.
const fs = require("fs");
const [req, res] = [process.env.VERIF_REQ, process.env.VERIF_RES];
const out = fs.openSync(req, "w");
const inp = fs.openSync(res, "r");
const readN = n => {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    const k = fs.readSync(inp, b, at, n - at, null);
    if (k === 0) throw new Error("native helper is gone");
    at += k;
  }
  return b;
};
const writeAll = b => {
  let at = 0;
  while (at < b.length) at += fs.writeSync(out, b, at, b.length - at, null);
};
class Trap extends Error {}
globalThis.__native = (op, args) => {
  const h = Buffer.alloc(2 + 4 * args.length);
  h[0] = op.charCodeAt(0);
  h[1] = args.length;
  args.forEach((a, i) => h.writeUInt32LE(a.length, 2 + 4 * i));
  writeAll(h);
  args.forEach(a => writeAll(a));
  const r = readN(5);
  const body = readN(r.readUInt32LE(1));
  if (r[0] === 1) throw new Trap(body.toString());
  return new Uint8Array(body);
};
const state = { sp: 1 << 16, calls: 0, grown: 0, fault: null };
globalThis.__host = state;
let imports = null;
const memory = { buffer: new ArrayBuffer(1 << 17) };
let top = 1 << 16;
const live = new Map();
const malloc = n => {
  const p = top;
  top += (n + 15) & ~15;
  if (top > memory.buffer.byteLength) {
    // growing detaches every view of the old buffer
    memory.buffer = memory.buffer.transfer(Math.max(top + 65536, memory.buffer.byteLength + 65536));
    state.grown++;
  }
  live.set(p, n);
  return p;
};
const free = (p, n) => {
  if (live.get(p) !== n) throw new WebAssembly.RuntimeError("free of what was not allocated");
  live.delete(p);
  // what is freed is soon something else
  new Uint8Array(memory.buffer, p, n).fill(0xdd);
  if (live.size === 0) {
    top = 1 << 16;
    if (memory.buffer.byteLength > 1 << 24) memory.buffer = memory.buffer.transfer(1 << 17);
  }
};
const take = (p, n) => {
  const b = Buffer.from(new Uint8Array(memory.buffer, p, n));
  free(p, n);
  return b;
};
const i32 = () => new Int32Array(memory.buffer);
const jsError = s => {
  const b = Buffer.from(s);
  const p = malloc(b.length);
  new Uint8Array(memory.buffer).set(b, p);
  const i = imports.wbg.__wbindgen_string_new(p, b.length);
  free(p, b.length);
  return i;
};
const call = (op, args) => {
  state.calls++;
  const f = state.fault;
  if (f && f.op === op) {
    if (f.how === "trap") throw new RuntimeErr("unreachable");
    if (f.how === "err") return { err: jsError("helper reports an error") };
    if (f.how === "false") return { v: new Uint8Array([0]) };
    if (f.how === "oom") throw new RangeError("WebAssembly.Memory.grow(): Maximum memory size exceeded");
  }
  try {
    return { v: globalThis.__native(op, args) };
  } catch (e) {
    if (e instanceof Trap) throw new RuntimeErr("unreachable");
    throw e;
  }
};
const RuntimeErr = WebAssembly.RuntimeError;
const bytesOut = (ret, r) => {
  const a = ret / 4;
  if (r.err !== undefined) {
    const m = i32();
    m[a + 2] = r.err;
    m[a + 3] = 1;
    return;
  }
  const p = malloc(r.v.length);
  new Uint8Array(memory.buffer).set(r.v, p);
  const m = i32();
  m[a] = p;
  m[a + 1] = r.v.length;
  m[a + 2] = 0;
  m[a + 3] = 0;
};
const exportsObj = {
  memory,
  init_panic_hook() {},
  __wbindgen_malloc: malloc,
  __wbindgen_free: free,
  __wbindgen_realloc(p, n, m) {
    const b = take(p, n);
    const q = malloc(m);
    new Uint8Array(memory.buffer).set(b.subarray(0, Math.min(n, m)), q);
    return q;
  },
  __wbindgen_add_to_stack_pointer(d) {
    return (state.sp += d);
  },
  __wbindgen_exn_store() {},
  prove(ret, a, al, b, bl, c, cl) {
    const r = call("P", [take(a, al), take(b, bl), take(c, cl)]);
    bytesOut(ret, r);
  },
  poseidon(ret, a, al) {
    const r = call("H", [take(a, al)]);
    bytesOut(ret, r);
  },
  verify(ret, a, al, b, bl, c, cl) {
    const r = call("V", [take(a, al), take(b, bl), take(c, cl)]);
    const at = ret / 4;
    const m = i32();
    if (r.err !== undefined) {
      m[at] = 0;
      m[at + 1] = r.err;
      m[at + 2] = 1;
    } else {
      m[at] = r.v[0];
      m[at + 1] = 0;
      m[at + 2] = 0;
    }
  }
};
class Module {
  constructor(bytes) {
    if (bytes.byteLength !== 8) throw new WebAssembly.CompileError("bad module");
  }
}
class Instance {
  constructor(module, i) {
    imports = i;
    this.exports = exportsObj;
  }
}
globalThis.WebAssembly = {
  Module,
  Instance,
  RuntimeError: RuntimeErr,
  CompileError: WebAssembly.CompileError,
  LinkError: WebAssembly.LinkError,
  Memory: WebAssembly.Memory,
  compile: async b => new Module(b),
  instantiate: async (m, i) => {
    await null;
    if (m instanceof Module) return new Instance(m, i);
    const module = new Module(m);
    return { module, instance: new Instance(module, i) };
  }
};
globalThis.fetch = async url => {
  await null;
  const u = String(url).replace(/^\/files\.test\//, "https://files.test/");
  if (!u.startsWith("https://files.test/")) throw new TypeError("fetch failed");
  const path = new URL(u).searchParams.get("file") || u.slice("https://files.test".length);
  let b;
  try {
    b = fs.readFileSync(path);
  } catch (e) {
    b = null;
  }
  const ok = b !== null;
  const body = ok ? b : Buffer.from("<html>404</html>");
  const ab = body.buffer.slice(body.byteOffset, body.byteOffset + body.length);
  return {
    ok,
    status: ok ? 200 : 404,
    statusText: ok ? "OK" : "Not Found",
    arrayBuffer: async () => ab.slice(0),
    text: async () => body.toString(),
    headers: { get: () => null }
  };
};
