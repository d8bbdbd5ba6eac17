// The module built for wasm32, asked over a pipe: a request is the operation and a length (u32 each) and the bytes, a
// reply is one byte (0 refused, 1 answered, 2 trapped), a length and the bytes.
'use strict';
const fs = require('fs');
const crypto = require('crypto');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let inst, last, panic;
const mem = () => new Uint8Array(inst.exports.memory.buffer);
const cut = (p, n) => Buffer.from(mem().slice(p >>> 0, (p >>> 0) + (n >>> 0)));
const fresh = () => {
  inst = new WebAssembly.Instance(mod, {
    host: {
      random: (p, n) => crypto.randomFillSync(mem().subarray(p >>> 0, (p >>> 0) + (n >>> 0))),
      said: (p, n) => { panic = cut(p, n); },
      answer: (p, n) => { last = cut(p, n); },
    },
  });
};
const read = (n) => {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    let k;
    try { k = fs.readSync(0, b, at, n - at, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
};
const write = (b) => { let at = 0; while (at < b.length) { try { at += fs.writeSync(1, b, at); } catch (e) { if (e.code === 'EPIPE') process.exit(0); if (e.code !== 'EAGAIN') throw e; } } };
fresh();
for (;;) {
  const h = read(8);
  const b = read(h.readUInt32LE(4));
  let status, out;
  last = null; panic = Buffer.from('');
  try {
    const p = inst.exports.room(b.length) >>> 0;
    mem().set(b, p);
    inst.exports.ask(h.readUInt32LE(0), p, b.length);
    status = last[0]; out = last.subarray(1);
  } catch (e) {
    status = 2; out = Buffer.concat([Buffer.from(String(e && e.message) + ': '), panic]);
  }
  const pages = inst.exports.memory.buffer.byteLength;
  if (status === 2 || pages > 1 << 30) fresh();
  const r = Buffer.alloc(5);
  r[0] = status; r.writeUInt32LE(out.length, 1);
  write(Buffer.concat([r, out]));
}
