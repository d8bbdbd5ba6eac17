"use strict";
// Stand-in for the part of @ethereumjs/util 8 the library uses.
const isHexString = s => typeof s === "string" && /^0x[0-9A-Fa-f]*$/.test(s);
const toBuffer = v => {
  if (v === null || v === undefined) return Buffer.allocUnsafe(0);
  if (Buffer.isBuffer(v)) return Buffer.from(v);
  if (Array.isArray(v) || v instanceof Uint8Array) return Buffer.from(v);
  if (typeof v === "string") {
    if (!isHexString(v)) throw new Error(`Cannot convert string to buffer. toBuffer only supports 0x-prefixed hex strings and this string was given: ${v}`);
    const h = v.slice(2);
    return Buffer.from(h.length % 2 ? "0" + h : h, "hex");
  }
  if (typeof v === "bigint" || typeof v === "number") {
    if (v < 0) throw new Error("Cannot convert negative bigint to buffer");
    const h = v.toString(16);
    return Buffer.from(h.length % 2 ? "0" + h : h, "hex");
  }
  throw new Error("invalid type");
};
const bufferToHex = b => "0x" + toBuffer(b).toString("hex");
const bufferToBigInt = b => {
  const h = bufferToHex(b);
  return h === "0x" ? BigInt(0) : BigInt(h);
};
const setLengthLeft = (b, n) => (b.length < n ? Buffer.concat([Buffer.alloc(n - b.length), b]) : b.slice(-n));
const fromRpcSig = sig => {
  const buf = toBuffer(sig);
  let r, s, v;
  if (buf.length >= 65) {
    r = buf.slice(0, 32);
    s = buf.slice(32, 64);
    v = bufferToBigInt(buf.slice(64));
  } else if (buf.length === 64) {
    r = buf.slice(0, 32);
    s = buf.slice(32, 64);
    v = BigInt(buf[32] >> 7);
    s[0] &= 0x7f;
  } else throw new Error("Invalid signature length");
  if (v < 27) v = v + BigInt(27);
  return { v, r, s };
};
module.exports = {
  isHexString,
  toBuffer,
  bufferToHex,
  bufferToBigInt,
  bigIntToBuffer: toBuffer,
  setLengthLeft,
  zeros: n => Buffer.alloc(n),
  addHexPrefix: s => (s.startsWith("0x") ? s : "0x" + s),
  stripHexPrefix: s => (s.startsWith("0x") ? s.slice(2) : s),
  fromRpcSig
};
