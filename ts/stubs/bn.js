"use strict";
// Stand-in for bn.js 5 over BigInt: the part of its interface elliptic-curve code uses.
const assert = (c, m) => {
  if (!c) throw new Error(m || "Assertion failed");
};
const mod = (a, m) => ((a % m) + m) % m;
class BN {
  constructor(number, base, endian) {
    if (BN.isBN(number)) return number;
    this.v = 0n;
    this.red = null;
    if (base === "le" || base === "be") {
      endian = base;
      base = 10;
    }
    if (number === null || number === undefined) return;
    if (typeof number === "number") {
      assert(Math.abs(number) < 0x20000000000000);
      this.v = BigInt(number);
    } else if (typeof number === "object") {
      assert(typeof number.length === "number");
      let a = Array.from(number, x => Number(x) & 0xff);
      if (endian === "le") a.reverse();
      this.v = a.length ? BigInt("0x" + a.map(x => x.toString(16).padStart(2, "0")).join("")) : 0n;
    } else {
      if (base === "hex") base = 16;
      base = base || 10;
      let s = number.toString().replace(/\s+/g, "");
      let neg = false;
      if (s[0] === "-") {
        neg = true;
        s = s.slice(1);
      }
      let r = 0n;
      for (const c of s) {
        const d = parseInt(c, 36);
        assert(d >= 0 && d < base, "Invalid character");
        r = r * BigInt(base) + BigInt(d);
      }
      this.v = neg ? -r : r;
    }
  }
  static isBN(x) {
    return x instanceof BN;
  }
  static max(a, b) {
    return a.cmp(b) > 0 ? a : b;
  }
  static min(a, b) {
    return a.cmp(b) < 0 ? a : b;
  }
  static red(m) {
    return { m: BN.isBN(m) ? m : new BN(m) };
  }
  static big(v) {
    const r = new BN(0);
    r.v = v;
    return r;
  }
  get negative() {
    return this.v < 0n ? 1 : 0;
  }
  clone() {
    const r = BN.big(this.v);
    r.red = this.red;
    return r;
  }
  copy(d) {
    d.v = this.v;
    d.red = this.red;
  }
  set_(v) {
    this.v = v;
    return this;
  }
  toString(base, pad) {
    if (base === "hex") base = 16;
    const a = (this.v < 0n ? -this.v : this.v).toString(base || 10);
    pad = (pad | 0) || 1;
    const n = Math.ceil(a.length / pad) * pad;
    return (this.v < 0n ? "-" : "") + a.padStart(n, "0");
  }
  toJSON() {
    return this.toString(16, 2);
  }
  inspect() {
    return "<BN: " + this.toString(16) + ">";
  }
  toNumber() {
    assert(this.bitLength() <= 53, "Number can only safely store up to 53 bits");
    return Number(this.v);
  }
  toArray(endian, length) {
    let h = (this.v < 0n ? -this.v : this.v).toString(16);
    if (h.length % 2) h = "0" + h;
    let a = this.v === 0n ? [0] : h.match(/../g).map(x => parseInt(x, 16));
    const want = length || Math.max(1, a.length);
    assert(a.length <= want, "byte array longer than desired length");
    while (a.length < want) a.unshift(0);
    return endian === "le" ? a.reverse() : a;
  }
  toArrayLike(T, endian, length) {
    return T.from(this.toArray(endian, length));
  }
  toBuffer(endian, length) {
    return Buffer.from(this.toArray(endian, length));
  }
  bitLength() {
    return this.v === 0n ? 0 : (this.v < 0n ? -this.v : this.v).toString(2).length;
  }
  byteLength() {
    return Math.ceil(this.bitLength() / 8);
  }
  zeroBits() {
    if (this.v === 0n) return 0;
    let n = 0;
    for (let x = this.v; (x & 1n) === 0n; x >>= 1n) n++;
    return n;
  }
  isNeg() {
    return this.v < 0n;
  }
  isZero() {
    return this.v === 0n;
  }
  isOne() {
    return this.v === 1n;
  }
  isEven() {
    return (this.v & 1n) === 0n;
  }
  isOdd() {
    return (this.v & 1n) === 1n;
  }
  testn(b) {
    return ((this.v >> BigInt(b)) & 1n) === 1n;
  }
  neg() {
    return BN.big(-this.v);
  }
  ineg() {
    return this.set_(-this.v);
  }
  abs() {
    return BN.big(this.v < 0n ? -this.v : this.v);
  }
  iabs() {
    return this.set_(this.v < 0n ? -this.v : this.v);
  }
  sqr() {
    return BN.big(this.v * this.v);
  }
  pow(e) {
    return BN.big(this.v ** e.v);
  }
  div(b) {
    assert(!b.isZero());
    return BN.big(this.v / b.v);
  }
  mod(b) {
    assert(!b.isZero());
    return BN.big(this.v % b.v);
  }
  umod(b) {
    assert(!b.isZero());
    return BN.big(mod(this.v, b.v < 0n ? -b.v : b.v));
  }
  modn(n) {
    return Number(mod(this.v, BigInt(n)));
  }
  modrn(n) {
    return this.modn(n);
  }
  divRound(b) {
    const q = this.v / b.v;
    const r = this.v % b.v;
    if (r === 0n) return BN.big(q);
    const ar = r < 0n ? -r : r;
    const ab = b.v < 0n ? -b.v : b.v;
    return BN.big(2n * ar < ab ? q : this.v < 0n !== b.v < 0n ? q - 1n : q + 1n);
  }
  cmp(b) {
    return this.v < b.v ? -1 : this.v > b.v ? 1 : 0;
  }
  ucmp(b) {
    return this.abs().cmp(b.abs());
  }
  eq(b) {
    return this.v === b.v;
  }
  lt(b) {
    return this.v < b.v;
  }
  lte(b) {
    return this.v <= b.v;
  }
  gt(b) {
    return this.v > b.v;
  }
  gte(b) {
    return this.v >= b.v;
  }
  gcd(b) {
    let x = this.abs().v;
    let y = b.abs().v;
    while (y) [x, y] = [y, x % y];
    return BN.big(x);
  }
  egcd(p) {
    assert(!p.isNeg());
    assert(!p.isZero());
    let [r0, r1, s0, s1, t0, t1] = [mod(this.v, p.v), p.v, 1n, 0n, 0n, 1n];
    while (r1) {
      const q = r0 / r1;
      [r0, r1] = [r1, r0 - q * r1];
      [s0, s1] = [s1, s0 - q * s1];
      [t0, t1] = [t1, t0 - q * t1];
    }
    return { a: BN.big(s0), b: BN.big(t0), gcd: BN.big(r0) };
  }
  invm(m) {
    return this.egcd(m).a.umod(m);
  }
  _invmp(m) {
    return this.invm(m);
  }
  toRed(ctx) {
    assert(!this.red, "Already a number in reduction context");
    assert(this.v >= 0n, "red works only with positives");
    const r = this.umod(ctx.m);
    r.red = ctx;
    return r;
  }
  fromRed() {
    assert(this.red, "fromRed works only with numbers in reduction context");
    return BN.big(this.v);
  }
  forceRed(ctx) {
    const r = this.clone();
    r.red = ctx;
    return r;
  }
  red_(v) {
    assert(this.red, "red op works only with red numbers");
    const r = BN.big(mod(v, this.red.m.v));
    r.red = this.red;
    return r;
  }
  redAdd(b) {
    return this.red_(this.v + b.v);
  }
  redSub(b) {
    return this.red_(this.v - b.v);
  }
  redMul(b) {
    return this.red_(this.v * b.v);
  }
  redSqr() {
    return this.red_(this.v * this.v);
  }
  redNeg() {
    return this.red_(-this.v);
  }
  redInvm() {
    return this.red_(BN.big(this.v).invm(this.red.m).v);
  }
  redPow(e) {
    let r = 1n;
    let b = this.v;
    const m = this.red.m.v;
    for (let x = e.v; x; x >>= 1n) {
      if (x & 1n) r = (r * b) % m;
      b = (b * b) % m;
    }
    return this.red_(r);
  }
  redSqrt() {
    assert(this.red.m.v % 4n === 3n);
    return this.redPow(BN.big((this.red.m.v + 1n) / 4n));
  }
}
const bin = {
  add: (a, b) => a + b,
  sub: (a, b) => a - b,
  mul: (a, b) => a * b,
  and: (a, b) => a & b,
  or: (a, b) => a | b,
  xor: (a, b) => a ^ b
};
for (const k of Object.keys(bin)) {
  BN.prototype[k] = function (b) {
    assert(BN.isBN(b));
    return BN.big(bin[k](this.v, b.v));
  };
  BN.prototype["i" + k] = function (b) {
    return this.set_(bin[k](this.v, b.v));
  };
  BN.prototype[k + "n"] = function (b) {
    return BN.big(bin[k](this.v, BigInt(b)));
  };
  BN.prototype["i" + k + "n"] = function (b) {
    return this.set_(bin[k](this.v, BigInt(b)));
  };
}
for (const k of ["shl", "ushl"]) {
  BN.prototype[k + "n"] = function (b) {
    return BN.big(this.v << BigInt(b));
  };
  BN.prototype["i" + k + "n"] = function (b) {
    return this.set_(this.v << BigInt(b));
  };
}
for (const k of ["shr", "ushr"]) {
  BN.prototype[k + "n"] = function (b) {
    return BN.big(this.v >> BigInt(b));
  };
  BN.prototype["i" + k + "n"] = function (b) {
    return this.set_(this.v >> BigInt(b));
  };
}
for (const k of ["cmp", "eq", "lt", "lte", "gt", "gte", "div"])
  BN.prototype[k + "n"] = function (b) {
    return this[k](BN.big(BigInt(b)));
  };
BN.prototype.uand = BN.prototype.and;
BN.prototype.uor = BN.prototype.or;
BN.BN = BN;
BN.default = BN;
module.exports = BN;
