"use strict";
// Stand-in for elliptic 6's secp256k1: affine arithmetic over BigInt behind its interface.
const BN = require("bn.js");
const P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2fn;
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const mod = a => ((a % P) + P) % P;
const inv = a => BN.big(mod(a)).invm(BN.big(P)).v;
class Point {
  constructor(curve, x, y) {
    this.curve = curve;
    this.type = "affine";
    if (x === null && y === null) {
      this.x = null;
      this.y = null;
      this.inf = true;
    } else {
      this.x = new BN(x, 16);
      this.y = new BN(y, 16);
      if (!this.x.red) this.x = this.x.toRed(curve.red);
      if (!this.y.red) this.y = this.y.toRed(curve.red);
      this.inf = false;
    }
  }
  at(x, y) {
    return new Point(this.curve, BN.big(mod(x)), BN.big(mod(y)));
  }
  isInfinity() {
    return this.inf;
  }
  getX() {
    return this.x.fromRed();
  }
  getY() {
    return this.y.fromRed();
  }
  eq(p) {
    return this === p || (this.inf === p.inf && (this.inf || (this.x.v === p.x.v && this.y.v === p.y.v)));
  }
  neg() {
    return this.inf ? this : this.at(this.x.v, -this.y.v);
  }
  dbl() {
    if (this.inf || this.y.v === 0n) return new Point(this.curve, null, null);
    const l = mod(3n * this.x.v * this.x.v * inv(2n * this.y.v));
    const x = mod(l * l - 2n * this.x.v);
    return this.at(x, l * (this.x.v - x) - this.y.v);
  }
  add(p) {
    if (this.inf) return p;
    if (p.inf) return this;
    if (this.x.v === p.x.v) return this.y.v === p.y.v ? this.dbl() : new Point(this.curve, null, null);
    const l = mod((p.y.v - this.y.v) * inv(p.x.v - this.x.v));
    const x = mod(l * l - this.x.v - p.x.v);
    return this.at(x, l * (this.x.v - x) - this.y.v);
  }
  mul(k) {
    k = new BN(k, 16);
    if (this.inf) return this;
    let e = k.v;
    let b = this;
    if (e < 0n) {
      e = -e;
      b = this.neg();
    }
    return jmul(this.curve, b, e);
  }
  mulAdd(a, p, b) {
    return this.mul(a).add(p.mul(b));
  }
  validate() {
    return this.curve.validate(this);
  }
  encode(enc, compact) {
    const x = this.getX().toArray("be", 32);
    const a = compact ? [this.getY().isEven() ? 2 : 3].concat(x) : [4].concat(x, this.getY().toArray("be", 32));
    return enc === "hex" ? Buffer.from(a).toString("hex") : a;
  }
  encodeCompressed(enc) {
    return this.encode(enc, true);
  }
  toJSON() {
    return [this.x, this.y];
  }
}
// Jacobian, for speed
function jmul(curve, p, e) {
  let [X, Y, Z] = [1n, 1n, 0n];
  const dbl = () => {
    if (Z === 0n || Y === 0n) return ([X, Y, Z] = [1n, 1n, 0n]);
    const yy = (Y * Y) % P;
    const s = (4n * X * yy) % P;
    const m = (3n * X * X) % P;
    const x = mod(m * m - 2n * s);
    const z = (2n * Y * Z) % P;
    Y = mod(m * (s - x) - 8n * yy * yy);
    X = x;
    Z = z;
  };
  const add = () => {
    if (Z === 0n) return ([X, Y, Z] = [p.x.v, p.y.v, 1n]);
    const zz = (Z * Z) % P;
    const u = (p.x.v * zz) % P;
    const s = (((p.y.v * zz) % P) * Z) % P;
    if (u === X) return s === Y ? dbl() : ([X, Y, Z] = [1n, 1n, 0n]);
    const h = mod(u - X);
    const r = mod(s - Y);
    const hh = (h * h) % P;
    const hhh = (hh * h) % P;
    const v = (X * hh) % P;
    const x = mod(r * r - hhh - 2n * v);
    Y = mod(r * (v - x) - Y * hhh);
    X = x;
    Z = (Z * h) % P;
  };
  for (const c of e === 0n ? "" : e.toString(2)) {
    dbl();
    if (c === "1") add();
  }
  if (Z === 0n) return new Point(curve, null, null);
  const zi = inv(Z);
  const z2 = (zi * zi) % P;
  return p.at(X * z2, Y * z2 * zi);
}
class Curve {
  constructor() {
    this.type = "short";
    this.p = BN.big(P);
    this.n = BN.big(N);
    this.red = BN.red(this.p);
    this.a = new BN(0).toRed(this.red);
    this.b = new BN(7).toRed(this.red);
    this.zero = new BN(0).toRed(this.red);
    this.one = new BN(1).toRed(this.red);
    this.g = this.point(
      "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
      "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"
    );
  }
  point(x, y) {
    return new Point(this, x === undefined ? null : x, y === undefined ? null : y);
  }
  pointFromX(x, odd) {
    x = new BN(x, 16);
    if (!x.red) x = x.toRed(this.red);
    const y2 = x.redSqr().redMul(x).redAdd(this.b);
    let y = y2.redSqrt();
    if (!y.redSqr().eq(y2)) throw new Error("invalid point");
    const isOdd = y.fromRed().isOdd();
    if ((odd && !isOdd) || (!odd && isOdd)) y = y.redNeg();
    return this.point(x, y);
  }
  validate(p) {
    return p.inf || mod(p.y.v * p.y.v - p.x.v ** 3n - 7n) === 0n;
  }
  decodePoint(bytes, enc) {
    if (typeof bytes === "string") bytes = enc === "hex" ? Array.from(Buffer.from(bytes.length % 2 ? "0" + bytes : bytes, "hex")) : Array.from(Buffer.from(bytes));
    else bytes = Array.from(bytes);
    if ((bytes[0] === 4 || bytes[0] === 6 || bytes[0] === 7) && bytes.length - 1 === 64) {
      if (bytes[0] === 6 && bytes[64] % 2 !== 0) throw new Error("Assertion failed");
      if (bytes[0] === 7 && bytes[64] % 2 !== 1) throw new Error("Assertion failed");
      return this.point(bytes.slice(1, 33), bytes.slice(33, 65));
    }
    if ((bytes[0] === 2 || bytes[0] === 3) && bytes.length - 1 === 32) return this.pointFromX(bytes.slice(1), bytes[0] === 3);
    throw new Error("Unknown point format");
  }
}
class KeyPair {
  constructor(ec, o) {
    this.ec = ec;
    this.priv = null;
    this.pub = null;
    if (o.priv !== undefined) this.priv = new BN(o.priv, o.privEnc === "hex" || o.privEnc === undefined ? 16 : o.privEnc).umod(ec.curve.n);
    if (o.pub !== undefined) {
      const k = o.pub;
      if (k.x || k.y) this.pub = ec.curve.point(k.x, k.y);
      else this.pub = ec.curve.decodePoint(k, o.pubEnc);
    }
  }
  getPublic(compact, enc) {
    if (typeof compact === "string") {
      enc = compact;
      compact = null;
    }
    if (!this.pub) this.pub = this.ec.g.mul(this.priv);
    return enc ? this.pub.encode(enc, compact) : this.pub;
  }
  getPrivate(enc) {
    return enc === "hex" ? this.priv.toString(16, 2) : this.priv;
  }
  validate() {
    const p = this.getPublic();
    if (p.isInfinity()) return { result: false, reason: "Invalid public key" };
    if (!p.validate()) return { result: false, reason: "Public key is not a point" };
    return { result: true, reason: null };
  }
}
class EC {
  constructor(o) {
    if (!(this instanceof EC)) return new EC(o);
    if (o !== "secp256k1") throw new Error("Unknown curve " + o);
    this.curve = new Curve();
    this.n = this.curve.n;
    this.nh = BN.big(N >> 1n);
    this.g = this.curve.g;
  }
  keyPair(o) {
    return new KeyPair(this, o);
  }
  keyFromPrivate(priv, enc) {
    return priv instanceof KeyPair ? priv : new KeyPair(this, { priv, privEnc: enc });
  }
  keyFromPublic(pub, enc) {
    return pub instanceof KeyPair ? pub : new KeyPair(this, { pub, pubEnc: enc });
  }
  recoverPubKey(msg, sig, j) {
    const r = new BN(sig.r, 16);
    const s = new BN(sig.s, 16);
    const R = this.curve.pointFromX(j >> 1 ? r.add(this.n) : r, j & 1);
    const ri = r.invm(this.n);
    return this.g.mulAdd(this.n.sub(new BN(msg)).mul(ri).umod(this.n), R, s.mul(ri).umod(this.n));
  }
}
exports.ec = EC;
exports.curve = { base: Curve, short: Curve };
exports.version = "6.5.4";
