// A stand-in for the npm package bn.js (not installed here) over BigInt: the part of its
// interface a decoder of unsigned little-endian integers can reasonably use, with its semantics
// (in-place variants change the object, toNumber refuses what does not fit 53 bits).
const abs = (v) => (v < 0n ? -v : v);
export default class BN {
  constructor(x = 0, base, endian) {
    if (base === "le" || base === "be") {
      endian = base;
      base = 10;
    }
    if (x instanceof BN) this.v = x.v;
    else if (typeof x === "bigint") this.v = x;
    else if (typeof x === "number") {
      if (!(Math.abs(x) < 2 ** 53)) throw new Error("Assertion failed");
      this.v = BigInt(Math.trunc(x));
    } else if (typeof x === "string") {
      const neg = x.startsWith("-");
      const s = neg ? x.slice(1) : x;
      const b = base === "hex" || base === 16 ? "0x" : base === 2 ? "0b" : "";
      this.v = BigInt(b + s);
      if (neg) this.v = -this.v;
    } else {
      let v = 0n;
      const a = [...x];
      if (endian === "le") a.reverse();
      for (const y of a) v = (v << 8n) | BigInt(y);
      this.v = v;
    }
  }
  static isBN(x) {
    return x instanceof BN;
  }
  static max(a, b) {
    return a.cmp(b) > 0 ? a : b;
  }
  static min(a, b) {
    return a.cmp(b) < 0 ? a : b;
  }
  get negative() {
    return this.v < 0n ? 1 : 0;
  }
  clone() {
    return new BN(this.v);
  }
  toString(base = 10, pad = 0) {
    if (base === "hex") base = 16;
    let s = this.v.toString(base);
    if (pad) while (s.length % pad !== 0) s = "0" + s;
    return s;
  }
  toJSON() {
    return this.v.toString(16);
  }
  toNumber() {
    if (this.bitLength() > 53) throw new Error("Number can only safely store up to 53 bits");
    return Number(this.v);
  }
  valueOf() {
    return this.toNumber();
  }
  bitLength() {
    const a = abs(this.v);
    return a === 0n ? 0 : a.toString(2).length;
  }
  byteLength() {
    return Math.ceil(this.bitLength() / 8);
  }
  zeroBits() {
    if (this.v === 0n) return 0;
    let n = 0;
    let a = abs(this.v);
    while ((a & 1n) === 0n) {
      a >>= 1n;
      n++;
    }
    return n;
  }
  toArray(endian = "be", length) {
    const n = length ?? Math.max(1, this.byteLength());
    if (this.byteLength() > n) throw new Error("byte array longer than desired length");
    const o = [];
    let a = abs(this.v);
    for (let i = 0; i < n; i++) {
      o.push(Number(a & 255n));
      a >>= 8n;
    }
    return endian === "le" ? o : o.reverse();
  }
  toArrayLike(T, endian, length) {
    const a = this.toArray(endian, length);
    return T === Array ? a : T.from(a);
  }
  toBuffer(endian, length) {
    return Buffer.from(this.toArray(endian, length));
  }
  isZero() {
    return this.v === 0n;
  }
  isNeg() {
    return this.v < 0n;
  }
  isOdd() {
    return (this.v & 1n) === 1n;
  }
  isEven() {
    return !this.isOdd();
  }
  cmp(o) {
    return this.v < o.v ? -1 : this.v > o.v ? 1 : 0;
  }
  ucmp(o) {
    const a = abs(this.v);
    const b = abs(o.v);
    return a < b ? -1 : a > b ? 1 : 0;
  }
  cmpn(n) {
    return this.cmp(new BN(n));
  }
  testn(n) {
    return ((abs(this.v) >> BigInt(n)) & 1n) === 1n;
  }
  bincn(n) {
    this.v += 1n << BigInt(n);
    return this;
  }
  setn(n, on) {
    const m = 1n << BigInt(n);
    this.v = on ? this.v | m : this.v & ~m;
    return this;
  }
}
const P = BN.prototype;
const cmps = { eq: (c) => c === 0, lt: (c) => c < 0, lte: (c) => c <= 0, gt: (c) => c > 0, gte: (c) => c >= 0 };
for (const [k, f] of Object.entries(cmps)) {
  P[k] = function (o) {
    return f(this.cmp(o));
  };
  P[k + "n"] = function (n) {
    return f(this.cmpn(n));
  };
}
const powm = (a, b) => a ** b;
const div = (a, b) => {
  if (b === 0n) throw new Error("Assertion failed");
  return a / b;
};
const ops = {
  add: (a, b) => a + b,
  sub: (a, b) => a - b,
  mul: (a, b) => a * b,
  div,
  mod: (a, b) => a % b,
  umod: (a, b) => ((a % b) + b) % b,
  pow: powm,
  and: (a, b) => a & b,
  or: (a, b) => a | b,
  xor: (a, b) => a ^ b,
  uand: (a, b) => abs(a) & abs(b),
  uor: (a, b) => abs(a) | abs(b),
  uxor: (a, b) => abs(a) ^ abs(b),
};
for (const [k, f] of Object.entries(ops)) {
  P[k] = function (o) {
    return new BN(f(this.v, o.v));
  };
  P["i" + k] = function (o) {
    this.v = f(this.v, o.v);
    return this;
  };
  P[k + "n"] = function (n) {
    return new BN(f(this.v, BigInt(n)));
  };
  P["i" + k + "n"] = function (n) {
    this.v = f(this.v, BigInt(n));
    return this;
  };
}
P.modrn = P.modn = function (n) {
  return Number(this.v % BigInt(n));
};
const shifts = {
  shln: (a, n) => a << BigInt(n),
  ushln: (a, n) => a << BigInt(n),
  shrn: (a, n) => a >> BigInt(n),
  ushrn: (a, n) => a >> BigInt(n),
  maskn: (a, n) => a & ((1n << BigInt(n)) - 1n),
  // flips the lowest n bits (and those above them up to its own length)
  notn: (a, n) => {
    const w = BigInt(Math.max(n, a === 0n ? 0 : a.toString(2).length));
    return a ^ ((1n << w) - 1n);
  },
};
for (const [k, f] of Object.entries(shifts)) {
  P[k] = function (n) {
    return new BN(f(this.v, n));
  };
  P["i" + k] = function (n) {
    this.v = f(this.v, n);
    return this;
  };
}
P.neg = function () {
  return new BN(-this.v);
};
P.abs = function () {
  return new BN(abs(this.v));
};
P.sqr = function () {
  return new BN(this.v * this.v);
};
P.divmod = function (o) {
  return { div: this.div(o), mod: this.mod(o) };
};
export { BN };
