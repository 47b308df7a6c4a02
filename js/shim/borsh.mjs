// A stand-in for the npm package borsh 0.6 (not installed here): schemas as Maps of classes.
import BN from "./bn.mjs";
export class BorshError extends Error {}
const cap = (s) => s.charAt(0).toUpperCase() + s.slice(1);

export class BinaryReader {
  constructor(buf) {
    this.buf = Buffer.from(buf.buffer ? buf : Uint8Array.from(buf));
    this.offset = 0;
  }
  readBuffer(len) {
    if (this.offset + len > this.buf.length) {
      throw new BorshError(`Expected buffer length ${len} isn't within bounds`);
    }
    const r = this.buf.subarray(this.offset, this.offset + len);
    this.offset += len;
    return r;
  }
  readU8() {
    return this.readBuffer(1)[0];
  }
  readU16() {
    return this.readBuffer(2).readUInt16LE(0);
  }
  readU32() {
    return this.readBuffer(4).readUInt32LE(0);
  }
  readU64() {
    return new BN([...this.readBuffer(8)], "le");
  }
  readU128() {
    return new BN([...this.readBuffer(16)], "le");
  }
  readU256() {
    return new BN([...this.readBuffer(32)], "le");
  }
  readU512() {
    return new BN([...this.readBuffer(64)], "le");
  }
  readString() {
    return this.readBuffer(this.readU32()).toString("utf8");
  }
  readFixedArray(len) {
    return new Uint8Array(this.readBuffer(len));
  }
  readArray(fn) {
    const n = this.readU32();
    const o = [];
    for (let i = 0; i < n; i++) o.push(fn());
    return o;
  }
}

function field(schema, type, r) {
  if (typeof type === "string") {
    const f = r["read" + cap(type)];
    if (!f) throw new BorshError("unknown type " + type);
    return f.call(r);
  }
  if (Array.isArray(type)) {
    if (typeof type[0] === "number") return r.readFixedArray(type[0]);
    if (typeof type[1] === "number") {
      const o = [];
      for (let i = 0; i < type[1]; i++) o.push(field(schema, type[0], r));
      return o;
    }
    return r.readArray(() => field(schema, type[0], r));
  }
  if (type.kind === "option") {
    return r.readU8() ? field(schema, type.type, r) : undefined;
  }
  return struct(schema, type, r);
}
function struct(schema, cls, r) {
  if (typeof cls.borshDeserialize === "function") return cls.borshDeserialize(r);
  const s = schema.get(cls);
  if (!s) throw new BorshError(`Class ${cls.name} is missing in schema`);
  if (s.kind === "struct") {
    const o = {};
    for (const [name, type] of s.fields) o[name] = field(schema, type, r);
    return new cls(o);
  }
  if (s.kind === "enum") {
    const idx = r.readU8();
    if (idx >= s.values.length) throw new BorshError(`Enum index: ${idx} is out of range`);
    const [name, type] = s.values[idx];
    return new cls({ [name]: field(schema, type, r) });
  }
  throw new BorshError("Unexpected schema kind");
}
export function deserialize(schema, cls, buf) {
  const r = new BinaryReader(buf);
  const o = struct(schema, cls, r);
  if (r.offset < buf.length) {
    throw new BorshError(`Unexpected ${buf.length - r.offset} bytes after deserialized data`);
  }
  return o;
}
export function deserializeUnchecked(schema, cls, buf) {
  return struct(schema, cls, new BinaryReader(buf));
}

export class BinaryWriter {
  constructor() {
    this.parts = [];
  }
  int(x, n) {
    const v = new BN(x);
    if (v.isNeg()) throw new BorshError("negative integer");
    this.parts.push(Buffer.from(v.toArray("le", n)));
  }
  writeU8(x) {
    this.int(x, 1);
  }
  writeU16(x) {
    this.int(x, 2);
  }
  writeU32(x) {
    this.int(x, 4);
  }
  writeU64(x) {
    this.int(x, 8);
  }
  writeU128(x) {
    this.int(x, 16);
  }
  writeU256(x) {
    this.int(x, 32);
  }
  writeU512(x) {
    this.int(x, 64);
  }
  writeString(x) {
    const b = Buffer.from(x, "utf8");
    this.writeU32(b.length);
    this.parts.push(b);
  }
  writeFixedArray(x) {
    this.parts.push(Buffer.from(x));
  }
}
function put(schema, type, x, w) {
  if (typeof type === "string") {
    const f = w["write" + cap(type)];
    if (!f) throw new BorshError("unknown type " + type);
    f.call(w, x);
  } else if (Array.isArray(type)) {
    if (typeof type[0] === "number") {
      if (x.length !== type[0]) throw new BorshError(`Expecting byte array of length ${type[0]}`);
      w.writeFixedArray(x);
    } else if (typeof type[1] === "number") {
      if (x.length !== type[1]) throw new BorshError(`Expecting ${type[1]} elements`);
      for (const y of x) put(schema, type[0], y, w);
    } else {
      w.writeU32(x.length);
      for (const y of x) put(schema, type[0], y, w);
    }
  } else if (type.kind === "option") {
    if (x === null || x === undefined) w.writeU8(0);
    else {
      w.writeU8(1);
      put(schema, type.type, x, w);
    }
  } else putStruct(schema, x, w);
}
function putStruct(schema, o, w) {
  if (typeof o.borshSerialize === "function") return o.borshSerialize(w);
  const s = schema.get(o.constructor);
  if (!s) throw new BorshError(`Class ${o.constructor.name} is missing in schema`);
  if (s.kind === "struct") {
    for (const [name, type] of s.fields) put(schema, type, o[name], w);
  } else if (s.kind === "enum") {
    const i = s.values.findIndex(([n]) => n === o[s.field]);
    if (i < 0) throw new BorshError("unknown variant");
    w.writeU8(i);
    put(schema, s.values[i][1], o[o[s.field]], w);
  } else throw new BorshError("Unexpected schema kind");
}
export function serialize(schema, o) {
  const w = new BinaryWriter();
  putStruct(schema, o, w);
  return new Uint8Array(Buffer.concat(w.parts));
}
