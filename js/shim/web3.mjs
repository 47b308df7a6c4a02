// A stand-in for @solana/web3.js (not installed here): keys, and a connection to a snapshot.
import BN from "./bn.mjs";
const A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const un58 = (s) => {
  let v = 0n;
  for (const c of s) v = v * 58n + BigInt(A.indexOf(c));
  return new BN(v).toArray("be", 32);
};
export class PublicKey {
  constructor(x) {
    if (x instanceof PublicKey) this.b = x.b;
    else if (typeof x === "string") this.b = Buffer.from(un58(x));
    else if (x instanceof BN) this.b = x.toBuffer("be", 32);
    else this.b = Buffer.from(x);
    if (this.b.length > 32) throw new Error("Invalid public key input");
  }
  toBuffer() {
    return this.b;
  }
  toBytes() {
    return new Uint8Array(this.b);
  }
  equals(o) {
    return this.b.equals(o.b);
  }
  toBase58() {
    let v = BigInt("0x" + (this.b.toString("hex") || "0"));
    let s = "";
    while (v > 0n) {
      s = A[Number(v % 58n)] + s;
      v /= 58n;
    }
    for (const x of this.b) {
      if (x !== 0) break;
      s = "1" + s;
    }
    return s;
  }
  toString() {
    return this.toBase58();
  }
}
/** Answers from a map of base58 key to account bytes. */
export class Connection {
  constructor(accounts) {
    this.accounts = accounts;
  }
  /** What the ledger asks of an account of that size. */
  async getMinimumBalanceForRentExemption(n) {
    return (128 + n) * 6960;
  }
  async getAccountInfo(k) {
    const d = this.accounts.get(k.toBase58());
    return d ? { data: Buffer.from(d), lamports: 1, executable: false, owner: k } : null;
  }
}
let keys = 0;
/** Public keys only, one after another. */
export class Keypair {
  constructor() {
    const b = Buffer.alloc(32, 0xa5);
    b.writeUInt32LE(++keys, 3);
    this.publicKey = new PublicKey(b);
  }
  static generate() {
    return new Keypair();
  }
}
export class Transaction {}
export class TransactionInstruction {
  constructor(o) {
    Object.assign(this, o);
  }
}
export class SystemProgram {
  static programId = new PublicKey(Buffer.alloc(32));
  static createAccount(p) {
    return new TransactionInstruction({ keys: [], programId: SystemProgram.programId, data: Buffer.alloc(0), created: p });
  }
}
