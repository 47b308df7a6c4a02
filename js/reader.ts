// Reads lines: each an array of snapshots from simulated runs, with what they must show. Answers
// each line with the number of snapshots read and the first difference, if any. The decoders are
// the repository's own (js/src), bundled from its working tree.
import { Slab, LeafNode } from "REPO/slab";
import { EventQueue, EventFill, EventOut, Side } from "REPO/event_queue";
import { AccountTag, MarketState, SelfTradeBehavior } from "REPO/market_state";
import { getPriceFromKey } from "REPO/utils";
import { createMarket } from "REPO/bindings";
import { PublicKey, Connection, Keypair } from "@solana/web3.js";
import BN from "bn.js";
import * as readline from "node:readline";

type Ord = [string, string, string];
const hex = (x: any) => Buffer.from(x).toString("hex");

class Diff extends Error {}
function same(what: string, got: any, want: any) {
  const g = JSON.stringify(got);
  const w = JSON.stringify(want);
  if (g !== w) {
    throw new Diff(`${what}: reads ${short(g)}, should be ${short(w)}`);
  }
}
const short = (s: string | undefined) =>
  s === undefined ? "nothing" : s.length > 160 ? s.slice(0, 160) + "..." : s;

const ref = (r: any): Ord => [
  r.leafNode.key.toString(),
  r.leafNode.baseQuantity.toString(),
  hex(r.callbackInfo),
];

function slabs(name: string, slab: Slab, want: Ord[]) {
  const down = [...want].reverse();
  same(`${name}, ascending`, [...slab.items(false)].map(ref), want);
  same(`${name}, descending`, [...slab.items(true)].map(ref), down);
  same(`${name}, iterated`, [...(slab as any)].map(ref), want);
  same(`${name}, order count`, slab.header.leafCount, want.length);
  const ks = new Set([1, 2, Math.ceil(want.length / 2), want.length, want.length + 3]);
  for (const k of ks) {
    if (k < 1) continue;
    same(`${name}, lowest ${k}`, slab.getMinMaxNodes(k, false).map(ref), want.slice(0, k));
    same(`${name}, highest ${k}`, slab.getMinMaxNodes(k, true).map(ref), down.slice(0, k));
  }
  for (const inc of [true, false]) {
    const levels: [bigint, bigint][] = [];
    for (const o of inc ? want : down) {
      const p = BigInt(o[0]) >> 64n;
      const l = levels[levels.length - 1];
      if (l && l[0] === p) l[1] += BigInt(o[1]);
      else levels.push([p, BigInt(o[1])]);
    }
    for (const d of new Set([1, 2, 3, levels.length, levels.length + 2])) {
      if (d < 1) continue;
      same(
        `${name}, depth ${d} ${inc ? "rising" : "falling"}`,
        slab.getL2DepthJS(d, inc).map((x: any) => [x.price.toString(), x.size.toString()]),
        levels.slice(0, d).map((l) => [l[0].toString(), l[1].toString()])
      );
    }
  }
  const ids = new Set(want.map((o) => o[0]));
  const step = Math.max(1, Math.floor(want.length / 10));
  const probes = new Set<string>();
  for (let i = 0; i < want.length; i += step) {
    const id = BigInt(want[i][0]);
    for (const x of [id, id + 1n, id - 1n, id ^ (1n << 63n), id ^ (1n << 127n), id ^ (1n << 64n)]) {
      probes.add(x.toString());
    }
  }
  probes.add("0");
  probes.add(((1n << 128n) - 1n).toString());
  for (const x of probes) {
    const n = slab.getNodeByKey(new BN(x));
    if (ids.has(x)) {
      const o = want.find((w) => w[0] === x) as Ord;
      same(`${name}, order ${x}`, n && [n.key.toString(), n.baseQuantity.toString()], [o[0], o[1]]);
      const p = (BigInt(x) >> 64n).toString();
      same(`${name}, price of ${x}`, (n as LeafNode).getPrice().toString(), p);
      same(`${name}, price from ${x}`, getPriceFromKey(new BN(x)).toString(), p);
    } else if (n !== undefined && n !== null) {
      same(`${name}, order ${x}`, n.key.toString(), null);
    }
  }
}

// Header words, by their place in the account.
function headers(s: any) {
  const at = (x: string) => Buffer.from(x, "hex");
  // enumerations name what the program writes
  const named = (what: string, e: any, want: any) =>
    same(what, Object.keys(want).map((k) => [k, e[k]]), Object.entries(want));
  named("sides", Side, s.names.side);
  named("self trade behaviours", SelfTradeBehavior, s.names.stb);
  named("account tags", AccountTag, s.names.tag);
  const tag = (t: any) => AccountTag[Number(t)];
  same("market, tag", tag(MarketState.deserialize(at(s.market), s.cb).tag), "Market");
  for (const [name, x, t, n] of [
    ["bids", s.bids, "Bids", s.caps[0]],
    ["asks", s.asks, "Asks", s.caps[1]],
  ]) {
    const slab = Slab.deserialize(at(x), s.cb);
    const h = slab.header;
    same(`${name}, tag`, tag(h.accountTag), t);
    same(`${name}, order capacity`, slab.orderCapacity, n);
    same(
      `${name}, header`,
      [
        h.leafFreeListLen, h.leafFreeListHead, h.leafBumpIndex,
        h.innerNodeFreeListLen, h.innerNodeFreeListHead, h.innerNodeBumpIndex,
        h.rootNode, h.leafCount,
      ],
      [0, 1, 2, 3, 4, 5, 6, 7].map((i) => at(x).readUInt32LE(8 + 4 * i))
    );
  }
  for (const h of [
    EventQueue.parse(s.cb, at(s.queue)).header,
    EventQueue.parseEventQueueHeader(at(s.queue).subarray(0, 32)),
  ]) {
    same("queue, tag", h.tag === AccountTag.EventQueue, true);
    same("queue, head", h.head.toString(), at(s.queue).readBigUInt64LE(8).toString());
  }
}

function event(e: any) {
  if (e instanceof EventFill) {
    return [
      0,
      e.takerSide,
      e.quoteSize.toString(),
      e.makerOrderId.toString(),
      e.baseSize.toString(),
      hex(e.makerCallbackInfo),
      hex(e.takerCallbackInfo),
    ];
  }
  if (e instanceof EventOut) {
    return [1, e.side, e.orderId.toString(), e.baseSize.toString(), hex(e.callbackInfo)];
  }
  return ["unknown"];
}

function queue(name: string, q: EventQueue, want: any[], seq: string) {
  same(`${name}, length`, q.header.count.toString(), String(want.length));
  same(`${name}, sequence number`, q.header.seqNum.toString(), seq);
  same(`${name}, events`, want.map((_, i) => event(q.peekAt(i))), want);
  same(`${name}, fills`, q.parseFill().map(event), want.filter((e) => e[0] === 0));
  for (const k of [1, Math.ceil(want.length / 2), want.length + 2]) {
    if (k < 1) continue;
    same(
      `${name}, fills among the first ${k}`,
      q.parseFill(k).map(event),
      want.slice(0, k).filter((e) => e[0] === 0)
    );
  }
}

async function snapshot(s: any) {
  const b = (x: string) => Buffer.from(x, "hex");
  const key = (x: string) => new PublicKey(x);
  const self = "11111111111111111111111111111112";
  const conn = new (Connection as any)(
    new Map([
      [self, b(s.market)],
      [s.keys[0], b(s.queue)],
      [s.keys[1], b(s.bids)],
      [s.keys[2], b(s.asks)],
    ])
  );
  for (const m of [
    MarketState.deserialize(b(s.market), s.cb),
    await MarketState.retrieve(conn, key(self), s.cb),
  ]) {
    same("market, queue key", m.eventQueue.toBase58(), s.keys[0]);
    same("market, bids key", m.bids.toBase58(), s.keys[1]);
    same("market, asks key", m.asks.toBase58(), s.keys[2]);
    same("market, minimum order size", m.minBaseOrderSize.toString(), s.min);
    same("market, tick size", m.tickSize.toString(), s.tick);
    same("market, callback length", m.callbackInfoLen, s.cb);
  }
  headers(s);
  const m = MarketState.deserialize(b(s.market), s.cb);
  slabs("bids", Slab.deserialize(b(s.bids), s.cb), s.want.bids);
  slabs("asks", Slab.deserialize(b(s.asks), s.cb), s.want.asks);
  same("bids, loaded", [...(await m.loadBidsSlab(conn))].map(ref), s.want.bids);
  same("asks, loaded", [...(await m.loadAsksSlab(conn))].map(ref), s.want.asks);
  queue("queue", EventQueue.parse(s.cb, b(s.queue)), s.want.events, s.want.seq);
  const q = await EventQueue.load(conn, m.eventQueue, s.cb);
  same("queue, loaded", s.want.events.map((_: any, i: number) => event(q.peekAt(i))), s.want.events);
  const h = EventQueue.parseEventQueueHeader(b(s.queue).subarray(0, 32));
  same("queue, header", [h.count.toString(), h.seqNum.toString()], [String(s.want.events.length), s.want.seq]);
}

// The transaction a client's market creation consists of.
async function build(r: any) {
  const program = new (Keypair as any)().publicKey;
  const payer = new (Keypair as any)().publicKey;
  const [signers, ixs] = await createMarket(
    new (Connection as any)(new Map()),
    new (Keypair as any)().publicKey,
    r.cb,
    new BN(r.cb),
    r.events,
    r.orders,
    new BN(r.min),
    payer,
    new BN(r.tick),
    program
  );
  const made: any[] = [];
  const calls: any[] = [];
  for (const i of ixs as any[]) {
    if (i.created) {
      const c = i.created;
      made.push({
        key: c.newAccountPubkey.toBase58(),
        space: c.space,
        lamports: c.lamports,
        owned: c.programId.equals(program),
        paid: c.fromPubkey.equals(payer),
        signed: (signers as any[]).some((s) => s.publicKey.equals(c.newAccountPubkey)),
      });
    } else {
      calls.push({
        ours: i.programId.equals(program),
        data: hex(i.data),
        keys: i.keys.map((k: any) => [k.pubkey.toBase58(), k.isSigner, k.isWritable]),
      });
    }
  }
  return { made, calls };
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
for await (const line of rl) {
  let n = 0;
  let bad: any = null;
  let built: any = null;
  for (const s of JSON.parse(line)) {
    try {
      if (s.build) built = await build(s.build);
      else await snapshot(s);
    } catch (e: any) {
      bad = { at: n, msg: e instanceof Diff ? e.message : `crashed: ${e}` };
      break;
    }
    n++;
  }
  process.stdout.write(JSON.stringify({ read: n, bad, built }) + "\n");
}
