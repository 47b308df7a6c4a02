//! The simulated ledger with its markets: applies steps through the real code, keeps the
//! recorded history the oracles need.
use crate::decode::{self, Ev, Ord, St, View};
use crate::model::{self, MP};
use crate::ops::*;
use crate::oracle;
use crate::readers;
use crate::rng::Hash64;
use crate::rt::*;
use crate::with_cb;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub msg: String,
}

/// One order's life as recorded from the outside.
#[derive(Clone, Debug)]
pub struct OH {
    pub side: Side,
    pub price: u64,
    pub arrival: u64,
    pub posted: u64,
    pub filled: u64,
    /// What its out event or cancellation gave back, once it left.
    pub ended: Option<u64>,
    pub cb: Cb,
    /// Amounts delivered to consumers so far.
    pub seen_filled: u64,
    pub seen_out: Option<u64>,
    pub cancelled: Option<u64>,
}

impl OH {
    pub fn posted(side: Side, price: u64, arrival: u64, qty: u64, cb: Cb) -> OH {
        OH {
            side,
            price,
            arrival,
            posted: qty,
            filled: 0,
            ended: None,
            cb,
            seen_filled: 0,
            seen_out: None,
            cancelled: None,
        }
    }
}

#[derive(Clone, Default)]
pub struct Hist {
    pub orders: BTreeMap<u128, OH>,
    pub arrivals: u64,
    pub last_at_price: BTreeMap<(u8, u64), u128>,
    pub produced: u64,
    pub consumed: u64,
}

#[derive(Clone, Default, Debug)]
pub struct Bal {
    pub bf: i128,
    pub bl: i128,
    pub qf: i128,
    pub ql: i128,
    pub units: i128,
}
#[derive(Clone, Default)]
pub struct Ledger {
    pub users: BTreeMap<Vec<u8>, Bal>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Live,
    Closed,
}

#[derive(Clone)]
pub struct Mkt {
    pub keys: [Pubkey; 4],
    pub mp: MP,
    pub status: Status,
    pub st: St,
    pub hist: Hist,
    pub ledger: Ledger,
}
impl Mkt {
    pub fn key(&self, r: Role) -> Pubkey {
        match r {
            Role::Target => key(4, 0, 0),
            r => self.keys[r as usize],
        }
    }
}

/// An operation as executed, with what was seen around it.
pub struct Rec {
    pub m: u32,
    pub op: LibOp,
    /// What a closed market's accounts still open as.
    pub open: Vec<&'static str>,
    pub pre: St,
    pub post: St,
    pub res: IxRes,
    /// Events a consumer read through the API right before consuming.
    pub seen: Option<Result<Vec<Ev>, String>>,
    pub lam_pre: [u64; 5],
    pub lam_post: [u64; 5],
    pub create: Option<CreateInfo>,
    /// The market was closed earlier (possibly in this transaction).
    pub closed: bool,
    pub keys: [Pubkey; 4],
    pub mp: MP,
    /// The direct library call on a fork: its result and whether it left the same accounts.
    pub shadow: Option<(IxRes, bool)>,
    /// Memory the instruction asked for.
    pub heap: u64,
}

pub struct CreateInfo {
    pub valid: bool,
    /// Neither acceptance nor refusal is promised, only that an accepted market works.
    pub open: bool,
    /// The headers behind the tags after the instruction: queue, bids, asks.
    pub raw_heads: [Vec<u8>; 3],
    pub why: String,
    pub raw_market: Vec<u8>,
    pub mp: MP,
    pub spec: MarketSpec,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1);
    }
}

pub struct World {
    pub cfg: Cfg,
    pub bank: Bank,
    pub markets: BTreeMap<u32, Mkt>,
    pub posted: BTreeMap<(u32, u32), u128>,
    pub now: u64,
    pub viols: Vec<Viol>,
    /// Oracle evaluations with substance, per property.
    pub act: BTreeMap<&'static str, u64>,
    pub stats: Stats,
    pub digest: Hash64,
    pub states: BTreeSet<u64>,
    /// The real state left what the history can follow; the run ends here.
    pub tainted: bool,
    pub log: Option<Vec<String>>,
    pub last_ok: bool,
    /// Snapshots for readers outside this process, of the states whose hash ends in zeros under
    /// the mask (so that taking steps out of a run leaves the choice for the other states alone).
    pub snaps: Option<Vec<serde_json::Value>>,
    pub snap_mask: u64,
}

pub fn zero_mp() -> MP {
    MP {
        min: 1,
        tick: 1,
        bid_n: 0,
        ask_n: 0,
        q_n: 0,
    }
}

impl World {
    pub fn new(cfg: Cfg) -> World {
        let mut bank = Bank::default();
        let prog = program_of(cfg.mode);
        bank.accts.insert(
            register_key(),
            Acct {
                lamports: rent_min(64),
                owner: prog,
                data: Buf::from_bytes(&[0xA5; 64], 0),
            },
        );
        bank.accts.insert(
            key(4, 0, 0),
            Acct {
                lamports: 1_000_000_000,
                owner: system_program(),
                data: Buf::new(0, 0),
            },
        );
        World {
            cfg,
            bank,
            markets: BTreeMap::new(),
            posted: BTreeMap::new(),
            now: 0,
            viols: vec![],
            act: BTreeMap::new(),
            stats: Stats::default(),
            digest: Hash64::new(),
            states: BTreeSet::new(),
            tainted: false,
            log: None,
            last_ok: false,
            snaps: None,
            snap_mask: 0,
        }
    }

    pub fn cb_len(&self) -> usize {
        self.cfg.cb.len()
    }
    pub fn viol(&mut self, prop: &'static str, msg: String) {
        if crate::known::matches(prop, &msg) {
            self.stats.hit("known findings met");
            return;
        }
        if self.viols.len() < 64 {
            self.viols.push(Viol { prop, msg });
        }
    }
    pub fn act(&mut self, prop: &'static str) {
        *self.act.entry(prop).or_insert(0) += 1;
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let s = f();
            l.push(s);
        }
    }

    pub fn resolve(&self, o: &ORef, local: &BTreeMap<(u32, u32), u128>) -> u128 {
        let get = |u: u32, i: u32| {
            local
                .get(&(u, i))
                .or_else(|| self.posted.get(&(u, i)))
                .copied()
        };
        let miss = |u: u32, i: u32| {
            ((0xFFFF_0000_0000_0000u64 | ((u as u64) << 16) | i as u64) as u128) << 64 | 0x5a5a
        };
        match o {
            ORef::Raw(x) => *x,
            ORef::Posted(u, i) => get(*u, *i).unwrap_or_else(|| miss(*u, *i)),
            ORef::Near(u, i, x) => get(*u, *i).unwrap_or_else(|| miss(*u, *i)) ^ *x,
        }
    }

    pub fn keys_for_create(&self, m: u32, spec: &MarketSpec) -> [Pubkey; 4] {
        let mut k = match spec.over.and_then(|o| self.markets.get(&o)) {
            Some(x) => x.keys,
            None => [
                role_key(m, Role::Market),
                role_key(m, Role::Queue),
                role_key(m, Role::Bids),
                role_key(m, Role::Asks),
            ],
        };
        match &spec.defect {
            Some(Defect::Alias(a, b)) => k[*a as usize % 4] = k[*b as usize % 4],
            Some(Defect::Taken(r, m2, r2)) => {
                if let Some(x) = self.markets.get(m2) {
                    k[*r as usize % 4] = x.keys[*r2 as usize % 4];
                }
            }
            _ => {}
        }
        k
    }

    /// Allocate the accounts of a create operation (the system program's part) and say whether
    /// market creation over them is legitimate.
    fn prepare_create(
        &self,
        work: &mut Work,
        m: u32,
        spec: &MarketSpec,
        keys: &[Pubkey; 4],
        fresh_taken: bool,
    ) -> (bool, bool, String, MP) {
        let cb = self.cb_len();
        let prog = program_of(self.cfg.mode);
        let mut lens = with_cb!(self.cfg.cb, C => {
            use asset_agnostic_orderbook::state::{critbit::Slab, event_queue::EventQueue};
            [
                120usize,
                EventQueue::<C>::compute_allocation_size(spec.q_n as usize),
                Slab::<C>::compute_allocation_size((spec.bid_n as usize).max(1)),
                Slab::<C>::compute_allocation_size((spec.ask_n as usize).max(1)),
            ]
        });
        lens[2] += spec.slack as usize * cb;
        lens[3] += spec.slack as usize * cb;
        if let Some(Defect::Size(r, d)) = &spec.defect {
            let i = *r as usize % 4;
            lens[i] = (lens[i] as i64 + d).max(0) as usize;
        }
        let own = [
            role_key(m, Role::Market),
            role_key(m, Role::Queue),
            role_key(m, Role::Bids),
            role_key(m, Role::Asks),
        ];
        if spec.over.is_none() {
            for i in 0..4 {
                let role = ROLES4[i];
                let mut lamports = rent_min(lens[i]) + spec.extra;
                let mut owner = prog;
                let mut data = Buf::new(lens[i], self.bank.shift.wrapping_mul(i));
                match &spec.defect {
                    Some(Defect::RentShort(r)) if *r == role => lamports = rent_min(lens[i]) - 1,
                    Some(Defect::Owner(r)) if *r == role => owner = foreign_program(),
                    Some(Defect::Tag(r, t)) if *r == role => {
                        if lens[i] > 0 {
                            data.as_mut()[0] = *t as u8
                        }
                    }
                    Some(Defect::Smear(r, id, x)) if *r == role => {
                        let mut v = vec![0u8];
                        match id {
                            Some(i) => {
                                v.push(1);
                                v.extend_from_slice(&i.to_le_bytes());
                            }
                            None => v.push(0),
                        }
                        for y in x {
                            v.extend_from_slice(&y.to_le_bytes());
                        }
                        v.truncate(lens[i]);
                        data.as_mut()[..v.len()].copy_from_slice(&v);
                    }
                    _ => {}
                }
                let at = work.load(&self.bank, &own[i]);
                work.v[at].1 = Acct {
                    lamports,
                    owner,
                    data,
                };
            }
        }
        // validity, from what the accounts look like
        let mut why = String::new();
        let mut open = false;
        for i in 0..4 {
            for j in 0..i {
                if keys[i] == keys[j] {
                    why = format!("{:?} and {:?} are the same account", ROLES4[j], ROLES4[i]);
                }
            }
        }
        for i in 0..4 {
            let at = work.load(&self.bank, &keys[i]);
            let a = &work.v[at].1;
            if a.owner != prog {
                why = format!("{:?} is owned by another program", ROLES4[i]);
            }
            if a.lamports < rent_min(a.data.len()) {
                why = format!("{:?} is not rent exempt", ROLES4[i]);
            }
            let d = a.data.as_ref();
            if d.iter().take(8).any(|x| *x != 0) {
                why = format!("{:?} is not a fresh account", ROLES4[i]);
            } else if d.iter().any(|x| *x != 0) {
                open = true;
            }
            lens[i] = a.data.len();
        }
        if fresh_taken && why.is_empty() {
            why = "accounts belonged to a market".into();
        }
        if lens[0] != 120 {
            why = "market account has the wrong size".into();
        }
        let es = 40 + 2 * cb;
        if lens[1] < 32 + 5 * es || (lens[1] - 32) % es != 0 {
            why = "event queue account has an unworkable size".into();
        }
        let fixed = 64 + cb;
        for i in [2, 3] {
            if lens[i] < fixed || (lens[i] - fixed) % (56 + cb) % cb != 0 {
                why = format!("{:?} account has an unworkable size", ROLES4[i]);
            }
        }
        if spec.min == 0 {
            why = "minimum order size is zero".into();
        }
        if spec.tick == 0 {
            why = "tick size is zero".into();
        }
        let n = |l: usize| {
            if l < fixed {
                0
            } else {
                (l - fixed) / (56 + cb) + 1
            }
        };
        let mp = MP {
            min: spec.min.max(1),
            tick: spec.tick.max(1),
            bid_n: n(lens[2]),
            ask_n: n(lens[3]),
            q_n: if lens[1] < 32 { 0 } else { (lens[1] - 32) / es },
        };
        (why.is_empty(), open, why, mp)
    }

    fn lams(&self, work: &Work, keys: &[Pubkey; 4]) -> [u64; 5] {
        let mut r = [0; 5];
        for i in 0..5 {
            let k = if i < 4 { keys[i] } else { key(4, 0, 0) };
            r[i] = work
                .get(&k)
                .map(|a| a.lamports)
                .or_else(|| self.bank.get(&k).map(|a| a.lamports))
                .unwrap_or(0);
        }
        r
    }

    pub fn lib_op(&self, op: &Op, local: &BTreeMap<(u32, u32), u128>) -> Option<LibOp> {
        Some(match op {
            Op::Create { spec, .. } => LibOp::Create {
                min: if spec.defect == Some(Defect::ZeroMin) {
                    0
                } else {
                    spec.min
                },
                tick: if spec.defect == Some(Defect::ZeroTick) {
                    0
                } else {
                    spec.tick
                },
            },
            Op::New { p, .. } => LibOp::New {
                p: p.clone(),
                cb: make_cb(self.cfg.cb, p.user, p.nonce),
            },
            Op::Cancel { o, .. } => LibOp::Cancel(self.resolve(o, local)),
            Op::Mass { os, .. } => {
                LibOp::Mass(os.iter().map(|o| self.resolve(o, local)).collect())
            }
            Op::Consume { n, .. } => LibOp::Consume(*n),
            Op::Close { .. } => LibOp::Close,
            Op::Fund { .. } => return None,
        })
    }

    pub fn apply(&mut self, step: &Step) {
        self.now = self.now.max(step.t);
        self.digest.u64(step.t);
        match &step.act {
            Act::Tx { ops, abort } => self.apply_tx(step.uid, ops, *abort),
            Act::Adv { op, subs, reg } => match reg {
                None => self.apply_adv(op, subs),
                Some((m2, role)) => self.apply_adv_register(op, *m2, *role),
            },
            Act::Raw { op, how } => self.apply_raw(op, how),
            Act::TsCreate {
                orders,
                events,
                min,
                tick,
            } => self.apply_ts_create(*orders, *events, *min, *tick),
            Act::Read { m, probe } => self.apply_read(*m, *probe),
            Act::FillProbe { m, side, other } => self.fill_probe(*m, *side, *other),
            Act::DrainProbe { m, batch } => self.drain_probe(*m, *batch),
            Act::Restart { shift } => {
                let v = self.bank.serialize();
                self.bank = Bank::restore(&v, *shift as usize);
                self.stats.hit("fault:validator crash and restart");
            }
            Act::Grow {
                m,
                bids,
                asks,
                low,
                levels,
                qty,
                seed,
            } => {
                let ops = self.grow_orders(*m, (*bids, *asks), *low, *levels, *qty, *seed);
                self.grow(step.uid, *m, ops)
            }
            Act::Age { m, seq, head } => self.age(*m, *seq, *head),
        }
    }

    fn age(&mut self, m: u32, seq: u64, head: u64) {
        let Some(mk) = self.markets.get_mut(&m) else {
            return;
        };
        if mk.status != Status::Live || !mk.st.bids.is_empty() || !mk.st.asks.is_empty() {
            return;
        }
        if !mk.st.q.is_empty() || mk.mp.q_n == 0 || seq < mk.st.seq || seq > 1 << 62 {
            return;
        }
        if let Some(a) = self.bank.accts.get_mut(&mk.keys[1]) {
            let h = head % mk.mp.q_n as u64;
            a.data.as_mut()[8..16].copy_from_slice(&h.to_le_bytes());
            a.data.as_mut()[24..32].copy_from_slice(&seq.to_le_bytes());
            mk.st.seq = seq;
            self.stats.hit("aged market");
        }
    }

    fn grow_orders(
        &self,
        m: u32,
        n: (u32, u32),
        low: u64,
        levels: u64,
        qty: u64,
        seed: u64,
    ) -> Vec<NewP> {
        let Some(mk) = self.markets.get(&m) else {
            return vec![];
        };
        let mut rng = crate::rng::Rng::new(seed);
        let tick = mk.mp.tick.max(1);
        let half = (levels / 2).max(1);
        let (mut b, mut a) = (n.0.min(20_000) as u64, n.1.min(20_000) as u64);
        let mut v = vec![];
        while b + a > 0 {
            let bid = rng.below(b + a) < b;
            if bid {
                b -= 1
            } else {
                a -= 1
            }
            let k = if bid {
                rng.below(half)
            } else {
                half + 1 + rng.below(half)
            };
            let at = (low as u128 + k as u128) * tick as u128;
            let limit = at.min((u64::MAX / tick * tick) as u128) as u64;
            let min = mk.mp.min.max(1);
            let max = qty.min(u64::MAX / limit.max(1));
            if max < min || limit == 0 {
                continue;
            }
            v.push(NewP {
                side: if bid { Side::Bid } else { Side::Ask },
                limit,
                base: rng.range(min, max),
                quote: u64::MAX,
                ml: 10,
                user: rng.below(self.cfg.users.max(1) as u64) as u32,
                nonce: rng.bits(32) as u32,
                post_only: false,
                post_allowed: true,
                stb: Stb::Decrement,
            });
        }
        v
    }

    /// Posts the orders without looking at the books in between; if anything is not as it must be
    /// in the end, nothing of that counts and the order that made the difference is sent alone.
    fn grow(&mut self, uid: u32, m: u32, ops: Vec<NewP>) {
        let (mut at, mut odd) = (0, 0);
        while at < ops.len() {
            let mut fits = ops.len() - at;
            if !self.grow_fast(uid, m, &ops[at..], at, true) {
                let (mut lo, mut hi) = (0, ops.len() - at);
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    if self.grow_fast(uid, m, &ops[at..at + mid], at, false) {
                        lo = mid;
                    } else {
                        hi = mid;
                    }
                }
                if lo > 0 && !self.grow_fast(uid, m, &ops[at..at + lo], at, true) {
                    return;
                }
                fits = lo;
            }
            at += fits;
            if at < ops.len() {
                self.apply_tx(
                    uid,
                    &[Op::New {
                        m,
                        p: ops[at].clone(),
                    }],
                    None,
                );
                at += 1;
                odd += 1;
                if self.tainted || odd > 20 {
                    return;
                }
            }
        }
    }

    fn grow_fast(&mut self, uid: u32, m: u32, ops: &[NewP], from: usize, keep: bool) -> bool {
        let Some(mk) = self.markets.get(&m).cloned() else {
            return true;
        };
        if mk.status != Status::Live {
            return true;
        }
        let kf = |r: Role| match r {
            Role::Target => key(4, 0, 0),
            r => mk.keys[r as usize],
        };
        let mut work = Work::default();
        let mut hist = mk.hist.clone();
        let mut ledger = mk.ledger.clone();
        let mut new: [Vec<decode::Ord>; 2] = [vec![], vec![]];
        let mut ids = vec![];
        let mut heap = 0;
        for p in ops {
            let cb = make_cb(self.cfg.cb, p.user, p.nonce);
            let op = LibOp::New { p: p.clone(), cb };
            let ix = build(self.cfg.mode, self.cfg.cb, &kf, &op);
            let mut es = ExecStats::default();
            let Ok(Some(s)) = exec_ix(&self.bank, &mut work, &ix, None, &mut es) else {
                return false;
            };
            heap = heap.max(es.heap);
            let quote = crate::model::post_quote(p.side, p.base, p.limit);
            let (Some(id), true) = (
                s.id,
                s.base == p.base && s.posted == p.base && s.quote as u128 == quote,
            ) else {
                return false;
            };
            if (id >> 64) as u64 != p.limit || hist.orders.contains_key(&id) {
                return false;
            }
            let later = match (p.side, hist.last_at_price.get(&(p.side.code(), p.limit))) {
                (_, None) => true,
                (Side::Bid, Some(l)) => id < *l,
                (Side::Ask, Some(l)) => id > *l,
            };
            if !later {
                return false;
            }
            hist.last_at_price.insert((p.side.code(), p.limit), id);
            hist.arrivals += 1;
            let arrival = hist.arrivals;
            hist.orders.insert(id, OH::posted(p.side, p.limit, arrival, p.base, cb));
            let b = ledger
                .users
                .entry(cb.identity(self.cfg.cb).to_vec())
                .or_default();
            match p.side {
                Side::Bid => {
                    b.qf -= s.quote as i128;
                    b.ql += quote as i128;
                }
                Side::Ask => {
                    b.bf -= s.base as i128;
                    b.bl += s.posted as i128;
                }
            }
            new[p.side.code() as usize].push(decode::Ord {
                id,
                qty: p.base,
                cb,
            });
            ids.push(id);
        }
        let st = View {
            bank: &self.bank,
            work: Some(&work),
        }
        .state(&mk.keys[1], &mk.keys[2], &mk.keys[3], self.cb_len());
        for s in [Side::Bid, Side::Ask] {
            let mut want = mk.st.side(s).clone();
            want.append(&mut new[s.code() as usize]);
            want.sort_by_key(|o| o.id);
            if want != *st.side(s) {
                return false;
            }
        }
        if st.q != mk.st.q || st.seq < mk.st.seq {
            return false;
        }
        if let (Some(b), Some(a)) = (st.best(Side::Bid), st.best(Side::Ask)) {
            if b.price() >= a.price() {
                return false;
            }
        }
        if !keep {
            return true;
        }
        work.commit(&mut self.bank);
        self.stats.add("committed transactions", ids.len() as u64);
        self.stats.add("committed operations", ids.len() as u64);
        self.stats.add("orders posted", ids.len() as u64);
        self.stats.hit(match st.bids.len().max(st.asks.len()) {
            0..=99 => "probe: side grown to less than 100 orders",
            100..=999 => "probe: side grown to 100 to 999 orders",
            1000..=4999 => "probe: side grown to 1000 to 4999 orders",
            _ => "probe: side grown to 5000 orders or more",
        });
        for (i, id) in ids.iter().enumerate() {
            self.posted.insert((uid, (from + i) as u32), *id);
        }
        let h = st.hash();
        self.digest.u64(h);
        if self.states.len() < 200_000 {
            self.states.insert(h);
        }
        if let Some(mk) = self.markets.get_mut(&m) {
            mk.st = st;
            mk.hist = hist;
            mk.ledger = ledger;
        }
        true
    }

    fn apply_tx(&mut self, uid: u32, ops: &[Op], abort: Option<u32>) {
        let mut work = Work::default();
        let mut recs: Vec<Rec> = vec![];
        let mut local: BTreeMap<(u32, u32), u128> = BTreeMap::new();
        let mut closed_here: BTreeSet<u32> = BTreeSet::new();
        let mut failed = false;
        let mut left = abort.map(|a| a as u64);
        let cbl = self.cb_len();
        // markets created in this very transaction
        let mut fresh: BTreeMap<u32, ([Pubkey; 4], MP)> = BTreeMap::new();
        self.last_ok = false;
        for (i, op) in ops.iter().enumerate() {
            let m = op.market();
            if let Op::Fund { role, lamports, .. } = op {
                let Some(mk) = self.markets.get(&m) else {
                    continue;
                };
                let k = mk.key(*role);
                let at = work.load(&self.bank, &k);
                work.v[at].1.lamports = work.v[at].1.lamports.saturating_add(*lamports);
                self.stats.hit("fault:unsolicited lamports");
                continue;
            }
            let Some(lop) = self.lib_op(op, &local) else {
                continue;
            };
            let mut create = None;
            let (keys, mp, closed);
            if let Op::Create { spec, .. } = op {
                if self.markets.contains_key(&m) || fresh.contains_key(&m) {
                    continue;
                }
                keys = self.keys_for_create(m, spec);
                let mut spec2 = spec.clone();
                if let LibOp::Create { min, tick } = &lop {
                    spec2.min = *min;
                    spec2.tick = *tick;
                }
                let taken = spec.over.is_some();
                let (valid, open, why, mp2) = self.prepare_create(&mut work, m, &spec2, &keys, taken);
                mp = mp2;
                let want = (spec.bid_n.max(1), spec.ask_n.max(1), spec.q_n);
                let got = (mp.bid_n as u32, mp.ask_n as u32, mp.q_n as u32);
                if spec.defect.is_none() && !taken && spec.slack == 0 {
                    self.act("C15");
                    if got != want {
                        self.viol(
                            "C15",
                            format!("accounts of the published sizes for {:?} bids, asks, events hold {:?}", want, got),
                        );
                    }
                }
                closed = false;
                create = Some(CreateInfo {
                    valid,
                    open,
                    raw_heads: Default::default(),
                    why,
                    raw_market: vec![],
                    mp: mp2,
                    spec: spec2,
                });
            } else if let Some((k, p)) = fresh.get(&m) {
                keys = *k;
                mp = *p;
                closed = closed_here.contains(&m);
            } else {
                let Some(mk) = self.markets.get(&m) else {
                    continue;
                };
                keys = mk.keys;
                mp = mk.mp;
                closed = mk.status == Status::Closed || closed_here.contains(&m);
            }
            let kf = |r: Role| match r {
                Role::Target => key(4, 0, 0),
                r => keys[r as usize],
            };
            let ix = build(self.cfg.mode, self.cfg.cb, &kf, &lop);
            let pre = if work.v.is_empty() && !closed {
                self.markets
                    .get(&m)
                    .map(|x| x.st.clone())
                    .unwrap_or_default()
            } else {
                View {
                    bank: &self.bank,
                    work: Some(&work),
                }
                .state(&keys[1], &keys[2], &keys[3], cbl)
            };
            let lam_pre = self.lams(&work, &keys);
            let seen = match &lop {
                LibOp::Consume(n) if !closed => {
                    let d = View {
                        bank: &self.bank,
                        work: Some(&work),
                    }
                    .data(&keys[1]);
                    Some(readers::first_events(self.cfg.cb, d, *n))
                }
                _ => None,
            };
            let shadow_work = if self.cfg.mode == Mode::Entry && self.cfg.focus == "C25" {
                Some(work.clone())
            } else {
                None
            };
            let mut es = ExecStats::default();
            let res = exec_ix(&self.bank, &mut work, &ix, left, &mut es);
            if let Some(l) = left {
                left = Some(if l > es.points { l - es.points } else { u64::MAX });
            }
            self.stats.add("seam crossings", es.points);
            let shadow = shadow_work.map(|mut w| {
                let mut direct = build(Mode::Lib, CbKind::B32, &kf, &lop);
                direct.program = program_of(Mode::Entry);
                let r = exec_ix(&self.bank, &mut w, &direct, None, &mut ExecStats::default());
                let mut same = true;
                for k in keys.iter().chain([key(4, 0, 0)].iter()) {
                    let x = w.get(k).or_else(|| self.bank.get(k));
                    let y = work.get(k).or_else(|| self.bank.get(k));
                    same &= match (x, y) {
                        (Some(x), Some(y)) => x.same(y),
                        (None, None) => true,
                        _ => false,
                    };
                }
                (r, same)
            });
            let ok = res.is_ok();
            if let Some(l) = &mut self.log {
                l.push(format!("  {:?} m{} -> {:?}", lop, m, res));
            }
            let (post, lam_post) = if ok {
                (
                    View {
                        bank: &self.bank,
                        work: Some(&work),
                    }
                    .state(&keys[1], &keys[2], &keys[3], cbl),
                    self.lams(&work, &keys),
                )
            } else {
                (pre.clone(), lam_pre)
            };
            if let (Some(c), true) = (&mut create, ok) {
                c.raw_market = work
                    .get(&keys[0])
                    .map(|a| a.data.as_ref().to_vec())
                    .unwrap_or_default();
                for (i, k) in keys[1..].iter().enumerate() {
                    if let Some(a) = work.get(k) {
                        let d = a.data.as_ref();
                        let end = if i == 0 { 32 } else { 40 };
                        c.raw_heads[i] = d.get(8..end).unwrap_or(&[]).to_vec();
                    }
                }
                fresh.insert(m, (keys, mp));
            }
            if ok {
                if let (LibOp::New { .. }, Ok(Some(s))) = (&lop, &res) {
                    // what was really posted: the new identifier in the book
                    let mut id = None;
                    for s in [Side::Bid, Side::Ask] {
                        for o in post.side(s) {
                            if pre.find(o.id).is_none() {
                                id = Some(o.id);
                            }
                        }
                    }
                    if let Some(id) = id.or(s.id) {
                        local.insert((uid, i as u32), id);
                    }
                }
                if matches!(lop, LibOp::Close) {
                    closed_here.insert(m);
                }
            }
            let mut open = vec![];
            if ok && matches!(lop, LibOp::Close) {
                for k in &keys {
                    if let Some(a) = work.get(k) {
                        open.extend(readers::taken_for(self.cfg.cb, &a.data));
                    }
                }
            }
            recs.push(Rec {
                m,
                op: lop,
                open,
                pre,
                post,
                res,
                seen,
                lam_pre,
                lam_post,
                create,
                closed,
                keys,
                mp,
                shadow,
                heap: es.heap,
            });
            if !ok {
                failed = true;
                break;
            }
        }
        if failed {
            let n = recs.len();
            if n > 1 {
                self.stats.hit("fault:multi-instruction transaction rolled back");
            }
            let r = recs.pop().expect("one");
            if r.res == Err(ErrK::Aborted) {
                self.stats.hit("fault:died inside an instruction");
            } else {
                self.stats.hit("refused transactions");
                oracle::check_refused(self, &r);
            }
            self.digest.u64(0xE);
            return;
        }
        if recs.is_empty() && work.v.is_empty() {
            return;
        }
        self.last_ok = true;
        self.stats.hit("committed transactions");
        work.commit(&mut self.bank);
        for (k, v) in local {
            self.posted.insert(k, v);
        }
        for r in &recs {
            self.stats.hit("committed operations");
            oracle::check_ok(self, r);
            if self.tainted {
                return;
            }
            if let Some(mk) = self.markets.get_mut(&r.m) {
                mk.st = r.post.clone();
                let h = mk.st.hash();
                self.digest.u64(h);
                if self.states.len() < 200_000 {
                    self.states.insert(h);
                }
            }
        }
        // accounts of other markets must not have moved (they are not even in the transaction)
        if let Some(snaps) = &mut self.snaps {
            if let Some(r) = recs.last() {
                if let Some(mk) = self.markets.get(&r.m) {
                    if mk.status == Status::Live
                        && snaps.len() < 2_000
                        && mk.st.hash() & self.snap_mask == 0
                    {
                        snaps.push(readers::snapshot(&self.cfg, &self.bank, mk));
                    }
                }
            }
        }
    }

    fn fork_exec(&mut self, bank: &mut Bank, keys: &[Pubkey; 4], op: &LibOp) -> IxRes {
        let kf = |r: Role| match r {
            Role::Target => key(4, 0, 0),
            r => keys[r as usize],
        };
        let ix = build(self.cfg.mode, self.cfg.cb, &kf, op);
        let mut w = Work::default();
        let r = exec_ix(bank, &mut w, &ix, None, &mut ExecStats::default());
        if r.is_ok() {
            w.commit(bank);
        }
        r
    }
    fn fork_state(&self, bank: &Bank, keys: &[Pubkey; 4]) -> St {
        View { bank, work: None }.state(&keys[1], &keys[2], &keys[3], self.cb_len())
    }

    fn apply_adv(&mut self, op: &Op, subs: &[(Role, Sub)]) {
        let m = op.market();
        let Some(mk) = self.markets.get(&m).cloned() else {
            return;
        };
        if matches!(op, Op::Create { .. } | Op::Fund { .. }) || mk.status != Status::Live {
            return;
        }
        let Some(lop) = self.lib_op(op, &BTreeMap::new()) else {
            return;
        };
        let mut bank = self.bank.clone();
        let prog = program_of(self.cfg.mode);
        let mut keys = mk.keys;
        let mut hostile = false;
        let uses = |r: Role| match r {
            Role::Target => false,
            Role::Market | Role::Queue => true,
            _ => !matches!(lop, LibOp::Consume(_)),
        };
        for (n, (r, s)) in subs.iter().enumerate() {
            if !uses(*r) {
                continue;
            }
            let i = *r as usize;
            let genuine = mk.keys[i];
            let Some(orig) = self.bank.get(&genuine).cloned() else {
                continue;
            };
            let alt = key(5, n as u32, *r as u32);
            match s {
                Sub::Of(m2, r2) => {
                    if *r2 == Role::Target {
                        continue;
                    }
                    let Some(o) = self.markets.get(m2) else {
                        continue;
                    };
                    let k = o.keys[*r2 as usize];
                    if k == genuine {
                        continue;
                    }
                    // A whole foreign set of accounts would be a genuine call on that market.
                    keys[i] = k;
                    hostile = true;
                }
                Sub::Copy => {
                    bank.accts.insert(alt, orig);
                    keys[i] = alt;
                    // A copy of the market account owned by the program names the genuine
                    // accounts; the program alone writes its accounts, so it cannot arise.
                    hostile |= *r != Role::Market;
                    if *r == Role::Market {
                        keys[i] = genuine;
                    }
                }
                Sub::ForeignCopy => {
                    let mut a = orig;
                    a.owner = foreign_program();
                    bank.accts.insert(alt, a);
                    keys[i] = alt;
                    hostile = true;
                }
                Sub::Reowned => {
                    let mut a = orig;
                    a.owner = foreign_program();
                    bank.accts.insert(genuine, a);
                    hostile = true;
                }
                Sub::Tag(t) => {
                    if *r != Role::Market || *t == 128 {
                        continue;
                    }
                    let mut a = orig;
                    a.data.as_mut()[0..8].copy_from_slice(&t.to_le_bytes());
                    bank.accts.insert(alt, a);
                    keys[i] = alt;
                    hostile = true;
                }
                Sub::FakeMarket { min, tick } => {
                    if *r != Role::Market {
                        continue;
                    }
                    let mut a = orig;
                    a.owner = foreign_program();
                    let d = a.data.as_mut();
                    d[104..112].copy_from_slice(&min.max(&1).to_le_bytes());
                    d[112..120].copy_from_slice(&tick.max(&1).to_le_bytes());
                    bank.accts.insert(alt, a);
                    keys[i] = alt;
                    hostile = true;
                }
                Sub::Missing => {
                    keys[i] = key(6, n as u32, *r as u32);
                    hostile = true;
                }
            }
        }
        if !hostile {
            return;
        }
        // A complete, consistent set of another market's accounts is not hostile.
        let view = View {
            bank: &bank,
            work: None,
        };
        if let Some((t, named, _, _)) = decode::market(view.data(&keys[0])) {
            let owned = |k: &Pubkey| bank.get(k).map(|a| a.owner == prog).unwrap_or(false);
            let q_ok = named[0] == keys[1] && owned(&keys[1]);
            let b_ok = named[1] == keys[2] && owned(&keys[2]);
            let a_ok = named[2] == keys[3] && owned(&keys[3]);
            let books = matches!(lop, LibOp::Consume(_)) || (b_ok && a_ok);
            if t == 128 && owned(&keys[0]) && q_ok && books {
                return;
            }
        }
        // would it have succeeded on the genuine accounts?
        let mut good = self.bank.clone();
        let genuine_ok = self.fork_exec(&mut good, &mk.keys, &lop).is_ok();
        let r = self.fork_exec(&mut bank, &keys, &lop);
        self.stats.hit("fault:substituted accounts");
        self.digest.u64(0xAD ^ r.is_ok() as u64);
        if genuine_ok {
            self.act("C14");
        }
        self.note(|| format!("  adversary {:?} {:?} -> {:?}", lop, subs, r));
        if r.is_ok() {
            self.viol(
                "C14",
                format!(
                    "{} accepted with substituted accounts {:?}",
                    oracle::op_name(&lop),
                    subs
                ),
            );
        }
    }

    /// The register is where the program writes its result: somebody names an account of a market.
    fn apply_adv_register(&mut self, op: &Op, m2: u32, role: Role) {
        let m = op.market();
        if self.cfg.mode != Mode::Entry || role == Role::Target {
            return;
        }
        let (Some(mk), Some(victim)) = (self.markets.get(&m).cloned(), self.markets.get(&m2)) else {
            return;
        };
        if matches!(op, Op::Create { .. } | Op::Fund { .. }) || mk.status != Status::Live {
            return;
        }
        let k = victim.keys[role as usize];
        if victim.status != Status::Live || self.bank.get(&k).is_none() {
            return;
        }
        let Some(lop) = self.lib_op(op, &BTreeMap::new()) else {
            return;
        };
        let kf = |r: Role| mk.key(r);
        let mut ix = build(self.cfg.mode, self.cfg.cb, &kf, &lop);
        let run = |ix: &Ix| {
            let mut bank = self.bank.clone();
            let mut w = Work::default();
            let r = exec_ix(&bank, &mut w, ix, None, &mut ExecStats::default());
            if r.is_ok() {
                w.commit(&mut bank);
            }
            (r, bank)
        };
        let genuine_ok = run(&ix).0.is_ok();
        let last = ix.metas.len() - 1;
        ix.metas[last] = (k, true);
        let (r, after) = run(&ix);
        // what the operation may do to that account, it does to its own market's only
        let touched = match (self.bank.get(&k), after.get(&k)) {
            (Some(x), Some(y)) => !x.same(y),
            _ => true,
        };
        let accepted = !matches!(
            r,
            Err(ErrK::Custom(_)) | Err(ErrK::Prog(_)) | Err(ErrK::Panic(_)) | Err(ErrK::Rule(_))
        );
        self.stats.hit("fault:register is a market's account");
        self.digest.u64(0xAE ^ accepted as u64);
        if genuine_ok {
            self.act("C14");
        }
        self.note(|| format!("  adversary {:?} register m{} {:?} -> {:?}", lop, m2, role, r));
        if accepted && (touched || m == m2 || r.is_err()) {
            self.viol(
                "C14",
                format!(
                    "{} wrote its result over the {:?} account of {} market",
                    oracle::op_name(&lop),
                    role,
                    if m == m2 { "its own" } else { "another" }
                ),
            );
        }
    }

    /// Damaged bytes: either they are another complete instruction and do what that one does, or
    /// they are refused.
    fn apply_raw(&mut self, op: &Op, how: &[Corrupt]) {
        let m = op.market();
        let Some(mk) = self.markets.get(&m).cloned() else {
            return;
        };
        if self.cfg.mode != Mode::Entry
            || matches!(op, Op::Fund { .. })
            || (mk.status != Status::Live && !matches!(op, Op::Create { .. }))
        {
            return;
        }
        let Some(lop) = self.lib_op(op, &BTreeMap::new()) else {
            return;
        };
        let mut bank = self.bank.clone();
        let mut keys = mk.keys;
        if let Op::Create { spec, .. } = op {
            // fresh accounts for a market that does not exist yet
            let m2 = 0x00AB_0000;
            let mut w = Work::default();
            let mut sp = spec.clone();
            sp.over = None;
            sp.defect = None;
            keys = self.keys_for_create(m2, &sp);
            self.prepare_create(&mut w, m2, &sp, &keys, false);
            w.commit(&mut bank);
        }
        let kf = |r: Role| match r {
            Role::Target => key(4, 0, 0),
            r => keys[r as usize],
        };
        let mut ix = build(Mode::Entry, self.cfg.cb, &kf, &lop);
        let run = |ix: &Ix, lazy: bool| {
            let mut b = bank.clone();
            let mut w = Work::default();
            let r = exec_ix(&b, &mut w, ix, None, &mut ExecStats::default());
            if r.is_ok() {
                w.commit(&mut b);
            }
            // the register is written by the entry point only
            if lazy {
                b.accts.remove(&register_key());
            }
            (r, b)
        };
        let genuine_ok = run(&ix, true).0.is_ok();
        let mut data = match &ix.call {
            Call::Entry(d) => d.clone(),
            _ => return,
        };
        let before = data.clone();
        let mut left_out = false;
        for c in how {
            match c {
                Corrupt::Flip(b) => {
                    let i = *b as usize / 8;
                    if i < data.len() {
                        data[i] ^= 1 << (b % 8);
                    }
                }
                Corrupt::Set(i, v) => {
                    if (*i as usize) < data.len() {
                        data[*i as usize] = *v;
                    }
                }
                Corrupt::Cut(n) => data.truncate(*n as usize),
                Corrupt::Tail(t) => data.extend_from_slice(t),
                Corrupt::Leave(i) => {
                    if (*i as usize) < ix.metas.len() {
                        ix.metas.remove(*i as usize);
                        left_out = true;
                    }
                }
            }
        }
        if data == before && !left_out {
            return;
        }
        ix.call = Call::Entry(data.clone());
        let meaning = crate::wire::decode(&data);
        self.stats.hit(if left_out {
            "fault:accounts left out of an instruction"
        } else if meaning.is_some() {
            "fault:instruction bytes altered, still an instruction"
        } else {
            "fault:instruction bytes damaged"
        });
        let need = match &meaning {
            Some(LibOp::Consume(_)) => 3,
            Some(LibOp::Close) => 6,
            _ => 5,
        };
        if genuine_ok {
            self.act("C29");
        }
        match meaning {
            Some(lop2) if ix.metas.len() >= need && !left_out => {
                // the same operation, called directly with the accounts in the same places
                let (r, b) = run(&ix, true);
                let mut direct = build(Mode::Lib, CbKind::B32, &kf, &lop2);
                direct.program = program_of(Mode::Entry);
                let n = direct.metas.len();
                direct.metas = ix.metas[..ix.metas.len() - 1][..n].to_vec();
                let (d, b2) = run(&direct, true);
                self.digest.u64(0xC9 ^ r.is_ok() as u64);
                self.note(|| {
                    format!("  altered {:?} {:?} means {:?} -> {:?}", lop, how, lop2, r)
                });
                let same = match (&r, &d) {
                    (Ok(x), Ok(y)) => x == y && b.hash() == b2.hash(),
                    (Err(ErrK::Custom(x)), Err(ErrK::Custom(y))) => x == y,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    self.viol(
                        "C29",
                        format!(
                            "bytes that encode {} did something else: {:?} instead of {:?}",
                            oracle::op_name(&lop2),
                            r,
                            d
                        ),
                    );
                }
            }
            other => {
                let (r, _) = run(&ix, true);
                self.digest.u64(0xCA ^ r.is_ok() as u64);
                self.note(|| format!("  damaged {:?} {:?} -> {:?}", lop, how, r));
                if r.is_ok() || matches!(r, Err(ErrK::Register(_))) {
                    self.viol(
                        "C29",
                        format!(
                            "{} accepted",
                            if other.is_some() {
                                format!("{} with too few accounts", oracle::op_name(&lop))
                            } else {
                                format!(
                                    "bytes that encode no operation (damaged {})",
                                    oracle::op_name(&lop)
                                )
                            }
                        ),
                    );
                }
            }
        }
    }

    /// A market made by the TypeScript client must be the one asked for.
    fn apply_ts_create(&mut self, orders: u32, events: u32, min: u64, tick: u64) {
        let cb = self.cb_len();
        self.act("C31");
        self.stats.hit("probe: market made by the TypeScript client");
        let built = crate::jsread::build(serde_json::json!({
            "cb": cb, "orders": orders, "events": events,
            "min": min.to_string(), "tick": tick.to_string(),
        }));
        let r = built.and_then(|b| self.ts_create(&b, orders, events, min, tick));
        self.digest.u64(0xC31 ^ r.is_ok() as u64);
        self.note(|| {
            format!(
                "  TypeScript market of {} orders, {} events, min {} tick {} -> {:?}",
                orders, events, min, tick, r
            )
        });
        if let Err(e) = r {
            self.viol(
                "C31",
                format!(
                    "market of {} orders, {} events, minimum {}, tick {}: {}",
                    orders, events, min, tick, e
                ),
            );
        }
    }
    fn ts_create(
        &mut self,
        b: &serde_json::Value,
        orders: u32,
        events: u32,
        min: u64,
        tick: u64,
    ) -> Result<(), String> {
        let no = |s: &str| Err(s.to_string());
        let list = |v: &serde_json::Value| v.as_array().cloned().unwrap_or_default();
        let (made, calls) = (list(&b["made"]), list(&b["calls"]));
        if calls.len() != 1 || calls[0]["ours"] != true {
            return no("not one call of the program");
        }
        let keys = list(&calls[0]["keys"]);
        if keys.len() != 4 {
            return no("the call does not name four accounts");
        }
        let data: Vec<u8> = {
            let h = calls[0]["data"].as_str().unwrap_or("");
            (0..h.len() / 2)
                .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                .collect()
        };
        // the system program's part
        let m2 = 0x00AB_0001u32;
        let mut bank = self.bank.clone();
        let mut w = Work::default();
        let prog = program_of(self.cfg.mode);
        let mut metas = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for (i, k) in keys.iter().enumerate() {
            let name = k[0].as_str().unwrap_or("").to_string();
            let Some(a) = made.iter().find(|a| a["key"] == k[0]) else {
                return no("an account the call names is not made");
            };
            if !seen.insert(name) {
                return no("an account is named twice");
            }
            if a["signed"] != true || a["paid"] != true || k[1] != false {
                return no("signatures do not fit");
            }
            let (Some(space), Some(lamports)) = (a["space"].as_u64(), a["lamports"].as_u64())
            else {
                return no("an account has no size");
            };
            let at = w.load(&bank, &role_key(m2, ROLES4[i]));
            w.v[at].1 = Acct {
                lamports,
                owner: if a["owned"] == true { prog } else { foreign_program() },
                data: Buf::new(space.min(1 << 28) as usize, 0),
            };
            metas.push((role_key(m2, ROLES4[i]), k[2] == true));
        }
        w.commit(&mut bank);
        let call = match self.cfg.mode {
            Mode::Entry => {
                metas.push((register_key(), true));
                Call::Entry(data)
            }
            Mode::Lib => match crate::wire::decode(&data) {
                Some(op @ LibOp::Create { .. }) => Call::Lib(self.cfg.cb, op),
                x => return Err(format!("the call means {:?}", x)),
            },
        };
        let run = |mut bank: Bank, ix: &Ix| {
            let mut w = Work::default();
            let r = exec_ix(&bank, &mut w, ix, None, &mut ExecStats::default());
            if r.is_ok() {
                w.commit(&mut bank);
            }
            (r, bank)
        };
        let ix = Ix {
            program: prog,
            metas,
            demands: false,
            call,
        };
        let (r, got) = run(bank, &ix);
        if r != Ok(None) {
            return Err(format!("the program answers {:?}", r));
        }
        // the same market, made the other way
        let spec = MarketSpec {
            bid_n: orders,
            ask_n: orders,
            q_n: events,
            min,
            tick,
            slack: 0,
            extra: 0,
            over: None,
            defect: None,
        };
        let keys = self.keys_for_create(m2, &spec);
        let mut bank = self.bank.clone();
        let mut w = Work::default();
        self.prepare_create(&mut w, m2, &spec, &keys, false);
        w.commit(&mut bank);
        let kf = |r: Role| match r {
            Role::Target => key(4, 0, 0),
            r => keys[r as usize],
        };
        let ix = build(self.cfg.mode, self.cfg.cb, &kf, &LibOp::Create { min, tick });
        let (r, want) = run(bank, &ix);
        if r != Ok(None) {
            return Ok(()); // judged by C15
        }
        for (i, k) in keys.iter().enumerate() {
            let (Some(x), Some(y)) = (got.get(k), want.get(k)) else {
                return Err(format!("no {:?} account", ROLES4[i]));
            };
            if x.data.len() != y.data.len() {
                return Err(format!(
                    "{:?} account of {} bytes, {} are needed",
                    ROLES4[i],
                    x.data.len(),
                    y.data.len()
                ));
            }
            if x.data.as_ref() != y.data.as_ref() {
                return Err(format!("{:?} account holds something else", ROLES4[i]));
            }
        }
        Ok(())
    }

    fn apply_read(&mut self, m: u32, probe: u64) {
        let Some(mk) = self.markets.get(&m).cloned() else {
            return;
        };
        if mk.status != Status::Live {
            return;
        }
        self.stats.hit("reader rounds");
        if !mk.st.bids.is_empty() || !mk.st.asks.is_empty() || !mk.st.q.is_empty() {
            self.act("C23");
        }
        let errs = readers::check(&self.cfg, &self.bank, &mk, probe);
        for e in errs {
            self.viol("C23", e);
        }
    }

    fn fill_probe(&mut self, m: u32, side: Side, other: u32) {
        let Some(mk) = self.markets.get(&m).cloned() else {
            return;
        };
        if mk.status != Status::Live {
            return;
        }
        let mut bank = self.bank.clone();
        let mp = mk.mp;
        let own_best = mk.st.best(side).map(|o| o.price());
        let opp_best = mk.st.best(side.opp()).map(|o| o.price());
        // a price of this side that crosses nothing
        let price = match (side, own_best, opp_best) {
            (_, Some(p), _) => p,
            (_, None, None) => mp.tick.saturating_mul(1 + other as u64 % 7),
            (Side::Bid, None, Some(a)) => {
                if a <= mp.tick {
                    return;
                }
                (a - 1) / mp.tick * mp.tick
            }
            (Side::Ask, None, Some(b)) => match (b / mp.tick).checked_add(1) {
                Some(x) => match x.checked_mul(mp.tick) {
                    Some(p) => p,
                    None => return,
                },
                None => return,
            },
        };
        if price == 0 || price % mp.tick != 0 || model::base_for(u64::MAX, price) < mp.min {
            return;
        }
        let cap = mp.cap(side);
        let have = mk.st.side(side).len();
        let room = cap.saturating_sub(have);
        self.act("C17");
        self.stats.hit("capacity probes");
        let p = NewP {
            side,
            limit: price,
            base: mp.min,
            quote: u64::MAX,
            ml: 1 + (other as u64 % 3),
            user: 0xFFFF,
            nonce: other,
            post_only: other & 1 == 1,
            post_allowed: true,
            stb: Stb::Decrement,
        };
        let cb = make_cb(self.cfg.cb, p.user, p.nonce);
        let op = LibOp::New { p, cb };
        for i in 0..room {
            let r = self.fork_exec(&mut bank, &mk.keys, &op);
            let n = decode::slab(
                View {
                    bank: &bank,
                    work: None,
                }
                .data(&mk.keys[if side == Side::Bid { 2 } else { 3 }]),
                self.cb_len(),
            )
            .len();
            if r.is_err() || n != have + i + 1 {
                self.viol(
                    "C17",
                    format!(
                        "a {:?} side sized for {} orders took only {} ({} resting before the probe): {:?}",
                        side,
                        cap,
                        have + i,
                        have,
                        r
                    ),
                );
                return;
            }
        }
        let st = self.fork_state(&bank, &mk.keys);
        let mut pre = mk.st.clone();
        let kept = pre
            .side_mut(side)
            .iter()
            .all(|o| st.find(o.id).map(|x| x.1 == o).unwrap_or(false))
            && st.side(side.opp()) == mk.st.side(side.opp());
        if !kept || st.q != mk.st.q {
            self.viol(
                "C17",
                "filling a side up to its size disturbed resting orders or events".into(),
            );
            return;
        }
        // one more at no better price than the worst is not taken
        let worst = match side {
            Side::Bid => st.bids.first(),
            Side::Ask => st.asks.last(),
        };
        if let Some(w) = worst {
            if w.price() == price {
                let r = self.fork_exec(&mut bank, &mk.keys, &op);
                let st2 = self.fork_state(&bank, &mk.keys);
                if r.is_err() || st2.side(side).len() != cap || st2.side(side) != st.side(side) {
                    self.viol(
                        "C17",
                        format!(
                            "a {:?} side sized for {} orders and full did not just turn one more away: {} resting, {:?}",
                            side,
                            cap,
                            st2.side(side).len(),
                            r
                        ),
                    );
                }
            }
        }
    }

    fn drain_probe(&mut self, m: u32, batch: u64) {
        let Some(mk) = self.markets.get(&m).cloned() else {
            return;
        };
        if mk.status != Status::Live || batch == 0 {
            return;
        }
        if !mk.st.q.is_empty() || !mk.st.bids.is_empty() || !mk.st.asks.is_empty() {
            self.act("C22");
        }
        self.stats.hit("drain probes");
        let mut bank = self.bank.clone();
        let waiting = mk.st.q.len() as u64;
        let need = waiting.div_ceil(batch);
        for _ in 0..need {
            let r = self.fork_exec(&mut bank, &mk.keys, &LibOp::Consume(batch));
            if let Err(e) = r {
                self.viol("C22", format!("consuming refused while draining: {:?}", e));
                return;
            }
        }
        let st = self.fork_state(&bank, &mk.keys);
        if !st.q.is_empty() {
            self.viol(
                "C22",
                format!(
                    "{} events still wait after {} consumptions of {} ({} waited before)",
                    st.q.len(),
                    need,
                    batch,
                    waiting
                ),
            );
            return;
        }
        // cancel in an order that depends on the batch, so that it varies between probes
        let mut ids: Vec<u128> = st.bids.iter().chain(st.asks.iter()).map(|o| o.id).collect();
        let n = ids.len();
        if n > 1 {
            ids.rotate_left((batch as usize).wrapping_mul(7) % n);
            if batch & 1 == 1 {
                ids.reverse();
            }
        }
        // one by one, or as many at a time as the batch says
        let at_once = if batch % 3 == 2 { n.clamp(1, 600) } else { (batch as usize).clamp(1, 64) };
        let by_mass = batch % 3 != 0;
        let all: BTreeMap<u128, u64> = st
            .bids
            .iter()
            .chain(st.asks.iter())
            .map(|o| (o.id, o.qty))
            .collect();
        let worth = |ids: &[u128]| {
            ids.iter().fold((0u128, 0u128), |(b, q), i| {
                let qty = all.get(i).copied().unwrap_or(0);
                (b + qty as u128, q + model::mul_floor(qty, (i >> 64) as u64))
            })
        };
        for part in ids.chunks(if by_mass { at_once } else { 1 }) {
            let (b, q) = worth(part);
            if by_mass && (b > u64::MAX as u128 || q > u64::MAX as u128) {
                // no summary could tell such sums
                for id in part {
                    if let Err(e) = self.fork_exec(&mut bank, &mk.keys, &LibOp::Cancel(*id)) {
                        self.viol(
                            "C22",
                            format!("a resting order could not be cancelled while draining: {:?}", e),
                        );
                        return;
                    }
                }
                continue;
            }
            let op = if by_mass {
                LibOp::Mass(part.to_vec())
            } else {
                LibOp::Cancel(part[0])
            };
            if let Err(e) = self.fork_exec(&mut bank, &mk.keys, &op) {
                self.viol(
                    "C22",
                    format!(
                        "{} resting orders could not be cancelled while draining: {:?}",
                        part.len(),
                        e
                    ),
                );
                return;
            }
        }
        let st = self.fork_state(&bank, &mk.keys);
        if !st.bids.is_empty() || !st.asks.is_empty() {
            self.viol(
                "C22",
                "orders still rest after each was cancelled once".into(),
            );
            return;
        }
        if let Err(e) = self.fork_exec(&mut bank, &mk.keys, &LibOp::Close) {
            self.viol("C22", format!("a drained market could not be closed: {:?}", e));
            return;
        }
        if mk.keys.iter().any(|k| bank.get(k).is_some()) {
            self.viol("C22", "rent is stuck in a closed market's accounts".into());
        }
    }

    /// Orders of `m` that rest, best first.
    pub fn resting(&self, m: u32, s: Side) -> Vec<Ord> {
        let mut v = self
            .markets
            .get(&m)
            .map(|x| x.st.side(s).clone())
            .unwrap_or_default();
        if s == Side::Bid {
            v.reverse();
        }
        v
    }
}
