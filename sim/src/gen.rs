//! The discrete-event generator: one seed decides the configuration, who acts when, what the
//! network does to every transaction, which faults strike. Every step it decides on is recorded
//! in concrete form, so that the record alone replays the run.
use crate::model;
use crate::ops::*;
use crate::rng::Rng;
use crate::rt::rent_min;
use crate::world::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::io::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Phase {
    Build,
    Trade,
    Sweep,
    Churn,
    Full,
    Wane,
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub mode: Mode,
    pub cb: CbKind,
    pub users: u32,
    nonce: u8,
    target: usize,
    markets: u32,
    size: u8,
    traders: u32,
    crankers: u32,
    think: u64,
    crank: u64,
    p_stall: f64,
    p_drop: f64,
    p_dup: f64,
    delay: u64,
    p_abort: f64,
    p_multi: f64,
    w_cancel: u32,
    w_mass: u32,
    w_consume: u32,
    w_adv: u32,
    w_raw: u32,
    w_ts: u32,
    q_small: bool,
    p_reg: f64,
    w_read: u32,
    w_fill: u32,
    w_drain: u32,
    w_restart: u32,
    w_age: u32,
    w_badcreate: u32,
    w_close: u32,
    w_fund: u32,
    stb: [u32; 3],
    p_post_only: f64,
    p_no_post: f64,
    p_badprice: f64,
    p_tight_quote: f64,
    p_small_ml: f64,
    p_stale: f64,
    p_invalid_close: f64,
    levels: u64,
    /// Prices that halve their distance from one end of the range: books as deep as they get.
    spread: f64,
    end_close: bool,
    min1: bool,
    n_creates: u32,
    batch1: bool,
    /// Orders resting before anything else happens.
    big: u64,
    /// Deep books are full to the last slot, on one side at least.
    brim: bool,
}

fn knobs(prop: &str, rng: &mut Rng, deep: bool) -> Knobs {
    let faulty = rng.p(0.75);
    let size = if deep {
        rng.weighted(&[35, 35, 30]) as u8
    } else {
        rng.weighted(&[55, 36, 9]) as u8
    };
    let mut target = match size {
        0 => rng.range(40, 220),
        1 => rng.range(120, 420),
        _ => rng.range(400, 1100),
    } as usize;
    if deep && rng.p(0.2) {
        target *= 3;
    }
    let opt = |rng: &mut Rng, p: f64, hi: f64| {
        if rng.p(p) {
            hi * (rng.below(1000) as f64 / 1000.0)
        } else {
            0.0
        }
    };
    let mode = if rng.p(0.3) { Mode::Entry } else { Mode::Lib };
    let cb = match mode {
        Mode::Entry => CbKind::B32,
        Mode::Lib => *rng.pick(&[CbKind::B32, CbKind::C40, CbKind::C8, CbKind::C33, CbKind::C3]),
    };
    let stb = match rng.below(4) {
        0 => [1, 0, 0],
        1 => [2, 3, 1],
        2 => [1, 2, 0],
        _ => [6, 2, 1],
    };
    let mut k = Knobs {
        mode,
        cb,
        users: rng.range(1, 7) as u32,
        nonce: rng.below(3) as u8,
        target,
        markets: if rng.p(0.2) { 2 } else { 1 },
        size,
        traders: rng.range(1, 5) as u32,
        crankers: rng.range(1, 2) as u32,
        think: 1 + rng.bits(9),
        crank: 1 + rng.bits(11),
        p_stall: opt(rng, 0.5, 0.2),
        p_drop: if faulty { opt(rng, 0.5, 0.25) } else { 0.0 },
        p_dup: if faulty { opt(rng, 0.5, 0.25) } else { 0.0 },
        delay: if faulty { rng.bits(12) } else { 1 },
        p_abort: if faulty { opt(rng, 0.4, 0.1) } else { 0.0 },
        p_multi: opt(rng, 0.4, 0.3),
        w_cancel: rng.range(2, 40) as u32,
        w_mass: rng.below(10) as u32,
        w_consume: rng.below(6) as u32,
        w_adv: 0,
        w_raw: 0,
        w_ts: 0,
        q_small: false,
        p_reg: 0.0,
        w_read: 1,
        w_fill: 0,
        w_drain: 0,
        w_restart: if faulty { rng.below(3) as u32 } else { 0 },
        w_age: if rng.p(0.3) { 2 } else { 0 },
        w_badcreate: 0,
        w_close: if rng.p(0.3) { 1 } else { 0 },
        w_fund: if rng.p(0.3) { 1 } else { 0 },
        stb,
        p_post_only: opt(rng, 0.5, 0.3),
        p_no_post: opt(rng, 0.6, 0.4),
        p_badprice: opt(rng, 0.5, 0.15),
        p_tight_quote: opt(rng, 0.7, 0.7),
        p_small_ml: opt(rng, 0.7, 0.7),
        p_stale: opt(rng, 0.7, 0.4),
        p_invalid_close: opt(rng, 0.3, 0.3),
        levels: *rng.pick(&[1u64, 2, 3, 5, 10, 30, 200, 5000]),
        spread: 0.07,
        end_close: rng.p(0.5),
        min1: rng.p(0.15),
        n_creates: 0,
        batch1: rng.p(0.15),
        big: 0,
        brim: false,
    };
    let lib_only = |k: &mut Knobs, rng: &mut Rng| {
        k.mode = Mode::Lib;
        k.cb = *rng.pick(&[CbKind::C40, CbKind::C8, CbKind::C33, CbKind::C3]);
    };
    match prop {
        "C01" => {
            k.levels = *rng.pick(&[1u64, 2, 3, 5, 10, 40]);
            k.spread = 0.2;
        }
        "C06" => {
            k.w_age = 4;
            k.w_cancel = 30;
            k.w_restart += 1;
        }
        "C08" => {
            k.users = rng.range(1, 3) as u32;
            k.stb = *rng.pick(&[[1, 4, 1], [1, 3, 0], [2, 4, 2]]);
            if rng.p(0.6) {
                lib_only(&mut k, rng);
            } else {
                k.nonce = 0;
            }
        }
        "C09" => {
            k.size = if rng.p(0.9) { 0 } else { 1 };
            k.w_cancel = rng.range(0, 12) as u32;
        }
        "C10" => {
            k.p_post_only = 0.25;
            k.p_no_post = 0.2;
            k.p_small_ml = 0.5;
        }
        "C12" => k.p_badprice = 0.15,
        "C13" => {
            k.w_cancel = rng.range(30, 70) as u32;
            k.w_mass = rng.range(4, 30) as u32;
            k.p_stale = 0.3;
        }
        "C14" => {
            k.markets = rng.range(1, 3) as u32;
            k.w_adv = 60;
            k.p_reg = 0.3;
            k.target = k.target.min(260);
            k.size = k.size.min(1);
        }
        "C15" => {
            k.w_badcreate = 60;
            k.target = k.target.min(160);
            k.size = k.size.min(1);
            k.w_close = 2;
        }
        "C16" => {
            k.w_close = 12;
            k.w_badcreate = 3;
            k.w_fund = 3;
            k.p_invalid_close = 0.5;
            k.size = k.size.min(1);
            k.end_close = true;
            k.target = k.target.min(250);
        }
        "C17" => {
            k.w_fill = 6;
            k.w_cancel = rng.range(5, 40) as u32;
            k.size = k.size.min(if rng.p(0.1) { 2 } else { 1 });
        }
        "C18" => {
            k.nonce = 1;
            if rng.p(0.8) {
                lib_only(&mut k, rng);
            }
            k.p_stall = 0.1;
        }
        "C19" => {
            k.markets = rng.range(1, 2) as u32;
            k.w_adv = 0;
            k.w_fill = 0;
            k.w_drain = 0;
            k.size = k.size.min(1);
            k.target = k.target.min(160);
            k.w_badcreate = 0;
            k.w_close = 1;
            k.w_restart = 0;
            k.w_age = 0;
            k.w_read = 0;
            k.p_abort = 0.0;
        }
        "C20" | "C21" => {
            k.crank = 1 + rng.bits(13);
            k.p_stall = 0.15;
            k.w_consume = rng.range(1, 8) as u32;
            k.w_restart += 1;
            if prop == "C21" {
                k.q_small = rng.p(0.7);
                k.crank = k.think * rng.range(10, 400);
                k.w_consume = rng.below(2) as u32;
                k.w_cancel = rng.range(1, 15) as u32;
            }
        }
        "C22" => {
            k.w_drain = 8;
            k.end_close = true;
        }
        "C23" => k.w_read = 40,
        "C24" => {
            k.users = rng.range(2, 6) as u32;
            if rng.p(0.5) {
                lib_only(&mut k, rng);
            }
            k.end_close = true;
        }
        "C25" => {
            k.mode = Mode::Entry;
            k.cb = CbKind::B32;
            k.w_mass = rng.range(2, 20) as u32;
            k.w_close = 1;
            k.w_badcreate = 1;
            k.end_close = true;
            k.p_multi = 0.2;
        }
        "C26" => {
            k.size = k.size.min(1);
            k.target = k.target.min(200);
        }
        "C31" => {
            k.w_ts = 30;
            k.target = k.target.min(80);
            k.size = 0;
            if rng.p(0.4) {
                k.mode = Mode::Entry;
                k.cb = CbKind::B32;
            }
        }
        "C30" => {
            k.size = 3;
            let top: f64 = match (deep, rng.p(0.15)) {
                (false, false) => 1_500.0,
                (false, true) => 9_000.0,
                (true, _) => 20_000.0,
            };
            k.big = (200.0 * (top / 200.0).powf(rng.below(1001) as f64 / 1000.0)) as u64;
            k.target = rng.range(20, 60) as usize;
            k.markets = 1;
            k.min1 = rng.p(0.5);
            k.p_tight_quote = 0.2;
            k.p_small_ml = 0.1;
            k.stb = [1, 0, 0];
            k.levels = *rng.pick(&[1u64, 5, 30, 200, 5000, 100_000]);
        }
        "C29" => {
            k.mode = Mode::Entry;
            k.cb = CbKind::B32;
            k.w_raw = 60;
            k.w_mass = rng.range(2, 20) as u32;
            k.target = k.target.min(260);
            k.size = k.size.min(1);
        }
        "C27" => {
            k.w_drain = 2;
            k.w_fill = 1;
            k.w_close = 2;
            k.w_badcreate = 2;
            k.end_close = true;
        }
        _ => {}
    }
    if prop != "C14" && prop != "C19" && rng.p(0.1) {
        k.w_adv = 3;
    }
    // deep books from the start
    if !matches!(prop, "C19" | "C30" | "C31") {
        let p_deep = match prop {
            "C01" | "C03" | "C04" | "C06" | "C07" | "C08" | "C09" | "C11" | "C13" | "C17" => 0.012,
            _ => 0.004,
        };
        if k.size == 2 && rng.p(0.3) {
            k.big = rng.range(20, 700);
        } else if rng.p(if deep { 0.03 } else { p_deep }) {
            k.size = 3;
            k.big = rng.range(300, 1500);
            k.target = k.target.min(120);
            k.brim = rng.p(if prop == "C09" { 0.6 } else { 0.15 });
        }
    }
    k.n_creates = if k.w_badcreate > 0 || k.w_close > 0 { 40 } else { 4 };
    k
}

struct MG {
    spread: u8,
    tick: u64,
    min: u64,
    c: u64,
    levels: u64,
    mid: u64,
    unit: u64,
    phase: Phase,
    bias: f64,
    left: u32,
}

enum GEv {
    Trader(u32),
    Crank(u32),
    Deliver(u32, Act),
    Admin,
}

pub struct Gen {
    pub w: World,
    rng: Rng,
    pub k: Knobs,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    pend: BTreeMap<u64, GEv>,
    seqn: u64,
    next_uid: u32,
    next_m: u32,
    mg: BTreeMap<u32, MG>,
    /// identifier of an order -> the step that posted it
    rev: BTreeMap<(u32, u128), (u32, u32)>,
    past: BTreeMap<u32, Vec<(u32, u32)>>,
    pub steps: Vec<Step>,
    live: Option<std::fs::File>,
    now: u64,
    focus: String,
    crank_stall: u64,
    nonce: u32,
    w_admin: Vec<u32>,
}

pub fn seed_of(seed: u64, index: u64, prop: &str) -> u64 {
    let mut h = crate::rng::Hash64::new();
    h.u64(seed);
    h.u64(index);
    h.bytes(prop.as_bytes());
    h.0
}

impl Gen {
    pub fn new(prop: &str, seed: u64, index: u64, deep: bool) -> Gen {
        let mut rng = Rng::new(seed_of(seed, index, prop));
        let k = knobs(prop, &mut rng, deep);
        let cfg = Cfg {
            mode: k.mode,
            cb: k.cb,
            users: k.users,
            focus: prop.to_string(),
        };
        let w_admin = vec![
            k.w_adv,
            k.w_read,
            k.w_fill,
            k.w_drain,
            k.w_restart,
            k.w_age,
            k.w_badcreate,
            k.w_close,
            k.w_fund,
            k.w_raw,
            k.w_ts,
        ];
        Gen {
            w: World::new(cfg),
            rng,
            k,
            heap: BinaryHeap::new(),
            pend: BTreeMap::new(),
            seqn: 0,
            next_uid: 1,
            next_m: 1,
            mg: BTreeMap::new(),
            rev: BTreeMap::new(),
            past: BTreeMap::new(),
            steps: vec![],
            live: None,
            now: 0,
            focus: prop.to_string(),
            crank_stall: 0,
            nonce: 0,
            w_admin,
        }
    }
    pub fn dump_live(&mut self, path: &str) {
        self.live = std::fs::File::create(path).ok();
        if let Some(f) = &mut self.live {
            let _ = writeln!(f, "{}", serde_json::to_string(&self.w.cfg).unwrap());
        }
    }
    fn uid(&mut self) -> u32 {
        self.next_uid += 1;
        self.next_uid - 1
    }
    fn at(&mut self, t: u64, e: GEv) {
        self.seqn += 1;
        self.heap.push(Reverse((t, self.seqn)));
        self.pend.insert(self.seqn, e);
    }
    fn emit(&mut self, uid: u32, act: Act) {
        let s = Step {
            uid,
            t: self.now,
            act,
        };
        if let Some(f) = &mut self.live {
            let _ = writeln!(f, "{}", serde_json::to_string(&s).unwrap());
        }
        self.w.apply(&s);
        if let Act::Tx { ops, .. } = &s.act {
            if self.w.last_ok {
                for (i, op) in ops.iter().enumerate() {
                    if let Some(id) = self.w.posted.get(&(uid, i as u32)) {
                        self.rev.insert((op.market(), *id), (uid, i as u32));
                        self.past
                            .entry(op.market())
                            .or_default()
                            .push((uid, i as u32));
                    }
                }
            }
        }
        if let Act::Grow { m, .. } = &s.act {
            for (k, id) in self.w.posted.range((uid, 0)..=(uid, u32::MAX)) {
                self.rev.insert((*m, *id), *k);
                self.past.entry(*m).or_default().push(*k);
            }
        }
        self.steps.push(s);
    }
    fn now_emit(&mut self, act: Act) {
        let u = self.uid();
        self.emit(u, act);
    }
    fn stop(&self) -> bool {
        self.w.tainted || self.w.viols.iter().any(|v| v.prop == self.focus)
    }

    fn live_markets(&self) -> Vec<u32> {
        self.w
            .markets
            .iter()
            .filter(|(_, m)| m.status == Status::Live)
            .map(|x| *x.0)
            .collect()
    }

    // ------------------------------------------------------------ markets

    fn spec(&mut self) -> MarketSpec {
        let r = &mut self.rng;
        let (lo, hi, qlo, qhi) = match self.k.size {
            0 => (1, 6, 5, 14),
            1 => (4, 40, 6, 90),
            3 => (self.k.big, self.k.big + 9, self.k.big / 2, self.k.big * 2),
            _ => (50, 420, 60, 700),
        };
        let bid_n = r.range(lo, hi) as u32;
        let ask_n = if r.p(0.5) {
            bid_n
        } else {
            r.range(lo, hi) as u32
        };
        let q_n = if self.k.q_small {
            r.range(5, 9) as u32
        } else if self.k.size < 2 && r.p(0.03) {
            r.range(200, 1500) as u32
        } else {
            r.range(qlo, qhi) as u32
        };
        let levels = self.k.levels;
        let tick = match r.below(9) {
            0 => 1 << 32,
            1 => 1,
            2 => 1,
            3 => r.bits(40).max(1),
            4 => 1 << r.range(28, 31),
            5 => (1 << 32) * 10,
            6 => 1000,
            7 => r.bits(50).max(1),
            _ => r.range(2, 100),
        };
        MarketSpec {
            bid_n,
            ask_n,
            q_n,
            min: {
                let _ = levels;
                1
            },
            tick,
            slack: if r.p(0.1) { r.range(1, 2) as u32 } else { 0 },
            extra: if r.p(0.2) { r.bits(40) } else { 0 },
            over: None,
            defect: None,
        }
    }
    fn market_gen(&mut self, spec: &mut MarketSpec) -> MG {
        let r = &mut self.rng;
        let spread = if r.p(self.k.spread) { r.range(1, 2) as u8 } else { 0 };
        if spread > 0 {
            spec.tick = 1 << *r.pick(&[0, 0, 3, 10, 20, 30, 32]);
        }
        let tick = spec.tick;
        let maxc = u64::MAX / tick;
        let levels = if spread > 0 {
            maxc.ilog2() as u64
        } else {
            self.k.levels.min(maxc.saturating_sub(1)).max(1)
        };
        // the window of prices, in ticks
        let c = match r.below(8) {
            0 => 1,
            1 => r.range(1, 50),
            2 | 3 => ((r.range(1, 2000) << 32) / tick).max(1),
            4 => ((1u64 << 32) / tick).max(1) + r.below(7),
            5 => (maxc - levels).max(1),
            6 => ((1u64 << 63) / tick).saturating_sub(levels / 2).max(1),
            _ => r.bits(63).max(1),
        }
        .min(maxc.saturating_sub(levels))
        .max(1);
        let c = match spread {
            0 => c,
            1 => 1 << r.range(0, levels / 2),
            _ => maxc / 2,
        };
        let p = (c as u128 * tick as u128).min(u64::MAX as u128) as u64;
        // quantities that are worth something at that price, most of the time
        let worth = ((1u128 << 32) / p as u128).max(1).min(u64::MAX as u128) as u64;
        let unit = if r.p(0.8) {
            worth.saturating_mul(1 + r.bits(8))
        } else {
            1 + r.bits(20)
        };
        let most = model::base_for(u64::MAX, p).max(1);
        let min = if self.k.min1 {
            1
        } else {
            match r.below(5) {
                0 => 1,
                1 => r.range(2, 12),
                2 => unit,
                3 => unit.saturating_mul(r.range(2, 10)),
                _ => 1 + r.bits(16),
            }
        };
        spec.min = min.min((most / 64).max(1)).max(1);
        MG {
            spread,
            tick,
            min: spec.min,
            c,
            levels,
            mid: levels / 2,
            unit: unit.min((most / 16).max(1)),
            phase: Phase::Build,
            bias: 0.5,
            left: 0,
        }
    }
    fn new_market(&mut self) -> Option<u32> {
        let m = self.next_m;
        self.next_m += 1;
        let mut spec = self.spec();
        let mg = self.market_gen(&mut spec);
        self.now_emit(Act::Tx {
            ops: vec![Op::Create { m, spec }],
            abort: None,
        });
        if self.w.markets.contains_key(&m) {
            self.mg.insert(m, mg);
            Some(m)
        } else {
            None
        }
    }

    // ------------------------------------------------------------ orders

    fn price(&self, g: &MG, k: u64) -> u64 {
        let k = k.min(g.levels);
        match g.spread {
            1 => return g.tick << k,
            2 => return (u64::MAX / g.tick - ((1 << (g.levels - k)) - 1)) * g.tick,
            _ => {}
        }
        let x = g.c as u128 + k as u128;
        (x * g.tick as u128).min((u64::MAX / g.tick * g.tick) as u128) as u64
    }
    fn qty(&mut self, g: &MG) -> u64 {
        let min = g.min;
        let r = &mut self.rng;
        match r.below(12) {
            0 => min,
            1 => min.saturating_add(1),
            2 => min.saturating_mul(2).saturating_sub(1),
            3 => min.saturating_mul(2),
            4 => min.saturating_add(r.below(min.min(1000))),
            5 | 6 => min.saturating_mul(r.range(1, 9)).saturating_add(r.below(3)),
            7 => g.unit.saturating_mul(r.range(1, 100)),
            8 => g.unit.saturating_mul(r.range(1, 20)).saturating_add(min),
            9 => min.saturating_add(r.bits(24)),
            10 => min.saturating_add(r.bits(40)),
            _ => g.unit.saturating_add(r.below(5)),
        }
    }
    fn new_order(&mut self, m: u32) -> Op {
        let Some(mut g) = self.mg.remove(&m) else {
            return Op::Consume { m, n: 1 };
        };
        // phases come and go
        if g.left == 0 {
            g.phase = *self.rng.pick(&[
                Phase::Build,
                Phase::Build,
                Phase::Trade,
                Phase::Trade,
                Phase::Sweep,
                Phase::Churn,
                Phase::Full,
                Phase::Wane,
            ]);
            if self.focus == "C09" && self.rng.p(0.6) {
                g.phase = Phase::Full;
            }
            g.left = self.rng.range(5, 40) as u32;
            g.bias = *self.rng.pick(&[0.5, 0.5, 0.5, 0.1, 0.9]);
            g.mid = self.rng.range(0, g.levels);
        }
        g.left -= 1;
        let side = if self.rng.p(g.bias) {
            Side::Bid
        } else {
            Side::Ask
        };
        let opp = self.w.resting(m, side.opp());
        let own = self.w.resting(m, side);
        let aggressive = match g.phase {
            Phase::Build => 0.12,
            Phase::Trade => 0.5,
            Phase::Sweep => 0.85,
            Phase::Churn => 0.15,
            Phase::Full => 0.05,
            Phase::Wane => 0.4,
        };
        let user = self.rng.below(self.k.users as u64) as u32;
        self.nonce += 1;
        let nonce = match self.k.nonce {
            0 => 0,
            1 => self.nonce,
            _ => self.rng.below(3) as u32,
        };
        let stb = match self.rng.weighted(&self.k.stb) {
            0 => Stb::Decrement,
            1 => Stb::Cancel,
            _ => Stb::Abort,
        };
        let mut p = NewP {
            side,
            limit: 0,
            base: self.qty(&g),
            quote: u64::MAX,
            ml: u64::MAX,
            user,
            nonce,
            post_only: self.rng.p(self.k.p_post_only),
            post_allowed: !self.rng.p(self.k.p_no_post),
            stb,
        };
        let better = |x: u64, n: u64| match side {
            Side::Bid => x.saturating_add(g.tick.saturating_mul(n)),
            Side::Ask => x.saturating_sub(g.tick.saturating_mul(n)),
        };
        let worse = |x: u64, n: u64| match side {
            Side::Bid => x.saturating_sub(g.tick.saturating_mul(n)),
            Side::Ask => x.saturating_add(g.tick.saturating_mul(n)),
        };
        if !opp.is_empty() && self.rng.p(aggressive) {
            // into the book: as deep as d orders
            let d = match self.rng.below(6) {
                0 | 1 => 1,
                2 | 3 => self.rng.range(1, opp.len().min(4) as u64),
                4 => self.rng.range(1, opp.len() as u64),
                _ => opp.len() as u64,
            } as usize;
            p.limit = match self.rng.below(8) {
                0 => better(opp[d - 1].price(), 1),
                1 => better(opp[d - 1].price(), self.rng.range(1, g.levels)),
                2 => worse(opp[d - 1].price(), 1),
                3 => opp[0].price(),
                _ => opp[d - 1].price(),
            };
            let mut sum = 0u64;
            let mut cost = 0u128;
            let n = d;
            for o in opp.iter().take(n) {
                sum = sum.saturating_add(o.qty);
                cost += model::fill_quote(side, o.qty, o.price());
            }
            let last = opp[n - 1].qty;
            let min = g.min;
            p.base = match self.rng.below(14) {
                0 | 1 => sum,
                2 => sum.saturating_sub(1),
                3 => sum.saturating_add(1),
                4 => sum.saturating_sub(min),
                5 => sum.saturating_sub(min.saturating_sub(1)),
                6 => sum.saturating_sub(min.saturating_add(1)),
                7 => sum.saturating_add(min),
                8 => sum.saturating_add(min.saturating_sub(1)),
                9 => sum.saturating_sub(self.rng.below(last.max(1))),
                10 => u64::MAX,
                11 => sum.saturating_add(self.qty(&g)),
                12 => self.rng.range(0, min),
                _ => p.base,
            };
            if self.rng.p(self.k.p_tight_quote) {
                let c = cost.min(u64::MAX as u128) as u64;
                let lastp = opp[n - 1].price();
                let per = model::mul_ceil(1, lastp).min(u64::MAX as u128) as u64;
                p.quote = match self.rng.below(12) {
                    0 | 1 => c,
                    2 => c.saturating_sub(1),
                    3 => c.saturating_add(1),
                    4 => c.saturating_sub(self.rng.below(per.max(1))),
                    5 => c.saturating_add(self.rng.below(per.max(1))),
                    6 => self.rng.range(0, c),
                    7 => c.saturating_add(
                        model::mul_ceil(min, p.limit).min(u64::MAX as u128) as u64,
                    ),
                    8 => c
                        .saturating_add(model::mul_ceil(min, p.limit).min(u64::MAX as u128) as u64)
                        .saturating_sub(1),
                    9 => self.rng.range(0, per.saturating_mul(3)),
                    10 => 0,
                    _ => c.saturating_mul(2),
                };
                if self.rng.p(0.6) {
                    p.base = u64::MAX;
                }
            }
            if self.rng.p(self.k.p_small_ml) {
                p.ml = match self.rng.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => n as u64,
                    3 => n as u64 + 1,
                    4 => (n as u64).saturating_sub(1),
                    _ => self.rng.range(0, 6),
                };
            }
        } else {
            // to rest
            let lim = opp.first().map(|o| o.price());
            p.limit = match g.phase {
                Phase::Full if !own.is_empty() => {
                    let w = own[own.len() - 1].price();
                    match self.rng.below(5) {
                        0 => w,
                        1 => worse(w, 1),
                        2 => better(w, 1),
                        3 => better(w, self.rng.range(1, 3)),
                        _ => own[self.rng.below(own.len() as u64) as usize].price(),
                    }
                }
                _ => {
                    let kk = match side {
                        Side::Bid => self.rng.range(0, g.mid),
                        Side::Ask => self.rng.range(g.mid, g.levels),
                    };
                    match self.rng.below(8) {
                        0 if !own.is_empty() => own[0].price(),
                        1 if !own.is_empty() => better(own[0].price(), 1),
                        2 if lim.is_some() => worse(lim.unwrap_or(0), 1),
                        _ => self.price(&g, kk),
                    }
                }
            };
            // usually stay out of the other side's way
            if let Some(l) = lim {
                if model::crosses(side, p.limit, l) && !self.rng.p(0.15) {
                    p.limit = worse(l, self.rng.range(1, 3));
                }
            }
            if self.rng.p(self.k.p_tight_quote * 0.5) {
                let c = model::mul_ceil(p.base, p.limit).min(u64::MAX as u128) as u64;
                let m0 = model::mul_ceil(g.min, p.limit).min(u64::MAX as u128) as u64;
                p.quote = match self.rng.below(7) {
                    0 => c,
                    1 => c.saturating_sub(1),
                    2 => c.saturating_add(1),
                    3 => m0,
                    4 => m0.saturating_sub(1),
                    5 => self.rng.range(0, c),
                    _ => c / 2,
                };
            }
            if self.rng.p(self.k.p_small_ml * 0.3) {
                p.ml = self.rng.below(3);
            }
        }
        // a multiple of the tick, at least one
        p.limit = (p.limit / g.tick).max(1).saturating_mul(g.tick);
        if self.rng.p(0.03) {
            p.base = *self
                .rng
                .pick(&[0, 1, g.min - 1, g.min, u64::MAX, 1 << 63, 1 << 32]);
        }
        if self.rng.p(0.02) {
            p.limit = (u64::MAX / g.tick) * g.tick;
        }
        if self.rng.p(self.k.p_badprice) {
            p.limit = match self.rng.below(6) {
                0 => 0,
                1 => g.tick.saturating_sub(1),
                2 => p.limit.saturating_add(1),
                3 => p.limit.saturating_sub(1),
                4 => p.limit.saturating_add(self.rng.below(g.tick)),
                _ => self.rng.bits(64),
            };
        }
        self.mg.insert(m, g);
        Op::New { m, p }
    }

    fn oref(&mut self, m: u32, id: u128) -> ORef {
        match self.rev.get(&(m, id)) {
            Some((u, i)) => ORef::Posted(*u, *i),
            None => ORef::Raw(id),
        }
    }
    fn stale_ref(&mut self, m: u32) -> ORef {
        let past = self.past.get(&m).cloned().unwrap_or_default();
        let r = self.rng.below(6);
        if past.is_empty() || r == 0 {
            return ORef::Raw(match self.rng.below(4) {
                0 => 0,
                1 => u128::MAX,
                2 => self.rng.next() as u128,
                _ => ((self.rng.next() as u128) << 64) | self.rng.next() as u128,
            });
        }
        let recent = past.len().saturating_sub(self.rng.range(1, 30) as usize);
        let at = if self.rng.p(0.5) {
            recent
        } else {
            self.rng.below(past.len() as u64) as usize
        };
        let (u, i) = past[at];
        match r {
            1 | 2 => ORef::Near(u, i, 1u128 << self.rng.below(128)),
            3 => ORef::Near(u, i, self.rng.range(1, 7) as u128),
            _ => ORef::Posted(u, i),
        }
    }
    fn some_resting(&mut self, m: u32) -> Option<u128> {
        let s = if self.rng.p(0.5) { Side::Bid } else { Side::Ask };
        let mut v = self.w.resting(m, s);
        if v.is_empty() {
            v = self.w.resting(m, s.opp());
        }
        if v.is_empty() {
            return None;
        }
        let i = match self.rng.below(5) {
            0 => 0,
            1 => v.len() - 1,
            _ => self.rng.below(v.len() as u64) as usize,
        };
        Some(v[i].id)
    }
    fn cancel(&mut self, m: u32) -> Op {
        let o = if self.rng.p(self.k.p_stale) {
            self.stale_ref(m)
        } else {
            match self.some_resting(m) {
                Some(id) => self.oref(m, id),
                None => self.stale_ref(m),
            }
        };
        Op::Cancel { m, o }
    }
    fn mass(&mut self, m: u32) -> Op {
        let mut ids: Vec<u128> = vec![];
        let (b, a) = (self.w.resting(m, Side::Bid), self.w.resting(m, Side::Ask));
        match self.rng.below(6) {
            0 => ids.extend(b.iter().map(|o| o.id)),
            1 => ids.extend(b.iter().chain(a.iter()).map(|o| o.id)),
            2 => ids.extend(a.iter().rev().map(|o| o.id)),
            _ => {
                let n = self.rng.range(0, 6);
                for _ in 0..n {
                    if let Some(x) = self.some_resting(m) {
                        if !ids.contains(&x) {
                            ids.push(x);
                        }
                    }
                }
            }
        }
        // a transaction carries about sixty identifiers, a call from another program hundreds
        let most = match self.k.mode {
            _ if self.rng.p(0.4) => 60,
            Mode::Entry => 240,
            Mode::Lib => 600,
        };
        ids.truncate(most);
        let mut os: Vec<ORef> = vec![];
        for id in ids {
            let o = self.oref(m, id);
            os.push(o);
        }
        if self.rng.p(0.08) && !os.is_empty() {
            let x = self.rng.pick(&os).clone();
            os.push(x);
        }
        if self.rng.p(self.k.p_stale * 0.5) {
            let x = self.stale_ref(m);
            let at = self.rng.range(0, os.len() as u64) as usize;
            os.insert(at, x);
        }
        Op::Mass { m, os }
    }
    fn consume(&mut self, m: u32) -> Op {
        let len = self.w.markets.get(&m).map(|x| x.st.q.len()).unwrap_or(0) as u64;
        let n = if self.k.batch1 && self.rng.p(0.9) {
            self.rng.range(1, 2)
        } else {
            match self.rng.below(9) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => len,
                4 => len + 1,
                5 => len.saturating_sub(1),
                6 => *self.rng.pick(&[u64::MAX, 1 << 32, 1 << 63, 65536]),
                _ => self.rng.range(0, len.max(1)),
            }
        };
        Op::Consume { m, n }
    }
    fn trader_op(&mut self, m: u32) -> Op {
        let wane = self
            .mg
            .get(&m)
            .map(|g| match g.phase {
                Phase::Churn => 2,
                Phase::Wane => 4,
                Phase::Full => 0,
                _ => 1,
            })
            .unwrap_or(1);
        let w = [
            60,
            self.k.w_cancel * wane,
            self.k.w_mass * wane.min(2),
            self.k.w_consume,
        ];
        match self.rng.weighted(&w) {
            0 => self.new_order(m),
            1 => self.cancel(m),
            2 => self.mass(m),
            _ => self.consume(m),
        }
    }

    /// The network: what happens to a submitted transaction on its way to the ledger.
    fn submit(&mut self, uid: u32, ops: Vec<Op>) {
        let mut d = 1 + self.rng.below(self.k.delay.max(1));
        if self.rng.p(self.k.p_drop) {
            self.w.stats.hit("fault:transaction lost");
            return;
        }
        let abort = if self.rng.p(self.k.p_abort) {
            Some(1 + self.rng.bits(9) as u32)
        } else {
            None
        };
        if self.rng.p(0.03) && self.k.delay > 1 {
            d += self.k.delay * 8;
            self.w.stats.hit("fault:transaction long delayed");
        }
        if d > self.k.think {
            self.w.stats.hit("fault:transaction reordered or delayed");
        }
        if self.rng.p(self.k.p_dup) {
            // the duplicate is another transaction as far as the ledger is concerned
            let nu = self.uid();
            let mut again = ops.clone();
            let fix = |o: &mut ORef| match o {
                ORef::Posted(u, _) | ORef::Near(u, _, _) if *u == uid => *u = nu,
                _ => {}
            };
            for op in &mut again {
                match op {
                    Op::Cancel { o, .. } => fix(o),
                    Op::Mass { os, .. } => os.iter_mut().for_each(fix),
                    _ => {}
                }
            }
            let e = 1 + self.rng.below(self.k.delay.max(1) * 3);
            self.w.stats.hit("fault:transaction duplicated");
            self.at(
                self.now + e,
                GEv::Deliver(
                    nu,
                    Act::Tx {
                        ops: again,
                        abort: None,
                    },
                ),
            );
        }
        self.at(self.now + d, GEv::Deliver(uid, Act::Tx { ops, abort }));
    }
    fn trader(&mut self) {
        let ms = self.live_markets();
        if ms.is_empty() {
            return;
        }
        let uid = self.uid();
        let mut ops = vec![];
        let n = if self.rng.p(self.k.p_multi) {
            self.rng.range(2, 4)
        } else {
            1
        };
        for i in 0..n {
            let m = *self.rng.pick(&ms);
            if i > 0 && self.rng.p(0.3) {
                // on an order of this very transaction
                let o = ORef::Posted(uid, self.rng.below(i) as u32);
                ops.push(if self.rng.p(0.7) {
                    Op::Cancel { m, o }
                } else {
                    Op::Mass { m, os: vec![o] }
                });
            } else {
                let op = self.trader_op(m);
                ops.push(op);
            }
        }
        self.submit(uid, ops);
    }

    // ------------------------------------------------------------ administration, faults, probes

    fn roles_of(op: &Op) -> &'static [Role] {
        match op {
            Op::Consume { .. } => &[Role::Market, Role::Queue],
            _ => &ROLES4,
        }
    }
    fn adversary(&mut self, m: u32) {
        // an operation that would succeed, mostly
        let op = match self.rng.below(6) {
            0 | 1 => self.new_order(m),
            2 => match self.some_resting(m) {
                Some(id) => {
                    let o = self.oref(m, id);
                    Op::Cancel { m, o }
                }
                None => Op::Consume { m, n: 1 },
            },
            3 => self.mass(m),
            4 => Op::Close { m },
            _ => self.consume(m),
        };
        let all: Vec<u32> = self.w.markets.keys().copied().collect();
        if self.k.mode == Mode::Entry && self.rng.p(self.k.p_reg) {
            // the account the result is written to
            let reg = Some((*self.rng.pick(&all), *self.rng.pick(&ROLES4)));
            self.now_emit(Act::Adv {
                op,
                subs: vec![],
                reg,
            });
            return;
        }
        let n = self.rng.weighted(&[0, 80, 15, 5]);
        let mut subs: Vec<(Role, Sub)> = vec![];
        for _ in 0..n {
            let role = *self.rng.pick(Self::roles_of(&op));
            if subs.iter().any(|s| s.0 == role) {
                continue;
            }
            let sub = match self.rng.below(8) {
                0 | 1 => {
                    let o = *self.rng.pick(&all);
                    // likely the same role of another market
                    let r2 = if self.rng.p(0.6) {
                        role
                    } else {
                        *self.rng.pick(&ROLES4)
                    };
                    Sub::Of(o, r2)
                }
                2 => Sub::Copy,
                3 => Sub::ForeignCopy,
                4 => Sub::Reowned,
                5 => Sub::Tag(*self.rng.pick(&[0, 1, 127, 129, 130, 131, 132, 255])),
                6 => Sub::FakeMarket {
                    min: 1,
                    tick: *self.rng.pick(&[1, 2, 1 << 32]),
                },
                _ => Sub::Missing,
            };
            let sub = match (&sub, role) {
                (Sub::Tag(_), Role::Market) | (Sub::FakeMarket { .. }, Role::Market) => sub,
                (Sub::Tag(_), _) => Sub::Copy,
                (Sub::FakeMarket { .. }, _) => Sub::Reowned,
                (Sub::Copy, Role::Market) => Sub::ForeignCopy,
                _ => sub,
            };
            subs.push((role, sub));
        }
        self.now_emit(Act::Adv {
            op,
            subs,
            reg: None,
        });
    }
    /// A wallet, a proxy, a broken client: instruction bytes or account lists that are not what
    /// the published builders make.
    fn raw(&mut self, m: u32) {
        let op = match self.rng.below(12) {
            0..=2 => self.new_order(m),
            3 | 4 => match self.some_resting(m) {
                Some(id) => {
                    let o = self.oref(m, id);
                    Op::Cancel { m, o }
                }
                None => Op::Consume { m, n: 1 },
            },
            5 | 6 => self.mass(m),
            7 => Op::Close { m },
            8 => {
                let mut spec = self.spec();
                self.market_gen(&mut spec);
                Op::Create { m, spec }
            }
            _ => self.consume(m),
        };
        let (len, code) = match &op {
            Op::Create { .. } => (17, 0),
            Op::New { .. } => (69, 1),
            Op::Consume { .. } => (9, 2),
            Op::Cancel { .. } => (17, 3),
            Op::Close { .. } => (1, 4),
            Op::Mass { os, .. } => (5 + 16 * os.len() as u64, 5),
            _ => return,
        };
        let r = &mut self.rng;
        let mut how = vec![];
        for _ in 0..r.weighted(&[0, 80, 20]) {
            how.push(match r.below(12) {
                0 => Corrupt::Cut(r.below(len) as u32),
                1 => Corrupt::Cut((len - 1).saturating_sub(r.below(3)) as u32),
                2 => Corrupt::Tail((0..r.range(1, 20)).map(|_| r.next() as u8).collect()),
                3 => Corrupt::Tail(vec![0; r.range(1, 17) as usize]),
                4 | 5 => Corrupt::Flip(r.below(len * 8) as u32),
                6 => Corrupt::Set(0, *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 254, 255])),
                7 => Corrupt::Set(r.below(len) as u32, r.next() as u8),
                8 | 9 if code == 1 => Corrupt::Set(
                    *r.pick(&[25, 66, 67, 68]),
                    *r.pick(&[0, 1, 2, 3, 4, 128, 255]),
                ),
                8 | 9 if code == 5 => match r.below(3) {
                    0 => Corrupt::Set(1, (len / 16) as u8 + 1),
                    1 => Corrupt::Set(1, r.below(len / 16 + 1) as u8),
                    _ => Corrupt::Set(r.range(2, 4) as u32, r.next() as u8),
                },
                8 | 9 => Corrupt::Flip(r.below(len * 8) as u32),
                _ => Corrupt::Leave(r.below(6) as u32),
            });
        }
        self.now_emit(Act::Raw { op, how });
    }
    fn bad_create(&mut self) {
        if self.k.n_creates == 0 {
            return;
        }
        self.k.n_creates -= 1;
        let m = self.next_m;
        self.next_m += 1;
        let all: Vec<u32> = self.w.markets.keys().copied().collect();
        let mut spec = self.spec();
        let mg = self.market_gen(&mut spec);
        let role = *self.rng.pick(&ROLES4);
        match self.rng.below(15) {
            12..=14 => {
                let role = if self.rng.p(0.8) {
                    *self.rng.pick(&[Role::Queue, Role::Bids, Role::Asks])
                } else {
                    role
                };
                // quantities are chosen by who sends the orders; round ones leave the tag clear
                let mut x = [0u64; 3];
                for y in &mut x {
                    *y = match self.rng.below(5) {
                        0 => 0,
                        1 => self.rng.bits(64),
                        2 => self.rng.range(1, 9) << self.rng.pick(&[48, 16, 32, 56]),
                        3 => self.rng.range(1, 200) << 48,
                        _ => self.rng.bits(16),
                    };
                }
                let mut id = None;
                if self.rng.p(0.4) {
                    // the first ask of a market has sequence number zero
                    let seq = if self.rng.p(0.8) { 0 } else { self.rng.bits(20) };
                    id = Some((self.rng.bits(64) as u128) << 64 | seq as u128);
                }
                spec.defect = Some(Defect::Smear(role, id, x));
            }
            0 => spec.defect = Some(Defect::RentShort(role)),
            1 => spec.defect = Some(Defect::Owner(role)),
            2 | 3 => {
                let cb = self.k.cb.len() as i64;
                let d = match self.rng.below(9) {
                    0 => -1,
                    1 => 1,
                    2 => cb,
                    3 => -cb,
                    4 => 40 + 2 * cb,
                    5 => 56 + cb,
                    6 => -(self.rng.bits(14) as i64),
                    7 => -100_000_000,
                    _ => self.rng.bits(8) as i64,
                };
                spec.defect = Some(Defect::Size(role, d));
            }
            4 => {
                let t = *self.rng.pick(&[1, 128, 129, 130, 131, 132, 255]);
                spec.defect = Some(Defect::Tag(role, t));
            }
            5 => {
                let r2 = *self.rng.pick(&ROLES4);
                if r2 != role {
                    spec.defect = Some(Defect::Alias(role, r2));
                }
            }
            6 | 7 => {
                if !all.is_empty() {
                    let o = *self.rng.pick(&all);
                    let r2 = if self.rng.p(0.5) {
                        role
                    } else {
                        *self.rng.pick(&ROLES4)
                    };
                    spec.defect = Some(Defect::Taken(role, o, r2));
                }
            }
            8 => spec.defect = Some(Defect::ZeroMin),
            9 => spec.defect = Some(Defect::ZeroTick),
            10 => {
                if !all.is_empty() {
                    spec.over = Some(*self.rng.pick(&all));
                }
            }
            _ => {
                // unusual but proper
                match self.rng.below(3) {
                    0 => spec.q_n = 5,
                    1 => {
                        spec.bid_n = 1;
                        spec.ask_n = 1
                    }
                    _ => spec.q_n = self.rng.range(1, 4) as u32,
                }
            }
        }
        let mut ops = vec![];
        if self.rng.p(0.15) {
            // rolled back or not as a whole with a proper neighbour
            if let Some(x) = self.live_markets().first() {
                let op = self.trader_op(*x);
                ops.push(op);
            }
        }
        ops.push(Op::Create { m, spec });
        if self.rng.p(0.1) {
            ops.push(Op::Consume { m, n: 1 });
        }
        self.now_emit(Act::Tx { ops, abort: None });
        if self.w.markets.contains_key(&m) {
            self.mg.insert(m, mg);
        }
    }
    fn fund(&mut self, m: u32) -> Op {
        let role = *self.rng.pick(&ROLES4);
        Op::Fund {
            m,
            role,
            lamports: 1 + self.rng.bits(40),
        }
    }
    /// Attempts to close: early, in time, twice, with attempts to live on.
    fn closing(&mut self, m: u32) {
        let uid = self.uid();
        let mk = match self.w.markets.get(&m) {
            Some(x) => x.clone(),
            None => return,
        };
        if !self.rng.p(self.k.p_invalid_close) && mk.status == Status::Live {
            self.empty(m, true);
            if self.stop() {
                return;
            }
        }
        let mut ops = vec![];
        if self.rng.p(0.3) {
            let f = self.fund(m);
            ops.push(f);
        }
        ops.push(Op::Close { m });
        let kind = self.rng.below(7);
        let mut revive = |ops: &mut Vec<Op>, w: &World| {
            for r in ROLES4 {
                let len = w
                    .bank
                    .get(&mk.keys[r as usize])
                    .map(|a| a.data.len())
                    .unwrap_or(0);
                ops.push(Op::Fund {
                    m,
                    role: r,
                    lamports: rent_min(len),
                });
            }
        };
        match kind {
            0 => {
                revive(&mut ops, &self.w);
                ops.push(Op::Close { m });
            }
            1 => {
                revive(&mut ops, &self.w);
                let op = self.trader_op(m);
                ops.push(op);
            }
            2 | 3 => {
                // leave funded remains behind
                revive(&mut ops, &self.w);
            }
            4 => {
                revive(&mut ops, &self.w);
                let over = Some(m);
                let m2 = self.next_m;
                self.next_m += 1;
                let mut spec = self.spec();
                spec.over = over;
                ops.push(Op::Create { m: m2, spec });
            }
            _ => {}
        }
        self.emit(uid, Act::Tx { ops, abort: None });
        if self.stop() {
            return;
        }
        // life after closing
        let dead = self
            .w
            .markets
            .get(&m)
            .map(|x| x.status == Status::Closed)
            .unwrap_or(false);
        if dead {
            for _ in 0..self.rng.range(0, 4) {
                let op = match self.rng.below(6) {
                    0 => Op::Close { m },
                    1 => Op::Consume { m, n: 1 },
                    2 => Op::Cancel {
                        m,
                        o: self.stale_ref(m),
                    },
                    3 => {
                        let m2 = self.next_m;
                        self.next_m += 1;
                        let mut spec = self.spec();
                        spec.over = Some(m);
                        Op::Create { m: m2, spec }
                    }
                    4 => {
                        let m2 = self.next_m;
                        self.next_m += 1;
                        let mut spec = self.spec();
                        let r = *self.rng.pick(&ROLES4);
                        spec.defect = Some(Defect::Taken(r, m, r));
                        Op::Create { m: m2, spec }
                    }
                    _ => self.new_order(m),
                };
                self.now_emit(Act::Tx {
                    ops: vec![op],
                    abort: None,
                });
                if self.stop() {
                    return;
                }
            }
            if self.live_markets().is_empty() && self.next_m < 30 {
                self.new_market();
            }
        }
    }
    /// Bring a market to emptiness through ordinary operations.
    fn empty(&mut self, m: u32, mass: bool) {
        for _ in 0..2000 {
            let Some(mk) = self.w.markets.get(&m) else { return };
            if mk.status != Status::Live || self.stop() {
                return;
            }
            if !mk.st.q.is_empty() {
                let n = self.rng.range(1, mk.st.q.len() as u64);
                let n = n.max(mk.st.q.len() as u64 / 3);
                self.now_emit(Act::Tx {
                    ops: vec![Op::Consume { m, n }],
                    abort: None,
                });
            } else if let Some(id) = self.some_resting(m) {
                let big = self.w.markets.get(&m).map(|x| x.st.bids.len() + x.st.asks.len());
                let op = if mass && (self.rng.p(0.5) || big > Some(40)) {
                    let ids: Vec<u128> = self
                        .w
                        .resting(m, if self.rng.p(0.5) { Side::Bid } else { Side::Ask })
                        .iter()
                        .take(40)
                        .map(|o| o.id)
                        .collect();
                    let mut os = vec![];
                    for i in ids {
                        let o = self.oref(m, i);
                        os.push(o);
                    }
                    Op::Mass { m, os }
                } else {
                    let o = self.oref(m, id);
                    Op::Cancel { m, o }
                };
                self.now_emit(Act::Tx {
                    ops: vec![op],
                    abort: None,
                });
            } else {
                return;
            }
        }
    }
    fn admin(&mut self) {
        let all: Vec<u32> = self.w.markets.keys().copied().collect();
        if all.is_empty() {
            return;
        }
        let lives = self.live_markets();
        let m = if lives.is_empty() {
            *self.rng.pick(&all)
        } else {
            *self.rng.pick(&lives)
        };
        let wa = self.w_admin.clone();
        match self.rng.weighted(&wa) {
            0 => self.adversary(m),
            1 => {
                let probe = self.rng.next();
                self.now_emit(Act::Read { m, probe })
            }
            2 => {
                let side = if self.rng.p(0.5) { Side::Bid } else { Side::Ask };
                let other = self.rng.below(1 << 20) as u32;
                self.now_emit(Act::FillProbe { m, side, other })
            }
            3 => {
                let batch = match self.rng.below(4) {
                    0 => 1,
                    1 => self.rng.range(1, 5),
                    2 => u64::MAX,
                    _ => self.rng.range(1, 100),
                };
                self.now_emit(Act::DrainProbe { m, batch })
            }
            4 => {
                let shift = self.rng.below(4) as u32;
                self.now_emit(Act::Restart { shift })
            }
            5 => self.age(m),
            6 => self.bad_create(),
            7 => {
                if self.k.n_creates > 0 {
                    self.k.n_creates -= 1;
                    self.closing(m);
                }
            }
            9 => self.raw(m),
            10 => {
                let r = &mut self.rng;
                let act = Act::TsCreate {
                    orders: 1 + r.bits(10) as u32,
                    events: 5 + r.bits(10) as u32,
                    min: r.bits(64).max(1),
                    tick: r.bits(64).max(1),
                };
                self.now_emit(act)
            }
            _ => {
                let f = self.fund(m);
                self.now_emit(Act::Tx {
                    ops: vec![f],
                    abort: None,
                })
            }
        }
    }
    fn age(&mut self, m: u32) {
        let idle = self
            .w
            .markets
            .get(&m)
            .map(|x| x.st.bids.is_empty() && x.st.asks.is_empty() && x.st.q.is_empty())
            .unwrap_or(false);
        if !idle {
            return;
        }
        let cur = self.w.markets.get(&m).map(|x| x.st.seq).unwrap_or(0);
        let b = *self.rng.pick(&[8u64, 16, 31, 32, 32, 33, 48, 53, 62]);
        let seq = cur.max((1u64 << b).saturating_sub(self.rng.range(0, 12)));
        let head = self.rng.next() >> 1;
        self.now_emit(Act::Age { m, seq, head });
    }

    /// A deep book before the trading starts.
    fn build_up(&mut self) {
        let Some(m) = self.live_markets().first().copied() else {
            return;
        };
        let (n_b, n_a) = match self.w.markets.get(&m) {
            Some(x) => (x.mp.bid_n as u64, x.mp.ask_n as u64),
            None => return,
        };
        let (bids, asks) = if self.k.brim {
            // to the brim, or one order short of it
            let short = self.rng.below(2);
            if self.rng.p(0.5) {
                (n_b - short.min(n_b), self.rng.range(0, 8))
            } else {
                (self.rng.range(0, 8), n_a - short.min(n_a))
            }
        } else {
            let bids = self.rng.range(0, self.k.big.min(n_b));
            (bids, (self.k.big - bids).min(n_a))
        };
        let Some(g) = self.mg.get(&m) else { return };
        let act = Act::Grow {
            m,
            bids: bids as u32,
            asks: asks as u32,
            low: g.c,
            levels: g.levels,
            qty: g.unit.max(g.min).saturating_mul(4),
            seed: self.rng.next(),
        };
        self.now_emit(act);
        if let Some(g) = self.mg.get_mut(&m) {
            if self.k.brim && self.rng.p(0.7) {
                g.phase = Phase::Full;
                g.left = 60;
            } else if self.k.size == 3 || self.rng.p(0.5) {
                g.phase = Phase::Sweep;
                g.left = 1000;
            }
        }
    }

    // ------------------------------------------------------------ the run

    pub fn run(&mut self) {
        for _ in 0..self.k.markets {
            let m = self.new_market();
            if let Some(m) = m {
                if self.k.w_age > 0 && self.rng.p(0.6) {
                    self.age(m);
                }
            }
            if self.stop() {
                return;
            }
        }
        if self.k.big > 0 {
            self.build_up();
        }
        for i in 0..self.k.traders {
            let t = self.rng.below(self.k.think + 1);
            self.at(t, GEv::Trader(i));
        }
        for i in 0..self.k.crankers {
            let t = self.rng.below(self.k.crank + 1);
            self.at(t, GEv::Crank(i));
        }
        let wsum: u32 = self.w_admin.iter().sum();
        // about one administrative action per (60 / weight) trader actions
        let per = (self.k.think * 60 / (self.k.traders as u64) / (wsum as u64 + 1)).max(1);
        let t = self.rng.below(per + 1);
        self.at(t, GEv::Admin);
        let mut guard = 0u64;
        while let Some(Reverse((t, n))) = self.heap.pop() {
            guard += 1;
            if self.steps.len() >= self.k.target || self.stop() || guard > 200_000 {
                break;
            }
            self.now = self.now.max(t);
            match self.pend.remove(&n) {
                Some(GEv::Trader(i)) => {
                    self.trader();
                    let d = 1 + self.rng.below(2 * self.k.think);
                    self.at(self.now + d, GEv::Trader(i));
                }
                Some(GEv::Crank(i)) => {
                    if self.now >= self.crank_stall {
                        if self.rng.p(self.k.p_stall) {
                            self.crank_stall = self.now + self.k.crank * self.rng.range(2, 30);
                            self.w.stats.hit("fault:stalled consumer");
                        } else {
                            let ms = self.live_markets();
                            if !ms.is_empty() {
                                let m = *self.rng.pick(&ms);
                                let op = self.consume(m);
                                let uid = self.uid();
                                self.submit(uid, vec![op]);
                            }
                        }
                    }
                    let d = 1 + self.rng.below(2 * self.k.crank);
                    self.at(self.now + d, GEv::Crank(i));
                }
                Some(GEv::Deliver(uid, act)) => self.emit(uid, act),
                Some(GEv::Admin) => {
                    self.admin();
                    let d = 1 + self.rng.below(2 * per);
                    self.at(self.now + d, GEv::Admin);
                }
                None => {}
            }
        }
        if self.stop() {
            return;
        }
        // faults stop: look at everything once more, drain and close
        for m in self.live_markets() {
            let probe = self.rng.next();
            self.now += 1;
            if self.focus != "C19" {
                self.now_emit(Act::Read { m, probe });
                let other = self.rng.below(1 << 20) as u32;
                let side = if self.rng.p(0.5) { Side::Bid } else { Side::Ask };
                if self.focus == "C17" || self.rng.p(0.2) {
                    self.now_emit(Act::FillProbe { m, side, other });
                }
                if self.focus == "C22" || self.rng.p(0.2) {
                    let batch = self.rng.range(1, 40);
                    self.now_emit(Act::DrainProbe { m, batch });
                }
            }
            if self.k.end_close && !self.stop() {
                self.empty(m, self.k.w_mass > 0);
                if !self.stop() {
                    self.now_emit(Act::Tx {
                        ops: vec![Op::Close { m }],
                        abort: None,
                    });
                }
            }
            if self.stop() {
                return;
            }
        }
    }
}

/// The replica simulation that belongs to a leader's run (C19).
pub fn cluster_of(g: &Gen, seed: u64, index: u64) -> (Vec<Step>, Vec<CEv>) {
    let steps = crate::cluster::concretize(&g.w, &g.steps);
    let mut rng = Rng::new(seed_of(seed, index, "C19 cluster"));
    let evs = crate::cluster::schedule(&mut rng, &steps);
    (steps, evs)
}

/// Replay recorded steps.
pub fn replay_steps(cfg: &Cfg, steps: &[Step], focus: &str, log: bool) -> World {
    let mut w = World::new(cfg.clone());
    if log {
        w.log = Some(vec![]);
    }
    if focus == "C26" {
        w.snaps = Some(vec![]);
    }
    for s in steps {
        if let Some(l) = &mut w.log {
            l.push(format!("t={} step {}", s.t, s.uid));
        }
        w.apply(s);
        if w.tainted || w.viols.iter().any(|v| v.prop == focus) {
            break;
        }
    }
    read_snaps(&mut w);
    w
}

/// Lets the off-chain reader read the snapshots a run left.
pub fn read_snaps(w: &mut World) {
    let Some(snaps) = w.snaps.take() else { return };
    let (n, bad) = crate::jsread::read(&snaps);
    w.stats.add("snapshots read by the TypeScript client", n);
    for s in &snaps {
        let len = |k: &str| s["want"][k].as_array().map_or(0, |a| a.len());
        if len("bids") + len("asks") + len("events") > 0 {
            w.act("C26");
        }
        if len("events") > 0 {
            w.stats.hit("probe: snapshot with waiting events");
        }
        if len("bids") > 1 || len("asks") > 1 {
            w.stats.hit("probe: snapshot with a tree of orders");
        }
    }
    if let Some((i, m)) = bad {
        w.viol("C26", format!("snapshot {} of the run: {}", i, m));
    }
}
