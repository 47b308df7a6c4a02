//! The oracles: one predicate set per property, evaluated on what was observed around every
//! operation (decoded accounts before and after, result, events, recorded history).
use crate::decode::{self, Ev, Ord, St};
use crate::model::{self, Plan, Refuse, MP};
use crate::ops::*;
use crate::rng::Hash64;
use crate::rt::*;
use crate::world::*;
use asset_agnostic_orderbook::state::Side as AobSide;

pub fn op_name(o: &LibOp) -> &'static str {
    match o {
        LibOp::Create { .. } => "create_market",
        LibOp::New { .. } => "new_order",
        LibOp::Cancel(_) => "cancel_order",
        LibOp::Mass(_) => "mass_cancel_orders",
        LibOp::Consume(_) => "consume_events",
        LibOp::Close => "close_market",
    }
}

const E_QUEUE_FULL: u32 = 5;
const E_NOT_FOUND: u32 = 6;
const E_SELF_TRADE: u32 = 7;
const E_SLAB_FULL: u32 = 8;
const E_BAD_PRICE: u32 = 21;

/// What the reference expects of an operation.
pub enum Expect {
    Order(Plan),
    Ok,
    Refused(Option<u32>, &'static str),
    /// Nothing is promised: the operation's totals do not fit 64 bits, or a market is created over
    /// accounts that were written to behind their tags.
    Open,
}

pub fn expect(r: &Rec, cfg: &Cfg) -> Expect {
    if r.closed {
        return Expect::Refused(None, "the market is closed");
    }
    match &r.op {
        LibOp::Create { .. } => match &r.create {
            Some(c) if c.valid && c.open => Expect::Open,
            Some(c) if c.valid => Expect::Ok,
            _ => Expect::Refused(None, "invalid market creation"),
        },
        LibOp::New { p, cb } => {
            let slots = r.mp.q_n.saturating_sub(r.pre.q.len());
            match model::new_order(&r.pre, &r.mp, p, cb, cfg.cb, slots) {
                Ok(p) => Expect::Order(p),
                Err(Refuse::Price) => Expect::Refused(Some(E_BAD_PRICE), "price"),
                Err(Refuse::QueueFull) => Expect::Refused(Some(E_QUEUE_FULL), "queue"),
                Err(Refuse::SelfTrade) => Expect::Refused(Some(E_SELF_TRADE), "self"),
            }
        }
        LibOp::Cancel(id) => {
            if resting_on_its_side(&r.pre, *id).is_some() {
                Expect::Ok
            } else {
                Expect::Refused(Some(E_NOT_FOUND), "not resting")
            }
        }
        LibOp::Mass(ids) => {
            let mut seen = std::collections::BTreeSet::new();
            let (mut b, mut q) = (0u128, 0u128);
            let mut all = true;
            for id in ids {
                match resting_on_its_side(&r.pre, *id) {
                    Some(o) if seen.insert(*id) => {
                        b += o.qty as u128;
                        q += model::mul_floor(o.qty, o.price());
                    }
                    _ => all = false,
                }
            }
            if b > u64::MAX as u128 || q > u64::MAX as u128 {
                Expect::Open
            } else if all {
                Expect::Ok
            } else {
                Expect::Refused(Some(E_NOT_FOUND), "not resting")
            }
        }
        LibOp::Consume(_) => Expect::Ok,
        LibOp::Close => {
            if r.pre.bids.is_empty() && r.pre.asks.is_empty() && r.pre.q.is_empty() {
                Expect::Ok
            } else {
                Expect::Refused(None, "market still active")
            }
        }
    }
}

fn resting_on_its_side(st: &St, id: u128) -> Option<&Ord> {
    let s = if id & (1 << 63) != 0 {
        Side::Bid
    } else {
        Side::Ask
    };
    st.find(id).filter(|x| x.0 == s).map(|x| x.1)
}

/// Checks on an operation that was refused (its transaction had no effect).
pub fn check_refused(w: &mut World, r: &Rec) {
    let e = match &r.res {
        Err(e) => e.clone(),
        Ok(_) => return,
    };
    let name = op_name(&r.op);
    check_shadow(w, r);
    helper(w, r);
    if let ErrK::Memory(n) = &e {
        w.act("C30");
        w.viol(
            "C30",
            format!(
                "{} asked for {} bytes of memory with {} bids, {} asks and {} events",
                name,
                n,
                r.pre.bids.len(),
                r.pre.asks.len(),
                r.pre.q.len()
            ),
        );
        if matches!(expect(r, &w.cfg), Expect::Refused(..)) {
            return;
        }
    }
    if let ErrK::Register(m) = &e {
        w.act("C25");
        w.viol("C25", format!("{}: register unreadable: {}", name, m));
        return;
    }
    let code = |c: u32| e == ErrK::Custom(c);
    match expect(r, &w.cfg) {
        Expect::Open => {}
        Expect::Refused(want, why) => match &r.op {
            LibOp::New { .. } => {
                if r.closed {
                    w.act("C16");
                    return;
                }
                match want {
                    Some(E_BAD_PRICE) => {
                        w.act("C12");
                        if !code(E_BAD_PRICE) {
                            w.viol("C12", format!("bad price refused with {:?}", e));
                        }
                    }
                    Some(E_QUEUE_FULL) => {
                        w.act("C21");
                        w.stats.hit("probe: order refused by a full queue");
                        if !code(E_QUEUE_FULL) {
                            w.viol("C21", format!("full queue refused with {:?}", e));
                        }
                    }
                    _ => {
                        w.act("C08");
                        w.stats.hit("probe: aborted self-trade");
                    }
                }
                if e.is_crash() {
                    w.act("C27");
                    w.viol("C27", format!("{} crashed ({}): {:?}", name, why, e));
                }
            }
            LibOp::Cancel(_) | LibOp::Mass(_) => {
                if r.closed {
                    w.act("C16");
                    return;
                }
                w.act("C13");
                w.act("C27");
                w.stats.hit("probe: cancellation of an order that is not resting");
                if !code(E_NOT_FOUND) {
                    w.viol(
                        "C13",
                        format!("{} of an order not resting refused with {:?}", name, e),
                    );
                }
                if e.is_crash() {
                    w.viol("C27", format!("{} crashed: {:?}", name, e));
                }
            }
            LibOp::Close => {
                w.act("C16");
                if !r.closed && e.is_crash() {
                    w.viol("C27", format!("{} crashed: {:?}", name, e));
                }
            }
            LibOp::Consume(_) => w.act("C16"),
            LibOp::Create { .. } => {
                w.act("C15");
                if r.create.as_ref().map(|c| c.spec.over.is_some()) == Some(true) {
                    w.act("C16");
                }
            }
        },
        Expect::Ok => {
            w.act("C27");
            w.viol("C27", format!("legitimate {} refused: {:?}", name, e));
            match &r.op {
                LibOp::Cancel(_) | LibOp::Mass(_) => {
                    w.viol("C13", format!("{} of resting orders refused: {:?}", name, e))
                }
                LibOp::Close => {
                    w.viol("C16", format!("closing an empty market refused: {:?}", e));
                    w.viol("C22", format!("an empty market cannot be closed: {:?}", e));
                }
                LibOp::Consume(_) => {
                    w.viol("C22", format!("consumption refused: {:?}", e));
                    w.viol("C20", format!("consumption refused: {:?}", e));
                }
                LibOp::Create { .. } => {
                    let d = r.create.as_ref().map(|c| format!("{:?}", c.spec));
                    w.viol("C15", format!("valid creation refused: {:?} {:?}", e, d))
                }
                _ => {}
            }
        }
        Expect::Order(plan) => {
            w.act("C27");
            w.viol("C27", format!("legitimate new_order refused: {:?}", e));
            if code(E_QUEUE_FULL) {
                w.act("C21");
                w.viol(
                    "C21",
                    format!(
                        "an order needing {} slots refused as queue-full with {} of {} waiting",
                        plan.events.len(),
                        r.pre.q.len(),
                        r.mp.q_n
                    ),
                );
            }
            if code(E_SELF_TRADE) {
                w.act("C08");
                w.viol("C08", "refused as self-trade although it is none".into());
            }
            if let LibOp::New { p, .. } = &r.op {
                if plan.met_self && p.stb == Stb::Cancel {
                    w.act("C08");
                    w.viol(
                        "C08",
                        format!("order meeting its own in the cancelling mode refused: {:?}", e),
                    );
                }
                let own = r.pre.side(p.side).len();
                if plan.posted.is_some() && (plan.matches == 0 || code(E_SLAB_FULL)) {
                    if own < r.mp.cap(p.side) {
                        w.act("C17");
                        w.viol(
                            "C17",
                            format!(
                                "postable order refused ({:?}) with {} of {} resting",
                                e,
                                own,
                                r.mp.cap(p.side)
                            ),
                        );
                    } else {
                        w.act("C09");
                        w.viol(
                            "C09",
                            format!("better order refused ({:?}) by a full side", e),
                        );
                    }
                } else if plan.full_side && plan.posted.is_none() && plan.matches == 0 {
                    w.act("C09");
                    w.viol(
                        "C09",
                        format!("order not better than a full side refused: {:?}", e),
                    );
                }
            }
        }
    }
}

fn check_shadow(w: &mut World, r: &Rec) {
    if let Some((lib, same)) = &r.shadow {
        w.act("C25");
        let name = op_name(&r.op);
        match (&r.res, lib) {
            (Err(ErrK::Aborted), _) => {}
            (Ok(a), Ok(b)) => {
                if a != b {
                    w.viol(
                        "C25",
                        format!("{}: register reads {:?}, the operation gave {:?}", name, a, b),
                    );
                }
                if !same {
                    w.viol(
                        "C25",
                        format!(
                            "{} through the entry point left other accounts than the operation",
                            name
                        ),
                    );
                }
            }
            (Err(a), Err(b)) => {
                let class = |e: &ErrK| match e {
                    ErrK::Custom(c) => format!("custom {}", c),
                    _ => "other".to_string(),
                };
                if class(a) != class(b) {
                    w.viol(
                        "C25",
                        format!(
                            "{} through the entry point refused with {:?}, the operation with {:?}",
                            name, a, b
                        ),
                    );
                }
            }
            (a, b) => w.viol(
                "C25",
                format!(
                    "{} through the entry point gave {:?}, the operation {:?}",
                    name, a, b
                ),
            ),
        }
    }
}

/// The rounding helper clients are told to use, asked for prices around the order's.
fn helper(w: &mut World, r: &Rec) {
    let LibOp::New { p, .. } = &r.op else { return };
    if w.cfg.focus != "C12" || r.closed || r.mp.tick == 0 {
        return;
    }
    let tick = r.mp.tick as u128;
    let mut h = Hash64::new();
    h.u64(p.limit);
    h.u64(p.base);
    h.u64(p.quote);
    let x = h.0;
    let wanted = [
        p.limit,
        p.limit.wrapping_add(1),
        p.limit.wrapping_sub(1),
        p.limit.saturating_add(x % r.mp.tick),
        x >> (x % 64),
        u64::MAX - (x % r.mp.tick),
        u64::MAX - (x >> (x % 64)),
    ];
    for q in wanted {
        let n = q as u128 / tick + (p.side == Side::Ask && q as u128 % tick != 0) as u128;
        let Ok(want) = u64::try_from(n * tick) else { continue };
        w.act("C12");
        let (t, s) = (r.mp.tick, p.side);
        let got = guarded(|| {
            asset_agnostic_orderbook::utils::round_price(
                t,
                q,
                match s {
                    Side::Bid => AobSide::Bid,
                    Side::Ask => AobSide::Ask,
                },
            )
        });
        if got != Ok(want) {
            w.viol(
                "C12",
                format!(
                    "the helper rounds {:?} price {} to {:?}, the nearest tick of {} not beyond it is {}",
                    s, q, got, t, want
                ),
            );
            return;
        }
    }
}

/// How near the instruction came to the end of its memory.
fn memory(w: &mut World, r: &Rec) {
    w.stats.hit(match r.heap {
        0..=255 => "memory asked for by an instruction: below 256 bytes",
        256..=1023 => "memory asked for by an instruction: below 1 KiB",
        1024..=4095 => "memory asked for by an instruction: below 4 KiB",
        4096..=16383 => "memory asked for by an instruction: below 16 KiB",
        _ => "memory asked for by an instruction: 16 KiB and more",
    });
    let touched = match &r.op {
        LibOp::New { .. } => r.post.q.len().saturating_sub(r.pre.q.len()),
        LibOp::Consume(_) => r.pre.q.len().saturating_sub(r.post.q.len()),
        LibOp::Mass(ids) => ids.len(),
        _ => 0,
    };
    if touched >= 8 {
        w.act("C30");
        w.stats.hit(match touched {
            8..=63 => "probe: instruction that touched 8 orders or events or more",
            64..=511 => "probe: instruction that touched 64 orders or events or more",
            _ => "probe: instruction that touched 512 orders or events or more",
        });
    }
}

/// Checks on a committed operation, and the update of the recorded history.
pub fn check_ok(w: &mut World, r: &Rec) {
    let name = op_name(&r.op);
    check_shadow(w, r);
    helper(w, r);
    memory(w, r);
    if r.closed {
        w.act("C16");
        w.viol("C16", format!("{} accepted on a closed market", name));
        w.tainted = true;
        return;
    }
    let exp = expect(r, &w.cfg);
    w.act("C27");
    match &r.op {
        LibOp::Create { .. } => ok_create(w, r, &exp),
        LibOp::New { p, cb } => {
            ok_new(w, r, p, cb, &exp);
            global(w, r, name);
        }
        LibOp::Cancel(id) => {
            ok_cancel(w, r, &[*id], &exp, false);
            global(w, r, name);
        }
        LibOp::Mass(ids) => {
            ok_cancel(w, r, ids, &exp, true);
            global(w, r, name);
        }
        LibOp::Consume(n) => {
            ok_consume(w, r, *n);
            global(w, r, name);
        }
        LibOp::Close => ok_close(w, r, &exp),
    }
    if w.cfg.focus == "C24" && !w.tainted {
        ledger(w, r);
    }
}

fn ok_create(w: &mut World, r: &Rec, exp: &Expect) {
    w.act("C15");
    let Some(c) = &r.create else { return };
    if matches!(exp, Expect::Refused(..)) {
        w.viol("C15", format!("market created although {}", c.why));
        if c.spec.over.is_some() || matches!(c.spec.defect, Some(Defect::Taken(..))) {
            w.act("C16");
            w.viol("C16", format!("accounts of a market reused: {}", c.why));
        }
        w.tainted = true;
        return;
    }
    match decode::market(&c.raw_market) {
        Some((tag, named, min, tick)) => {
            if tag != 128
                || named != [r.keys[1], r.keys[2], r.keys[3]]
                || min != c.spec.min
                || tick != c.spec.tick
            {
                w.viol(
                    "C15",
                    format!(
                        "created market holds other parameters or accounts: tag {} min {} tick {}, accounts {}",
                        tag,
                        min,
                        tick,
                        named == [r.keys[1], r.keys[2], r.keys[3]]
                    ),
                );
            }
        }
        None => w.viol("C15", "created market account unreadable".into()),
    }
    if r.post != St::default() {
        w.viol("C15", "created market does not start empty".into());
    }
    if matches!(exp, Expect::Open) {
        w.stats.hit("probe: creation over written accounts accepted");
        // what an empty book and queue keep in their headers: lengths and next free places, the
        // position of the first event
        let q = &c.raw_heads[0];
        let n = |b: &[u8], at: usize| decode::u32at(b, at);
        let book = |b: &[u8]| {
            b.len() == 32 && [0, 8, 12, 20, 28].iter().all(|a| n(b, *a) == 0)
        };
        let head = u64::from_le_bytes(q.get(..8).map_or([0xff; 8], |x| x.try_into().unwrap()));
        if !book(&c.raw_heads[1]) || !book(&c.raw_heads[2]) || head >= c.mp.q_n.max(1) as u64 {
            w.viol(
                "C15",
                "created market takes over what was written to its accounts before".into(),
            );
            w.tainted = true;
        }
    }
    if r.lam_pre != r.lam_post {
        w.viol("C15", "market creation moved lamports".into());
    }
    w.markets.insert(
        r.m,
        Mkt {
            keys: r.keys,
            mp: c.mp,
            status: Status::Live,
            st: r.post.clone(),
            hist: Hist::default(),
            ledger: Ledger::default(),
        },
    );
}

fn ok_close(w: &mut World, r: &Rec, exp: &Expect) {
    w.act("C16");
    w.stats.hit("probe: market closed");
    if !matches!(exp, Expect::Ok) {
        w.viol(
            "C16",
            format!(
                "market closed with {} bids, {} asks, {} events",
                r.pre.bids.len(),
                r.pre.asks.len(),
                r.pre.q.len()
            ),
        );
    }
    let sum: u128 = r.lam_pre[..4].iter().map(|x| *x as u128).sum();
    if r.lam_post[..4] != [0; 4] || r.lam_post[4] as u128 != r.lam_pre[4] as u128 + sum {
        w.viol(
            "C16",
            format!(
                "closing moved balances {:?} to {:?}",
                r.lam_pre, r.lam_post
            ),
        );
    }
    if !r.open.is_empty() {
        w.viol(
            "C16",
            format!("accounts of the closed market still open as {:?}", r.open),
        );
    }
    if let Some(m) = w.markets.get_mut(&r.m) {
        m.status = Status::Closed;
    }
}

/// State predicates that hold after every committed operation.
fn global(w: &mut World, r: &Rec, name: &str) {
    let st = &r.post;
    if let (Some(b), Some(a)) = (st.best(Side::Bid), st.best(Side::Ask)) {
        w.act("C05");
        if b.price() >= a.price() {
            w.viol(
                "C05",
                format!("crossed after {}: bid {} ask {}", name, b.price(), a.price()),
            );
        }
    }
    for s in [Side::Bid, Side::Ask] {
        for o in st.side(s) {
            if o.qty < r.mp.min {
                w.viol(
                    "C11",
                    format!(
                        "order {} rests with {} below the minimum {} after {}",
                        o.id, o.qty, r.mp.min, name
                    ),
                );
            }
            if o.price() == 0 || o.price() % r.mp.tick != 0 {
                w.viol(
                    "C12",
                    format!("order {} rests off the tick {}", o.id, r.mp.tick),
                );
            }
        }
        if st.side(s).len() > r.mp.cap(s) {
            w.viol(
                "C17",
                format!(
                    "{} orders rest on a side sized for {}",
                    st.side(s).len(),
                    r.mp.cap(s)
                ),
            );
        }
    }
    if st.q.len() > r.mp.q_n {
        w.viol("C21", "more events wait than the queue has slots".into());
    }
}

/// Orders and callbacks of a side that an operation must not have touched.
fn same_orders(pre: &[Ord], post: &[Ord], gone: &[u128], added: Option<u128>) -> Option<String> {
    let mut j = 0;
    for o in post {
        if Some(o.id) == added && pre.binary_search_by(|x| x.id.cmp(&o.id)).is_err() {
            continue;
        }
        while j < pre.len() && pre[j].id < o.id {
            if !gone.contains(&pre[j].id) {
                return Some(format!("order {} vanished", pre[j].id));
            }
            j += 1;
        }
        if j >= pre.len() || pre[j].id != o.id {
            return Some(format!("order {} appeared", o.id));
        }
        if gone.contains(&o.id) {
            return Some(format!("order {} still rests", o.id));
        }
        if pre[j].qty != o.qty {
            return Some(format!(
                "order {} went from {} to {}",
                o.id, pre[j].qty, o.qty
            ));
        }
        j += 1;
    }
    while j < pre.len() {
        if !gone.contains(&pre[j].id) {
            return Some(format!("order {} vanished", pre[j].id));
        }
        j += 1;
    }
    None
}

fn callbacks_kept(w: &mut World, r: &Rec) {
    for s in [Side::Bid, Side::Ask] {
        let pre = r.pre.side(s);
        for o in r.post.side(s) {
            if let Ok(i) = pre.binary_search_by(|x| x.id.cmp(&o.id)) {
                if pre[i].cb != o.cb {
                    w.viol(
                        "C18",
                        format!(
                            "callback data of resting order {} changed during {}",
                            o.id,
                            op_name(&r.op)
                        ),
                    );
                    return;
                }
                // and against what its owner supplied
                let bad = w
                    .markets
                    .get(&r.m)
                    .and_then(|m| m.hist.orders.get(&o.id))
                    .map(|h| h.ended.is_none() && h.cb != o.cb)
                    .unwrap_or(false);
                if bad {
                    w.viol(
                        "C18",
                        format!("order {} no longer holds its owner's callback data", o.id),
                    );
                    return;
                }
            }
        }
    }
}

fn ok_cancel(w: &mut World, r: &Rec, ids: &[u128], exp: &Expect, mass: bool) {
    w.act("C13");
    w.act("C07");
    w.act("C18");
    let name = op_name(&r.op);
    if let Expect::Refused(..) = exp {
        w.viol(
            "C13",
            format!("{} accepted although an order was not resting", name),
        );
    }
    // what left the book
    let mut named: Vec<u128> = vec![];
    let (mut base, mut quote) = (0u128, 0u128);
    for id in ids {
        if let Some(o) = resting_on_its_side(&r.pre, *id) {
            if !named.contains(id) {
                named.push(*id);
                base += o.qty as u128;
                quote += model::mul_floor(o.qty, o.price());
            }
        }
    }
    for s in [Side::Bid, Side::Ask] {
        if let Some(e) = same_orders(r.pre.side(s), r.post.side(s), &named, None) {
            w.viol("C13", format!("{}: {}", name, e));
            w.viol("C04", format!("{}: {}", name, e));
            if e.contains("vanished") || e.contains("appeared") {
                w.viol("C06", format!("{}: {}", name, e));
            }
        }
    }
    if r.post.q != r.pre.q {
        w.viol("C13", format!("{} changed the event queue", name));
        w.viol("C20", format!("{} changed waiting events", name));
    }
    let kept: Vec<Viol> = {
        let n = w.viols.len();
        callbacks_kept(w, r);
        w.viols[n..].to_vec()
    };
    for k in kept {
        w.viol("C13", k.msg);
    }
    match &r.res {
        Ok(Some(s)) => {
            if s.id.is_some()
                || s.base as u128 != base
                || s.quote as u128 != quote
                || s.posted != 0
            {
                w.viol(
                    "C07",
                    format!(
                        "{} summary {:?}, but {} base worth {} quote was resting",
                        name, s, base, quote
                    ),
                );
            }
        }
        _ => w.viol("C07", format!("{} gave no summary", name)),
    }
    if mass {
        w.stats.hit("probe: mass cancellation");
    }
    if let Some(m) = w.markets.get_mut(&r.m) {
        for id in named {
            if let (Some(h), Some((_, o))) = (m.hist.orders.get_mut(&id), r.pre.find(id)) {
                h.ended = Some(o.qty);
                h.cancelled = Some(o.qty);
            }
        }
    }
    let mut bad = vec![];
    if let Some(m) = w.markets.get(&r.m) {
        for id in ids {
            if let Some(h) = m.hist.orders.get(id) {
                if let (Some(c), true) = (h.cancelled, h.ended.is_some()) {
                    if h.posted as u128 != h.filled as u128 + c as u128 {
                        bad.push(format!(
                            "order {}: posted {}, filled {}, cancelled {}",
                            id, h.posted, h.filled, c
                        ));
                    }
                }
            }
        }
    }
    w.act("C04");
    for b in bad {
        w.viol("C04", b);
    }
}

fn ok_consume(w: &mut World, r: &Rec, n: u64) {
    let k = (n.min(r.pre.q.len() as u64)) as usize;
    if !r.pre.q.is_empty() {
        w.act("C20");
        if n != 0 {
            w.act("C22");
        }
    }
    if r.post.q != r.pre.q[k..] {
        w.viol(
            "C20",
            format!(
                "consuming {} of {} events left {} or other ones",
                n,
                r.pre.q.len(),
                r.post.q.len()
            ),
        );
        if r.post.q.len() > r.pre.q.len() - k {
            w.viol("C22", "consumption did not make progress".into());
        }
        w.tainted = true;
    }
    match &r.seen {
        Some(Ok(v)) => {
            if v[..] != r.pre.q[..k] {
                w.viol("C20", "a consumer saw other events than were produced".into());
                w.viol("C18", "events read by the consumer differ from the recorded ones".into());
            }
        }
        Some(Err(e)) => {
            w.viol("C20", format!("a consumer could not read: {}", e));
            w.viol("C23", e.clone());
        }
        None => {}
    }
    if r.pre.bids != r.post.bids || r.pre.asks != r.post.asks {
        w.viol("C20", "consumption changed a book".into());
        w.viol("C04", "consumption changed a book".into());
        callbacks_kept(w, r);
    }
    if let Ok(Some(_)) = r.res {
        w.viol("C07", "consumption gave an order summary".into());
    }
    // end-to-end accounting by what consumers were given
    let mut bad = vec![];
    if let Some(m) = w.markets.get_mut(&r.m) {
        m.hist.consumed += k as u64;
        let evs: Vec<Ev> = match &r.seen {
            Some(Ok(v)) => v.clone(),
            _ => r.pre.q[..k].to_vec(),
        };
        for e in evs {
            match e {
                Ev::Fill { maker, base, .. } => {
                    if let Some(h) = m.hist.orders.get_mut(&maker) {
                        h.seen_filled = h.seen_filled.saturating_add(base);
                        if h.seen_filled > h.posted || h.seen_out.is_some() {
                            bad.push(format!("consumers were told too much filled for {}", maker));
                        }
                    } else {
                        bad.push(format!("a fill event names {}, never posted", maker));
                    }
                }
                Ev::Out { id, base, .. } => {
                    if let Some(h) = m.hist.orders.get_mut(&id) {
                        if h.seen_out.is_some() || h.cancelled.is_some() {
                            bad.push(format!("order {} left twice", id));
                        }
                        h.seen_out = Some(base);
                        if h.posted as u128 != h.seen_filled as u128 + base as u128 {
                            bad.push(format!(
                                "order {}: posted {}, consumers saw {} filled and {} out",
                                id, h.posted, h.seen_filled, base
                            ));
                        }
                    } else {
                        bad.push(format!("an out event names {}, never posted", id));
                    }
                }
                Ev::Bad(t) => bad.push(format!("event of unknown kind {}", t)),
            }
        }
    }
    w.act("C04");
    for b in bad {
        w.viol("C04", b);
    }
}

fn ok_new(w: &mut World, r: &Rec, p: &NewP, cb: &Cb, exp: &Expect) {
    let kind = w.cfg.cb;
    let (pre, post, mp): (&St, &St, MP) = (&r.pre, &r.post, r.mp);
    let opp = p.side.opp();
    match exp {
        Expect::Refused(Some(E_BAD_PRICE), _) => {
            w.act("C12");
            w.viol(
                "C12",
                format!("price {} accepted with tick {}", p.limit, mp.tick),
            );
        }
        Expect::Refused(Some(E_QUEUE_FULL), _) => {
            w.act("C21");
            w.viol(
                "C21",
                format!(
                    "order accepted although its events do not fit ({} of {} waiting)",
                    pre.q.len(),
                    mp.q_n
                ),
            );
        }
        Expect::Refused(Some(E_SELF_TRADE), _) => {
            w.act("C08");
            w.viol("C08", "order accepted although it meets its own".into());
        }
        _ => {}
    }
    if !pre.q.is_empty() {
        w.act("C20");
    }
    // waiting events
    if post.q.len() < pre.q.len() || post.q[..pre.q.len()] != pre.q[..] {
        w.viol("C20", "an order altered or dropped waiting events".into());
        // the same change read as callback data or overwriting
        let altered_cb = pre.q.iter().zip(post.q.iter()).any(|(a, b)| match (a, b) {
            (
                Ev::Fill {
                    mcb: x,
                    tcb: y,
                    maker: i,
                    ..
                },
                Ev::Fill {
                    mcb: x2,
                    tcb: y2,
                    maker: j,
                    ..
                },
            ) => i == j && (x != x2 || y != y2),
            (Ev::Out { cb: x, id: i, .. }, Ev::Out { cb: x2, id: j, .. }) => i == j && x != x2,
            _ => false,
        });
        if altered_cb {
            w.viol("C18", "callback data of a waiting event changed".into());
        }
        if matches!(exp, Expect::Refused(Some(E_QUEUE_FULL), _)) || pre.q.len() == mp.q_n {
            w.viol("C21", "waiting events were overwritten".into());
        }
        w.tainted = true;
        return;
    }
    if post.q.len() == mp.q_n {
        w.act("C21");
        w.stats.hit("probe: queue exactly full after an order");
    }
    let evs: Vec<Ev> = post.q[pre.q.len()..].to_vec();
    if !evs.is_empty() {
        w.act("C01");
        w.act("C02");
        w.act("C04");
        w.act("C18");
        w.act("C24");
    }

    // --- walk the events against the opposite side in recorded arrival order
    struct Cur {
        o: Ord,
        price: u64,
        arrival: u64,
        left: u64,
        alive: bool,
        touched: bool,
    }
    let mut book: Vec<Cur> = {
        let h = w.markets.get(&r.m).map(|m| &m.hist);
        pre.side(opp)
            .iter()
            .map(|o| {
                let x = h.and_then(|h| h.orders.get(&o.id));
                Cur {
                    o: o.clone(),
                    price: x.map(|x| x.price).unwrap_or(o.price()),
                    arrival: x.map(|x| x.arrival).unwrap_or(0),
                    left: o.qty,
                    alive: true,
                    touched: false,
                }
            })
            .collect()
    };
    book.sort_by(|a, b| {
        let by_price = match opp {
            Side::Ask => a.price.cmp(&b.price),
            Side::Bid => b.price.cmp(&a.price),
        };
        by_price.then(a.arrival.cmp(&b.arrival))
    });
    let (mut rb, mut rq) = (p.base, p.quote);
    let mut over = false;
    let (mut fb, mut fq) = (0u128, 0u128);
    let mut matches = 0u64;
    let mut fills = 0u64;
    let mut self_outs = 0u64;
    let mut evicted: Option<u128> = None;
    let mut gone_opp: Vec<u128> = vec![];
    let mut dust: Option<(u128, u64)> = None; // an order that must leave with the next event
    let my_id = cb.identity(kind).to_vec();
    for (n, e) in evs.iter().enumerate() {
        let expected_dust = dust.take();
        if let Some((id, left)) = expected_dust {
            let fine =
                matches!(e, Ev::Out { id: i, base, .. } if *i == id && *base == left);
            if !fine {
                w.viol(
                    "C11",
                    format!(
                        "a fill left {} of order {} (minimum {}), but the next event is {:?}",
                        left, id, mp.min, e
                    ),
                );
            }
        }
        match e {
            Ev::Fill {
                taker,
                quote,
                maker,
                base,
                mcb,
                tcb,
            } => {
                fills += 1;
                matches += 1;
                w.stats.hit("fills");
                if *taker != p.side.code() {
                    w.viol("C04", "a fill event names the wrong taker side".into());
                }
                let at = book.iter().position(|c| c.alive && c.o.id == *maker);
                let Some(at) = at else {
                    w.viol(
                        "C04",
                        format!("a fill event refers to {}, not resting", maker),
                    );
                    fb += *base as u128;
                    fq += *quote as u128;
                    continue;
                };
                if book[..at].iter().any(|c| c.alive && c.left > 0) {
                    let head = book[..at].iter().find(|c| c.alive && c.left > 0);
                    w.viol(
                        "C01",
                        format!(
                            "filled {} while {} at {} was before it",
                            maker,
                            head.map(|c| c.o.id).unwrap_or(0),
                            head.map(|c| c.price).unwrap_or(0)
                        ),
                    );
                }
                let price = book[at].price;
                if !model::crosses(p.side, p.limit, price) {
                    w.viol(
                        "C02",
                        format!(
                            "{:?} limited at {} filled at {}",
                            p.side, p.limit, price
                        ),
                    );
                }
                let wb = book[at].left.min(rb).min(model::base_for(rq, price));
                let wq = model::fill_quote(p.side, *base, price);
                w.act("C03");
                if *base != wb {
                    w.viol(
                        "C03",
                        format!(
                            "fill {} took {} base of order {}, the most allowed was {}",
                            n, base, maker, wb
                        ),
                    );
                }
                if *quote as u128 != wq {
                    w.viol(
                        "C03",
                        format!(
                            "fill of {} base at {} by a {:?} has quote {}, not {}",
                            base, price, p.side, quote, wq
                        ),
                    );
                }
                if *base == 0 || *quote == 0 {
                    w.viol("C03", "a fill worth nothing".into());
                }
                let same_id = book[at].o.cb.identity(kind) == &my_id[..];
                if same_id {
                    w.act("C08");
                    if p.stb != Stb::Decrement {
                        w.viol(
                            "C08",
                            format!("order traded with its own order {} in {:?} mode", maker, p.stb),
                        );
                    } else {
                        w.stats.hit("probe: decrementing self-trade");
                    }
                }
                if *mcb != book[at].o.cb {
                    w.viol("C18", format!("fill of {} carries a wrong maker", maker));
                }
                if tcb != cb {
                    w.viol("C18", format!("fill of {} carries a wrong taker", maker));
                }
                if *base > book[at].left {
                    w.viol(
                        "C04",
                        format!(
                            "fill of {} base on order {} that had {}",
                            base, maker, book[at].left
                        ),
                    );
                }
                book[at].left = book[at].left.saturating_sub(*base);
                book[at].touched = true;
                over |= *base > rb || *quote > rq;
                rb = rb.saturating_sub(*base);
                rq = rq.saturating_sub(*quote);
                fb += *base as u128;
                fq += *quote as u128;
                if book[at].left < mp.min {
                    w.act("C11");
                    if book[at].left > 0 {
                        w.stats.hit("probe: dust taken out");
                    }
                    dust = Some((*maker, book[at].left));
                } else {
                    w.stats.hit("probe: partial fill keeps resting");
                    w.act("C11");
                }
            }
            Ev::Out {
                side,
                id,
                base,
                cb: ocb,
            } => {
                let at = book.iter().position(|c| c.alive && c.o.id == *id);
                if let Some(at) = at {
                    if *side != opp.code() {
                        w.viol("C04", format!("out event of {} names the wrong side", id));
                    }
                    if *ocb != book[at].o.cb {
                        w.viol("C18", format!("out event of {} carries a wrong owner", id));
                    }
                    if *base != book[at].left {
                        w.viol(
                            "C04",
                            format!(
                                "out event of {} reports {}, {} was left",
                                id, base, book[at].left
                            ),
                        );
                    }
                    let is_dust = expected_dust.map(|d| d.0) == Some(*id);
                    if !is_dust {
                        matches += 1;
                        self_outs += 1;
                        w.act("C08");
                        w.stats.hit("probe: cancelled self-provided order");
                        if book[..at].iter().any(|c| c.alive && c.left > 0) {
                            w.viol("C01", format!("took out {} before a better order", id));
                        }
                        let same = book[at].o.cb.identity(kind) == &my_id[..];
                        if !same || p.stb != Stb::Cancel {
                            w.viol(
                                "C08",
                                format!(
                                    "resting order {} taken out though it may trade ({:?}, same identity {})",
                                    id, p.stb, same
                                ),
                            );
                        }
                        if book[at].touched {
                            w.viol(
                                "C11",
                                format!(
                                    "order {} taken out with {} left (minimum {})",
                                    id, book[at].left, mp.min
                                ),
                            );
                        }
                        if *base != book[at].o.qty {
                            w.viol(
                                "C08",
                                format!("self-provided order {} not taken out whole", id),
                            );
                        }
                    }
                    book[at].alive = false;
                    book[at].touched = true;
                    gone_opp.push(*id);
                } else if let Some((s, o)) = pre.find(*id).filter(|x| x.0 == p.side) {
                    // leaving its own side: an eviction
                    if *side != s.code() {
                        w.viol("C04", format!("out event of {} names the wrong side", id));
                    }
                    if *base != o.qty {
                        w.viol(
                            "C04",
                            format!("out event of {} reports {}, {} was resting", id, base, o.qty),
                        );
                        w.viol(
                            "C09",
                            format!("evicted order {} reported {} of {}", id, base, o.qty),
                        );
                    }
                    if *ocb != o.cb {
                        w.viol("C18", format!("out event of {} carries a wrong owner", id));
                    }
                    if evicted.is_some() {
                        w.viol("C09", "more than one order evicted".into());
                        w.viol("C04", format!("out event of {} repeated or extra", id));
                    }
                    evicted = Some(*id);
                } else {
                    w.viol("C04", format!("an out event refers to {}, not resting", id));
                }
            }
            Ev::Bad(t) => {
                w.viol("C04", format!("event of unknown kind {}", t));
                w.viol("C20", format!("event of unknown kind {}", t));
            }
        }
    }
    if let Some((id, left)) = dust {
        w.viol(
            "C11",
            format!(
                "a fill left {} of order {} (minimum {}) and no out event followed",
                left, id, mp.min
            ),
        );
    }

    // --- the books
    let opp_pre: Vec<Ord> = pre.side(opp).clone();
    let mut expect_opp: Vec<Ord> = vec![];
    for o in &opp_pre {
        if let Some(c) = book.iter().find(|c| c.o.id == o.id) {
            if c.alive {
                let mut x = o.clone();
                x.qty = c.left;
                expect_opp.push(x);
            }
        }
    }
    if let Some(e) = same_orders(&expect_opp, post.side(opp), &[], None) {
        w.viol("C04", format!("opposite side against its events: {}", e));
        if e.contains("vanished") || e.contains("appeared") {
            w.viol("C06", format!("opposite side: {}", e));
        }
        if !e.contains("vanished") {
            w.viol("C11", format!("opposite side against its events: {}", e));
        }
        if fills == 0 && self_outs == 0 && p.post_only {
            w.viol("C10", format!("post-only order changed the other side: {}", e));
        }
        // matching that leaves no trace in events is judged by the book itself
        let mut changed = vec![];
        for c in &book {
            let now = post.find(c.o.id).map(|x| x.1.qty);
            changed.push((c, now));
        }
        let mut passed = false;
        for (c, now) in &changed {
            let touched = *now != Some(c.o.qty);
            if touched && passed {
                w.viol(
                    "C01",
                    format!("order {} taken while a better one was passed over", c.o.id),
                );
                break;
            }
            if now.is_some() {
                passed = true;
            }
        }
    }
    let own_pre = pre.side(p.side);
    let new: Vec<&Ord> = post
        .side(p.side)
        .iter()
        .filter(|o| own_pre.binary_search_by(|x| x.id.cmp(&o.id)).is_err())
        .collect();
    let posted: Option<Ord> = new.first().map(|o| (*o).clone());
    let gone_own: Vec<u128> = evicted.into_iter().collect();
    if new.len() > 1 {
        w.viol("C04", "more than one order appeared".into());
        w.viol("C06", "more than one order appeared".into());
    }
    if let Some(e) = same_orders(
        own_pre,
        post.side(p.side),
        &gone_own,
        posted.as_ref().map(|o| o.id),
    ) {
        w.viol("C04", format!("own side: {}", e));
        w.viol("C09", format!("own side: {}", e));
        if e.contains("vanished") || e.contains("appeared") || e.contains("still rests") {
            w.viol("C06", format!("own side: {}", e));
        }
    }
    callbacks_kept(w, r);
    // what the caller was told it posted is what has to be accounted for
    if let Ok(Some(s)) = &r.res {
        let rests = posted.as_ref().map_or(0, |o| o.qty);
        if s.posted != rests {
            w.viol(
                "C04",
                format!("posted {} base by the summary, {} rest", s.posted, rests),
            );
        }
    }

    // --- why matching stopped
    let head = book.iter().find(|c| c.alive && c.left > 0);
    let crossed_end = head
        .map(|c| model::crosses(p.side, p.limit, c.price))
        .unwrap_or(false);
    if matches > p.ml {
        w.act("C10");
        w.viol(
            "C10",
            format!("{} resting orders used, match limit {}", matches, p.ml),
        );
    }
    if p.post_only {
        w.act("C10");
        if matches > 0 || fb > 0 {
            w.viol("C10", "a post-only order traded".into());
        }
    } else if matches < p.ml {
        w.act("C03");
        if let Some(c) = head {
            let nb = c.left.min(rb).min(model::base_for(rq, c.price));
            let nq = model::fill_quote(p.side, nb, c.price);
            if crossed_end && nb > 0 && nq > 0 {
                let same = c.o.cb.identity(kind) == &my_id[..];
                w.viol(
                    "C03",
                    format!(
                        "matching stopped with {} still good for {} base, {} matches of {} used",
                        c.o.id, nb, matches, p.ml
                    ),
                );
                if self_outs > 0 || (same && p.stb != Stb::Decrement) {
                    w.viol(
                        "C08",
                        format!("matching did not go past the own order (next {})", c.o.id),
                    );
                }
            } else if crossed_end && (rb > 0 && rq > 0) {
                w.stats.hit("probe: matching stopped by a worthless fill");
            }
        }
    } else if p.ml > 0 && crossed_end {
        w.stats.hit("probe: match limit reached while crossed");
    }
    if matches == p.ml && p.ml > 0 {
        w.act("C10");
    }

    // --- posting
    let seen_free = matches < p.ml && !crossed_end;
    let want_qty = model::base_for(rq, p.limit).min(rb);
    let want = seen_free && p.post_allowed && want_qty >= mp.min;
    w.act("C10");
    let own_n = own_pre.len();
    let cap = mp.cap(p.side);
    match (&posted, want) {
        (Some(o), true) => {
            w.stats.hit("orders posted");
            if o.qty != want_qty {
                w.viol(
                    "C10",
                    format!("posted {} base, {} remained postable", o.qty, want_qty),
                );
            }
            if o.cb != *cb {
                w.viol(
                    "C18",
                    format!("order {} does not hold the callback data supplied", o.id),
                );
            }
        }
        (Some(o), false) => {
            w.viol(
                "C10",
                format!(
                    "posted {} base although it may not (allowed {}, crossed {}, matches {} of {}, remaining {}, minimum {})",
                    o.qty, p.post_allowed, crossed_end, matches, p.ml, want_qty, mp.min
                ),
            );
            if crossed_end {
                w.viol("C05", "posted while an opposite order crossed it".into());
            }
        }
        _ => {}
    }
    if posted.is_some() {
        w.act("C05");
        w.act("C18");
    }
    if want && own_n < cap {
        w.act("C17");
        if posted.is_none() {
            w.viol(
                "C10",
                format!("{} base were postable and not posted", want_qty),
            );
            w.viol(
                "C17",
                format!("postable order not posted with {} of {} resting", own_n, cap),
            );
        }
        if evicted.is_some() {
            w.viol(
                "C17",
                format!("an order was evicted with {} of {} resting", own_n, cap),
            );
            w.viol("C09", "an order was evicted from a side not full".into());
        }
    } else if want {
        w.act("C09");
        // least aggressive: worst price, then youngest, by the record
        let worst = {
            let h = w.markets.get(&r.m).map(|m| &m.hist);
            own_pre
                .iter()
                .map(|o| {
                    let x = h.and_then(|h| h.orders.get(&o.id));
                    (
                        o.id,
                        x.map(|x| x.price).unwrap_or(o.price()),
                        x.map(|x| x.arrival).unwrap_or(0),
                    )
                })
                .max_by(|a, b| {
                    let by_price = match p.side {
                        Side::Ask => a.1.cmp(&b.1),
                        Side::Bid => b.1.cmp(&a.1),
                    };
                    by_price.then(a.2.cmp(&b.2))
                })
        };
        if let Some((wid, wprice, _)) = worst {
            let better = match p.side {
                Side::Bid => p.limit > wprice,
                Side::Ask => p.limit < wprice,
            };
            if better {
                w.stats.hit("probe: worst order evicted from a full side");
                if posted.is_none() {
                    w.viol("C09", "a better order was not posted on a full side".into());
                    w.viol("C10", "a better order was not posted on a full side".into());
                }
                if evicted != Some(wid) {
                    w.viol(
                        "C09",
                        format!("evicted {:?}, the least aggressive was {}", evicted, wid),
                    );
                }
            } else {
                w.stats.hit("probe: order turned away by a full side");
                if posted.is_some() || evicted.is_some() {
                    w.viol(
                        "C09",
                        format!(
                            "full side: price {} is not better than {}, yet posted {:?}, evicted {:?}",
                            p.limit, wprice, posted, evicted
                        ),
                    );
                }
            }
        }
    } else if evicted.is_some() {
        w.act("C09");
        w.viol("C09", "an order was evicted for one that is not posted".into());
    }

    // --- totals
    let (pb, pq) = match &posted {
        Some(o) => (
            o.qty as u128,
            model::post_quote(p.side, o.qty, o.price()),
        ),
        None => (0, 0),
    };
    if fb > 0 || pb > 0 {
        w.act("C02");
    }
    if over || fb + pb > p.base as u128 || fq + pq > p.quote as u128 {
        w.viol(
            "C02",
            format!(
                "filled {}+posted {} of {} base, filled {}+posted {} of {} quote",
                fb, pb, p.base, fq, pq, p.quote
            ),
        );
    }
    w.act("C07");
    match &r.res {
        Ok(Some(s)) => {
            if s.id != posted.as_ref().map(|o| o.id)
                || s.base as u128 != fb + pb
                || s.quote as u128 != fq + pq
                || s.posted as u128 != pb
            {
                w.viol(
                    "C07",
                    format!(
                        "summary {:?}; really filled {} base {} quote, posted {} base {} quote {:?}",
                        s,
                        fb,
                        fq,
                        pb,
                        pq,
                        posted.as_ref().map(|o| o.id)
                    ),
                );
            }
        }
        _ => w.viol("C07", "new_order gave no summary".into()),
    }

    // --- identifiers and history
    let mut vs: Vec<(&'static str, String)> = vec![];
    let claimed = match &r.res {
        Ok(Some(s)) => s.id,
        _ => None,
    };
    if let Some(m) = w.markets.get_mut(&r.m) {
        let h = &mut m.hist;
        h.produced += evs.len() as u64;
        for e in &evs {
            match e {
                Ev::Fill { maker, base, .. } => {
                    if let Some(x) = h.orders.get_mut(maker) {
                        x.filled = x.filled.saturating_add(*base);
                        if x.filled > x.posted || x.ended.is_some() {
                            vs.push(("C04", format!("order {} filled beyond its quantity", maker)));
                        }
                    }
                }
                Ev::Out { id, base, .. } => {
                    if let Some(x) = h.orders.get_mut(id) {
                        if x.ended.is_some() {
                            vs.push(("C04", format!("order {} left twice", id)));
                        }
                        x.ended = Some(*base);
                        if x.posted as u128 != x.filled as u128 + *base as u128 {
                            vs.push((
                                "C04",
                                format!(
                                    "order {}: posted {}, filled {}, out {}",
                                    id, x.posted, x.filled, base
                                ),
                            ));
                        }
                    }
                }
                Ev::Bad(_) => {}
            }
        }
        if let Some(c) = claimed {
            if posted.is_none() && h.orders.contains_key(&c) {
                vs.push(("C06", format!("identifier {} given out again", c)));
            }
        }
        if let Some(o) = &posted {
            if h.orders.contains_key(&o.id) {
                vs.push(("C06", format!("identifier {} used again", o.id)));
            }
            let side = asset_agnostic_orderbook::state::get_side_from_order_id(o.id);
            let side_ok = matches!(
                (side, p.side),
                (asset_agnostic_orderbook::state::Side::Bid, Side::Bid)
                    | (asset_agnostic_orderbook::state::Side::Ask, Side::Ask)
            );
            if o.price() != p.limit || !side_ok {
                vs.push((
                    "C06",
                    format!(
                        "identifier {} of a {:?} at {} reads as price {} side ok {}",
                        o.id,
                        p.side,
                        p.limit,
                        o.price(),
                        side_ok
                    ),
                ));
            }
            if let Some(last) = h.last_at_price.get(&(p.side.code(), p.limit)) {
                let in_order = match p.side {
                    Side::Bid => o.id < *last,
                    Side::Ask => o.id > *last,
                };
                if !in_order {
                    vs.push((
                        "C06",
                        format!("identifiers {} then {} do not keep arrival order", last, o.id),
                    ));
                }
            }
            h.last_at_price.insert((p.side.code(), p.limit), o.id);
            h.arrivals += 1;
            h.orders.insert(
                o.id,
                OH::posted(p.side, p.limit, h.arrivals, o.qty, *cb),
            );
        }
    }
    if posted.is_some() {
        w.act("C06");
        w.act("C12");
    }
    for (p, m) in vs {
        w.viol(p, m);
    }
}

/// The settlement of a caller that knows summaries and consumed events only.
fn ledger(w: &mut World, r: &Rec) {
    let kind = w.cfg.cb;
    let mut vs: Vec<String> = vec![];
    let mut sub = false;
    if let Some(m) = w.markets.get_mut(&r.m) {
        let l = &mut m.ledger;
        let summary = match &r.res {
            Ok(Some(s)) => s.clone(),
            _ => Summary {
                id: None,
                base: 0,
                quote: 0,
                posted: 0,
            },
        };
        match &r.op {
            LibOp::New { p, cb } => {
                let b = l.users.entry(cb.identity(kind).to_vec()).or_default();
                let (sb, sq, sp) = (
                    summary.base as i128,
                    summary.quote as i128,
                    summary.posted as i128,
                );
                let pq = model::post_quote(p.side, summary.posted, p.limit) as i128;
                match p.side {
                    Side::Bid => {
                        b.qf -= sq;
                        b.ql += pq;
                        b.bf += sb - sp;
                    }
                    Side::Ask => {
                        b.bf -= sb;
                        b.bl += sp;
                        b.qf += sq - pq;
                    }
                }
            }
            LibOp::Cancel(_) | LibOp::Mass(_) => {
                let ids = match &r.op {
                    LibOp::Cancel(i) => vec![*i],
                    LibOp::Mass(v) => v.clone(),
                    _ => vec![],
                };
                // one owner and one side: the summary is all the caller needs
                let mut owners: Vec<(Vec<u8>, Side)> = vec![];
                let mut units = 0;
                for id in &ids {
                    if let Some((s, o)) = r.pre.find(*id) {
                        units += 1;
                        let k = (o.cb.identity(kind).to_vec(), s);
                        if !owners.contains(&k) {
                            owners.push(k);
                        }
                    }
                }
                if owners.len() == 1 {
                    let (u, s) = owners.remove(0);
                    let b = l.users.entry(u).or_default();
                    match s {
                        Side::Bid => {
                            b.ql -= summary.quote as i128;
                            b.qf += summary.quote as i128;
                            b.units += units;
                        }
                        Side::Ask => {
                            b.bl -= summary.base as i128;
                            b.bf += summary.base as i128;
                        }
                    }
                } else {
                    // several owners or sides: the caller looks the orders up first
                    for id in &ids {
                        if let Some((s, o)) = r.pre.find(*id) {
                            let b = l.users.entry(o.cb.identity(kind).to_vec()).or_default();
                            match s {
                                Side::Bid => {
                                    let q = model::mul_floor(o.qty, o.price()) as i128;
                                    b.ql -= q;
                                    b.qf += q;
                                    b.units += 1;
                                }
                                Side::Ask => {
                                    b.bl -= o.qty as i128;
                                    b.bf += o.qty as i128;
                                }
                            }
                        }
                    }
                }
            }
            LibOp::Consume(_) => {
                if let Some(Ok(v)) = &r.seen {
                    sub = !v.is_empty();
                    for e in v {
                        settle(l, e, kind);
                    }
                }
            }
            _ => {}
        }
        for (u, b) in &l.users {
            if b.bl < 0 || b.ql < 0 {
                vs.push(format!(
                    "a user's locked balance went negative after {}: base {} quote {} (user {:02x?})",
                    op_name(&r.op),
                    b.bl,
                    b.ql,
                    &u[..4]
                ));
                break;
            }
        }
        // conservation with waiting events counted
        let mut t = l.clone();
        for e in &r.post.q {
            settle(&mut t, e, kind);
        }
        let (mut tb, mut tq) = (0i128, 0i128);
        for b in t.users.values() {
            tb += b.bf + b.bl;
            tq += b.qf + b.ql;
            if b.bl < 0 || b.ql < 0 {
                vs.push(format!(
                    "waiting events would overdraw a locked balance after {}: base {} quote {}",
                    op_name(&r.op),
                    b.bl,
                    b.ql
                ));
                break;
            }
        }
        if tb != 0 || tq != 0 {
            vs.push(format!(
                "base off by {} and quote off by {} over all users after {}",
                tb,
                tq,
                op_name(&r.op)
            ));
        }
        if r.post.bids.is_empty() && r.post.asks.is_empty() && r.post.q.is_empty() {
            for b in l.users.values() {
                if b.bl != 0 || b.ql > b.units || b.ql < 0 {
                    vs.push(format!(
                        "after a full drain {} base and {} quote stay locked ({} units of rounding)",
                        b.bl, b.ql, b.units
                    ));
                    break;
                }
            }
        }
    }
    if sub || !matches!(r.op, LibOp::Consume(_)) {
        w.act("C24");
    }
    for v in vs {
        w.viol("C24", v);
    }
}

fn settle(l: &mut Ledger, e: &Ev, kind: CbKind) {
    match e {
        Ev::Fill {
            taker,
            quote,
            base,
            mcb,
            ..
        } => {
            let b = l.users.entry(mcb.identity(kind).to_vec()).or_default();
            if *taker == 0 {
                b.bl -= *base as i128;
                b.qf += *quote as i128;
            } else {
                b.ql -= *quote as i128;
                b.bf += *base as i128;
                b.units += 1;
            }
        }
        Ev::Out { side, id, base, cb } => {
            let b = l.users.entry(cb.identity(kind).to_vec()).or_default();
            if *side == 0 {
                let q = model::mul_floor(*base, (*id >> 64) as u64) as i128;
                b.ql -= q;
                b.qf += q;
                b.units += 1;
            } else {
                b.bl -= *base as i128;
                b.bf += *base as i128;
            }
        }
        Ev::Bad(_) => {}
    }
}
