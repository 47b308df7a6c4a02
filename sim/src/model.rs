//! The executable reference: what one operation does to a decoded market, written from the
//! documentation with plain vectors. Used to predict refusals and event needs.
use crate::decode::{Ev, Ord, St};
use crate::ops::*;
use crate::rt::{Cb, Summary};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MP {
    pub min: u64,
    pub tick: u64,
    pub bid_n: usize,
    pub ask_n: usize,
    pub q_n: usize,
}
impl MP {
    pub fn cap(&self, s: Side) -> usize {
        match s {
            Side::Bid => self.bid_n,
            Side::Ask => self.ask_n,
        }
    }
}

/// Largest base amount that `quote` buys at `price` (32-bit fixed point).
pub fn base_for(quote: u64, price: u64) -> u64 {
    if price == 0 {
        return u64::MAX;
    }
    (((quote as u128) << 32) / price as u128).min(u64::MAX as u128) as u64
}
pub fn mul_floor(base: u64, price: u64) -> u128 {
    (base as u128 * price as u128) >> 32
}
pub fn mul_ceil(base: u64, price: u64) -> u128 {
    let x = base as u128 * price as u128;
    (x >> 32) + ((x & 0xffff_ffff != 0) as u128)
}
/// The quote amount of a fill: in favour of the maker.
pub fn fill_quote(taker: Side, base: u64, price: u64) -> u128 {
    match taker {
        Side::Bid => mul_ceil(base, price),
        Side::Ask => mul_floor(base, price),
    }
}
/// The quote amount an order locks or asks for when posted.
pub fn post_quote(side: Side, base: u64, price: u64) -> u128 {
    match side {
        Side::Bid => mul_ceil(base, price),
        Side::Ask => mul_floor(base, price),
    }
}
pub fn crosses(side: Side, limit: u64, opp_price: u64) -> bool {
    match side {
        Side::Bid => limit >= opp_price,
        Side::Ask => limit <= opp_price,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refuse {
    Price,
    QueueFull,
    SelfTrade,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub events: Vec<Ev>,
    pub matches: u64,
    pub posted: Option<Ord>,
    pub evicted: Option<u128>,
    /// A price-better order met a full side or a worse one was turned away.
    pub full_side: bool,
    pub met_self: bool,
    pub summary: Option<Summary>,
}

/// Plan a new order on `st`. `slots` is the number of free event slots.
pub fn new_order(
    st: &St,
    mp: &MP,
    p: &NewP,
    cb: &Cb,
    kind: CbKind,
    slots: usize,
) -> Result<Plan, Refuse> {
    if p.limit % mp.tick != 0 || (p.post_allowed && p.limit < mp.tick) {
        return Err(Refuse::Price);
    }
    let opp = p.side.opp();
    let mut book: Vec<Ord> = st.side(opp).clone();
    if opp == Side::Bid {
        book.reverse();
    }
    let mut plan = Plan::default();
    let (mut rb, mut rq, mut ml) = (p.base, p.quote, p.ml);
    let mut crossed = true;
    let mut at = 0;
    macro_rules! push {
        ($e:expr) => {{
            if plan.events.len() >= slots {
                return Err(Refuse::QueueFull);
            }
            plan.events.push($e);
        }};
    }
    while ml > 0 {
        if at == book.len() {
            crossed = false;
            break;
        }
        let m = book[at].clone();
        let price = m.price();
        crossed = crosses(p.side, p.limit, price);
        if p.post_only || !crossed {
            break;
        }
        let base = m.qty.min(rb).min(base_for(rq, price));
        if base == 0 {
            break;
        }
        let quote = fill_quote(p.side, base, price).min(rq as u128) as u64;
        if quote == 0 {
            break;
        }
        if p.stb != Stb::Decrement && m.cb.identity(kind) == cb.identity(kind) {
            plan.met_self = true;
            if p.stb == Stb::Abort {
                return Err(Refuse::SelfTrade);
            }
            push!(Ev::Out {
                side: opp.code(),
                id: m.id,
                base: m.qty,
                cb: m.cb
            });
            at += 1;
            ml -= 1;
            plan.matches += 1;
            continue;
        }
        push!(Ev::Fill {
            taker: p.side.code(),
            quote,
            maker: m.id,
            base,
            mcb: m.cb,
            tcb: *cb
        });
        book[at].qty -= base;
        rb -= base;
        rq -= quote;
        if book[at].qty < mp.min {
            push!(Ev::Out {
                side: opp.code(),
                id: m.id,
                base: book[at].qty,
                cb: m.cb
            });
            at += 1;
        }
        ml -= 1;
        plan.matches += 1;
    }
    let to_post = base_for(rq, p.limit).min(rb);
    if !crossed && p.post_allowed && to_post >= mp.min {
        let own = st.side(p.side);
        let low = match p.side {
            Side::Bid => !st.seq,
            Side::Ask => st.seq,
        };
        let id = ((p.limit as u128) << 64) | low as u128;
        let mut room = true;
        if own.len() >= mp.cap(p.side) {
            plan.full_side = true;
            room = false;
            let worst = match p.side {
                Side::Bid => own.first(),
                Side::Ask => own.last(),
            };
            if let Some(w) = worst {
                let better = match p.side {
                    Side::Bid => p.limit > w.price(),
                    Side::Ask => p.limit < w.price(),
                };
                if better {
                    push!(Ev::Out {
                        side: p.side.code(),
                        id: w.id,
                        base: w.qty,
                        cb: w.cb
                    });
                    plan.evicted = Some(w.id);
                    room = true;
                }
            }
        }
        if room {
            plan.posted = Some(Ord {
                id,
                qty: to_post,
                cb: *cb,
            });
            rb -= to_post;
            rq -= (post_quote(p.side, to_post, p.limit)).min(rq as u128) as u64;
        }
    }
    plan.summary = Some(Summary {
        id: plan.posted.as_ref().map(|o| o.id),
        base: p.base - rb,
        quote: p.quote - rq,
        posted: plan.posted.as_ref().map(|o| o.qty).unwrap_or(0),
    });
    Ok(plan)
}
