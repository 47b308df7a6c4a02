//! Reading the account bytes without the code under test.
use crate::ops::Side;
use crate::rng::Hash64;
use crate::rt::{Bank, Cb, Work};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, PartialEq)]
pub struct Ord {
    pub id: u128,
    pub qty: u64,
    pub cb: Cb,
}
impl Ord {
    pub fn price(&self) -> u64 {
        (self.id >> 64) as u64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill {
        taker: u8,
        quote: u64,
        maker: u128,
        base: u64,
        mcb: Cb,
        tcb: Cb,
    },
    Out {
        side: u8,
        id: u128,
        base: u64,
        cb: Cb,
    },
    Bad(u8),
}
impl Ev {
    pub fn hash(&self, h: &mut Hash64) {
        match self {
            Ev::Fill {
                taker,
                quote,
                maker,
                base,
                mcb,
                tcb,
            } => {
                h.u64(1 + ((*taker as u64) << 8));
                h.u64(*quote);
                h.u128(*maker);
                h.u64(*base);
                h.bytes(mcb.bytes());
                h.bytes(tcb.bytes());
            }
            Ev::Out { side, id, base, cb } => {
                h.u64(2 + ((*side as u64) << 8));
                h.u128(*id);
                h.u64(*base);
                h.bytes(cb.bytes());
            }
            Ev::Bad(t) => h.u64(3 + ((*t as u64) << 8)),
        }
    }
}

pub fn u32at(b: &[u8], o: usize) -> u32 {
    b.get(o..o + 4)
        .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
        .unwrap_or(0)
}
fn u64at(b: &[u8], o: usize) -> u64 {
    u32at(b, o) as u64 | ((u32at(b, o + 4) as u64) << 32)
}
fn u128at(b: &[u8], o: usize) -> u128 {
    u64at(b, o) as u128 | ((u64at(b, o + 8) as u128) << 64)
}

/// All orders reachable in a book account, ascending by identifier.
pub fn slab(b: &[u8], cb: usize) -> Vec<Ord> {
    let fixed = 8 + 32 + 24 + cb;
    if b.len() < fixed {
        return vec![];
    }
    let cap = (b.len() - fixed) / (24 + 32 + cb);
    let leaves = 40;
    let inners = leaves + (cap + 1) * 24;
    let cbs = inners + cap * 32;
    let root = u32at(b, 32);
    let count = u32at(b, 36);
    let mut out = vec![];
    if count == 0 {
        return out;
    }
    let mut stack = vec![root];
    let mut steps = 0;
    while let Some(h) = stack.pop() {
        steps += 1;
        if steps > 4 * (cap + 2) {
            break; // not a tree
        }
        if h & (1 << 31) == 0 {
            let i = h as usize;
            if i <= cap {
                out.push(Ord {
                    id: u128at(b, leaves + 24 * i),
                    qty: u64at(b, leaves + 24 * i + 16),
                    cb: Cb::from(b.get(cbs + cb * i..cbs + cb * (i + 1)).unwrap_or(&[])),
                });
            }
        } else {
            let i = (!h) as usize;
            if i < cap {
                stack.push(u32at(b, inners + 32 * i + 28));
                stack.push(u32at(b, inners + 32 * i + 24));
            }
        }
    }
    out.sort_by(|a, b| a.id.cmp(&b.id));
    out
}

/// Waiting events oldest first, and the sequence number.
pub fn queue(b: &[u8], cb: usize) -> (Vec<Ev>, u64) {
    if b.len() < 32 {
        return (vec![], 0);
    }
    let cap = (b.len() - 32) / (40 + 2 * cb);
    let (head, count, seq) = (u64at(b, 8), u64at(b, 16), u64at(b, 24));
    let mut v = vec![];
    if cap == 0 {
        return (v, seq);
    }
    let cbs = 32 + cap * 40;
    let n = count.min(cap as u64);
    for k in 0..n {
        let i = ((head as u128 + k as u128) % cap as u128) as usize;
        let e = 32 + 40 * i;
        let c0 = Cb::from(&b[cbs + 2 * i * cb..cbs + (2 * i + 1) * cb]);
        let c1 = Cb::from(&b[cbs + (2 * i + 1) * cb..cbs + (2 * i + 2) * cb]);
        v.push(match b[e] {
            0 => Ev::Fill {
                taker: b[e + 1],
                quote: u64at(b, e + 8),
                maker: u128at(b, e + 16),
                base: u64at(b, e + 32),
                mcb: c0,
                tcb: c1,
            },
            1 => Ev::Out {
                side: b[e + 1],
                id: u128at(b, e + 16),
                base: u64at(b, e + 32),
                cb: c0,
            },
            t => Ev::Bad(t),
        });
    }
    (v, seq)
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct St {
    pub bids: Vec<Ord>,
    pub asks: Vec<Ord>,
    pub q: Vec<Ev>,
    pub seq: u64,
}
impl St {
    pub fn side(&self, s: Side) -> &Vec<Ord> {
        match s {
            Side::Bid => &self.bids,
            Side::Ask => &self.asks,
        }
    }
    pub fn side_mut(&mut self, s: Side) -> &mut Vec<Ord> {
        match s {
            Side::Bid => &mut self.bids,
            Side::Ask => &mut self.asks,
        }
    }
    pub fn best(&self, s: Side) -> Option<&Ord> {
        match s {
            Side::Bid => self.bids.last(),
            Side::Ask => self.asks.first(),
        }
    }
    pub fn find(&self, id: u128) -> Option<(Side, &Ord)> {
        for s in [Side::Bid, Side::Ask] {
            if let Ok(i) = self.side(s).binary_search_by(|o| o.id.cmp(&id)) {
                return Some((s, &self.side(s)[i]));
            }
        }
        None
    }
    pub fn hash(&self) -> u64 {
        let mut h = Hash64::new();
        for s in [&self.bids, &self.asks] {
            h.u64(s.len() as u64);
            for o in s {
                h.u128(o.id);
                h.u64(o.qty);
                h.bytes(o.cb.bytes());
            }
        }
        h.u64(self.q.len() as u64);
        for e in &self.q {
            e.hash(&mut h);
        }
        h.0
    }
}

/// Where account bytes are looked up: a running transaction first, then the ledger.
pub struct View<'a> {
    pub bank: &'a Bank,
    pub work: Option<&'a Work>,
}
impl<'a> View<'a> {
    pub fn data(&self, k: &Pubkey) -> &'a [u8] {
        if let Some(w) = self.work {
            if let Some(a) = w.get(k) {
                return a.data.as_ref();
            }
        }
        self.bank.get(k).map(|a| a.data.as_ref()).unwrap_or(&[])
    }
    pub fn state(&self, q: &Pubkey, b: &Pubkey, a: &Pubkey, cb: usize) -> St {
        let (ev, seq) = queue(self.data(q), cb);
        St {
            bids: slab(self.data(b), cb),
            asks: slab(self.data(a), cb),
            q: ev,
            seq,
        }
    }
}

/// Parameters stored in a market account.
pub fn market(b: &[u8]) -> Option<(u64, [Pubkey; 3], u64, u64)> {
    if b.len() != 120 {
        return None;
    }
    let pk = |o: usize| {
        let mut a = [0u8; 32];
        a.copy_from_slice(&b[o..o + 32]);
        Pubkey::new_from_array(a)
    };
    Some((
        u64at(b, 0),
        [pk(8), pk(40), pk(72)],
        u64at(b, 104),
        u64at(b, 112),
    ))
}
pub fn tag(b: &[u8]) -> u64 {
    u64at(b, 0)
}
