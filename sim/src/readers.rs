//! Everything a caller program or a client can read through the published Rust API.
use crate::decode::Ev;
use crate::ops::*;
use crate::rt::*;
use crate::with_cb;
use crate::world::Mkt;
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::{AccountTag, SelfTradeBehavior, Side as AobSide};
use bytemuck::Pod;
use solana_program::account_info::AccountInfo;

/// An identifier as the event structures hold it: two words, or one integer on chain.
fn id<T: bytemuck::NoUninit>(k: &T) -> u128 {
    let mut b = [0u8; 16];
    b.copy_from_slice(bytemuck::bytes_of(k));
    u128::from_le_bytes(b)
}
fn ev_of<C: Pod>(e: &EventRef<C>) -> Ev {
    match e {
        EventRef::Fill(f) => Ev::Fill {
            taker: f.event.taker_side,
            quote: f.event.quote_size,
            maker: id(&f.event.maker_order_id),
            base: f.event.base_size,
            mcb: Cb::from(bytemuck::bytes_of(f.maker_callback_info)),
            tcb: Cb::from(bytemuck::bytes_of(f.taker_callback_info)),
        },
        EventRef::Out(o) => Ev::Out {
            side: o.event.side,
            id: id(&o.event.order_id),
            base: o.event.base_size,
            cb: Cb::from(bytemuck::bytes_of(o.callback_info)),
        },
    }
}

/// What a consumer reads before consuming `n` events.
pub fn first_events(k: CbKind, data: &[u8], n: u64) -> Result<Vec<Ev>, String> {
    let mut b = Buf::from_bytes(data, 0);
    guarded(|| {
        with_cb!(k, C => {
            let q = EventQueue::<C>::from_buffer(b.as_mut(), AccountTag::EventQueue)
                .map_err(|e| format!("queue unreadable: {:?}", e))?;
            let mut v = vec![];
            for e in q.iter() {
                if v.len() as u64 >= n || v.len() > 1_000_000 {
                    break;
                }
                v.push(ev_of::<C>(&e));
            }
            Ok(v)
        })
    })
    .unwrap_or_else(|e| Err(format!("the queue reader crashed: {}", e)))
}

fn check_c<C>(cfg: &Cfg, bank: &Bank, mk: &Mkt, probe: u64) -> Vec<String>
where
    C: CallbackInfo + Pod + PartialEq,
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    let mut errs = vec![];
    let (Some(qa), Some(ba), Some(aa)) = (
        bank.get(&mk.keys[1]),
        bank.get(&mk.keys[2]),
        bank.get(&mk.keys[3]),
    ) else {
        return errs;
    };
    let st = &mk.st;
    // nothing passes for what it is not
    for (i, name) in ["market", "queue", "bids", "asks"].into_iter().enumerate() {
        if let Some(a) = bank.get(&mk.keys[i]) {
            let as_ = taken_for(cfg.cb, &a.data);
            if as_ != [name] {
                errs.push(format!("the {} account opens as {:?}", name, as_));
            }
        }
    }
    if let Some(a) = bank.get(&mk.keys[0]) {
        let mut d = a.data.clone();
        match MarketState::from_buffer(d.as_mut(), AccountTag::Market) {
            Err(e) => errs.push(format!("market unreadable: {:?}", e)),
            Ok(m) => {
                let keys = [m.event_queue, m.bids, m.asks];
                if keys != mk.keys[1..] || m.min_base_order_size != mk.mp.min || m.tick_size != mk.mp.tick {
                    errs.push("the market is read with other parameters".into());
                }
            }
        }
        if d.as_ref() != a.data.as_ref() {
            errs.push("reading changed the market account".into());
        }
    }
    // spread
    {
        let (mut bd, mut ad) = (ba.clone(), aa.clone());
        let (mut bl, mut al) = (1u64, 1u64);
        let (owner, k2, k3) = (ba.owner, mk.keys[2], mk.keys[3]);
        let spread = {
            let bi = AccountInfo::new(&k2, false, false, &mut bl, bd.data.as_mut(), &owner, false, 0);
            let ai = AccountInfo::new(&k3, false, false, &mut al, ad.data.as_mut(), &owner, false, 0);
            let r = asset_agnostic_orderbook::utils::get_spread::<C>(&bi, &ai);
            r
        };
        let want = (
            st.best(Side::Bid).map(|o| o.price()),
            st.best(Side::Ask).map(|o| o.price()),
        );
        if spread != want {
            errs.push(format!("spread query says {:?}, resting is {:?}", spread, want));
        }
        if bd.data.as_ref() != ba.data.as_ref() || ad.data.as_ref() != aa.data.as_ref() {
            errs.push("the spread query changed a book account".into());
        }
    }
    // books
    for (side, acct, tag) in [
        (Side::Bid, ba, AccountTag::Bids),
        (Side::Ask, aa, AccountTag::Asks),
    ] {
        let want = st.side(side);
        for asc in [true, false] {
            let mut d = acct.data.clone();
            let got: Vec<(u128, u64, u64)> = match Slab::<C>::from_buffer(d.as_mut(), tag) {
                Ok(s) => s
                    .into_iter(asc)
                    .take(want.len() + 2)
                    .map(|l| (l.order_id(), l.base_quantity, l.price()))
                    .collect(),
                Err(e) => {
                    errs.push(format!("{:?} account unreadable: {:?}", side, e));
                    continue;
                }
            };
            let mut exp: Vec<(u128, u64, u64)> =
                want.iter().map(|o| (o.id, o.qty, o.price())).collect();
            if !asc {
                exp.reverse();
            }
            if got != exp {
                errs.push(format!(
                    "{} {:?} iterator lists {} orders, {} rest, or in another order",
                    if asc { "ascending" } else { "descending" },
                    side,
                    got.len(),
                    exp.len()
                ));
            }
            if d.as_ref() != acct.data.as_ref() {
                errs.push("iterating changed a book account".into());
            }
        }
        let mut d = acct.data.clone();
        if let Ok(s) = Slab::<C>::from_buffer(d.as_mut(), tag) {
            if s.header.leaf_count as usize != want.len() {
                errs.push(format!(
                    "{:?} header counts {} orders, {} rest",
                    side,
                    s.header.leaf_count,
                    want.len()
                ));
            }
            let price = |h: Option<u32>| h.map(|h| s.leaf_nodes[h as usize].order_id());
            if price(s.find_min()) != want.first().map(|o| o.id)
                || price(s.find_max()) != want.last().map(|o| o.id)
            {
                errs.push(format!("{:?} lowest or highest order is wrong", side));
            }
            let ids: Vec<u128> = want.iter().map(|o| o.id).collect();
            if s.get_depth() != trie_depth(&ids) {
                errs.push(format!(
                    "{:?} tree said to be {} deep, the resting identifiers make it {}",
                    side,
                    s.get_depth(),
                    trie_depth(&ids)
                ));
            }
            for o in want {
                match s.find_by_key(o.id) {
                    Some(h) => {
                        let l = s.leaf_nodes[h as usize];
                        if l.order_id() != o.id
                            || l.base_quantity != o.qty
                            || bytemuck::bytes_of(s.get_callback_info(h)) != o.cb.bytes()
                        {
                            errs.push(format!("lookup of {} finds another order", o.id));
                        }
                    }
                    None => errs.push(format!("lookup misses resting order {}", o.id)),
                }
            }
            // identifiers that do not rest, close to ones that do and from the past
            let mut not: Vec<u128> = vec![0, u128::MAX, probe as u128, (probe as u128) << 64];
            for (i, o) in want.iter().enumerate().take(40) {
                not.push(o.id ^ (1u128 << ((probe as usize + 13 * i) % 128)));
                not.push(o.id.wrapping_add(1));
                not.push(o.id.wrapping_sub(1));
                not.push(!o.id);
            }
            not.extend(mk.hist.orders.keys().rev().take(60));
            not.extend(st.side(side.opp()).iter().map(|o| o.id).take(10));
            for id in not {
                let rests = want.binary_search_by(|o| o.id.cmp(&id)).is_ok();
                if s.find_by_key(id).is_some() != rests {
                    errs.push(format!(
                        "lookup of {} on the {:?} side says {}",
                        id, side, !rests
                    ));
                }
            }
        }
        if d.as_ref() != acct.data.as_ref() {
            errs.push("looking up changed a book account".into());
        }
    }
    // queue
    let mut d = qa.data.clone();
    match EventQueue::<C>::from_buffer(d.as_mut(), AccountTag::EventQueue) {
        Err(e) => errs.push(format!("queue unreadable: {:?}", e)),
        Ok(q) => {
            let got: Vec<Ev> = q
                .iter()
                .take(st.q.len() + 2)
                .map(|e| ev_of::<C>(&e))
                .collect();
            if got != st.q {
                errs.push(format!(
                    "queue iterator shows {} events, {} wait, or other ones",
                    got.len(),
                    st.q.len()
                ));
            }
            if q.len() != st.q.len() as u64 || q.is_empty() != st.q.is_empty() {
                errs.push(format!("queue length {} but {} wait", q.len(), st.q.len()));
            }
            for i in 0..st.q.len() + 3 {
                let e = q.peek_at(i as u64).map(|e| ev_of::<C>(&e));
                if e.as_ref() != st.q.get(i) {
                    errs.push(format!("peek at {} of {} is wrong", i, st.q.len()));
                    break;
                }
            }
            for i in [u64::MAX, probe | (1 << 40), q.len(), mk.mp.q_n as u64] {
                if i >= q.len() && q.peek_at(i).is_some() {
                    errs.push(format!("peek at {} past the end shows an event", i));
                }
            }
        }
    }
    if d.as_ref() != qa.data.as_ref() {
        errs.push("reading changed the queue account".into());
    }
    errs
}

/// What the published readers take an account for, each asked for the one kind it reads.
pub fn taken_for(k: CbKind, data: &Buf) -> Vec<&'static str> {
    let mut v = vec![];
    let mut ask = |name, f: &dyn Fn(&mut [u8]) -> bool| {
        let mut d = data.clone();
        if guarded(|| f(d.as_mut())).unwrap_or(false) {
            v.push(name);
        }
    };
    ask("market", &|d| MarketState::from_buffer(d, AccountTag::Market).is_ok());
    with_cb!(k, C => {
        ask("queue", &|d| EventQueue::<C>::from_buffer(d, AccountTag::EventQueue).is_ok());
        ask("bids", &|d| Slab::<C>::from_buffer(d, AccountTag::Bids).is_ok());
        ask("asks", &|d| Slab::<C>::from_buffer(d, AccountTag::Asks).is_ok());
    });
    v
}

pub fn check(cfg: &Cfg, bank: &Bank, mk: &Mkt, probe: u64) -> Vec<String> {
    let r = guarded(|| with_cb!(cfg.cb, C => check_c::<C>(cfg, bank, mk, probe)));
    r.unwrap_or_else(|e| vec![format!("a reader crashed: {}", e)])
}

fn borsh1<T: borsh::BorshSerialize>(x: &T) -> u8 {
    x.try_to_vec().map(|v| v[0]).unwrap_or(255)
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// A snapshot of a market's accounts for readers outside this process, with what they must show.
pub fn snapshot(cfg: &Cfg, bank: &Bank, mk: &Mkt) -> serde_json::Value {
    let d = |i: usize| {
        hex(bank
            .get(&mk.keys[i])
            .map(|a| a.data.as_ref())
            .unwrap_or(&[]))
    };
    let ords = |s: Side| -> Vec<serde_json::Value> {
        mk.st
            .side(s)
            .iter()
            .map(|o| serde_json::json!([o.id.to_string(), o.qty.to_string(), hex(o.cb.bytes())]))
            .collect()
    };
    let evs: Vec<serde_json::Value> = mk
        .st
        .q
        .iter()
        .map(|e| match e {
            Ev::Fill {
                taker,
                quote,
                maker,
                base,
                mcb,
                tcb,
            } => serde_json::json!([
                0,
                taker,
                quote.to_string(),
                maker.to_string(),
                base.to_string(),
                hex(mcb.bytes()),
                hex(tcb.bytes())
            ]),
            Ev::Out { side, id, base, cb } => {
                serde_json::json!([1, side, id.to_string(), base.to_string(), hex(cb.bytes())])
            }
            Ev::Bad(t) => serde_json::json!([2, t]),
        })
        .collect();
    serde_json::json!({
        "cb": cfg.cb.len(), "market": d(0), "queue": d(1), "bids": d(2), "asks": d(3),
        "keys": [mk.keys[1].to_string(), mk.keys[2].to_string(), mk.keys[3].to_string()],
        "min": mk.mp.min.to_string(), "tick": mk.mp.tick.to_string(),
        "want": { "bids": ords(Side::Bid), "asks": ords(Side::Ask), "events": evs,
                  "seq": mk.st.seq.to_string() },
        "caps": [mk.mp.bid_n, mk.mp.ask_n, mk.mp.q_n],
        "names": {
            "side": { "Bid": AobSide::Bid as u8, "Ask": AobSide::Ask as u8 },
            "stb": {
                "DecrementTake": borsh1(&SelfTradeBehavior::DecrementTake),
                "CancelProvide": borsh1(&SelfTradeBehavior::CancelProvide),
                "AbortTransaction": borsh1(&SelfTradeBehavior::AbortTransaction),
            },
            "tag": {
                "Uninitialized": AccountTag::Uninitialized as u64, "Market": AccountTag::Market as u64,
                "EventQueue": AccountTag::EventQueue as u64, "Bids": AccountTag::Bids as u64,
                "Asks": AccountTag::Asks as u64, "Disabled": AccountTag::Disabled as u64,
            },
        },
    })
}

/// Nodes on the longest way from the root to an order, in the binary trie the (sorted, distinct)
/// identifiers span: it branches where two of them first differ and nowhere else.
fn trie_depth(ids: &[u128]) -> usize {
    match ids {
        [] => 0,
        [_] => 1,
        [first, .., last] => {
            let bit = 1u128 << (127 - (first ^ last).leading_zeros());
            let at = ids.partition_point(|i| i & bit == 0);
            1 + trie_depth(&ids[..at]).max(trie_depth(&ids[at..]))
        }
    }
}
