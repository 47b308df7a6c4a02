//! A market in plain memory, driven through the program's public instruction processing.
#![allow(dead_code)]
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::state::{
    critbit::Slab,
    event_queue::{EventQueue, EventRef},
    orderbook::CallbackInfo,
    AccountTag, OrderSummary, SelfTradeBehavior, Side,
};
use borsh::BorshSerialize;
use bytemuck::Pod;
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
    pubkey::Pubkey, rent::Rent,
};
use std::cell::RefCell;
use std::rc::Rc;

pub use ix::*;

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        unsafe { *(a as *mut Rent) = Rent::default() };
        0
    }
}

pub fn setup() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    });
}

/// An account; its bytes sit in u64 words so that they are aligned as the runtime aligns them.
#[derive(Clone)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub words: Vec<u64>,
    pub len: usize,
}

impl Acc {
    pub fn new(n: u8, len: usize) -> Acc {
        Acc {
            key: Pubkey::new_from_array([n; 32]),
            owner: asset_agnostic_orderbook::ID,
            lamports: Rent::default().minimum_balance(len),
            words: vec![0; (len + 7) / 8],
            len,
        }
    }
    pub fn bytes(&self) -> &[u8] {
        &bytemuck::cast_slice(&self.words)[..self.len]
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        let n = self.len;
        &mut bytemuck::cast_slice_mut(&mut self.words)[..n]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev<C> {
    Fill { taker_side: u8, id: u128, base: u64, quote: u64, maker: C, taker: C },
    Out { side: u8, id: u128, base: u64, cb: C },
}

#[derive(Clone)]
pub struct Mkt<C> {
    pub market: Acc,
    pub queue: Acc,
    pub bids: Acc,
    pub asks: Acc,
    pub target: Acc,
    pub _c: std::marker::PhantomData<C>,
}

pub struct Ord<C> {
    pub side: Side,
    pub base: u64,
    pub quote: u64,
    pub price: u64,
    pub ml: u64,
    pub cb: C,
    pub post_only: bool,
    pub post: bool,
    pub stb: SelfTradeBehavior,
}

/// A plain limit order, with no quote cap to speak of
pub fn lim<C>(side: Side, base: u64, price: u64, cb: C) -> Ord<C> {
    Ord {
        side,
        base,
        quote: 1 << 50,
        price,
        ml: 64,
        cb,
        post_only: false,
        post: true,
        stb: SelfTradeBehavior::DecrementTake,
    }
}

fn id(k: [u64; 2]) -> u128 {
    k[0] as u128 | (k[1] as u128) << 64
}

/// Runs `f` over the accounts the way the runtime does: what it wrote counts only if it succeeds.
pub fn tx<R>(
    accs: &mut [&mut Acc],
    f: impl FnOnce(&[AccountInfo]) -> Result<R, ProgramError>,
) -> Result<R, ProgramError> {
    let mut datas: Vec<Acc> = accs.iter().map(|a| (**a).clone()).collect();
    let r = {
        let infos: Vec<AccountInfo> = datas
            .iter_mut()
            .map(|a| {
                let len = a.len;
                AccountInfo {
                    key: unsafe { &*(&a.key as *const Pubkey) },
                    owner: unsafe { &*(&a.owner as *const Pubkey) },
                    lamports: Rc::new(RefCell::new(&mut a.lamports)),
                    data: Rc::new(RefCell::new(
                        &mut bytemuck::cast_slice_mut(&mut a.words)[..len],
                    )),
                    is_signer: false,
                    is_writable: true,
                    executable: false,
                    rent_epoch: 0,
                }
            })
            .collect();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&infos)))
            .unwrap_or(Err(ProgramError::Custom(u32::MAX)))
    };
    if r.is_ok() {
        for (a, d) in accs.iter_mut().zip(datas) {
            **a = d;
        }
    }
    r
}

impl<C: CallbackInfo + Pod + PartialEq + Clone + BorshSerialize> Mkt<C>
where
    C::CallbackId: PartialEq,
{
    /// Four fresh accounts, not yet a market
    pub fn blank(n: u8, orders: usize, events: usize) -> Mkt<C> {
        setup();
        let slab = Slab::<C>::compute_allocation_size(orders);
        Mkt {
            market: Acc::new(n, 120),
            queue: Acc::new(n + 1, EventQueue::<C>::compute_allocation_size(events)),
            bids: Acc::new(n + 2, slab),
            asks: Acc::new(n + 3, slab),
            target: Acc::new(n + 4, 0),
            _c: Default::default(),
        }
    }
    pub fn new(n: u8, orders: usize, events: usize, min: u64, tick: u64) -> Mkt<C> {
        let mut m = Self::blank(n, orders, events);
        m.create(min, tick).unwrap();
        m
    }
    pub fn create(&mut self, min: u64, tick: u64) -> ProgramResult {
        tx(
            &mut [&mut self.market, &mut self.queue, &mut self.bids, &mut self.asks],
            |a| {
                ix::create_market::process::<C>(
                    &asset_agnostic_orderbook::ID,
                    ix::create_market::Accounts {
                        market: &a[0],
                        event_queue: &a[1],
                        bids: &a[2],
                        asks: &a[3],
                    },
                    ix::create_market::Params { min_base_order_size: min, tick_size: tick },
                )
            },
        )
    }
    pub fn order(&mut self, o: Ord<C>) -> Result<OrderSummary, ProgramError> {
        tx(
            &mut [&mut self.market, &mut self.queue, &mut self.bids, &mut self.asks],
            |a| {
                ix::new_order::process::<C>(
                    &asset_agnostic_orderbook::ID,
                    ix::new_order::Accounts {
                        market: &a[0],
                        event_queue: &a[1],
                        bids: &a[2],
                        asks: &a[3],
                    },
                    ix::new_order::Params {
                        max_base_qty: o.base,
                        max_quote_qty: o.quote,
                        limit_price: o.price,
                        side: o.side,
                        match_limit: o.ml,
                        callback_info: o.cb,
                        post_only: o.post_only,
                        post_allowed: o.post,
                        self_trade_behavior: o.stb,
                    },
                )
            },
        )
    }
    /// Posts a limit order that must rest; returns its identifier
    pub fn post(&mut self, side: Side, base: u64, price: u64, cb: C) -> u128 {
        self.order(lim(side, base, price, cb)).unwrap().posted_order_id.unwrap()
    }
    pub fn cancel(&mut self, order_id: u128) -> Result<OrderSummary, ProgramError> {
        tx(
            &mut [&mut self.market, &mut self.queue, &mut self.bids, &mut self.asks],
            |a| {
                ix::cancel_order::process::<C>(
                    &asset_agnostic_orderbook::ID,
                    ix::cancel_order::Accounts {
                        market: &a[0],
                        event_queue: &a[1],
                        bids: &a[2],
                        asks: &a[3],
                    },
                    ix::cancel_order::Params { order_id },
                )
            },
        )
    }
    pub fn mass(&mut self, order_ids: Vec<u128>) -> Result<OrderSummary, ProgramError> {
        tx(
            &mut [&mut self.market, &mut self.queue, &mut self.bids, &mut self.asks],
            |a| {
                ix::mass_cancel_orders::process::<C>(
                    &asset_agnostic_orderbook::ID,
                    ix::mass_cancel_orders::Accounts {
                        market: &a[0],
                        event_queue: &a[1],
                        bids: &a[2],
                        asks: &a[3],
                    },
                    ix::mass_cancel_orders::Params { order_ids },
                )
            },
        )
    }
    pub fn consume(&mut self, n: u64) -> ProgramResult {
        tx(&mut [&mut self.market, &mut self.queue], |a| {
            ix::consume_events::process::<C>(
                &asset_agnostic_orderbook::ID,
                ix::consume_events::Accounts { market: &a[0], event_queue: &a[1] },
                ix::consume_events::Params { number_of_entries_to_consume: n },
            )
        })
    }
    pub fn close(&mut self) -> ProgramResult {
        tx(
            &mut [
                &mut self.market,
                &mut self.queue,
                &mut self.bids,
                &mut self.asks,
                &mut self.target,
            ],
            |a| {
                ix::close_market::process::<C>(
                    &asset_agnostic_orderbook::ID,
                    ix::close_market::Accounts {
                        market: &a[0],
                        event_queue: &a[1],
                        bids: &a[2],
                        asks: &a[3],
                        lamports_target_account: &a[4],
                    },
                    ix::close_market::Params {},
                )
            },
        )
    }
    pub fn events(&self) -> Vec<Ev<C>> {
        let mut q = self.queue.clone();
        let q = EventQueue::<C>::from_buffer(q.bytes_mut(), AccountTag::EventQueue).unwrap();
        q.iter()
            .map(|e| match e {
                EventRef::Fill(f) => Ev::Fill {
                    taker_side: f.event.taker_side,
                    id: id(f.event.maker_order_id),
                    base: f.event.base_size,
                    quote: f.event.quote_size,
                    maker: f.maker_callback_info.clone(),
                    taker: f.taker_callback_info.clone(),
                },
                EventRef::Out(o) => Ev::Out {
                    side: o.event.side,
                    id: id(o.event.order_id),
                    base: o.event.base_size,
                    cb: o.callback_info.clone(),
                },
            })
            .collect()
    }
    /// The resting orders of a side: identifier and base quantity, by rising identifier
    pub fn book(&self, side: Side) -> Vec<(u128, u64)> {
        let (a, t) = match side {
            Side::Bid => (&self.bids, AccountTag::Bids),
            Side::Ask => (&self.asks, AccountTag::Asks),
        };
        let mut a = a.clone();
        let s = Slab::<C>::from_buffer(a.bytes_mut(), t).unwrap();
        s.into_iter(true).map(|l| (id(l.key), l.base_quantity)).collect()
    }
}
