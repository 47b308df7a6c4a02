//! A small Solana-like runtime: accounts, transactions, the rules the real runtime enforces after
//! every instruction, and the seams (log and sysvar system calls, the caller's callback type)
//! through which a run can make the program die at any chosen point.
use crate::ops::*;
use asset_agnostic_orderbook::instruction as aobi;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::{OrderSummary, ORDER_SUMMARY_SIZE, SelfTradeBehavior, Side as AobSide};
use borsh::BorshDeserialize;
use bytemuck::{Pod, Zeroable};
use solana_program::account_info::AccountInfo;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

// ---------------------------------------------------------------- seams

thread_local! {
    static POINTS: Cell<u64> = const { Cell::new(0) };
    static ABORT_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_PROGRAM: Cell<bool> = const { Cell::new(false) };
    static PREEMPT_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static PREEMPT: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    /// What the machine would tell a program that asks: clock (ns), slot, random numbers.
    static AMBIENT: Cell<(u64, u64, u64)> = const { Cell::new((1_700_000_000_000_000_000, 0, 1)) };
    static AMBIENT_READS: Cell<u64> = const { Cell::new(0) };
    static HEAP_ON: Cell<bool> = const { Cell::new(false) };
    static HEAP: Cell<u64> = const { Cell::new(0) };
}

/// The heap a program has on chain: 32 KiB per instruction, and nothing is ever given back.
pub const HEAP_SIZE: u64 = 32 * 1024;

/// The allocator seam: inside the program, every request is charged to the instruction's heap.
struct Heap;
impl Heap {
    #[inline]
    fn charge(n: usize) {
        let _ = HEAP_ON.try_with(|on| {
            if on.get() {
                let _ = HEAP.try_with(|h| h.set(h.get().saturating_add(n as u64)));
            }
        });
    }
}
// SAFETY: everything is passed on to the system allocator.
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        Heap::charge(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        Heap::charge(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        // the chain's allocator makes a copy
        Heap::charge(n);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static HEAP_SEAM: Heap = Heap;

/// Set what the machine running the next instructions shows as time, slot and randomness.
pub fn set_ambient(clock_ns: u64, slot: u64, rnd: u64) {
    AMBIENT.with(|c| c.set((clock_ns, slot, rnd)));
}
pub fn ambient() -> (u64, u64, u64) {
    AMBIENT.with(|c| c.get())
}
pub fn ambient_reads() -> u64 {
    AMBIENT_READS.with(|c| c.get())
}
/// Run `f` when the next instruction makes its `at`-th seam crossing.
pub fn preempt(at: u64, f: Box<dyn FnOnce()>) {
    PREEMPT_AT.with(|c| c.set(at.max(1)));
    PREEMPT.with(|c| *c.borrow_mut() = Some(f));
}
/// The preemption, if the instruction ended before reaching it.
pub fn preempt_left() -> Option<Box<dyn FnOnce()>> {
    PREEMPT_AT.with(|c| c.set(u64::MAX));
    PREEMPT.with(|c| c.borrow_mut().take())
}

/// The C library's clock, for everything in this process: real outside the program under test,
/// simulated inside it.
/// # Safety
/// Called by the standard library with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if IN_PROGRAM.with(|c| c.get()) {
        AMBIENT_READS.with(|c| c.set(c.get() + 1));
        let ns = AMBIENT.with(|c| c.get()).0;
        (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
/// The C library's randomness, likewise.
/// # Safety
/// Called by the standard library with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    if IN_PROGRAM.with(|c| c.get()) {
        AMBIENT_READS.with(|c| c.set(c.get() + 1));
        let (a, b, seed) = AMBIENT.with(|c| c.get());
        let mut r = crate::rng::Rng::new(seed);
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for x in out.iter_mut() {
            *x = r.next() as u8;
        }
        AMBIENT.with(|c| c.set((a, b, r.next())));
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}
struct Aborted;
struct OverBudget;

/// Seam crossings one instruction may make before it counts as running forever. The largest
/// legitimate instruction (a match of every event slot) stays far below.
pub const SEAM_BUDGET: u64 = 2_000_000;

/// Every log call and every copy or comparison of the caller's callback type passes here.
#[inline]
fn seam() {
    if !IN_PROGRAM.with(|c| c.get()) {
        return;
    }
    let n = POINTS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if n == PREEMPT_AT.with(|c| c.get()) {
        if let Some(f) = preempt_left() {
            let (ab, bu) = (ABORT_AT.with(|c| c.get()), BUDGET.with(|c| c.get()));
            let am = ambient();
            let (on, used) = (HEAP_ON.with(|c| c.replace(false)), HEAP.with(|c| c.get()));
            f();
            HEAP.with(|c| c.set(used));
            HEAP_ON.with(|c| c.set(on));
            set_ambient(am.0, am.1, am.2);
            POINTS.with(|c| c.set(n));
            ABORT_AT.with(|c| c.set(ab));
            BUDGET.with(|c| c.set(bu));
            IN_PROGRAM.with(|c| c.set(true));
        }
    }
    if n == ABORT_AT.with(|c| c.get()) {
        panic_any(Aborted);
    }
    if n > BUDGET.with(|c| c.get()) {
        panic_any(OverBudget);
    }
}

/// Run reader code outside a transaction; a panic inside is caught and kept quiet.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    POINTS.with(|c| c.set(0));
    ABORT_AT.with(|c| c.set(u64::MAX));
    BUDGET.with(|c| c.set(SEAM_BUDGET));
    IN_PROGRAM.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_PROGRAM.with(|c| c.set(false));
    r.map_err(|_| LAST_PANIC.with(|c| c.borrow().clone()))
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {
        seam();
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {
        seam();
    }
    fn sol_log_compute_units(&self) {
        seam();
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        seam();
        AMBIENT_READS.with(|c| c.set(c.get() + 1));
        let (ns, slot, _) = ambient();
        let clock = solana_program::clock::Clock {
            slot,
            epoch_start_timestamp: (ns / 1_000_000_000) as i64 - 1000,
            epoch: slot / 432_000,
            leader_schedule_epoch: slot / 432_000 + 1,
            unix_timestamp: (ns / 1_000_000_000) as i64,
        };
        unsafe { *(var as *mut solana_program::clock::Clock) = clock };
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        seam();
        unsafe { *(var as *mut Rent) = Rent::default() };
        0
    }
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-text panic)".to_string()
        };
        let loc = i
            .location()
            .map(|l| {
                let f = l.file().rsplit('/').next().unwrap_or("").to_string();
                format!("{}", f)
            })
            .unwrap_or_default();
        if IN_PROGRAM.with(|c| c.get()) {
            LAST_PANIC.with(|c| *c.borrow_mut() = format!("{} [{}]", m, loc));
        } else {
            eprintln!("harness panic: {} at {:?}", m, i.location());
        }
    }));
}

// ---------------------------------------------------------------- callback types

#[derive(Copy, PartialEq, Debug, Zeroable, Pod)]
#[repr(C)]
pub struct C40 {
    pub id: [u8; 32],
    pub nonce: u64,
}
#[allow(clippy::expl_impl_clone_on_copy)]
impl Clone for C40 {
    fn clone(&self) -> Self {
        seam();
        *self
    }
}
impl CallbackInfo for C40 {
    type CallbackId = [u8; 32];
    fn as_callback_id(&self) -> &[u8; 32] {
        seam();
        &self.id
    }
}
#[derive(Copy, PartialEq, Debug, Zeroable, Pod)]
#[repr(C)]
pub struct C8 {
    pub user: u32,
    pub nonce: u32,
}
#[allow(clippy::expl_impl_clone_on_copy)]
impl Clone for C8 {
    fn clone(&self) -> Self {
        seam();
        *self
    }
}
impl CallbackInfo for C8 {
    type CallbackId = u32;
    fn as_callback_id(&self) -> &u32 {
        seam();
        &self.user
    }
}
#[derive(Copy, PartialEq, Debug, Zeroable, Pod)]
#[repr(C)]
pub struct C33 {
    pub nonce: u8,
    pub id: [u8; 32],
}
#[allow(clippy::expl_impl_clone_on_copy)]
impl Clone for C33 {
    fn clone(&self) -> Self {
        seam();
        *self
    }
}
#[derive(Copy, PartialEq, Debug, Zeroable, Pod)]
#[repr(C)]
pub struct C3 {
    pub id: [u8; 2],
    pub nonce: u8,
}
#[allow(clippy::expl_impl_clone_on_copy)]
impl Clone for C3 {
    fn clone(&self) -> Self {
        seam();
        *self
    }
}
impl CallbackInfo for C3 {
    type CallbackId = [u8; 2];
    fn as_callback_id(&self) -> &[u8; 2] {
        seam();
        &self.id
    }
}
impl CallbackInfo for C33 {
    type CallbackId = [u8; 32];
    fn as_callback_id(&self) -> &[u8; 32] {
        seam();
        &self.id
    }
}

#[macro_export]
macro_rules! with_cb {
    ($k:expr, $C:ident => $e:expr) => {
        match $k {
            $crate::ops::CbKind::B32 => {
                type $C = [u8; 32];
                $e
            }
            $crate::ops::CbKind::C40 => {
                type $C = $crate::rt::C40;
                $e
            }
            $crate::ops::CbKind::C8 => {
                type $C = $crate::rt::C8;
                $e
            }
            $crate::ops::CbKind::C33 => {
                type $C = $crate::rt::C33;
                $e
            }
            $crate::ops::CbKind::C3 => {
                type $C = $crate::rt::C3;
                $e
            }
        }
    };
}

/// Callback bytes as stored in accounts.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cb {
    pub n: u8,
    pub b: [u8; 40],
}
impl std::fmt::Debug for Cb {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for x in self.bytes() {
            write!(f, "{:02x}", x)?;
        }
        Ok(())
    }
}
impl Cb {
    pub fn from(s: &[u8]) -> Cb {
        let mut b = [0u8; 40];
        b[..s.len()].copy_from_slice(s);
        Cb { n: s.len() as u8, b }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n as usize]
    }
    pub fn identity(&self, k: CbKind) -> &[u8] {
        match k {
            CbKind::B32 | CbKind::C40 => &self.b[..32],
            CbKind::C8 => &self.b[..4],
            CbKind::C33 => &self.b[1..33],
            CbKind::C3 => &self.b[..2],
        }
    }
}

/// The callback information user `u` attaches; distinct users have distinct identities.
pub fn make_cb(k: CbKind, user: u32, nonce: u32) -> Cb {
    let mut id = [0u8; 32];
    // identities differing in a single byte, in varying positions
    id[..4].copy_from_slice(&(user.wrapping_mul(0x9E37_79B9) | 1).to_le_bytes());
    id[31 - (user as usize % 8)] ^= 0x80 | user as u8;
    match k {
        CbKind::B32 => {
            id[12..16].copy_from_slice(&nonce.to_le_bytes());
            Cb::from(&id)
        }
        CbKind::C40 => {
            let mut v = [0u8; 40];
            v[..32].copy_from_slice(&id);
            v[32..36].copy_from_slice(&nonce.to_le_bytes());
            v[36..].copy_from_slice(&(!nonce).to_le_bytes());
            Cb::from(&v)
        }
        CbKind::C8 => {
            let mut v = [0u8; 8];
            v[..4].copy_from_slice(&user.wrapping_add(1).to_le_bytes());
            v[4..].copy_from_slice(&nonce.to_le_bytes());
            Cb::from(&v)
        }
        CbKind::C33 => {
            let mut v = [0u8; 33];
            v[0] = nonce as u8;
            v[1..].copy_from_slice(&id);
            Cb::from(&v)
        }
        CbKind::C3 => {
            let id = ((user as u16).wrapping_add(1) << 8 | 0x80).to_le_bytes();
            Cb::from(&[id[0], id[1], nonce as u8])
        }
    }
}

// ---------------------------------------------------------------- accounts

/// Account bytes, 8-byte aligned as in the real input buffer; `off` shifts them by one word.
#[derive(Clone)]
pub struct Buf {
    w: Vec<u64>,
    off: usize,
    len: usize,
}
impl Buf {
    pub fn new(len: usize, shift: usize) -> Buf {
        let off = shift & 1;
        Buf {
            w: vec![0u64; len.div_ceil(8) + off],
            off,
            len,
        }
    }
    pub fn from_bytes(b: &[u8], shift: usize) -> Buf {
        let mut r = Buf::new(b.len(), shift);
        r.as_mut().copy_from_slice(b);
        r
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn as_ref(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.w)[8 * self.off..8 * self.off + self.len]
    }
    pub fn as_mut(&mut self) -> &mut [u8] {
        let (o, l) = (8 * self.off, self.len);
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.w)[o..o + l]
    }
}

#[derive(Clone)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Buf,
}
impl Acct {
    pub fn same(&self, o: &Acct) -> bool {
        self.lamports == o.lamports
            && self.owner == o.owner
            && self.data.as_ref() == o.data.as_ref()
    }
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub shift: usize,
}

pub fn key(kind: u8, a: u32, b: u32) -> Pubkey {
    let mut r = crate::rng::Rng::new(
        0x5157_0000_0000_0000 ^ ((kind as u64) << 40) ^ ((a as u64) << 8) ^ ((b as u64) << 48),
    );
    let mut k = [0u8; 32];
    for i in 0..4 {
        k[8 * i..8 * i + 8].copy_from_slice(&r.next().to_le_bytes());
    }
    Pubkey::new_from_array(k)
}
pub fn role_key(m: u32, r: Role) -> Pubkey {
    key(1, m, r as u32)
}
pub fn register_key() -> Pubkey {
    key(2, 0, 0)
}
pub fn foreign_program() -> Pubkey {
    key(3, 1, 0)
}
pub fn caller_program() -> Pubkey {
    key(3, 0, 0)
}
pub fn system_program() -> Pubkey {
    Pubkey::new_from_array([0; 32])
}
pub fn program_of(mode: Mode) -> Pubkey {
    match mode {
        Mode::Entry => asset_agnostic_orderbook::id(),
        Mode::Lib => caller_program(),
    }
}
pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

impl Bank {
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k)
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::rng::Hash64::new();
        for (k, a) in &self.accts {
            h.bytes(k.as_ref());
            h.u64(a.lamports);
            h.bytes(a.owner.as_ref());
            h.bytes(a.data.as_ref());
        }
        h.0
    }
    /// What survives a crash: key, balance, owner and bytes of every account.
    pub fn serialize(&self) -> Vec<u8> {
        let mut v = vec![];
        for (k, a) in &self.accts {
            v.extend_from_slice(k.as_ref());
            v.extend_from_slice(&a.lamports.to_le_bytes());
            v.extend_from_slice(a.owner.as_ref());
            v.extend_from_slice(&(a.data.len() as u64).to_le_bytes());
            v.extend_from_slice(a.data.as_ref());
        }
        v
    }
    pub fn restore(mut v: &[u8], shift: usize) -> Bank {
        let mut b = Bank {
            accts: BTreeMap::new(),
            shift,
        };
        let mut n = shift;
        fn take<'a>(v: &mut &'a [u8], n: usize) -> &'a [u8] {
            let (x, y) = v.split_at(n);
            *v = y;
            x
        }
        fn pk(b: &[u8]) -> Pubkey {
            let mut a = [0u8; 32];
            a.copy_from_slice(b);
            Pubkey::new_from_array(a)
        }
        fn n64(b: &[u8]) -> u64 {
            let mut a = [0u8; 8];
            a.copy_from_slice(b);
            u64::from_le_bytes(a)
        }
        while !v.is_empty() {
            let k = pk(take(&mut v, 32));
            let lamports = n64(take(&mut v, 8));
            let owner = pk(take(&mut v, 32));
            let len = n64(take(&mut v, 8)) as usize;
            let data = Buf::from_bytes(take(&mut v, len), n);
            n = n.wrapping_add(shift);
            b.accts.insert(
                k,
                Acct {
                    lamports,
                    owner,
                    data,
                },
            );
        }
        b
    }
}

// ---------------------------------------------------------------- instructions

#[derive(Clone, Debug, PartialEq)]
pub enum LibOp {
    Create { min: u64, tick: u64 },
    New { p: NewP, cb: Cb },
    Cancel(u128),
    Mass(Vec<u128>),
    Consume(u64),
    Close,
}

#[derive(Clone)]
pub enum Call {
    Entry(Vec<u8>),
    Lib(CbKind, LibOp),
}

#[derive(Clone)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<(Pubkey, bool)>,
    /// Some listed account would have to sign. Only the payer does; market, queue, books, target
    /// and register have no key anybody holds.
    pub demands: bool,
    pub call: Call,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Summary {
    pub id: Option<u128>,
    pub base: u64,
    pub quote: u64,
    pub posted: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ErrK {
    Custom(u32),
    Prog(String),
    Panic(String),
    Aborted,
    Budget,
    /// The instruction asked for more memory than there is.
    Memory(u64),
    /// The runtime refused what the program did.
    Rule(String),
    /// The register did not hold a readable result.
    Register(String),
}
impl ErrK {
    pub fn is_crash(&self) -> bool {
        matches!(self, ErrK::Panic(_) | ErrK::Budget | ErrK::Memory(_))
    }
}

pub type IxRes = Result<Option<Summary>, ErrK>;

fn conv_side(s: Side) -> AobSide {
    match s {
        Side::Bid => AobSide::Bid,
        Side::Ask => AobSide::Ask,
    }
}
fn conv_stb(s: Stb) -> SelfTradeBehavior {
    match s {
        Stb::Decrement => SelfTradeBehavior::DecrementTake,
        Stb::Cancel => SelfTradeBehavior::CancelProvide,
        Stb::Abort => SelfTradeBehavior::AbortTransaction,
    }
}
pub fn conv_new<C: Pod>(p: &NewP, cb: &Cb) -> aobi::new_order::Params<C> {
    aobi::new_order::Params {
        max_base_qty: p.base,
        max_quote_qty: p.quote,
        limit_price: p.limit,
        side: conv_side(p.side),
        match_limit: p.ml,
        callback_info: bytemuck::pod_read_unaligned::<C>(cb.bytes()),
        post_only: p.post_only,
        post_allowed: p.post_allowed,
        self_trade_behavior: conv_stb(p.stb),
    }
}
pub fn conv_summary(s: OrderSummary) -> Summary {
    Summary {
        id: s.posted_order_id,
        base: s.total_base_qty,
        quote: s.total_quote_qty,
        posted: s.total_base_qty_posted,
    }
}

fn lib_call<C>(pid: &Pubkey, a: &[AccountInfo], op: &LibOp) -> Result<Option<Summary>, ProgramError>
where
    C: CallbackInfo + Pod + PartialEq,
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    match op {
        LibOp::Create { min, tick } => aobi::create_market::process::<C>(
            pid,
            aobi::create_market::Accounts {
                market: &a[0],
                event_queue: &a[1],
                bids: &a[2],
                asks: &a[3],
            },
            aobi::create_market::Params {
                min_base_order_size: *min,
                tick_size: *tick,
            },
        )
        .map(|_| None),
        LibOp::New { p, cb } => aobi::new_order::process::<C>(
            pid,
            aobi::new_order::Accounts {
                market: &a[0],
                event_queue: &a[1],
                bids: &a[2],
                asks: &a[3],
            },
            conv_new::<C>(p, cb),
        )
        .map(|s| Some(conv_summary(s))),
        LibOp::Cancel(id) => aobi::cancel_order::process::<C>(
            pid,
            aobi::cancel_order::Accounts {
                market: &a[0],
                event_queue: &a[1],
                bids: &a[2],
                asks: &a[3],
            },
            aobi::cancel_order::Params { order_id: *id },
        )
        .map(|s| Some(conv_summary(s))),
        LibOp::Mass(ids) => aobi::mass_cancel_orders::process::<C>(
            pid,
            aobi::mass_cancel_orders::Accounts {
                market: &a[0],
                event_queue: &a[1],
                bids: &a[2],
                asks: &a[3],
            },
            aobi::mass_cancel_orders::Params {
                order_ids: ids.clone(),
            },
        )
        .map(|s| Some(conv_summary(s))),
        LibOp::Consume(n) => aobi::consume_events::process::<C>(
            pid,
            aobi::consume_events::Accounts {
                market: &a[0],
                event_queue: &a[1],
            },
            aobi::consume_events::Params {
                number_of_entries_to_consume: *n,
            },
        )
        .map(|_| None),
        LibOp::Close => aobi::close_market::process::<C>(
            pid,
            aobi::close_market::Accounts {
                market: &a[0],
                event_queue: &a[1],
                bids: &a[2],
                asks: &a[3],
                lamports_target_account: &a[4],
            },
            aobi::close_market::Params {},
        )
        .map(|_| None),
    }
}

/// What a client attaches: the 32 bytes the program's own instance expects.
#[derive(Clone, Copy, borsh::BorshSerialize, borsh::BorshDeserialize)]
pub struct Wire32([u8; 32]);
impl bonfida_utils::BorshSize for Wire32 {
    fn borsh_len(&self) -> usize {
        32
    }
}
fn wire_new(p: &NewP, cb: &Cb) -> aobi::new_order::Params<Wire32> {
    let q = conv_new::<[u8; 32]>(p, cb);
    aobi::new_order::Params {
        max_base_qty: q.max_base_qty,
        max_quote_qty: q.max_quote_qty,
        limit_price: q.limit_price,
        side: q.side,
        match_limit: q.match_limit,
        callback_info: Wire32(q.callback_info),
        post_only: q.post_only,
        post_allowed: q.post_allowed,
        self_trade_behavior: q.self_trade_behavior,
    }
}

/// Build the instruction for an operation: with the published client bindings (Entry) or as the
/// accounts a caller program would hand to the library (Lib).
pub fn build(
    mode: Mode,
    cb: CbKind,
    keys: &dyn Fn(Role) -> Pubkey,
    op: &LibOp,
) -> Ix {
    let (mk, q, b, a) = (
        keys(Role::Market),
        keys(Role::Queue),
        keys(Role::Bids),
        keys(Role::Asks),
    );
    let program = program_of(mode);
    if mode == Mode::Lib {
        let mut metas = vec![(mk, true), (q, true)];
        if !matches!(op, LibOp::Consume(_)) {
            metas.push((b, true));
            metas.push((a, true));
        }
        if matches!(op, LibOp::Close) {
            metas.push((keys(Role::Target), true));
        }
        return Ix {
            program,
            metas,
            demands: false,
            call: Call::Lib(cb, op.clone()),
        };
    }
    let reg = register_key();
    let t = keys(Role::Target);
    let i = match op {
        LibOp::Create { min, tick } => aobi::create_market(
            aobi::create_market::Accounts {
                market: &mk,
                event_queue: &q,
                bids: &b,
                asks: &a,
            },
            reg,
            aobi::create_market::Params {
                min_base_order_size: *min,
                tick_size: *tick,
            },
        ),
        LibOp::New { p, cb } => aobi::new_order::<Wire32>(
            aobi::new_order::Accounts {
                market: &mk,
                event_queue: &q,
                bids: &b,
                asks: &a,
            },
            reg,
            wire_new(p, cb),
        ),
        LibOp::Cancel(id) => aobi::cancel_order(
            aobi::cancel_order::Accounts {
                market: &mk,
                event_queue: &q,
                bids: &b,
                asks: &a,
            },
            reg,
            aobi::cancel_order::Params { order_id: *id },
        ),
        LibOp::Mass(ids) => aobi::mass_cancel_orders(
            aobi::mass_cancel_orders::Accounts {
                market: &mk,
                event_queue: &q,
                bids: &b,
                asks: &a,
            },
            reg,
            aobi::mass_cancel_orders::Params {
                order_ids: ids.clone(),
            },
        ),
        LibOp::Consume(n) => aobi::consume_events(
            aobi::consume_events::Accounts {
                market: &mk,
                event_queue: &q,
            },
            reg,
            aobi::consume_events::Params {
                number_of_entries_to_consume: *n,
            },
        ),
        LibOp::Close => aobi::close_market(
            aobi::close_market::Accounts {
                market: &mk,
                event_queue: &q,
                bids: &b,
                asks: &a,
                lamports_target_account: &t,
            },
            reg,
            aobi::close_market::Params {},
        ),
    };
    Ix {
        program: i.program_id,
        metas: i
            .accounts
            .iter()
            .map(|m| (m.pubkey, m.is_writable))
            .collect(),
        demands: i.accounts.iter().any(|m| m.is_signer),
        call: Call::Entry(i.data),
    }
}

/// The accounts a transaction works on; written back to the ledger only if all of it succeeds.
#[derive(Clone, Default)]
pub struct Work {
    pub v: Vec<(Pubkey, Acct)>,
}
impl Work {
    pub fn load(&mut self, bank: &Bank, k: &Pubkey) -> usize {
        if let Some(i) = self.v.iter().position(|x| x.0 == *k) {
            return i;
        }
        let a = bank.get(k).cloned().unwrap_or(Acct {
            lamports: 0,
            owner: system_program(),
            data: Buf::new(0, bank.shift),
        });
        self.v.push((*k, a));
        self.v.len() - 1
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.v.iter().find(|x| x.0 == *k).map(|x| &x.1)
    }
    /// Commit: accounts left without lamports cease to exist.
    pub fn commit(self, bank: &mut Bank) {
        for (k, a) in self.v {
            if a.lamports == 0 {
                bank.accts.remove(&k);
            } else {
                bank.accts.insert(k, a);
            }
        }
    }
}

#[derive(Default, Clone, Copy)]
pub struct ExecStats {
    pub points: u64,
    pub heap: u64,
}

/// Execute one instruction on the transaction's accounts under the runtime's rules.
pub fn exec_ix(
    bank: &Bank,
    work: &mut Work,
    ix: &Ix,
    abort: Option<u64>,
    stats: &mut ExecStats,
) -> IxRes {
    if ix.demands {
        return Err(ErrK::Rule("a signature nobody can give is demanded".into()));
    }
    let idx: Vec<usize> = ix.metas.iter().map(|(k, _)| work.load(bank, k)).collect();
    let n = work.v.len();
    let mut writable = vec![false; n];
    let mut used = vec![false; n];
    for (j, i) in idx.iter().enumerate() {
        used[*i] = true;
        writable[*i] |= ix.metas[j].1;
    }
    let pre: Vec<Option<Acct>> = work
        .v
        .iter()
        .enumerate()
        .map(|(i, x)| {
            if !used[i] {
                return None;
            }
            // what the program may change need not be kept
            let free = writable[i] && x.1.owner == ix.program;
            Some(if free {
                Acct {
                    lamports: x.1.lamports,
                    owner: x.1.owner,
                    data: Buf::new(0, 0),
                }
            } else {
                x.1.clone()
            })
        })
        .collect();
    POINTS.with(|c| c.set(0));
    ABORT_AT.with(|c| c.set(abort.unwrap_or(u64::MAX)));
    BUDGET.with(|c| c.set(SEAM_BUDGET));
    LAST_PANIC.with(|c| c.borrow_mut().clear());
    IN_PROGRAM.with(|c| c.set(true));
    let out = {
        let mut infos: Vec<Option<AccountInfo>> = Vec::with_capacity(n);
        for (i, (k, a)) in work.v.iter_mut().enumerate() {
            if !used[i] {
                infos.push(None);
                continue;
            }
            let Acct {
                lamports,
                owner,
                data,
            } = a;
            infos.push(Some(AccountInfo::new(
                k,
                false,
                writable[i],
                lamports,
                data.as_mut(),
                owner,
                false,
                0,
            )));
        }
        let accs: Vec<AccountInfo> = idx
            .iter()
            .map(|i| infos[*i].clone().expect("loaded"))
            .collect();
        HEAP.with(|c| c.set(0));
        HEAP_ON.with(|c| c.set(true));
        let out = catch_unwind(AssertUnwindSafe(|| match &ix.call {
            Call::Entry(data) => {
                asset_agnostic_orderbook::entrypoint::process_instruction(&ix.program, &accs, data)
                    .map(|_| None)
            }
            Call::Lib(k, op) => with_cb!(*k, C => lib_call::<C>(&ix.program, &accs, op)),
        }));
        HEAP_ON.with(|c| c.set(false));
        out
    };
    IN_PROGRAM.with(|c| c.set(false));
    stats.heap = HEAP.with(|c| c.get());
    stats.points = POINTS.with(|c| c.get());
    // Instruction data of a call from another program may have 10 KiB, but reading those alone takes
    // most of the heap; a program that holds the order book has its identifiers in an account
    let fits = match &ix.call {
        Call::Entry(d) => d.len() <= 4096,
        Call::Lib(_, LibOp::Mass(ids)) => ids.len() <= 600,
        _ => true,
    };
    let mut res: IxRes = match out {
        Ok(_) if fits && stats.heap > HEAP_SIZE => Err(ErrK::Memory(stats.heap)),
        Ok(Ok(s)) => Ok(s),
        Ok(Err(ProgramError::Custom(c))) => Err(ErrK::Custom(c)),
        Ok(Err(e)) => Err(ErrK::Prog(format!("{:?}", e))),
        Err(p) => {
            if p.is::<Aborted>() {
                Err(ErrK::Aborted)
            } else if p.is::<OverBudget>() {
                Err(ErrK::Budget)
            } else {
                Err(ErrK::Panic(LAST_PANIC.with(|c| c.borrow().clone())))
            }
        }
    };
    if res.is_ok() {
        // the rules the runtime checks after an instruction
        let (mut before, mut after) = (0u128, 0u128);
        for i in 0..n {
            if let Some(p) = &pre[i] {
                let a = &work.v[i].1;
                before += p.lamports as u128;
                after += a.lamports as u128;
                let owned = p.owner == ix.program;
                if !(owned && writable[i]) && p.data.as_ref() != a.data.as_ref() {
                    res = Err(ErrK::Rule(format!(
                        "data of a {} account changed",
                        if writable[i] { "foreign" } else { "read-only" }
                    )));
                }
                if p.lamports != a.lamports && !writable[i] {
                    res = Err(ErrK::Rule("balance of a read-only account changed".into()));
                }
                if a.lamports < p.lamports && !owned {
                    res = Err(ErrK::Rule("balance of a foreign account spent".into()));
                }
            }
        }
        if before != after {
            res = Err(ErrK::Rule("sum of balances changed".into()));
        }
    }
    if res.is_ok() {
        if let Call::Entry(_) = ix.call {
            let last = idx[idx.len() - 1];
            let mut d: &[u8] = work.v[last].1.data.as_ref();
            let all = d.len();
            res = match Option::<OrderSummary>::deserialize(&mut d) {
                Ok(_) if all - d.len() > 1 + ORDER_SUMMARY_SIZE as usize => Err(ErrK::Register(
                    "the summary is longer than its published size".into(),
                )),
                Ok(s) => Ok(s.map(conv_summary)),
                Err(e) => Err(ErrK::Register(e.to_string())),
            };
        }
    }
    res
}
