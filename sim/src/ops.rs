//! The vocabulary of scenarios: everything a run does is a list of these steps, and a replay
//! file is nothing but a configuration and such a list.
use serde::{Deserialize, Serialize};

/// u128 values are written as decimal strings in replay files.
pub mod s128 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u128, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn opp(self) -> Side {
        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }
    }
    pub fn code(self) -> u8 {
        match self {
            Side::Bid => 0,
            Side::Ask => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stb {
    Decrement,
    Cancel,
    Abort,
}

/// How the order book is reached: through its own entry point with client-built instructions,
/// or as the library a caller program links.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Entry,
    Lib,
}

/// The callback type of the caller program.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CbKind {
    /// 32 bytes, all of them the identity (the program's own instance).
    B32,
    /// 32 identity bytes and an 8-byte nonce.
    C40,
    /// 4 identity bytes and a 4-byte nonce.
    C8,
    /// 1 nonce byte followed by 32 identity bytes (odd size).
    C33,
    /// 2 identity bytes and a 1-byte nonce (smaller than a word).
    C3,
}
impl CbKind {
    pub fn len(self) -> usize {
        match self {
            CbKind::B32 => 32,
            CbKind::C40 => 40,
            CbKind::C8 => 8,
            CbKind::C33 => 33,
            CbKind::C3 => 3,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct NewP {
    pub side: Side,
    pub limit: u64,
    pub base: u64,
    pub quote: u64,
    pub ml: u64,
    pub user: u32,
    pub nonce: u32,
    pub post_only: bool,
    pub post_allowed: bool,
    pub stb: Stb,
}

/// How a step names an order.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ORef {
    /// The order posted by the given instruction of the step with the given uid.
    Posted(u32, u32),
    /// A literal identifier.
    Raw(#[serde(with = "s128")] u128),
    /// The identifier of a posted order with some bits flipped.
    Near(u32, u32, #[serde(with = "s128")] u128),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Role {
    Market,
    Queue,
    Bids,
    Asks,
    Target,
}
pub const ROLES4: [Role; 4] = [Role::Market, Role::Queue, Role::Bids, Role::Asks];

/// What an adversary passes instead of the genuine account.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sub {
    /// The account of another (or the same) market in some role.
    Of(u32, Role),
    /// A byte-identical copy under another key, owned by the program.
    Copy,
    /// A byte-identical copy under another key, owned by someone else.
    ForeignCopy,
    /// The genuine account after its owner became another program.
    Reowned,
    /// The genuine account under the genuine key with the given tag instead of its own.
    Tag(u64),
    /// A market account of another program naming the genuine queue and books, own parameters.
    FakeMarket { min: u64, tick: u64 },
    /// An empty, never allocated account.
    Missing,
}

/// A defect in the accounts or parameters given to create_market.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Defect {
    /// One lamport short of rent exemption.
    RentShort(Role),
    /// Owned by another program.
    Owner(Role),
    /// Account size changed by so many bytes.
    Size(Role, i64),
    /// The account's first byte is the tag of an initialised account.
    Tag(Role, u64),
    /// The account served as the register of two earlier instructions: the serialised summary of
    /// the first (the fields given) and then the "nothing" of the second, which only clears the
    /// first byte. (posted order, base, quote, posted base)
    Smear(Role, Option<u128>, [u64; 3]),
    /// The first role is given the account of the second.
    Alias(Role, Role),
    /// The role is given the account of another market.
    Taken(Role, u32, Role),
    ZeroMin,
    ZeroTick,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MarketSpec {
    pub bid_n: u32,
    pub ask_n: u32,
    pub q_n: u32,
    pub min: u64,
    pub tick: u64,
    /// Extra whole callback slots at the end of the book accounts.
    pub slack: u32,
    /// Lamports above the rent-exempt minimum.
    pub extra: u64,
    /// Reuse the account keys of that market instead of fresh ones.
    pub over: Option<u32>,
    pub defect: Option<Defect>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Create {
        m: u32,
        spec: MarketSpec,
    },
    New {
        m: u32,
        p: NewP,
    },
    Cancel {
        m: u32,
        o: ORef,
    },
    Mass {
        m: u32,
        os: Vec<ORef>,
    },
    Consume {
        m: u32,
        n: u64,
    },
    Close {
        m: u32,
    },
    /// A system transfer to one of a market's accounts.
    Fund {
        m: u32,
        role: Role,
        lamports: u64,
    },
}
impl Op {
    pub fn market(&self) -> u32 {
        match self {
            Op::Create { m, .. }
            | Op::New { m, .. }
            | Op::Cancel { m, .. }
            | Op::Mass { m, .. }
            | Op::Consume { m, .. }
            | Op::Close { m }
            | Op::Fund { m, .. } => *m,
        }
    }
}

/// What happens to the bytes of an instruction on its way, or what a broken client sends.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Corrupt {
    Flip(u32),
    Set(u32, u8),
    Cut(u32),
    Tail(Vec<u8>),
    /// The account at this position is left out.
    Leave(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// One transaction reaching the ledger: all of its instructions or none.
    Tx {
        ops: Vec<Op>,
        /// Die at the n-th seam crossing inside the program.
        abort: Option<u32>,
    },
    /// An instruction with substituted accounts.
    Adv {
        op: Op,
        subs: Vec<(Role, Sub)>,
        /// An account of a market is named as the register.
        #[serde(default)]
        reg: Option<(u32, Role)>,
    },
    /// A client-built instruction with damaged bytes, sent on a fork.
    Raw { op: Op, how: Vec<Corrupt> },
    /// The TypeScript client makes a market, on a fork.
    TsCreate {
        orders: u32,
        events: u32,
        min: u64,
        tick: u64,
    },
    /// Use all the published readers on a market.
    Read { m: u32, probe: u64 },
    /// Fork the ledger, fill one side until it takes no more, compare with the published size.
    FillProbe { m: u32, side: Side, other: u32 },
    /// Fork the ledger, stop all faults, drain and close the market in bounded steps.
    DrainProbe { m: u32, batch: u64 },
    /// The validator crashes: every account is rebuilt from its stored bytes.
    Restart { shift: u32 },
    /// Many orders that do not meet are posted, one transaction each, before anything else happens.
    Grow {
        m: u32,
        bids: u32,
        asks: u32,
        /// Lowest price in ticks; bids lie in the lower half of the levels, asks in the upper.
        low: u64,
        levels: u64,
        /// Largest quantity.
        qty: u64,
        seed: u64,
    },
    /// Stands for a long history: the (empty) market's sequence number and queue head.
    Age { m: u32, seq: u64, head: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub uid: u32,
    /// Simulated time in milliseconds.
    pub t: u64,
    pub act: Act,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub mode: Mode,
    pub cb: CbKind,
    pub users: u32,
    /// Focus property: which extra comparisons run.
    pub focus: String,
}

/// One event of the replica simulation (C19).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CEv {
    /// Block `b` (a list of step uids executed on top of `parent`) exists from here on.
    Block {
        b: u32,
        parent: u32,
        txs: Vec<u32>,
    },
    /// Replica `r` executes block `b` (its parent state is known to it).
    Exec { r: u32, b: u32 },
    /// Replica `r` starts executing block `b` and dies at the given transaction and seam crossing.
    Die { r: u32, b: u32, tx: u32, at: u32 },
    /// Replica `r` loses its memory and restarts from its durable snapshots.
    Restart { r: u32, shift: u32 },
    /// Replica `r` makes its state after block `b` durable.
    Snapshot { r: u32, b: u32 },
    /// Replica `s` executes each transaction of `b` inside the `at`-th seam crossing of `r`'s
    /// execution of it.
    Interleave { r: u32, s: u32, b: u32, at: u32 },
    /// A machine in a process of its own, which never executed anything, executes the chain to `b`.
    Fresh { b: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
    #[serde(default)]
    pub cluster: Vec<CEv>,
    /// Build of the simulator: `release` (overflow checks) or `wrap`.
    #[serde(default)]
    pub profile: String,
    /// Generator runs (indices) executed earlier in the same process, if the violation needs them.
    #[serde(default)]
    pub prelude: Vec<u64>,
    #[serde(default)]
    pub deep: bool,
    #[serde(default)]
    pub violation: String,
}
