//! C19: several replicas of the same ledger. Blocks of transactions (concrete, every identifier a
//! literal) form a tree; replicas execute them in their own order, die in the middle of an
//! instruction, come back from whatever they had made durable, switch forks, and run nested in
//! each other's instructions. Each replica has its own clock, randomness and memory layout. The
//! first execution of a block is the reference; every other one must agree with it.
use crate::ops::*;
use crate::rng::{Hash64, Rng};
use crate::rt::*;
use crate::shrink::in_child;
use crate::with_cb;
use crate::world::World;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug, serde::Serialize, serde::Deserialize)]
struct TxOut {
    res: Vec<String>,
    hash: u64,
}

fn class(r: &IxRes) -> String {
    match r {
        Ok(s) => format!("ok {:?}", s),
        Err(ErrK::Panic(_)) => "crash".into(),
        Err(e) => format!("{:?}", e),
    }
}

fn lib_op(cfg: &Cfg, op: &Op) -> Option<LibOp> {
    let raw = |o: &ORef| match o {
        ORef::Raw(x) => *x,
        _ => 0,
    };
    Some(match op {
        Op::Create { spec, .. } => LibOp::Create {
            min: spec.min,
            tick: spec.tick,
        },
        Op::New { p, .. } => LibOp::New {
            p: p.clone(),
            cb: make_cb(cfg.cb, p.user, p.nonce),
        },
        Op::Cancel { o, .. } => LibOp::Cancel(raw(o)),
        Op::Mass { os, .. } => LibOp::Mass(os.iter().map(raw).collect()),
        Op::Consume { n, .. } => LibOp::Consume(*n),
        Op::Close { .. } => LibOp::Close,
        Op::Fund { .. } => return None,
    })
}

/// Execute a transaction on a bank. `die` kills it at a seam crossing: None comes back.
fn exec_tx(cfg: &Cfg, bank: &mut Bank, ops: &[Op], die: Option<u64>) -> Option<TxOut> {
    let mut work = Work::default();
    let mut res = vec![];
    let mut failed = false;
    let mut left = die;
    for op in ops {
        let m = op.market();
        let keys = [
            role_key(m, Role::Market),
            role_key(m, Role::Queue),
            role_key(m, Role::Bids),
            role_key(m, Role::Asks),
        ];
        let kf = |r: Role| match r {
            Role::Target => key(4, 0, 0),
            r => keys[r as usize],
        };
        if let Op::Fund { role, lamports, .. } = op {
            if bank.get(&kf(*role)).is_some() {
                let at = work.load(bank, &kf(*role));
                work.v[at].1.lamports = work.v[at].1.lamports.saturating_add(*lamports);
            }
            continue;
        }
        if let Op::Create { spec, .. } = op {
            if keys.iter().any(|k| {
                bank.get(k).is_some() || work.get(k).map(|a| a.lamports > 0).unwrap_or(false)
            }) {
                res.push("accounts exist".into());
                failed = true;
                break;
            }
            let lens = with_cb!(cfg.cb, C => {
                use asset_agnostic_orderbook::state::{critbit::Slab, event_queue::EventQueue};
                let extra = spec.slack as usize * cfg.cb.len();
                [
                    120usize,
                    EventQueue::<C>::compute_allocation_size(spec.q_n as usize),
                    Slab::<C>::compute_allocation_size((spec.bid_n as usize).max(1)) + extra,
                    Slab::<C>::compute_allocation_size((spec.ask_n as usize).max(1)) + extra,
                ]
            });
            for i in 0..4 {
                let at = work.load(bank, &keys[i]);
                work.v[at].1 = Acct {
                    lamports: rent_min(lens[i]) + spec.extra,
                    owner: program_of(cfg.mode),
                    data: Buf::new(lens[i], bank.shift.wrapping_mul(i)),
                };
            }
        }
        let Some(lop) = lib_op(cfg, op) else { continue };
        let ix = build(cfg.mode, cfg.cb, &kf, &lop);
        let mut es = ExecStats::default();
        let r = exec_ix(bank, &mut work, &ix, left, &mut es);
        if r == Err(ErrK::Aborted) {
            return None;
        }
        if let Some(l) = left {
            left = Some(if l > es.points { l - es.points } else { u64::MAX });
        }
        res.push(class(&r));
        if r.is_err() {
            failed = true;
            break;
        }
    }
    if !failed {
        work.commit(bank);
    }
    Some(TxOut {
        res,
        hash: bank.hash(),
    })
}

struct Rep {
    shift: usize,
    skew: u64,
    rnd: u64,
    mem: BTreeMap<u32, Bank>,
    durable: BTreeMap<u32, Vec<u8>>,
    execs: u64,
}

/// What a machine in a process of its own is told to execute, from nothing.
#[derive(serde::Serialize, serde::Deserialize)]
struct Ask {
    cfg: Cfg,
    blocks: Vec<(u32, Vec<Vec<Op>>)>,
}

/// A process forked before anything of the program ran here. For every request it forks one more,
/// so that each request is executed by a process that never executed anything else.
pub struct Remote {
    to: std::fs::File,
    from: std::fs::File,
    pid: i32,
}

fn frame(f: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    f.write_all(&(b.len() as u64).to_le_bytes())?;
    f.write_all(b)
}
fn unframe(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut n = [0u8; 8];
    f.read_exact(&mut n)?;
    let n = u64::from_le_bytes(n);
    if n > 1 << 30 {
        return Err(std::io::ErrorKind::InvalidData.into());
    }
    let mut v = vec![0; n as usize];
    f.read_exact(&mut v)?;
    Ok(v)
}

impl Remote {
    pub fn start() -> Option<Remote> {
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            if libc::pipe(a.as_mut_ptr()) != 0 || libc::pipe(b.as_mut_ptr()) != 0 {
                return None;
            }
            let pid = libc::fork();
            if pid < 0 {
                return None;
            }
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                let mut rx = std::fs::File::from_raw_fd(a[0]);
                let mut tx = std::fs::File::from_raw_fd(b[1]);
                while let Ok(q) = unframe(&mut rx) {
                    let ans = in_child(std::time::Duration::from_secs(40), |w| {
                        let out = serde_json::from_slice::<Ask>(&q)
                            .map(|q| alone(&q))
                            .unwrap_or_default();
                        let _ = w.write_all(&serde_json::to_vec(&out).unwrap_or_default());
                    });
                    let ans = match ans {
                        Ok(v) => v,
                        Err(e) => format!("!{}", e).into_bytes(),
                    };
                    if frame(&mut tx, &ans).is_err() {
                        break;
                    }
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Some(Remote {
                to: std::fs::File::from_raw_fd(a[1]),
                from: std::fs::File::from_raw_fd(b[0]),
                pid,
            })
        }
    }
    fn ask(&mut self, q: &Ask) -> Result<Vec<Vec<TxOut>>, String> {
        let b = serde_json::to_vec(q).map_err(|e| e.to_string())?;
        frame(&mut self.to, &b).map_err(|e| format!("no machine: {}", e))?;
        let a = unframe(&mut self.from).map_err(|e| format!("no machine: {}", e))?;
        if a.first() == Some(&b'!') {
            return Err(String::from_utf8_lossy(&a[1..]).into_owned());
        }
        serde_json::from_slice(&a).map_err(|e| format!("no machine: {}", e))
    }
}

impl Drop for Remote {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}

/// The blocks, one after the other, from nothing.
fn alone(q: &Ask) -> Vec<Vec<TxOut>> {
    let genesis = World::new(q.cfg.clone()).bank;
    let mut bank = Bank::restore(&genesis.serialize(), 3);
    let mut out = vec![];
    for (b, txs) in &q.blocks {
        let mut outs = vec![];
        for (i, t) in txs.iter().enumerate() {
            set_ambient(
                1_900_000_000_000_000_000 + *b as u64 * 1_000_003,
                7 * *b as u64 + 1,
                0x51ed_270b ^ (((*b as u64) << 20) + i as u64),
            );
            if let Some(o) = exec_tx(&q.cfg, &mut bank, t, None) {
                outs.push(o);
            }
        }
        out.push(outs);
    }
    out
}

pub struct Cluster<'a> {
    remote: Option<&'a mut Remote>,
    cfg: Cfg,
    txs: BTreeMap<u32, Vec<Op>>,
    blocks: BTreeMap<u32, (u32, Vec<u32>)>,
    canon: BTreeMap<u32, (Vec<TxOut>, Bank, u32)>,
    reps: Vec<Rep>,
    genesis: Bank,
    pub viol: Option<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub compared: u64,
    pub states: BTreeSet<u64>,
    pub digest: Hash64,
    pub log: Option<Vec<String>>,
}

fn diff(a: &Bank, b: &Bank) -> String {
    let mut ks: BTreeSet<Pubkey> = a.accts.keys().copied().collect();
    ks.extend(b.accts.keys().copied());
    for k in ks {
        match (a.get(&k), b.get(&k)) {
            (Some(x), Some(y)) => {
                if x.lamports != y.lamports {
                    return format!("account {} holds {} or {} lamports", k, x.lamports, y.lamports);
                }
                if x.data.len() != y.data.len() {
                    return format!("account {} has two lengths", k);
                }
                if let Some(i) = (0..x.data.len()).find(|i| x.data.as_ref()[*i] != y.data.as_ref()[*i])
                {
                    return format!(
                        "account {} differs at byte {} ({} or {})",
                        k,
                        i,
                        x.data.as_ref()[i],
                        y.data.as_ref()[i]
                    );
                }
                if x.owner != y.owner {
                    return format!("account {} has two owners", k);
                }
            }
            (None, None) => {}
            _ => return format!("account {} exists on one only", k),
        }
    }
    "no difference".into()
}

impl<'a> Cluster<'a> {
    pub fn new(cfg: &Cfg, steps: &[Step], remote: Option<&'a mut Remote>) -> Cluster<'a> {
        let mut txs = BTreeMap::new();
        for s in steps {
            if let Act::Tx { ops, .. } = &s.act {
                txs.insert(s.uid, ops.clone());
            }
        }
        Cluster {
            remote,
            cfg: cfg.clone(),
            txs,
            blocks: BTreeMap::new(),
            canon: BTreeMap::new(),
            reps: vec![],
            genesis: World::new(cfg.clone()).bank,
            viol: None,
            stats: BTreeMap::new(),
            compared: 0,
            states: BTreeSet::new(),
            digest: Hash64::new(),
            log: None,
        }
    }
    fn hit(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn rep(&mut self, r: u32) -> usize {
        let r = (r % 8) as usize;
        while self.reps.len() <= r {
            let n = self.reps.len() as u64;
            self.reps.push(Rep {
                shift: n as usize,
                // clocks hours apart, some behind, some ahead
                skew: n.wrapping_mul(7_919_000_000_000).wrapping_sub(3_600_000_000_000),
                rnd: 0x9e37 + n,
                mem: BTreeMap::new(),
                durable: BTreeMap::new(),
                execs: 0,
            });
        }
        r
    }
    fn set_ambient_of(&mut self, r: usize, b: u32) {
        let x = &mut self.reps[r];
        x.execs += 1;
        x.rnd = x.rnd.wrapping_mul(6364136223846793005).wrapping_add(1);
        set_ambient(
            (1_700_000_000_000_000_000 + b as u64 * 400_000_000).wrapping_add(x.skew),
            b as u64 + r as u64 * 3,
            x.rnd,
        );
    }
    fn load(&mut self, r: usize, b: u32) -> Option<Bank> {
        if b == 0 {
            let v = self.genesis.serialize();
            return Some(Bank::restore(&v, self.reps[r].shift));
        }
        if let Some(x) = self.reps[r].mem.get(&b) {
            return Some(x.clone());
        }
        if let Some(v) = self.reps[r].durable.get(&b) {
            let x = Bank::restore(v, self.reps[r].shift);
            self.reps[r].mem.insert(b, x.clone());
            self.hit("fault:state reloaded from durable bytes");
            return Some(x);
        }
        None
    }
    /// Blocks to execute to know `b`, oldest first, and the state they start from.
    fn path(&mut self, r: usize, b: u32) -> Option<(Vec<u32>, Bank)> {
        let mut todo = vec![];
        let mut at = b;
        loop {
            if let Some(s) = self.load(r, at) {
                todo.reverse();
                return Some((todo, s));
            }
            if todo.len() > 10_000 {
                return None;
            }
            todo.push(at);
            at = self.blocks.get(&at)?.0;
        }
    }
    fn settle(&mut self, r: usize, b: u32, outs: Vec<TxOut>, bank: Bank) {
        self.hit("block executions");
        self.digest.u64(bank.hash());
        for o in &outs {
            self.digest.u64(o.hash);
        }
        if self.states.len() < 100_000 {
            self.states.insert(bank.hash());
        }
        if let Some((want, wbank, who)) = self.canon.get(&b) {
            self.compared += 1;
            let who = *who;
            if *want != outs || !wbank_same(wbank, &bank) {
                let txs = &self.blocks[&b].1;
                let i = (0..want.len().min(outs.len()))
                    .find(|i| want[*i] != outs[*i])
                    .unwrap_or(0);
                let (x, y) = (want.get(i), outs.get(i));
                let msg = format!(
                    "block {}: transaction {} (step {:?}): replica {} got {:?}, replica {} got {:?}; {}",
                    b,
                    i,
                    txs.get(i),
                    who,
                    x.map(|x| &x.res),
                    r,
                    y.map(|x| &x.res),
                    diff(wbank, &bank)
                );
                if self.viol.is_none() {
                    self.viol = Some(msg);
                }
            }
        } else {
            self.canon.insert(b, (outs, bank.clone(), r as u32));
        }
        self.reps[r].mem.insert(b, bank);
    }
    fn run_block(&mut self, r: usize, b: u32, mut bank: Bank) {
        let Some((_, txs)) = self.blocks.get(&b).cloned() else {
            return;
        };
        let mut outs = vec![];
        for t in txs {
            self.set_ambient_of(r, b);
            if let Some(ops) = self.txs.get(&t) {
                if let Some(o) = exec_tx(&self.cfg, &mut bank, ops, None) {
                    outs.push(o);
                }
            }
        }
        self.settle(r, b, outs, bank);
    }
    fn exec(&mut self, r: u32, b: u32) {
        let r = self.rep(r);
        let again = self.reps[r].mem.contains_key(&b);
        if again {
            // an explicit re-execution from the parent's state
            let Some(p) = self.blocks.get(&b).map(|x| x.0) else {
                return;
            };
            if let Some(s) = self.load(r, p) {
                self.hit("fault:block executed again");
                self.run_block(r, b, s);
            }
            return;
        }
        let Some((todo, mut s)) = self.path(r, b) else {
            return;
        };
        if todo.len() > 1 {
            self.hit("fault:catching up over several blocks");
        }
        for x in todo {
            if self.viol.is_some() {
                return;
            }
            self.run_block(r, x, s);
            s = self.reps[r].mem[&x].clone();
        }
    }
    pub fn apply(&mut self, e: &CEv) {
        if let Some(l) = &mut self.log {
            l.push(format!("{:?}", e));
        }
        match e {
            CEv::Block { b, parent, txs } => {
                if *b != 0 && (*parent == 0 || self.blocks.contains_key(parent)) {
                    if *parent + 1 != *b {
                        self.hit("fault:forked block");
                    }
                    self.blocks.entry(*b).or_insert((*parent, txs.clone()));
                }
            }
            CEv::Exec { r, b } => self.exec(*r, *b),
            CEv::Die { r, b, tx, at } => {
                let r = self.rep(*r);
                let Some((p, txs)) = self.blocks.get(b).cloned() else {
                    return;
                };
                let Some(mut s) = self.load(r, p) else { return };
                for (i, t) in txs.iter().enumerate() {
                    let Some(ops) = self.txs.get(t).cloned() else {
                        continue;
                    };
                    self.set_ambient_of(r, *b);
                    let die = if i as u32 >= *tx { Some(*at as u64) } else { None };
                    if exec_tx(&self.cfg, &mut s, &ops, die).is_none() {
                        break;
                    }
                }
                self.hit("fault:replica died inside a block");
                self.reps[r].mem.clear();
            }
            CEv::Restart { r, shift } => {
                let r = self.rep(*r);
                self.reps[r].mem.clear();
                self.reps[r].shift = *shift as usize;
                self.hit("fault:replica restarted");
            }
            CEv::Snapshot { r, b } => {
                let r = self.rep(*r);
                if let Some(x) = self.reps[r].mem.get(b) {
                    let v = x.serialize();
                    self.reps[r].durable.insert(*b, v);
                    self.hit("durable snapshots");
                }
            }
            CEv::Fresh { b } => self.fresh(*b),
            CEv::Interleave { r, s, b, at } => self.interleave(*r, *s, *b, *at as u64),
        }
    }
    /// A machine in a process of its own, which never executed anything, executes the chain that
    /// leads to `b`.
    fn fresh(&mut self, b: u32) {
        let mut chain = vec![];
        let mut at = b;
        while at != 0 {
            let Some((p, txs)) = self.blocks.get(&at) else {
                return;
            };
            chain.push((
                at,
                txs.iter().filter_map(|t| self.txs.get(t).cloned()).collect(),
            ));
            at = *p;
        }
        chain.reverse();
        let q = Ask {
            cfg: self.cfg.clone(),
            blocks: chain,
        };
        self.hit("fault:a machine joined with nothing in its memory");
        let ans = match self.remote.as_mut() {
            Some(r) => r.ask(&q),
            None => return,
        };
        match ans {
            Err(e) if e.starts_with("no machine") => self.hit("fresh machine not reached"),
            Err(e) => {
                self.viol.get_or_insert(format!(
                    "blocks up to {}: executed here, but a process that executed nothing before {}",
                    b, e
                ));
            }
            Ok(outs) => {
                for ((b, txs), got) in q.blocks.iter().zip(outs.iter()) {
                    let Some((want, _, who)) = self.canon.get(b) else {
                        continue;
                    };
                    self.compared += 1;
                    if want == got {
                        continue;
                    }
                    let i = (0..want.len().min(got.len()))
                        .find(|i| want[*i] != got[*i])
                        .unwrap_or(0);
                    let msg = format!(
                        "block {}: transaction {} ({:?}): replica {} got {:?} (state {:016x}), a process that executed nothing but this chain got {:?} (state {:016x})",
                        b, i, txs.get(i), who,
                        want.get(i).map(|x| &x.res), want.get(i).map(|x| x.hash).unwrap_or(0),
                        got.get(i).map(|x| &x.res), got.get(i).map(|x| x.hash).unwrap_or(0),
                    );
                    self.viol.get_or_insert(msg);
                    return;
                }
            }
        }
    }
    fn interleave(&mut self, r: u32, s: u32, b: u32, at: u64) {
        let (r, s) = (self.rep(r), self.rep(s));
        if r == s {
            return;
        }
        let Some((p, txs)) = self.blocks.get(&b).cloned() else {
            return;
        };
        let (Some(mut x), Some(y)) = (self.load(r, p), self.load(s, p)) else {
            return;
        };
        self.hit("fault:executions interleaved");
        let y = Rc::new(RefCell::new(y));
        let outs_s: Rc<RefCell<Vec<TxOut>>> = Rc::new(RefCell::new(vec![]));
        let mut outs_r = vec![];
        for t in txs {
            let Some(ops) = self.txs.get(&t).cloned() else {
                continue;
            };
            self.set_ambient_of(s, b);
            let am_s = ambient();
            self.set_ambient_of(r, b);
            let (cfg, ops2, y2, o2) = (self.cfg.clone(), ops.clone(), y.clone(), outs_s.clone());
            preempt(
                at,
                Box::new(move || {
                    set_ambient(am_s.0, am_s.1, am_s.2);
                    let out = exec_tx(&cfg, &mut y2.borrow_mut(), &ops2, None);
                    if let Some(o) = out {
                        o2.borrow_mut().push(o);
                    }
                }),
            );
            if let Some(o) = exec_tx(&self.cfg, &mut x, &ops, None) {
                outs_r.push(o);
            }
            if let Some(f) = preempt_left() {
                f();
            }
        }
        self.settle(r, b, outs_r, x);
        let y = y.borrow().clone();
        let o = outs_s.borrow().clone();
        self.settle(s, b, o, y);
    }
}

fn wbank_same(a: &Bank, b: &Bank) -> bool {
    a.accts.len() == b.accts.len()
        && a.accts
            .iter()
            .zip(b.accts.iter())
            .all(|(x, y)| x.0 == y.0 && x.1.same(y.1))
}

/// The leader's transactions with every reference made a literal.
pub fn concretize(w: &World, steps: &[Step]) -> Vec<Step> {
    let none = BTreeMap::new();
    let lit = |o: &ORef| ORef::Raw(w.resolve(o, &none));
    let mut out = vec![];
    for s in steps {
        let Act::Tx { ops, .. } = &s.act else { continue };
        let bad = ops.iter().any(|o| {
            matches!(o, Op::Create { spec, .. } if spec.over.is_some() || spec.defect.is_some())
        });
        if bad {
            continue;
        }
        let ops = ops
            .iter()
            .map(|o| match o {
                Op::Cancel { m, o } => Op::Cancel { m: *m, o: lit(o) },
                Op::Mass { m, os } => Op::Mass {
                    m: *m,
                    os: os.iter().map(lit).collect(),
                },
                o => o.clone(),
            })
            .collect();
        out.push(Step {
            uid: s.uid,
            t: s.t,
            act: Act::Tx { ops, abort: None },
        });
    }
    // a market of other parameters at the same addresses, for a competing block
    let mut other = vec![];
    for s in &out {
        let Act::Tx { ops, .. } = &s.act else { continue };
        let mut ops = ops.clone();
        let mut any = false;
        for o in &mut ops {
            if let Op::Create { spec, .. } = o {
                let h = s.uid.wrapping_mul(0x9e37_79b1) >> 7;
                spec.min = match h % 3 {
                    0 => spec.min.saturating_mul(7).saturating_add(3),
                    1 => spec.min / 5,
                    _ => spec.min,
                };
                if h % 3 == 2 || h % 5 < 3 {
                    let t = if h % 2 == 0 {
                        spec.tick.saturating_mul(3)
                    } else {
                        (spec.tick / 2).max(1)
                    };
                    spec.tick = if t == spec.tick { t.saturating_add(1) } else { t };
                }
                if h % 7 < 3 {
                    std::mem::swap(&mut spec.bid_n, &mut spec.ask_n);
                    spec.q_n = spec.q_n.saturating_add(h % 4);
                }
                any = true;
            }
        }
        if any {
            other.push(Step {
                uid: s.uid | OTHER,
                t: s.t,
                act: Act::Tx { ops, abort: None },
            });
        }
    }
    out.extend(other);
    out
}

/// Marks the steps that only competing blocks list.
const OTHER: u32 = 1 << 31;

/// Decide the block tree and what every replica does, from the seed alone.
pub fn schedule(rng: &mut Rng, steps: &[Step]) -> Vec<CEv> {
    let n_rep = rng.range(2, 5) as u32;
    let mut evs: Vec<(u64, u64, CEv)> = vec![];
    let mut n = 0u64;
    let mut push = |t: u64, e: CEv| {
        n += 1;
        evs.push((t, n, e));
    };
    let uids: Vec<u32> = steps.iter().map(|s| s.uid).filter(|u| u & OTHER == 0).collect();
    let others: BTreeSet<u32> = steps.iter().map(|s| s.uid).filter(|u| u & OTHER != 0).collect();
    let p_other = if rng.p(0.5) { 0.7 } else { 0.0 };
    let maxb = rng.range(1, 14);
    let p_fork = if rng.p(0.6) { 0.25 } else { 0.0 };
    let p_die = if rng.p(0.7) { 0.2 } else { 0.0 };
    let p_restart = if rng.p(0.7) { 0.1 } else { 0.0 };
    let p_inter = if rng.p(0.7) { 0.3 } else { 0.0 };
    let p_snap = rng.below(60) as f64 / 100.0;
    let p_again = if rng.p(0.4) { 0.15 } else { 0.0 };
    let delay = 1 + rng.bits(13);
    let mut parent = 0u32;
    let mut b = 0u32;
    let mut i = 0usize;
    let mut t = 0u64;
    while i < uids.len() {
        t += 400;
        let k = (rng.range(1, maxb) as usize).min(uids.len() - i);
        let mut txs = uids[i..i + k].to_vec();
        let differs = txs.iter().any(|u| others.contains(&(u | OTHER))) && rng.p(p_other);
        let fork = differs || rng.p(p_fork);
        b += 1;
        let me = b;
        let mut kinds = vec![(me, parent, txs.clone())];
        if fork {
            // a competing block with other contents: reordered, dropped or repeated transactions
            b += 1;
            match if differs { 3 } else { rng.below(3) } {
                3 => {
                    for u in txs.iter_mut() {
                        if others.contains(&(*u | OTHER)) {
                            *u |= OTHER;
                        }
                    }
                    // what follows here is tried on that market, too
                    let more = rng.below(12) as usize;
                    txs.extend(uids[i + k..].iter().take(more));
                }
                0 => {
                    for x in (1..txs.len()).rev() {
                        let y = rng.below(x as u64 + 1) as usize;
                        txs.swap(x, y);
                    }
                }
                1 => txs.retain(|_| rng.p(0.7)),
                _ => {
                    let more = uids[i.saturating_sub(6)..i].to_vec();
                    txs.extend(more);
                }
            }
            kinds.push((b, parent, txs));
        }
        let last = kinds.len() as u64;
        // which one the chain goes on from
        let next = kinds[rng.below(last) as usize].0;
        for (bb, pp, tt) in kinds {
            push(t, CEv::Block { b: bb, parent: pp, txs: tt });
            for r in 0..n_rep {
                if bb != next && rng.p(0.3) {
                    continue;
                }
                if rng.p(0.15) {
                    continue; // delivery lost; caught up later
                }
                let mut at = t + 1 + rng.below(delay);
                if rng.p(p_die) {
                    push(
                        at,
                        CEv::Die {
                            r,
                            b: bb,
                            tx: rng.below(k as u64 + 1) as u32,
                            at: 1 + rng.below(40) as u32,
                        },
                    );
                    at += 1 + rng.below(1000);
                }
                if rng.p(p_inter) {
                    let s = rng.below(n_rep as u64) as u32;
                    let x = 1 + rng.below(30) as u32;
                    push(at, CEv::Interleave { r, s, b: bb, at: x });
                }
                push(at, CEv::Exec { r, b: bb });
                if rng.p(p_again) {
                    push(at + 1 + rng.below(2000), CEv::Exec { r, b: bb });
                }
                if rng.p(p_snap) {
                    push(at + rng.below(300), CEv::Snapshot { r, b: bb });
                }
                if rng.p(p_restart) {
                    let shift = rng.below(4) as u32;
                    push(at + rng.below(900), CEv::Restart { r, shift });
                }
            }
        }
        parent = next;
        i += k;
    }
    t += 400 + delay + 5000;
    for r in 0..n_rep {
        push(t, CEv::Exec { r, b: parent });
    }
    // one more machine that starts from nothing
    push(t + 1, CEv::Exec { r: n_rep, b: parent });
    push(t + 2, CEv::Fresh { b: parent });
    if b > 1 && rng.p(0.3) {
        push(t + 3, CEv::Fresh { b: 1 + rng.below(b as u64) as u32 });
    }
    evs.sort_by_key(|x| (x.0, x.1));
    evs.into_iter().map(|x| x.2).collect()
}

pub fn run<'a>(
    cfg: &Cfg,
    steps: &[Step],
    evs: &[CEv],
    log: bool,
    remote: Option<&'a mut Remote>,
) -> Cluster<'a> {
    let mut c = Cluster::new(cfg, steps, remote);
    if log {
        c.log = Some(vec![]);
    }
    for e in evs {
        c.apply(e);
        if c.viol.is_some() {
            break;
        }
    }
    set_ambient(1_700_000_000_000_000_000, 0, 1);
    c
}
