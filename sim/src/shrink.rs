//! Running scenarios in processes of their own, and making them small.
use crate::ops::*;
use crate::{cluster, gen};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Held,
    Viol(String),
    /// The process died or did not come back.
    Lost(String),
}

/// Execute a scenario in this process.
pub fn execute(s: &Scenario, log: bool) -> (Out, Vec<String>, u64) {
    // before anything of the program runs in this process
    let mut remote = if s.property == "C19" {
        cluster::Remote::start()
    } else {
        None
    };
    for i in &s.prelude {
        let mut g = gen::Gen::new(&s.property, s.seed, *i, s.deep);
        g.run();
        if s.property == "C19" {
            let (st, evs) = gen::cluster_of(&g, s.seed, *i);
            cluster::run(&g.w.cfg, &st, &evs, false, None);
        }
    }
    if s.property == "C19" {
        let c = cluster::run(&s.cfg, &s.steps, &s.cluster, log, remote.as_mut());
        let o = match c.viol {
            Some(m) => Out::Viol(m),
            None => Out::Held,
        };
        return (o, c.log.unwrap_or_default(), c.digest.0);
    }
    let w = gen::replay_steps(&s.cfg, &s.steps, &s.property, log);
    let o = match w.viols.iter().find(|v| v.prop == s.property) {
        Some(v) => Out::Viol(v.msg.clone()),
        None => Out::Held,
    };
    (o, w.log.unwrap_or_default(), w.digest.0)
}

/// Run `f` in a forked child and bring back what it writes.
pub fn in_child(limit: Duration, f: impl FnOnce(&mut std::fs::File)) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            // quiet: the child speaks through the pipe only
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 2);
            }
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            f(&mut w);
            let _ = w.flush();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let start = Instant::now();
        let mut buf = [0u8; 65536];
        loop {
            match r.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => {
                    out.extend_from_slice(&buf[..n]);
                    continue;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    let mut p = libc::pollfd {
                        fd: fds[0],
                        events: libc::POLLIN,
                        revents: 0,
                    };
                    libc::poll(&mut p, 1, 50);
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
            if start.elapsed() > limit {
                libc::kill(pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                return Err("did not come back".into());
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(format!("died of signal {}", libc::WTERMSIG(st)));
        }
        if libc::WEXITSTATUS(st) != 0 {
            return Err(format!("exit status {}", libc::WEXITSTATUS(st)));
        }
        Ok(out)
    }
}

pub fn eval(s: &Scenario, limit: Duration) -> Out {
    let r = in_child(limit, |w| {
        let (o, _, _) = execute(s, false);
        let t = match o {
            Out::Viol(m) => format!("V{}", m),
            _ => "H".into(),
        };
        let _ = w.write_all(t.as_bytes());
    });
    match r {
        Ok(v) if v.first() == Some(&b'V') => {
            Out::Viol(String::from_utf8_lossy(&v[1..]).into_owned())
        }
        Ok(v) if v.first() == Some(&b'H') => Out::Held,
        Ok(_) => Out::Lost("no answer".into()),
        Err(e) => Out::Lost(e),
    }
}

/// Does the scenario still show the violation (or, for a lost run, still get lost)?
fn still(s: &Scenario, lost: bool, limit: Duration) -> Option<String> {
    match (eval(s, limit), lost) {
        (Out::Viol(m), false) => Some(m),
        (Out::Lost(m), true) => Some(m),
        _ => None,
    }
}

fn ddmin<T: Clone>(
    items: &mut Vec<T>,
    deadline: Instant,
    tries: &mut u64,
    mut test: impl FnMut(&[T]) -> bool,
) {
    let mut chunk = (items.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < items.len() {
            if Instant::now() > deadline {
                return;
            }
            let j = (i + chunk).min(items.len());
            let mut c = items[..i].to_vec();
            c.extend_from_slice(&items[j..]);
            *tries += 1;
            if test(&c) {
                *items = c;
                any = true;
            } else {
                i = j;
            }
        }
        if chunk == 1 {
            if !any {
                return;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
}

pub fn minimise(s: &Scenario, lost: bool, budget: Duration) -> (Scenario, u64) {
    let deadline = Instant::now() + budget;
    let limit = if lost {
        Duration::from_secs(4)
    } else {
        Duration::from_secs(20)
    };
    let mut best = s.clone();
    let mut tries = 0;
    if !best.cluster.is_empty() {
        let base = best.clone();
        let mut c = best.cluster.clone();
        ddmin(&mut c, deadline, &mut tries, |x| {
            let mut t = base.clone();
            t.cluster = x.to_vec();
            still(&t, lost, limit).is_some()
        });
        best.cluster = c;
    }
    let base = best.clone();
    let mut steps = best.steps.clone();
    ddmin(&mut steps, deadline, &mut tries, |x| {
        let mut t = base.clone();
        t.steps = x.to_vec();
        still(&t, lost, limit).is_some()
    });
    best.steps = steps;
    if !best.cluster.is_empty() {
        // drop what no block lists any more, and what blocks list needlessly
        for i in 0..best.cluster.len() {
            if let CEv::Block { b, parent, txs } = best.cluster[i].clone() {
                let base = best.clone();
                let mut v = txs.clone();
                ddmin(&mut v, deadline, &mut tries, |x| {
                    let mut t = base.clone();
                    t.cluster[i] = CEv::Block {
                        b,
                        parent,
                        txs: x.to_vec(),
                    };
                    still(&t, lost, limit).is_some()
                });
                best.cluster[i] = CEv::Block { b, parent, txs: v };
            }
        }
    }
    // simpler arguments
    let mut i = 0;
    while i < best.steps.len() {
        for cand in simpler(&best.steps[i]) {
            if Instant::now() > deadline {
                break;
            }
            let mut t = best.clone();
            t.steps[i] = cand;
            tries += 1;
            if still(&t, lost, limit).is_some() {
                best = t;
            }
        }
        i += 1;
    }
    if let Some(m) = still(&best, lost, limit) {
        best.violation = m;
    }
    (best, tries)
}

fn simpler(s: &Step) -> Vec<Step> {
    let mut out = vec![];
    if let Act::Tx { ops, abort } = &s.act {
        let mk = |ops: Vec<Op>, abort: Option<u32>| Step {
            uid: s.uid,
            t: s.t,
            act: Act::Tx { ops, abort },
        };
        if abort.is_some() {
            out.push(mk(ops.clone(), None));
        }
        if ops.len() > 1 {
            // later operations only: earlier ones give their positions to references
            for i in (0..ops.len()).rev() {
                let mut o = ops.clone();
                o.remove(i);
                out.push(mk(o, *abort));
            }
            return out;
        }
        match ops.first() {
            Some(Op::Mass { m, os }) if os.len() > 1 => {
                for i in 0..os.len().min(12) {
                    let mut o = os.clone();
                    o.remove(i);
                    out.push(mk(vec![Op::Mass { m: *m, os: o }], *abort));
                }
            }
            Some(Op::New { m, p }) => {
                let mut with = |f: &dyn Fn(&mut NewP)| {
                    let mut q = p.clone();
                    f(&mut q);
                    if q != *p {
                        out.push(mk(vec![Op::New { m: *m, p: q }], *abort));
                    }
                };
                with(&|q| q.stb = Stb::Decrement);
                with(&|q| q.post_only = false);
                with(&|q| q.post_allowed = true);
                with(&|q| q.ml = 100);
                with(&|q| q.quote = u64::MAX);
                with(&|q| q.nonce = 0);
            }
            Some(Op::Create { m, spec }) => {
                let mut with = |f: &dyn Fn(&mut MarketSpec)| {
                    let mut q = spec.clone();
                    f(&mut q);
                    if q != *spec {
                        out.push(mk(vec![Op::Create { m: *m, spec: q }], *abort));
                    }
                };
                with(&|q| q.slack = 0);
                with(&|q| q.extra = 0);
            }
            _ => {}
        }
    }
    if let Act::Grow { .. } = &s.act {
        let mut with = |f: &dyn Fn(&mut u32, &mut u32, &mut u64, &mut u64)| {
            let mut a = s.act.clone();
            if let Act::Grow {
                bids,
                asks,
                levels,
                qty,
                ..
            } = &mut a
            {
                f(bids, asks, levels, qty);
            }
            if a != s.act {
                out.push(Step {
                    uid: s.uid,
                    t: s.t,
                    act: a,
                });
            }
        };
        with(&|b, _, _, _| *b = 0);
        with(&|_, a, _, _| *a = 0);
        for d in [2, 4, 8, 32] {
            with(&|b, _, _, _| *b -= *b / d);
            with(&|_, a, _, _| *a -= *a / d);
        }
        with(&|_, _, l, _| *l = 1);
        with(&|_, _, _, q| *q = 1);
    }
    if let Act::TsCreate {
        orders,
        events,
        min,
        tick,
    } = &s.act
    {
        for (a, b, c, d) in [
            (1, *events, *min, *tick),
            (*orders, 5, *min, *tick),
            (*orders, *events, 1, *tick),
            (*orders, *events, *min, 1),
            (1, 5, 1, 1),
        ] {
            out.push(Step {
                uid: s.uid,
                t: s.t,
                act: Act::TsCreate {
                    orders: a,
                    events: b,
                    min: c,
                    tick: d,
                },
            });
        }
    }
    if let Act::Raw { op, how } = &s.act {
        let mut put = |op: Op, how: Vec<Corrupt>| {
            out.push(Step {
                uid: s.uid,
                t: s.t,
                act: Act::Raw { op, how },
            })
        };
        for i in 0..how.len() {
            let mut h = how.clone();
            h.remove(i);
            put(op.clone(), h);
        }
        if let Op::Mass { m, os } = op {
            for i in 0..os.len().min(12) {
                let mut o = os.clone();
                o.remove(i);
                put(Op::Mass { m: *m, os: o }, how.clone());
            }
        }
        for (i, c) in how.iter().enumerate() {
            if let Corrupt::Tail(t) = c {
                let mut h = how.clone();
                h[i] = Corrupt::Tail(t[..1.min(t.len())].to_vec());
                put(op.clone(), h);
            }
        }
    }
    out
}
