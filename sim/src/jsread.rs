//! The TypeScript client as one more reader: snapshots of committed state go to a Node process
//! that runs the repository's decoders (bundled by /verif/js/build.sh) and compares.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

struct Node {
    owner: u32,
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

static NODE: Mutex<Option<Node>> = Mutex::new(None);

fn bundle() -> std::path::PathBuf {
    let me = std::env::current_exe().expect("own path");
    me.parent()
        .and_then(|p| p.parent())
        .expect("target dir")
        .join("js/reader.mjs")
}

fn start() -> std::io::Result<Node> {
    let mut c = Command::new("node");
    c.arg(bundle())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    // the reader is not held to the simulator's memory limit
    unsafe {
        c.pre_exec(|| {
            let mut l = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::getrlimit(libc::RLIMIT_AS, &mut l);
            l.rlim_cur = l.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &l);
            Ok(())
        });
    }
    let mut child = c.spawn()?;
    let to = child.stdin.take().expect("pipe");
    let from = BufReader::new(child.stdout.take().expect("pipe"));
    Ok(Node {
        owner: std::process::id(),
        _child: child,
        to,
        from,
    })
}

/// Has the reader read `snaps`: how many it read, and the first difference.
pub fn read(snaps: &[Value]) -> (u64, Option<(usize, String)>) {
    if snaps.is_empty() {
        return (0, None);
    }
    let v = ask(snaps);
    let read = v["read"].as_u64().unwrap_or(0);
    let bad = v["bad"].as_object().map(|o| {
        (
            o["at"].as_u64().unwrap_or(0) as usize,
            o["msg"].as_str().unwrap_or("?").to_string(),
        )
    });
    (read, bad)
}

/// Has the client build the creation of a market: the transaction, or why there is none.
pub fn build(request: Value) -> Result<Value, String> {
    let v = ask(&[serde_json::json!({ "build": request })]);
    match v["bad"]["msg"].as_str() {
        Some(m) => Err(m.to_string()),
        None => Ok(v["built"].clone()),
    }
}

/// Panics if the reader cannot be run at all: that is no verdict.
fn ask(snaps: &[Value]) -> Value {
    let mut g = match NODE.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    // a forked child must not talk to its parent's reader
    if g.as_ref().map(|n| n.owner) != Some(std::process::id()) {
        if let Some(n) = g.take() {
            std::mem::forget(n);
        }
        *g = Some(start().expect("node"));
    }
    let n = g.as_mut().expect("node");
    let mut line = serde_json::to_vec(snaps).expect("json");
    line.push(b'\n');
    n.to.write_all(&line).expect("reader takes snapshots");
    n.to.flush().expect("reader takes snapshots");
    let mut ans = String::new();
    n.from.read_line(&mut ans).expect("reader answers");
    serde_json::from_str(&ans).expect("reader answers")
}
