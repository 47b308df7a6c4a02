//! The committed list of genuine defects that are recorded and not repaired. A line
//! `known: property=<id> match=<text>` sets aside violations of that property whose message
//! contains the text; `fixed:` lines set aside nothing.
use std::sync::OnceLock;

static LIST: OnceLock<Vec<(String, String)>> = OnceLock::new();

pub fn load(path: &str) {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((p, m)) = r.split_once(" match=") {
                v.push((p.trim().to_string(), m.trim().to_string()));
            }
        }
    }
    let _ = LIST.set(v);
}
pub fn of(prop: &str) -> Vec<String> {
    LIST.get()
        .map(|l| {
            l.iter()
                .filter(|x| x.0 == prop)
                .map(|x| x.1.clone())
                .collect()
        })
        .unwrap_or_default()
}
pub fn matches(prop: &str, msg: &str) -> bool {
    match LIST.get() {
        Some(l) => l
            .iter()
            .any(|(p, m)| p == prop && !m.is_empty() && msg.contains(m.as_str())),
        None => false,
    }
}
