use inst::*;
use mcrt::explore::Harness;
use metrix::driver::*;
use metrix::processor::ProcessingStrategy;
use metrix::snapshot::*;
use metrix::*;
use std::sync::Arc;
use std::time::Duration;

pub const A: inst::L = inst::L::A;
pub const B: inst::L = inst::L::B;
pub const C: inst::L = inst::L::C;
pub const MS: u64 = mcrt::MS;

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

pub fn harness(name: &str, body: impl Fn() -> Result<String, String> + Send + Sync + 'static) -> Harness {
    Harness {
        name: name.into(),
        body: Arc::new(body),
        allow_leak: false,
        allow_panics: false,
        max_steps: 8_000,
        max_jumps: 900,
    }
}

pub fn driver() -> D {
    built(
        DriverBuilder::default()
            .set_driver_metrics(false)
            .set_processing_strategy(ProcessingStrategy::ProcessAll),
    )
}
pub fn default_driver() -> D {
    D::of(TelemetryDriver::default())
}
pub fn built(b: DriverBuilder) -> D {
    D::of(b.build())
}

/// records every observation's number under `kind`; value observations carry their number
pub fn recorder(kind: u32) -> Handler {
    Handler::new(move |o| {
        let v = match o {
            Observation::ObservedOneValue { value, .. } => value.convert_to_u64().unwrap_or(9999),
            Observation::ObservedOne { .. } => 9001,
            Observation::Observed { count, .. } => 9100 + *count,
        };
        mcrt::val(kind, v, mcrt::vnow().unwrap_or(0));
        1
    })
}
pub fn recorded(kind: u32) -> Vec<u64> {
    mcrt::vals().iter().filter(|v| v.0 == kind).map(|v| v.1).collect()
}
pub fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}

/// the unsigned number at `path`, -1 if there is none, -2 if it is something else
pub fn num(s: &Snapshot, path: &str) -> i64 {
    match s.find(path) {
        FindItem::Found(ItemKind::UInt(x)) => *x as i64,
        FindItem::Found(ItemKind::Int(x)) => *x,
        FindItem::Found(_) => -2,
        FindItem::NotFound => -1,
    }
}
pub fn has(s: &Snapshot, path: &str) -> bool {
    matches!(s.find(path), FindItem::Found(_))
}
pub fn err<E: std::fmt::Display>(what: &'static str) -> impl FnOnce(E) -> String {
    move |e| format!("{}: {}", what, e)
}

/// something that tells when it is released
pub struct Released(pub u64);
impl Drop for Released {
    fn drop(&mut self) {
        mcrt::val(99, self.0, 0);
    }
}
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::spawn(f)
}

/// A snapshot as a map from paths to values. Of items with equal names at one
/// level the first counts (as for `Snapshot::find`); order does not matter.
pub type Tree = std::collections::BTreeMap<String, String>;
pub fn shown(k: &ItemKind) -> String {
    match k {
        ItemKind::UInt(x) => format!("u{}", x),
        ItemKind::Int(x) => format!("i{}", x),
        ItemKind::Float(x) => format!("f{}", x),
        ItemKind::Boolean(x) => format!("b{}", x),
        ItemKind::Text(x) => format!("t{}", x),
        ItemKind::Snapshot(_) => "{}".into(),
    }
}
fn flat_into(s: &Snapshot, prefix: &str, out: &mut Tree) {
    let mut seen: Vec<&str> = vec![];
    for (k, v) in &s.items {
        if seen.contains(&k.as_str()) {
            continue;
        }
        seen.push(k);
        let p = if prefix.is_empty() { k.clone() } else { format!("{}/{}", prefix, k) };
        out.insert(p.clone(), shown(v));
        if let ItemKind::Snapshot(i) = v {
            flat_into(i, &p, out);
        }
    }
}
pub fn flat(s: &Snapshot) -> Tree {
    let mut t = Tree::new();
    flat_into(s, "", &mut t);
    t
}
/// without groups that contain nothing
pub fn pruned(mut t: Tree) -> Tree {
    loop {
        let e: Vec<String> = t
            .iter()
            .filter(|(k, v)| *v == "{}" && !t.keys().any(|x| x.starts_with(&format!("{}/", k))))
            .map(|x| x.0.clone())
            .collect();
        if e.is_empty() {
            return t;
        }
        for k in e {
            t.remove(&k);
        }
    }
}
pub fn put_of<T: PutsSnapshot + ?Sized>(x: &T, descriptive: bool) -> Snapshot {
    let mut s = Snapshot::default();
    x.put_snapshot(&mut s, descriptive);
    s
}
pub fn float(s: &Snapshot, path: &str) -> Option<f64> {
    match s.find(path) {
        FindItem::Found(ItemKind::Float(x)) => Some(*x),
        _ => None,
    }
}
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-6)
}
pub const SEC: u64 = mcrt::SEC;
/// in nanoseconds, from none to three centuries: units, and where a count of one
/// of them needs another bit, byte or word
pub const TIMES: [u64; 24] = {
    const D: u64 = 86_400 * SEC;
    [
        0, 1, 2, 999, 1_000, 999_999, MS, 1 << 31, 1 << 32, SEC - 1, SEC, 60 * SEC, 3600 * SEC, 65_536 * SEC, D, (1 << 31) * MS, (1 << 32) * MS, 365 * D,
        1 << 53, (1 << 31) * SEC, (1 << 32) * SEC, 1 << 62, (1 << 63) - 1, (1 << 63) + (1 << 60),
    ]
};
/// just before, at and just after each of them
pub fn times() -> Vec<u64> {
    let mut v: Vec<u64> = TIMES.iter().flat_map(|t| [t.saturating_sub(1), *t, t + 1]).collect();
    v.sort_unstable();
    v.dedup();
    v
}
pub fn pass(ns: u64) {
    mcrt::seq_advance(ns)
}

std::thread_local! {
    static STAMPED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn case_begins() {
    STAMPED.with(|x| x.set(0))
}
/// Timestamps for what instruments are told. An instrument goes by the order
/// in which it is told and by when that is, not by timestamps: what was waiting
/// in a queue, or comes with the timestamp of someone else, is as good.
pub fn stamp() -> std::time::Instant {
    let n = STAMPED.with(|x| x.replace(x.get() + 1));
    let now = std::time::Instant::now();
    match n % 4 {
        1 => now - Duration::from_secs(100),
        3 => now + Duration::from_secs(3600),
        _ => now,
    }
}
