//! Stateless exploration with iterated preemption bounding: every schedule with
//! at most `bound` deviations (preemptions / early clock jumps) is executed.
use super::*;
use std::collections::BTreeMap;

pub type Body = Arc<dyn Fn() -> Result<String, String> + Send + Sync>;

#[derive(Clone)]
pub struct Harness {
    pub name: String,
    pub body: Body,
    /// threads still running after the body ended are fine
    pub allow_leak: bool,
    /// panics inside controlled threads are fine
    pub allow_panics: bool,
    pub max_steps: u64,
    pub max_jumps: u64,
}

pub struct Run {
    choices: Vec<u8>,
    sigs: Vec<u32>,
}
struct Item {
    parent: Option<Arc<Run>>,
    at: u32,
    alt: u8,
    cost: u8,
    /// alternatives taken so far
    alts: u32,
    own: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub harness: String,
    pub what: String,
    pub choices: Vec<u8>,
    pub deviations: u8,
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    /// executions / scheduler steps / nodes of the schedule tree (not counting what
    /// another shard counts)
    pub execs: u64,
    pub steps: u64,
    pub nodes: u64,
    pub max_points: usize,
    /// every schedule with at most this many deviations was executed
    pub completed: i32,
    pub capped: bool,
    pub outcomes: BTreeMap<String, u64>,
    pub violation: Option<Viol>,
    pub execs_by_cost: Vec<u64>,
    /// listed findings that were seen
    pub known: Vec<String>,
}

pub fn judge(h: &Harness, o: &Outcome, r: Option<Result<String, String>>) -> Result<String, String> {
    match &o.end {
        End::Deadlock(s) => return Err(format!("deadlock: {}", s)),
        End::Horizon(s) => return Err(format!("no progress within the horizon: {}", s)),
        End::Leaked if !h.allow_leak => {
            return Err("a background thread kept running after everything was dropped".into())
        }
        _ => {}
    }
    let r = match r {
        None => return Err(format!("the scenario panicked: {:?}", o.panics)),
        Some(r) => r,
    };
    if let Err(e) = &r {
        return Err(format!("{} {}", e, if o.panics.is_empty() { String::new() } else { format!("(panics: {:?})", o.panics) }));
    }
    if !h.allow_panics && !o.panics.is_empty() {
        return Err(format!("panic in a background thread: {:?}", o.panics));
    }
    r
}

pub fn run_one(h: &Harness, prefix: Vec<u8>, trace: bool) -> (Outcome, Result<String, String>) {
    let body = h.body.clone();
    let lim = Limits {
        max_steps: h.max_steps,
        max_jumps: h.max_jumps,
    };
    let (o, r) = execute(prefix, &lim, trace, move || body());
    let v = judge(h, &o, r);
    (o, v)
}

fn engine_error(msg: String) -> ! {
    eprintln!("ENGINE ERROR: {}", msg);
    sys::exit_now(2)
}

/// Explore the schedules of `h` with at most `bound` deviations; this process does
/// shard `k` of `n`. Levels below `min(bound, 2)` are executed by every shard (and
/// counted by shard 0 only); of the items of that level each shard takes every n-th
/// and everything derived from it.
pub fn explore(
    h: &Harness,
    bound: u8,
    wall_s: f64,
    k: usize,
    n: usize,
    beat: &dyn Fn(&[u8]),
    is_known: &dyn Fn(&str) -> bool,
) -> Report {
    let deadline = sys::real_now() + wall_s;
    let split = bound.min(2);
    let mut buckets: Vec<Vec<Item>> = (0..=bound).map(|_| Vec::new()).collect();
    let mut rep = Report {
        completed: -1,
        execs_by_cost: vec![0; bound as usize + 1],
        ..Default::default()
    };
    let mut split_no = 0usize;
    buckets[0].push(Item {
        parent: None,
        at: 0,
        alt: 0,
        cost: 0,
        alts: 0,
        own: k == 0,
    });
    // determinism: the default schedule twice
    {
        let (a, ra) = run_one(h, vec![], true);
        let (b, rb) = run_one(h, vec![], true);
        let sa: Vec<u32> = a.points.iter().map(|p| p.sig).collect();
        let sb: Vec<u32> = b.points.iter().map(|p| p.sig).collect();
        if sa != sb || ra != rb {
            engine_error(format!("harness {} is not deterministic: {:?} / {:?}", h.name, ra, rb));
        }
    }
    let start_abandoned = ABANDONED.load(Ordering::Relaxed);
    loop {
        let lvl = match buckets.iter().position(|b| !b.is_empty()) {
            None => {
                rep.completed = bound as i32;
                break;
            }
            Some(l) => l,
        };
        rep.completed = rep.completed.max(lvl as i32 - 1);
        if sys::real_now() > deadline
            || ABANDONED.load(Ordering::Relaxed) - start_abandoned > 300
            || (rep.execs % 1024 == 1023 && sys::rss_mb() > 3000)
        {
            rep.capped = true;
            break;
        }
        let item = buckets[lvl].pop().unwrap();
        let mut prefix = Vec::new();
        if let Some(p) = &item.parent {
            prefix.extend_from_slice(&p.choices[..item.at as usize]);
            prefix.push(item.alt);
        }
        let plen = prefix.len();
        beat(&prefix);
        let (o, v) = run_one(h, prefix, false);
        if let Some(p) = &item.parent {
            let at = item.at as usize;
            if o.points.len() < plen || (0..=at).any(|i| o.points[i].sig != p.sigs[i]) {
                let f = |s: u32| format!("t{} kind {} n {} last {}", s >> 24, s >> 16 & 255, s >> 8 & 255, s & 255);
                for i in 0..=at {
                    if i >= o.points.len() {
                        eprintln!("point {}: ended, was {}", i, f(p.sigs[i]));
                    } else if o.points[i].sig != p.sigs[i] {
                        eprintln!("point {}: {} was {}", i, f(o.points[i].sig), f(p.sigs[i]));
                    }
                }
                engine_error(format!("divergence in harness {} at point <= {} ({:?}, {:?})", h.name, at, o.end, o.panics));
            }
        }
        let run = Arc::new(Run {
            choices: o.points.iter().map(|p| p.chosen).collect(),
            sigs: o.points.iter().map(|p| p.sig).collect(),
        });
        if item.own {
            rep.execs += 1;
            rep.execs_by_cost[item.cost as usize] += 1;
            rep.steps += o.steps;
            rep.nodes += (o.points.len().saturating_sub(plen) + 1) as u64;
            rep.max_points = rep.max_points.max(o.points.len());
        }
        match v {
            Ok(s) => {
                if item.own {
                    *rep.outcomes.entry(s).or_insert(0) += 1;
                }
            }
            Err(e) if is_known(&e) => {
                if !rep.known.contains(&e) {
                    rep.known.push(e);
                }
            }
            Err(e) => {
                rep.violation = Some(Viol {
                    harness: h.name.clone(),
                    what: e,
                    choices: run.choices.clone(),
                    deviations: item.cost,
                });
                break;
            }
        }
        // children: deviations after this item's own
        for i in plen..o.points.len() {
            let p = &o.points[i];
            for alt in 1..p.n {
                let c = item.cost + p.costs[alt as usize];
                if c > bound {
                    continue;
                }
                let mut own = item.own;
                // (without deviations: the items with two alternatives)
                if (item.cost < split && c >= split) || (bound == 0 && item.alts == 1) {
                    split_no += 1;
                    own = split_no % n == k;
                    if !own {
                        continue;
                    }
                }
                buckets[c as usize].push(Item {
                    parent: Some(run.clone()),
                    at: i as u32,
                    alt,
                    cost: c,
                    alts: item.alts + 1,
                    own,
                });
            }
        }
    }
    if let Some(v) = rep.violation.as_mut() {
        // the same schedule must fail every time, identically
        for _ in 0..2 {
            let (_, r) = run_one(h, v.choices.clone(), true);
            match r {
                Err(e) if e == v.what => {}
                Err(e) => engine_error(format!("violation of harness {} replays differently: {} / {}", h.name, v.what, e)),
                Ok(_) => engine_error(format!("violation of harness {} does not replay: {}", h.name, v.what)),
            }
        }
    }
    rep
}
