//! Framework: enumeration of choice trees (sequential checks), schedule
//! exploration (concurrent checks), sharding over worker processes, evidence.
use json::{array, object, JsonValue};
use mcrt::explore::{explore, run_one, Harness, Report};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// compare implementation and specification
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($a:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if !(g == w) { return Err(format!("{}: observed {:?}, specified {:?}", format!($($a)*), g, w)); }
    }};
}

struct Skip;

/// One run of a sequential check: a path through the tree of its choices.
pub struct Case {
    path: Vec<(u32, u32)>,
    pos: usize,
    prod: u64,
    shard: Option<ShardSt>,
    pub steps: u64,
    states: HashSet<u64>,
    stated: bool,
    trace: Option<Vec<String>>,
}
struct ShardSt {
    k: u64,
    n: u64,
    counter: u64,
    last: Vec<(u32, u32)>,
}
const SHARD_LIMIT: u64 = 256;

impl Case {
    fn new(shard: Option<ShardSt>) -> Case {
        Case {
            path: vec![],
            pos: 0,
            prod: 1,
            shard,
            steps: 0,
            states: HashSet::new(),
            stated: false,
            trace: None,
        }
    }
    /// every value in 0..n
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let r;
        if self.pos < self.path.len() {
            if self.path[self.pos].1 != n as u32 {
                eprintln!("ENGINE ERROR: choice {} had {} options, now {}", self.pos, self.path[self.pos].1, n);
                mcrt::sys::exit_now(2);
            }
            r = self.path[self.pos].0;
        } else {
            self.path.push((0, n as u32));
            r = 0;
        }
        self.pos += 1;
        if self.prod < SHARD_LIMIT {
            self.prod *= n as u64;
            if self.prod >= SHARD_LIMIT {
                if let Some(s) = self.shard.as_mut() {
                    if s.last != self.path[..self.pos] {
                        s.last = self.path[..self.pos].to_vec();
                        s.counter += 1;
                    }
                    if s.counter % s.n != s.k {
                        std::panic::resume_unwind(Box::new(Skip));
                    }
                }
            }
        }
        r as usize
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.choose(of.len())]
    }
    /// one transition of the system under check
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn op(&mut self, f: impl FnOnce() -> String) {
        self.steps += 1;
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }
    /// a state of the specification (for the count of distinct states); where
    /// there is no history each input is one
    pub fn state(&mut self, s: impl Hash) {
        self.stated = true;
        if self.states.len() < 4_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            let v = h.finish();
            self.states.insert(v);
        }
    }
}

#[derive(Default, Clone)]
pub struct Rep {
    pub name: String,
    pub conc: bool,
    pub execs: u64,
    pub steps: u64,
    pub states: u64,
    pub completed: i32,
    pub bound: i32,
    pub capped: bool,
    pub max_points: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub sample: Vec<String>,
    pub viol: Option<(String, Vec<u32>)>,
    pub known: Vec<String>,
    pub by_cost: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub harness: String,
    pub what: String,
}

pub struct Ctx {
    pub property: &'static str,
    pub thorough: bool,
    pub k: usize,
    pub n: usize,
    pub reps: Vec<Rep>,
    pub known: Vec<Known>,
    pub replay: Option<(String, Vec<u32>)>,
    pub replayed: Option<Result<(), String>>,
    pub only: Option<String>,
    pub states_out: Vec<HashSet<u64>>,
    pub time_scale: f64,
    pub began: f64,
}

// the watchdog sees where the worker is
static BEAT: AtomicU64 = AtomicU64::new(0);
static WHERE: Mutex<(String, Vec<u32>)> = Mutex::new((String::new(), Vec::new()));
static STOP_WATCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn watchdog(on_hang: impl Fn(String, Vec<u32>) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0u32);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if STOP_WATCH.load(Ordering::Relaxed) {
                return;
            }
            let b = BEAT.load(Ordering::Relaxed);
            if b == last.0 {
                last.1 += 1;
            } else {
                last = (b, 0);
            }
            if last.1 > 80 {
                let w = WHERE.lock().unwrap().clone();
                on_hang(w.0, w.1);
                mcrt::sys::exit_now(3);
            }
        }
    });
}
pub fn stop_watchdog() {
    STOP_WATCH.store(true, Ordering::Relaxed);
}
fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}
pub fn conc_beat(choices: &[u8]) {
    beat();
    let mut w = WHERE.lock().unwrap();
    w.1.clear();
    w.1.extend(choices.iter().map(|c| *c as u32));
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// run `f`, turning a panic into its message
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    mcrt::quiet_panics(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    mcrt::quiet_panics(false);
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            if p.is::<Skip>() {
                std::panic::resume_unwind(p)
            }
            Err(panic_text(&*p))
        }
    }
}

impl Ctx {
    pub fn pickt<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// What a harness may take. No harness comes near it on the machine this was
    /// made on; where one does, the report says that its space was not exhausted.
    fn wall(&self) -> f64 {
        if self.thorough {
            return 3000.0 * self.time_scale;
        }
        let left = 500.0 - (mcrt::sys::real_now() - self.began);
        left.clamp(5.0, 150.0) * self.time_scale
    }
    fn skip(&self, name: &str) -> bool {
        if let Some((h, _)) = &self.replay {
            return h != name;
        }
        if let Some(o) = &self.only {
            return !name.contains(o.as_str());
        }
        false
    }
    fn is_known(&self, harness: &str, what: &str) -> Option<String> {
        self.known
            .iter()
            .find(|k| k.property == self.property && k.harness == harness && what.starts_with(&k.what))
            .map(|k| format!("{} {}", k.harness, k.what))
    }
    /// Enumerate every path of choices of `f`.
    pub fn seq(&mut self, name: &str, mut f: impl FnMut(&mut Case) -> R) {
        if self.skip(name) {
            return;
        }
        let mut rep = Rep {
            name: name.into(),
            completed: 0,
            ..Default::default()
        };
        let mut run = |c: &mut Case| -> Option<R> {
            mcrt::seq_set(mcrt::T0);
            crate::props::util::case_begins();
            c.pos = 0;
            c.prod = 1;
            c.stated = false;
            mcrt::quiet_panics(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c)));
            mcrt::quiet_panics(false);
            if !c.stated && !matches!(&r, Err(p) if p.is::<Skip>()) {
                let input = c.path[..c.pos].to_vec();
                c.state(&input);
            }
            match r {
                Ok(r) => Some(r),
                Err(p) if p.is::<Skip>() => None,
                Err(p) => Some(Err(format!("panic: {}", panic_text(&*p)))),
            }
        };
        if let Some((_, ch)) = &self.replay {
            let mut c = Case::new(None);
            c.path = ch.chunks(2).map(|x| (x[0], x[1])).collect();
            c.trace = Some(vec![]);
            let r = run(&mut c).unwrap();
            for l in c.trace.unwrap() {
                println!("  {}", l);
            }
            self.replayed = Some(r);
            return;
        }
        let wall = self.wall();
        let deadline = mcrt::sys::real_now() + wall;
        let mut c = Case::new(Some(ShardSt {
            k: self.k as u64,
            n: self.n as u64,
            counter: 0,
            last: vec![(9999, 0)],
        }));
        *WHERE.lock().unwrap() = (name.to_string(), vec![]);
        let mut leaf = 0u64;
        let mut longest: (u64, Vec<(u32, u32)>) = (0, vec![]);
        loop {
            let before = c.steps;
            let r = run(&mut c);
            let pos = c.pos;
            leaf += 1;
            if leaf % 64 == 0 {
                beat();
                let mut w = WHERE.lock().unwrap();
                w.1.clear();
                w.1.extend(c.path.iter().flat_map(|x| [x.0, x.1]));
            }
            if let Some(r) = r {
                let mut own = true;
                if c.prod < SHARD_LIMIT {
                    let s = c.shard.as_mut().unwrap();
                    s.counter += 1;
                    own = s.counter % s.n == s.k;
                }
                if own {
                    rep.execs += 1;
                    rep.steps += c.steps - before;
                    if c.steps - before > longest.0 {
                        longest = (c.steps - before, c.path[..pos].to_vec());
                    }
                }
                if let Err(e) = r {
                    if let Some(k) = self.is_known(name, &e) {
                        if !rep.known.contains(&k) {
                            rep.known.push(k);
                        }
                    } else {
                        // must replay
                        let path = c.path[..pos].to_vec();
                        let mut c2 = Case::new(None);
                        c2.path = path.clone();
                        match run(&mut c2) {
                            Some(Err(e2)) if e2 == e => {}
                            x => {
                                eprintln!("ENGINE ERROR: {} {:?} replays as {:?}", name, e, x);
                                mcrt::sys::exit_now(2);
                            }
                        }
                        rep.viol = Some((e, path.iter().flat_map(|x| [x.0, x.1]).collect()));
                        break;
                    }
                }
            }
            c.path.truncate(pos);
            while let Some((v, a)) = c.path.last().copied() {
                if v + 1 < a {
                    c.path.last_mut().unwrap().0 += 1;
                    break;
                }
                c.path.pop();
            }
            if c.path.is_empty() {
                rep.completed = 1;
                break;
            }
            if leaf % 256 == 0 && mcrt::sys::real_now() > deadline {
                rep.capped = true;
                break;
            }
        }
        if rep.viol.is_none() && self.k == 0 && longest.0 > 0 {
            let mut c2 = Case::new(None);
            c2.path = longest.1;
            c2.trace = Some(vec![]);
            let _ = run(&mut c2);
            rep.sample = c2.trace.unwrap();
        }
        mcrt::seq_off();
        rep.states = c.states.len() as u64;
        self.states_out.push(std::mem::take(&mut c.states));
        self.reps.push(rep);
    }
    /// Explore the schedules of a concurrent scenario.
    pub fn conc(&mut self, bounds: (u8, u8), h: Harness) {
        if self.skip(&h.name) {
            return;
        }
        if let Some((_, ch)) = &self.replay {
            let (o, r) = run_one(&h, ch.iter().map(|x| *x as u8).collect(), true);
            for e in &o.trace {
                println!("  t{} kind {} at +{} us", e.tid, e.kind, (e.now - mcrt::T0) / 1000);
            }
            for (t, at, s) in &o.log {
                println!("  log t{} +{} us: {}", t, (at - mcrt::T0) / 1000, s);
            }
            for p in &o.panics {
                println!("  panic {}", p);
            }
            self.replayed = Some(r.map(|s| println!("  outcome {}", s)));
            return;
        }
        *WHERE.lock().unwrap() = (h.name.clone(), vec![]);
        let bound = self.pickt(bounds.0, bounds.1);
        let wall = self.wall();
        let known = self.known.clone();
        let prop = self.property;
        let hn = h.name.clone();
        let is_known = move |w: &str| known.iter().any(|k| k.property == prop && k.harness == hn && w.starts_with(&k.what));
        let r: Report = explore(&h, bound, wall, self.k, self.n, &conc_beat, &is_known);
        self.states_out.push(HashSet::new());
        let mut rep = Rep {
            name: h.name.clone(),
            conc: true,
            execs: r.execs,
            steps: r.steps,
            states: r.nodes,
            completed: r.completed,
            bound: bound as i32,
            capped: r.capped,
            max_points: r.max_points as u64,
            viol: r.violation.map(|v| (v.what, v.choices.iter().map(|x| *x as u32).collect())),
            by_cost: r.execs_by_cost,
            known: r.known.iter().map(|w| self.is_known(&h.name, w).unwrap_or_default()).collect(),
            ..Default::default()
        };
        // keep the report small
        for (o, n) in r.outcomes {
            if rep.outcomes.len() < 200 || rep.outcomes.contains_key(&o) {
                *rep.outcomes.entry(o).or_insert(0) += n;
            } else {
                *rep.outcomes.entry("(more)".into()).or_insert(0) += n;
            }
        }
        self.reps.push(rep);
    }
}

pub fn rep_json(r: &Rep) -> JsonValue {
    let mut o = JsonValue::new_object();
    for (k, v) in &r.outcomes {
        o[k.as_str()] = (*v).into();
    }
    let mut j = object! {
        name: r.name.clone(), conc: r.conc, execs: r.execs, steps: r.steps, states: r.states,
        completed: r.completed, bound: r.bound, capped: r.capped, max_points: r.max_points,
        outcomes: o, sample: r.sample.clone(), known: r.known.clone(), by_cost: r.by_cost.clone(),
    };
    if let Some((w, c)) = &r.viol {
        j["viol"] = object! { what: w.clone(), choices: c.clone() };
    }
    j
}
pub fn rep_from(j: &JsonValue) -> Rep {
    let mut r = Rep {
        name: j["name"].to_string(),
        conc: j["conc"].as_bool().unwrap(),
        execs: j["execs"].as_u64().unwrap(),
        steps: j["steps"].as_u64().unwrap(),
        states: j["states"].as_u64().unwrap(),
        completed: j["completed"].as_i32().unwrap(),
        bound: j["bound"].as_i32().unwrap(),
        capped: j["capped"].as_bool().unwrap(),
        max_points: j["max_points"].as_u64().unwrap(),
        ..Default::default()
    };
    for (k, v) in j["outcomes"].entries() {
        r.outcomes.insert(k.to_string(), v.as_u64().unwrap());
    }
    r.sample = j["sample"].members().map(|x| x.to_string()).collect();
    r.known = j["known"].members().map(|x| x.to_string()).collect();
    r.by_cost = j["by_cost"].members().map(|x| x.as_u64().unwrap()).collect();
    if j["viol"].is_object() {
        r.viol = Some((
            j["viol"]["what"].to_string(),
            j["viol"]["choices"].members().map(|x| x.as_u32().unwrap()).collect(),
        ));
    }
    r
}
pub fn merge(a: &mut Rep, b: Rep) {
    a.execs += b.execs;
    a.steps += b.steps;
    a.states += b.states;
    a.completed = a.completed.min(b.completed);
    a.capped |= b.capped;
    a.max_points = a.max_points.max(b.max_points);
    for (k, v) in b.outcomes {
        *a.outcomes.entry(k).or_insert(0) += v;
    }
    if a.sample.is_empty() {
        a.sample = b.sample;
    }
    for k in b.known {
        if !a.known.contains(&k) {
            a.known.push(k);
        }
    }
    for (i, v) in b.by_cost.iter().enumerate() {
        if i < a.by_cost.len() {
            a.by_cost[i] += v;
        } else {
            a.by_cost.push(*v);
        }
    }
    // the shortest counterexample
    match (&a.viol, b.viol) {
        (None, v) => a.viol = v,
        (Some(x), Some(y)) if y.1.len() < x.1.len() => a.viol = Some(y),
        _ => {}
    }
}
pub fn _unused() -> JsonValue {
    array![]
}
