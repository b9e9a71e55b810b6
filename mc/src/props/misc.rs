//! Snapshots, JSON, conversions, extremes.
use super::instr::{int_of, rounded, shown_in};
use super::util::*;
use crate::fw::{catching, Case, Ctx, R};
use crate::{ensure, same};
use inst::*;
use mcrt::fair_wait;
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::{Duration, Instant};

const UNITS: [TimeUnit; 4] = [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds];

// ---------------------------------------------------------------- C23
/// what is observed, as extreme as the types allow
fn extremes() -> Vec<Option<ObservedValue>> {
    let mut v: Vec<Option<ObservedValue>> = vec![None];
    for x in [i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX] {
        v.push(Some(x.into()));
        v.push(Some(ChangeBy(x).into()));
    }
    for x in [i64::MAX as u64 + 1, u64::MAX] {
        v.push(Some(x.into()));
    }
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -0.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551615.0] {
        v.push(Some(x.into()));
    }
    v.push(Some(true.into()));
    v.push(Some(IncrementBy(u32::MAX).into()));
    v.push(Some(DecrementBy(u32::MAX).into()));
    for u in UNITS {
        for t in [0, i64::MAX as u64 + 1, u64::MAX] {
            v.push(Some((t, u).into()));
        }
    }
    v
}
const COUNTS: [u64; 5] = [0, 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];
const DURATIONS: [Duration; 4] = [Duration::from_secs(0), Duration::from_nanos(1), Duration::from_secs(100_000_000_000), Duration::from_secs(u64::MAX)];

fn instants(k: usize) -> Instant {
    let now = Instant::now();
    match k {
        0 => now,
        1 => now.checked_sub(Duration::from_secs(1_000_000_000)).unwrap(),
        _ => now.checked_add(Duration::from_secs(1_000_000_000)).unwrap(),
    }
}
type Boxed = Box<dyn HandlesObservations<Label = inst::L>>;
const BUILDS: usize = 26;
/// every instrument in its configurations; the extremes of each configuration value
fn build(c: &mut Case, k: usize) -> (String, Boxed) {
    macro_rules! unit {
        ($i:expr) => {{
            let mut i = $i;
            if let Some(u) = *c.pick(&[None, Some(TimeUnit::Nanoseconds), Some(TimeUnit::Seconds)]) {
                i.set_display_time_unit(u);
            }
            i
        }};
    }
    match k {
        0 => ("counter".into(), Box::new(Counter::new("i").for_all_labels())),
        1 => ("meter".into(), Box::new(Meter::new("i").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true).for_all_labels())),
        2 => {
            let x = *c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, f64::MAX]);
            (format!("meter with cutoff {}", x), Box::new(Meter::new("i").lower_cutoff(x).for_all_labels()))
        }
        3 => ("value meter".into(), Box::new(unit!(ValueMeter::new("i").five_minute_rate_enabled(true)).for_all_labels())),
        4 => ("histogram".into(), Box::new(unit!(Histogram::new("i")).for_all_labels())),
        5 => {
            let d = *c.pick(&DURATIONS);
            let mut h = Histogram::new("i");
            h.set_inactivity_limit(d);
            h.set_reset_after_inactivity(c.flip());
            (format!("histogram with inactivity limit {:?}", d), Box::new(h.for_all_labels()))
        }
        6 => ("gauge".into(), Box::new(unit!(Gauge::new("i")).for_all_labels())),
        7 | 8 | 9 => {
            let n = *c.pick(&[0, 1, 60]);
            let g = unit!(Gauge::new("i").tracking(n));
            let g = if c.flip() { g.value(if c.flip() { i64::MIN } else { i64::MAX }) } else { g };
            let a = match k {
                7 => g.for_all_labels(),
                8 => g.deltas_only(AcceptAllLabels),
                _ => g.inc_dec_on(A, B),
            };
            (format!("gauge tracking {} s, kind {}", n, k), Box::new(a))
        }
        10 => ("flag".into(), Box::new(Flag::new("i").for_all_labels())),
        11 => {
            let d = *c.pick(&DURATIONS);
            (format!("staircase timer {:?}", d), Box::new(StaircaseTimer::new("i").switch_off_after(d).for_all_labels()))
        }
        12 => {
            let d = *c.pick(&DURATIONS);
            (format!("occurrence indicator {:?}", d), Box::new(OccurrenceIndicator::new("i").if_happened_within(d).for_all_labels()))
        }
        13 => {
            let d = *c.pick(&DURATIONS);
            (format!("non occurrence indicator {:?}", d), Box::new(NonOccurrenceIndicator::new("i").if_not_happened_within(d).for_all_labels()))
        }
        14 => {
            let d = *c.pick(&DURATIONS);
            let i = DataDisplay::new("i").reset_after(d);
            (format!("data display {:?}", d), Box::new(if c.flip() { i.reset_value(f64::NAN) } else { i }.for_all_labels()))
        }
        15 => ("last occurrence tracker".into(), Box::new(LastOccurrenceTracker::new("i").for_all_labels())),
        16 => {
            let d = *c.pick(&DURATIONS);
            (format!("panel with inactivity limit {:?}", d), Box::new(Panel::accept_all().counter(Counter::new("n")).gauge(Gauge::new("g").tracking(60)).meter(Meter::new("m")).histogram(Histogram::new("h")).inactivity_limit(d)))
        }
        17 => {
            let d = *c.pick(&DURATIONS);
            let mut k = Cockpit::without_name();
            k.set_inactivity_limit(d);
            k.add_panel(Panel::new(A).counter(Counter::new("n")));
            (format!("cockpit with inactivity limit {:?}", d), Box::new(k))
        }
        18 => ("display without a name".into(), Box::new(DataDisplay::new("").for_all_labels())),
        19 => ("deaf gauge".into(), Box::new(Gauge::new("i").adapter())),
        20 => ("by predicate".into(), Box::new(Counter::new("i").for_labels_by_predicate(|l: &inst::L| *l != A))),
        21 => ("grouped gauge".into(), Box::new(Gauge::new("i").group_values(true).tracking(3).for_all_labels())),
        22 => ("two in one panel".into(), Box::new(Panel::new(vec![A, B]).panel(Panel::named(A, "").counter(Counter::new(""))).panel(Panel::named(A, "").gauge(Gauge::new(""))))),
        23 => ("empty panel".into(), Box::new(Panel::accept_all())),
        24 => ("empty cockpit".into(), Box::new(Cockpit::without_name())),
        _ => ("modified".into(), Box::new(Gauge::new("i").for_all_labels())),
    }
}
fn all_outputs(s: &Snapshot) -> Result<(), String> {
    for b in [false, true] {
        for p in [None, Some(0), Some(2)] {
            let t = s.to_json(&JsonConfig { make_booleans_ints: b, pretty: p });
            parse_json(&t).map_err(|e| format!("{} in {}", e, t))?;
        }
    }
    parse_json(&s.to_default_json())?;
    let _ = format!("{:?} {}", s, s.find("i"));
    for f in [s.find("i"), s.find("i/count"), s.find("i/current")] {
        let _ = (f.to_duration_nanoseconds(), f.to_duration_microseconds(), f.to_duration_milliseconds(), f.to_duration_seconds());
    }
    Ok(())
}
pub fn c23(ctx: &mut Ctx) {
    let depth = ctx.pickt(2, 3);
    for k in 0..BUILDS {
        ctx.seq(&format!("instrument {}", k), move |c: &mut Case| -> R {
            let (name, mut i) = build(c, k);
            c.op(|| name);
            let ex = extremes();
            for n in 0..depth {
                let x = c.choose(ex.len() + COUNTS.len());
                let at = if n == 0 { instants(c.choose(3)) } else { instants(0) };
                let ob = if x >= ex.len() {
                    Observation::observed(A, COUNTS[x - ex.len()], at)
                } else {
                    match ex[x] {
                        None => Observation::observed_one(A, at),
                        Some(v) => Observation::observed_one_value(B, v, at),
                    }
                };
                c.op(|| format!("{:?}", ob));
                i.handle_observation(&ob);
                if n + 1 < depth && c.flip() {
                    parse_json(&put_of(&*i, true).to_default_json())?;
                }
                pass(11 * SEC);
            }
            all_outputs(&put_of(&*i, false))
        });
    }
    // sums of many extremes
    for k in [0, 1, 3, 4, 6, 7, 9, 21] {
        ctx.seq(&format!("instrument {}, many times the same", k), move |c: &mut Case| -> R {
            let (name, mut i) = build(c, k);
            c.op(|| name);
            let ex = extremes();
            let x = c.choose(ex.len() + COUNTS.len());
            let waits = *c.pick(&[0, SEC, 5 * SEC]);
            for _ in 0..5 {
                let ob = if x >= ex.len() {
                    Observation::observed_now(A, COUNTS[x - ex.len()])
                } else {
                    match ex[x] {
                        None => Observation::observed_one_now(A),
                        Some(v) => Observation::observed_one_value_now(A, v),
                    }
                };
                c.op(|| format!("{:?}", ob));
                i.handle_observation(&ob);
                pass(waits);
            }
            all_outputs(&put_of(&*i, false))
        });
    }
    ctx.seq("processing", |c: &mut Case| -> R {
        let limit = *c.pick(&DURATIONS);
        let k = c.choose(5);
        let d = c.choose(4);
        let deltas = c.flip();
        let max = *c.pick(&[0, 1, usize::MAX]);
        c.op(|| format!("strategy {}, maximum age {:?}, at most {}, limit {:?}", k, DURATIONS[d], max, limit));
        let strategy = match k {
            0 => ProcessingStrategy::ProcessAll,
            1 => ProcessingStrategy::DropAll,
            2 => ProcessingStrategy::default(),
            _ => ProcessingStrategy::DropOlderThan { max_age: DURATIONS[d], drop_deltas: deltas },
        };
        let (tx, mut p) = pair("p");
        p.set_inactivity_limit(limit);
        cockpit_on(&mut p, Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
        let mut mount = ProcessorMount::new("m");
        mount.set_inactivity_limit(limit);
        let mut sent = 0;
        for a in 0..3 {
            tx.observed_one(A, instants(a));
            tx.observed_one_value(B, Increment, instants(a));
            tx.measure_time(C, instants(a));
            sent += if a == 2 { 2 } else { 3 };
        }
        add_to_mount(&mut mount, p);
        let o = mount.process(max, strategy);
        same!(o.processed + o.dropped, sent.min(max), "messages handled");
        pass(60 * SEC);
        all_outputs(&put_of(&mount, true))?;
        mount.process(max, strategy);
        Ok(())
    });
    for strategy in 0..3 {
        ctx.conc((2, 3), harness(&format!("a driver that is slow at any step, strategy {}", strategy), move || {
            let s = [ProcessingStrategy::ProcessAll, ProcessingStrategy::DropAll, ProcessingStrategy::default()][strategy];
            let mut d = built(DriverBuilder::default().set_driver_metrics(true).set_processing_strategy(s));
            let (tx, mut p) = pair("p");
            cockpit_on(&mut p, Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n")).gauge(Gauge::new("g").tracking(3)).meter(Meter::new("m"))));
            let mut m = ProcessorMount::new("m");
            m.set_inactivity_limit(Duration::from_secs(5));
            add_to_mount(&mut m, p);
            d.add_processor(m);
            mcrt::lag(&[3 * MS, 10 * MS, 70 * SEC]);
            value(&tx, A, 1);
            one(&tx, A);
            let f = d.snapshot_async(true);
            value(&tx, B, 2);
            fair_wait(25 * MS);
            all_outputs(&futures::executor::block_on(f).map_err(err("snapshot"))?)?;
            mcrt::lag(&[]);
            d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
            fair_wait(25 * MS);
            value(&tx, A, 3);
            fair_wait(25 * MS);
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            all_outputs(&s)?;
            let n = num(&s, "m/p/n");
            let least = [4, 1, 1][strategy];
            ensure!((least..=4).contains(&n), "{} observations seen of 4", n);
            Ok(format!("{}", n))
        }));
    }
    durations(ctx, false);
}

fn durations(ctx: &mut Ctx, told: bool) {
    ctx.seq("durations of every size", move |c: &mut Case| -> R {
        let secs = *c.pick(&[0, 1, 18_446_744_072, 18_446_744_073, 18_446_744_074, 18_446_744_073_709, 18_446_744_073_710, 18_446_744_073_709_551, 18_446_744_073_709_552, u64::MAX]);
        let nanos = *c.pick(&[0, 1, 709_551_615, 709_551_616, 999_999_999]);
        let d = Duration::new(secs, nanos);
        let u = c.choose(6);
        c.op(|| format!("{:?} in way {}", d, u));
        let (tx, mut p) = pair("p");
        handler_on(&mut p, Handler::new(|_| 1));
        let v: ObservedValue = match u {
            4 => d.into(),
            5 => {
                tx.observed_duration(A, d, Instant::now()).observed_one_duration_now(A, d);
                process(&mut p, 10, ProcessingStrategy::ProcessAll);
                return Ok(());
            }
            u => (d, UNITS[u]).into(),
        };
        // exact as long as it can be told, and as near as can be otherwise
        let unit = if u == 4 { 0 } else { u };
        let ns = d.as_nanos() / [1, 1_000, 1_000_000, 1_000_000_000][unit];
        let ns = ns.min(u64::MAX as u128);
        if told {
            ensure!(matches!(v, ObservedValue::Duration(t, w) if t as u128 == ns && format!("{:?}", w) == format!("{:?}", UNITS[unit])), "{:?} became {:?}", d, v);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C24
/// a JSON value; members in order
#[derive(Debug, PartialEq, Clone)]
pub enum Js {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<Js>),
    Obj(Vec<(String, Js)>),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
/// RFC 8259
pub fn parse_json(t: &str) -> Result<Js, String> {
    let mut p = P { s: t.as_bytes(), i: 0 };
    let v = p.value(0)?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("not JSON: rest at {}", p.i));
    }
    Ok(v)
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn bad<T>(&self, what: &str) -> Result<T, String> {
        Err(format!("not JSON: {} at {}", what, self.i))
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn value(&mut self, d: usize) -> Result<Js, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(Js::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.bad("no colon");
                    }
                    self.i += 1;
                    v.push((k, self.value(d + 1)?));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(Js::Obj(v));
                        }
                        _ => return self.bad("no end of the object"),
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(Js::Arr(v));
                }
                loop {
                    v.push(self.value(d + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(Js::Arr(v));
                        }
                        _ => return self.bad("no end of the array"),
                    }
                }
            }
            b'"' => Ok(Js::Str(self.string()?)),
            _ => {
                for (w, v) in [("null", Js::Null), ("true", Js::Bool(true)), ("false", Js::Bool(false))] {
                    if self.s[self.i..].starts_with(w.as_bytes()) {
                        self.i += w.len();
                        return Ok(v);
                    }
                }
                let at = self.i;
                if self.peek() == b'-' {
                    self.i += 1;
                }
                match self.peek() {
                    b'0' => self.i += 1,
                    b'1'..=b'9' => self.digits(),
                    _ => return self.bad("no value"),
                }
                if self.peek() == b'.' {
                    self.i += 1;
                    if !self.peek().is_ascii_digit() {
                        return self.bad("no digit");
                    }
                    self.digits();
                }
                if self.peek() == b'e' || self.peek() == b'E' {
                    self.i += 1;
                    if self.peek() == b'+' || self.peek() == b'-' {
                        self.i += 1;
                    }
                    if !self.peek().is_ascii_digit() {
                        return self.bad("no digit");
                    }
                    self.digits();
                }
                Ok(Js::Num(String::from_utf8(self.s[at..self.i].to_vec()).unwrap()))
            }
        }
    }
    fn digits(&mut self) {
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let t = self.s.get(self.i..self.i + 4).and_then(|x| std::str::from_utf8(x).ok()).ok_or("not JSON: short escape")?;
        self.i += 4;
        u32::from_str_radix(t, 16).map_err(|_| "not JSON: escape".into())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return self.bad("no string");
        }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let b = match self.s.get(self.i) {
                None => return self.bad("no end of the string"),
                Some(b) => *b,
            };
            self.i += 1;
            match b {
                b'"' => return String::from_utf8(out).map_err(|_| "not JSON: not UTF-8".into()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut x = self.hex()?;
                            if (0xd800..0xdc00).contains(&x) {
                                if self.peek() != b'\\' || self.s.get(self.i + 1) != Some(&b'u') {
                                    return self.bad("lonely surrogate");
                                }
                                self.i += 2;
                                let y = self.hex()?;
                                x = 0x10000 + ((x - 0xd800) << 10) + (y.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            char::from_u32(x).ok_or("not JSON: not a character")?
                        }
                        _ => return self.bad("unknown escape"),
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                0..=31 => return self.bad("control character in a string"),
                _ => out.push(b),
            }
        }
    }
}
/// does `j` say what `v` says?
fn says(j: &Js, v: &ItemKind, ints: bool, at: &str) -> R {
    let bad = || Err(format!("{}: {:?} is exported as {:?}", at, v, j));
    match (v, j) {
        (ItemKind::Text(t), Js::Str(s)) if s == t => Ok(()),
        (ItemKind::Boolean(b), Js::Bool(x)) if !ints && x == b => Ok(()),
        (ItemKind::Boolean(b), Js::Num(x)) if ints && *x == (*b as u8).to_string() => Ok(()),
        (ItemKind::UInt(u), Js::Num(x)) if *x == u.to_string() => Ok(()),
        (ItemKind::Int(u), Js::Num(x)) if *x == u.to_string() => Ok(()),
        (ItemKind::Float(f), Js::Num(x)) if f.is_finite() && x.parse::<f64>().ok() == Some(*f) => Ok(()),
        (ItemKind::Float(f), Js::Null) if !f.is_finite() => Ok(()),
        (ItemKind::Snapshot(s), Js::Obj(o)) => says_all(o, s, ints, at),
        _ => bad(),
    }
}
fn says_all(o: &[(String, Js)], s: &Snapshot, ints: bool, at: &str) -> R {
    same!(o.len(), s.items.len(), "{}: members", at);
    for (k, v) in &s.items {
        let m: Vec<&Js> = o.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect();
        ensure!(m.len() == 1, "{}: {} members named {:?}", at, m.len(), k);
        says(m[0], v, ints, &format!("{}/{}", at, k))?;
    }
    Ok(())
}
fn keys() -> Vec<String> {
    vec!["a".into(), "".into(), "a b".into(), "\"".into(), "\\".into(), "\u{0}\u{1}\u{1f}\u{7f}".into(), "\n\r\t\u{8}\u{c}/".into(), "ü€😀\u{2028}\u{ffff}".into(), "a/b".into()]
}
fn values() -> Vec<ItemKind> {
    let mut v = vec![];
    for x in [0u64, 1, 9, 10, 99, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX] {
        v.push(x.into());
    }
    for x in [0i64, 1, -1, 42, -(1 << 53) - 1, i64::MAX, i64::MIN + 1, i64::MIN] {
        v.push(x.into());
    }
    for x in [0.0f64, 1.0, -1.0, 0.1, -2.5, 1e-7, 123456.789, 1e15, 1e21, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 1.0 / 3.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push(x.into());
    }
    v.push(true.into());
    v.push(false.into());
    for k in keys() {
        v.push(k.into());
    }
    v.push("long ".repeat(2000).into());
    v.push(Snapshot::default().into());
    v
}
pub fn c24(ctx: &mut Ctx) {
    // shapes: lists of items, an item being a value or a snapshot with one
    let max = ctx.pickt(2, 3);
    let config = |c: &mut Case| JsonConfig { make_booleans_ints: c.flip(), pretty: [None, Some(0), Some(1), Some(4)][c.choose(4)] };
    let check = |s: &Snapshot, cfg: &JsonConfig| -> R {
        let t = s.to_json(cfg);
        match parse_json(&t)? {
            Js::Obj(o) => says_all(&o, s, cfg.make_booleans_ints, "")?,
            x => return Err(format!("not an object: {:?}", x)),
        }
        if cfg.pretty.is_none() && !cfg.make_booleans_ints {
            same!(s.to_default_json(), t, "the default export");
        }
        Ok(())
    };
    ctx.seq("values in every position", move |c: &mut Case| -> R {
        let cfg = config(c);
        let vs = values();
        let n = c.choose(max + 1);
        let mut s = Snapshot::default();
        for i in 0..n {
            let v = c.pick(&vs).clone();
            let deep = c.choose(3);
            let mut v = v;
            for _ in 0..deep {
                v = ItemKind::Snapshot(Snapshot { items: vec![("x".into(), v)] });
            }
            s.push(["a", "b", "c"][i], v);
        }
        c.op(|| format!("{:?}", s).chars().take(300).collect());
        check(&s, &cfg)
    });
    ctx.seq("names", move |c: &mut Case| -> R {
        let cfg = config(c);
        let ks = keys();
        let mut s = Snapshot::default();
        let (a, b) = (c.choose(ks.len()), c.choose(ks.len()));
        s.push(ks[a].clone(), 1);
        let mut i = Snapshot::default();
        i.push(ks[b].clone(), 2);
        if c.flip() {
            i.push(format!("{}x", ks[a]), true);
        }
        if a != b {
            s.push(ks[b].clone(), i);
        } else {
            s.push("other", i);
        }
        c.op(|| format!("{:?}", s));
        check(&s, &cfg)
    });
    ctx.seq("every small double", move |c: &mut Case| -> R {
        // all signs, exponents and a set of mantissas
        let e = c.choose(2048) as u64;
        let m = *c.pick(&[0u64, 1, 2, 3, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555, 0x1_9999_9999_999a, 0xb_3a2c_91d4_e5f7]);
        let x = f64::from_bits((c.flip() as u64) << 63 | e << 52 | m);
        c.op(|| format!("{:e}", x));
        // numbers a snapshot can tell apart from 0 within the export's number format
        let mut s = Snapshot::default();
        s.push("x", x);
        let t = s.to_default_json();
        match parse_json(&t)? {
            Js::Obj(o) => match &o[0].1 {
                Js::Null => ensure!(!x.is_finite(), "{} is exported as null", x),
                Js::Num(n) => {
                    let y: f64 = n.parse().map_err(|_| "number")?;
                    ensure!(x.is_finite() && (y == x || (y - x).abs() <= x.abs() * 1e-15), "{:e} is exported as {}", x, n);
                }
                y => return Err(format!("{} is exported as {:?}", x, y)),
            },
            x => return Err(format!("not an object: {:?}", x)),
        }
        Ok(())
    });
    ctx.seq("what instruments export", move |c: &mut Case| -> R {
        let cfg = config(c);
        let descriptive = c.flip();
        let n = c.choose(4);
        c.op(|| format!("{} observations, descriptive {}", n, descriptive));
        let (tx, mut p) = pair("p");
        let mut k = Cockpit::new("c");
        k.set_title("T");
        k.set_inactivity_limit(Duration::from_secs(10));
        k.add_panel(
            Panel::named(AcceptAllLabels, "x")
                .counter(Counter::new("n").title("a \"title\""))
                .gauge(Gauge::new("g").tracking(3))
                .meter(Meter::new("m"))
                .histogram(Histogram::new("h"))
                .handler(Flag::new("f").for_all_labels())
                .handler(DataDisplay::new("d").for_all_labels())
                .handler(LastOccurrenceTracker::new("l").for_all_labels())
                .snapshooter(ConstantValue::new("const", "v")),
        );
        cockpit_on(&mut p, k);
        for i in 0..n {
            tx.observed_one_value_now(A, i as i64 - 1);
        }
        process(&mut p, 100, ProcessingStrategy::ProcessAll);
        let s = put(&p, descriptive);
        ensure!(has(&s, "p/c/x/n"), "no counter");
        check(&s, &cfg)
    });
    super::sizes::c24(ctx, check);
}

// ---------------------------------------------------------------- C25
fn opt<'a>(f: &FindItem<'a>) -> Option<&'a ItemKind> {
    assert_eq!(f.opt().is_some(), matches!(f, FindItem::Found(_)));
    match f {
        FindItem::Found(x) => Some(*x),
        FindItem::NotFound => None,
    }
}
/// the item at `segs`, counting from `item`
pub fn walk<'a>(item: &'a ItemKind, segs: &[&str]) -> Option<&'a ItemKind> {
    let mut it = item;
    for s in segs.iter().filter(|s| !s.is_empty()) {
        match it {
            ItemKind::Snapshot(x) => {
                let mut found = None;
                for (k, v) in &x.items {
                    if k == s {
                        found = Some(v);
                        break;
                    }
                }
                it = found?;
            }
            _ => return Some(it),
        }
    }
    Some(it)
}
fn shapes(c: &mut Case, depth: usize, next: &mut u64) -> ItemKind {
    // names a, b, a (again), each with a value or a snapshot or nothing
    let mut s = Snapshot::default();
    for k in ["a", "b", "a"] {
        match c.choose(if depth == 0 { 2 } else { 3 }) {
            0 => {}
            1 => {
                *next += 1;
                s.push(k, *next)
            }
            _ => {
                let i = shapes(c, depth - 1, next);
                s.push(k, i)
            }
        }
    }
    ItemKind::Snapshot(s)
}
pub fn c25(ctx: &mut Ctx) {
    let len = ctx.pickt(5, 6);
    let sep = '/';
    let paths = move || {
        let mut all: Vec<String> = vec!["".into()];
        let mut at = 0;
        for _ in 0..len {
            let end = all.len();
            for i in at..end {
                for ch in ['a', 'b', sep] {
                    let mut s = all[i].clone();
                    s.push(ch);
                    all.push(s);
                }
            }
            at = end;
        }
        all
    };
    let all = paths();
    ctx.seq("every path in every shape", move |c: &mut Case| -> R {
        let mut n = 0;
        let item = shapes(c, 1, &mut n);
        let s = match &item {
            ItemKind::Snapshot(s) => s.clone(),
            _ => unreachable!(),
        };
        c.op(|| format!("{:?}", flat(&s)));
        for p in &all {
            c.step();
            let segs: Vec<&str> = p.split('/').collect();
            let none = segs.iter().all(|s| s.is_empty());
            let want = if none { None } else { walk(&item, &segs) };
            same!(opt(&s.find(p)), want, "find({:?})", p);
            let q = p.replace('/', "€");
            same!(opt(&s.find_with_separator(&q, '€')), want, "find_with_separator({:?})", q);
            if segs.len() > 1 {
                let whole = s.items.iter().any(|x| x.0 == *p);
                ensure!(!whole, "no item has a separator in its name");
                same!(opt(&s.find_with_separator(p, '|')), None, "with a separator that does not occur, {:?}", p);
            }
            same!(opt(&find_item(&item, &segs)), walk(&item, &segs), "find_item({:?})", segs);
            let owned: Vec<String> = segs.iter().map(|s| s.to_string()).collect();
            same!(opt(&find_item(&item, &owned)), walk(&item, &segs), "find_item({:?})", segs);
            // from what was found, further
            for q in ["", "a", "b/a", "/b"] {
                let f = s.find(p);
                let segs: Vec<&str> = q.split('/').collect();
                let w2 = match want {
                    Some(i @ ItemKind::Snapshot(_)) if !q.is_empty() => walk(i, &segs),
                    _ => None,
                };
                same!(opt(&f.find(q)), w2, "find({:?}) and then find({:?})", p, q);
                same!(opt(&f.find_with_separator(&q.replace('/', "."), '.')), w2, "find({:?}) and then find_with_separator({:?})", p, q);
            }
        }
        same!(opt(&find_item::<&str>(&item, &[])), Some(&item), "the empty path");
        Ok(())
    });
    ctx.seq("names of every kind, every separator", |c: &mut Case| -> R {
        const NAMES: [&str; 8] = ["a", "ab", "A", "a/b", "a.b", "/", ".a", "\u{20ac}"];
        let mut inner = Snapshot::default();
        let mut s = Snapshot::default();
        let (x, y) = (*c.pick(&NAMES), *c.pick(&NAMES));
        inner.push(x, 1u64);
        inner.push(y, ItemKind::Snapshot(Snapshot { items: vec![("a".into(), ItemKind::Int(-2))] }));
        let (z, w) = (*c.pick(&NAMES), *c.pick(&NAMES));
        s.push(z, ItemKind::Snapshot(inner));
        s.push(w, "x");
        c.op(|| format!("{:?}", s));
        let item = ItemKind::Snapshot(s.clone());
        let group = s.find_with_separator(z, '|');
        same!(opt(&group), walk(&item, &[z]), "find {:?}", z);
        for sep in ['/', '.', '\u{20ac}', 'a'] {
            let mut paths: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
            for a in NAMES.iter() {
                for b in NAMES.iter() {
                    paths.push(format!("{}{}{}", a, sep, b));
                    paths.push(format!("{}{}{}{}a", a, sep, b, sep));
                }
            }
            for p in &paths {
                c.step();
                let segs: Vec<&str> = p.split(sep).collect();
                let none = segs.iter().all(|s| s.is_empty());
                let want = if none { None } else { walk(&item, &segs) };
                same!(opt(&s.find_with_separator(p, sep)), want, "find {:?} with separator {:?}", p, sep);
                if sep == '/' {
                    same!(opt(&s.find(p)), want, "find {:?}", p);
                }
                let want = match opt(&group) {
                    Some(i @ ItemKind::Snapshot(_)) if !none => walk(i, &segs),
                    _ => None,
                };
                same!(opt(&group.find_with_separator(p, sep)), want, "find {:?}, then {:?} with separator {:?}", z, p, sep);
                if sep == '/' {
                    same!(opt(&group.find(p)), want, "find {:?}, then {:?}", z, p);
                }
            }
        }
        Ok(())
    });
    ctx.seq("separators which resemble others", |c: &mut Case| -> R {
        // in the low byte, the last byte of UTF-8, case, width, composition
        const CHARS: [char; 14] = [
            '/', '\u{12f}', '\u{22f}', '\u{1f32f}', '\u{ff0f}', '\u{2215}', '\\', 'a', 'A', '\u{161}', '\u{e1}', '\u{301}', '\u{ac}', '\u{20ac}',
        ];
        let (sep, x, y) = (*c.pick(&CHARS), *c.pick(&CHARS), *c.pick(&CHARS));
        let (group, inner) = (format!("g{}h", x), format!("{}", y));
        let mut nested = Snapshot::default();
        nested.push(inner.clone(), 1u64);
        let mut s = Snapshot::default();
        s.push(group.clone(), ItemKind::Snapshot(nested));
        s.push("g", 2u64);
        let item = ItemKind::Snapshot(s.clone());
        c.op(|| format!("{:?}, separator {:?}", s, sep));
        for z in CHARS {
            for p in [
                format!("g{}h", z),
                format!("{}{}{}", group, z, inner),
                format!("{}{}{}", group, sep, z),
                format!("g{}h{}{}", z, sep, inner),
                format!("g{}{}{}{}", sep, z, sep, inner),
                format!("{}{}{}", z, group, sep),
            ] {
                c.step();
                let segs: Vec<&str> = p.split(sep).collect();
                let want = if segs.iter().all(|s| s.is_empty()) { None } else { walk(&item, &segs) };
                same!(opt(&s.find_with_separator(&p, sep)), want, "find {:?} with separator {:?}", p, sep);
                if sep == '/' {
                    same!(opt(&s.find(&p)), want, "find {:?}", p);
                }
            }
        }
        Ok(())
    });
    ctx.seq("names which are nearly the same", |c: &mut Case| -> R {
        const NAMES: [&str; 18] = [
            "a", " a", "a ", "A", "a\0", "\u{e1}", "a\u{301}", "aa", " ", "\t", "*", "..", ".", "%61", "a\\", "\"a\"", "0", "-1",
        ];
        let (x, y) = (*c.pick(&NAMES), *c.pick(&NAMES));
        let value = c.flip();
        let mut inner = Snapshot::default();
        inner.push(y, 1u64);
        let mut s = Snapshot::default();
        s.push(x, if value { ItemKind::Int(5) } else { ItemKind::Snapshot(inner) });
        let item = ItemKind::Snapshot(s.clone());
        c.op(|| format!("{:?}", s));
        for p in NAMES {
            same!(opt(&s.find(p)), walk(&item, &[p]), "find {:?}", p);
            for q in NAMES {
                c.step();
                let want = walk(&item, &[p, q]);
                let joined = format!("{}/{}", p, q);
                same!(opt(&s.find(&joined)), want, "find {:?}", joined);
                let joined = format!("/{}//{}/", p, q);
                same!(opt(&s.find(&joined)), want, "find {:?}", joined);
                same!(opt(&find_item(&item, &[p, q])), want, "find_item {:?}", [p, q]);
                let f = s.find(p);
                let w2 = match walk(&item, &[p]) {
                    Some(i @ ItemKind::Snapshot(_)) => walk(i, &[q]),
                    _ => None,
                };
                same!(opt(&f.find(q)), w2, "find {:?}, then {:?}", p, q);
            }
        }
        Ok(())
    });
    ctx.seq("durations found", |c: &mut Case| -> R {
        let vals: Vec<ItemKind> = vec![
            0u64.into(), 1u64.into(), u64::MAX.into(), 1_500u64.into(),
            0i64.into(), 7i64.into(), i64::MAX.into(), (-1i64).into(), i64::MIN.into(),
            1.5.into(), true.into(), "5".into(), Snapshot::default().into(),
        ];
        let k = c.choose(vals.len() + 1);
        let u = c.choose(4);
        let mut s = Snapshot::default();
        if k < vals.len() {
            s.push("x", vals[k].clone());
        }
        c.op(|| format!("{:?} in unit {}", s, u));
        let f = s.find("x");
        let got = match u {
            0 => f.to_duration_nanoseconds(),
            1 => f.to_duration_microseconds(),
            2 => f.to_duration_milliseconds(),
            _ => f.to_duration_seconds(),
        };
        let of = |n: u64| -> FindDurationItem {
            let ns = n as u128 * [1, 1_000, 1_000_000, 1_000_000_000][u];
            FindDurationItem::Duration(Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32))
        };
        let x = s.items.first().map(|x| &x.1);
        let want = match x {
            None => FindDurationItem::NotFound,
            Some(ItemKind::UInt(n)) => of(*n),
            Some(ItemKind::Int(n)) if *n >= 0 => of(*n as u64),
            Some(_) => FindDurationItem::NotADuration,
        };
        same!(got, want, "duration");
        same!(got.opt(), if let FindDurationItem::Duration(d) = want { Some(d) } else { None }, "as an option");
        let text = match want {
            FindDurationItem::Duration(d) => format!("{:?}", d),
            FindDurationItem::NotFound => "<item not found>".into(),
            _ => "<item not a duration>".into(),
        };
        same!(got.to_string(), text, "printed");
        Ok(())
    });
    super::sizes::c25(ctx);
}

// ---------------------------------------------------------------- C26
fn ov(v: &ObservedValue) -> String {
    format!("{:?}", v)
}
/// a 64 bit pattern as every type it fits
fn integer(x: u64) -> R {
    let i = x as i64;
    same!(ov(&x.into()), format!("UnsignedInteger({})", x), "u64");
    same!(ov(&(x as usize).into()), format!("UnsignedInteger({})", x), "usize");
    same!(ov(&i.into()), format!("SignedInteger({})", i), "i64");
    same!(ov(&ChangeBy(i).into()), format!("ChangedBy({})", i), "change");
    same!(shown(&x.into()), format!("u{}", x), "u64 as an item");
    same!(shown(&(x as usize).into()), format!("u{}", x), "usize as an item");
    same!(shown(&i.into()), format!("i{}", i), "i64 as an item");
    same!(shown(&(i as isize).into()), format!("i{}", i), "isize as an item");
    let (u, s): (ObservedValue, ObservedValue) = (x.into(), i.into());
    same!(u.convert_to_u64(), Some(x), "u64 from {:?}", u);
    same!(s.convert_to_i64(), Some(i), "i64 from {:?}", s);
    same!(u.convert_to_i64(), if i >= 0 { Some(i) } else { None }, "i64 from {:?}", u);
    same!(s.convert_to_u64(), if i >= 0 { Some(x) } else { None }, "u64 from {:?}", s);
    same!(u.convert_to_bool(), Some(x != 0), "bool from {:?}", u);
    same!(s.convert_to_bool(), Some(i != 0), "bool from {:?}", s);
    for v in [u, s] {
        same!(v.is_delta(), false, "{:?} is a delta", v);
        let a = v.to_item_kind();
        let b: Option<ItemKind> = v.into();
        same!(a, b, "items");
        same!(a.as_ref().map(shown), Some(match v { ObservedValue::UnsignedInteger(x) => format!("u{}", x), _ => format!("i{}", i) }), "item from {:?}", v);
    }
    if let Ok(x) = u32::try_from(x) {
        let i = x as i32;
        same!(ov(&x.into()), format!("UnsignedInteger({})", x), "u32");
        same!(ov(&i.into()), format!("SignedInteger({})", i), "i32");
        same!(shown(&x.into()), format!("u{}", x), "u32 as an item");
        same!(shown(&i.into()), format!("i{}", i), "i32 as an item");
        same!(ov(&IncrementBy(x).into()), format!("ChangedBy({})", x), "increment");
        same!(ov(&DecrementBy(x).into()), format!("ChangedBy({})", -(x as i64)), "decrement");
    }
    if let Ok(x) = u16::try_from(x) {
        same!(ov(&x.into()), format!("UnsignedInteger({})", x), "u16");
        same!(ov(&(x as i16).into()), format!("SignedInteger({})", x as i16), "i16");
    }
    Ok(())
}
fn double(x: f64) -> R {
    let v: ObservedValue = x.into();
    same!(ov(&v), format!("Float({:?})", x), "value");
    same!(v.convert_to_i64(), rounded(x), "i64 from {:e}", x);
    let unsigned = rounded(x).and_then(|r| std::convert::TryFrom::try_from(r).ok()).or(if x >= 9223372036854775808.0 && x < 18446744073709551616.0 { Some(x as u64) } else { None });
    same!(v.convert_to_u64(), unsigned, "u64 from {:e}", x);
    same!(v.convert_to_bool(), None, "bool from {:e}", x);
    same!(v.is_delta(), false, "is a delta");
    match v.to_item_kind() {
        Some(ItemKind::Float(y)) => same!(y.to_bits(), x.to_bits(), "item"),
        y => return Err(format!("{:e} became {:?}", x, y)),
    }
    let f: ItemKind = (x as f32).into();
    match f {
        ItemKind::Float(y) => same!(y.to_bits(), ((x as f32) as f64).to_bits(), "item from f32"),
        y => return Err(format!("{:e} became {:?}", x, y)),
    }
    Ok(())
}
pub fn c26(ctx: &mut Ctx) {
    durations(ctx, true);
    super::sizes::units(ctx, 0);
    ctx.seq("integers", |c: &mut Case| -> R {
        // all 16 bit patterns
        let hi = c.choose(256);
        let lo = c.choose(256);
        let x = (hi * 256 + lo) as u16;
        let i = x as i16;
        c.op(|| format!("{} {}", x, i));
        same!(ov(&x.into()), format!("UnsignedInteger({})", x), "u16");
        same!(ov(&i.into()), format!("SignedInteger({})", i), "i16");
        same!(shown(&x.into()), format!("u{}", x), "u16 as an item");
        same!(shown(&i.into()), format!("i{}", i), "i16 as an item");
        if hi == 0 {
            let (x, i) = (lo as u8, lo as u8 as i8);
            same!(ov(&x.into()), format!("UnsignedInteger({})", x), "u8");
            same!(ov(&i.into()), format!("SignedInteger({})", i), "i8");
            same!(shown(&x.into()), format!("u{}", x), "u8 as an item");
            same!(shown(&i.into()), format!("i{}", i), "i8 as an item");
        }
        // the same patterns at both ends of wider types
        for sh in [0, 8, 16] {
            let x = (x as u32) << sh;
            let i = x as i32;
            same!(ov(&x.into()), format!("UnsignedInteger({})", x), "u32");
            same!(ov(&i.into()), format!("SignedInteger({})", i), "i32");
            same!(shown(&x.into()), format!("u{}", x), "u32 as an item");
            same!(shown(&i.into()), format!("i{}", i), "i32 as an item");
            same!(ov(&IncrementBy(x).into()), format!("ChangedBy({})", x), "increment");
            same!(ov(&DecrementBy(x).into()), format!("ChangedBy({})", -(x as i64)), "decrement");
        }
        for sh in [0, 16, 31, 40, 48] {
            integer((x as u64) << sh)?;
        }
        Ok(())
    });
    ctx.seq("floats", |c: &mut Case| -> R {
        let e = c.choose(2048) as u64;
        let m = *c.pick(&[0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0x7_ffff_ffff_ffff, 0x4_0000_0000_0000, 0x5_5555_5555_5555, 0xc_cccc_cccc_cccd]);
        let x = f64::from_bits((c.flip() as u64) << 63 | e << 52 | m);
        c.op(|| format!("{:e}", x));
        double(x)?;
        Ok(())
    });
    ctx.seq("around powers of two and ten", |c: &mut Case| -> R {
        let k = c.choose(84);
        let p: u64 = if k < 64 { 1 << k } else { 10u64.pow(k as u32 - 64) };
        let d = c.choose(7) as u64;
        let x = p.wrapping_add(d).wrapping_sub(3);
        let x = if c.flip() { x } else { x.wrapping_neg() };
        c.op(|| format!("{} {}", x, x as i64));
        integer(x)?;
        for (n, base) in [(x as f64), (x as i64) as f64].into_iter().enumerate() {
            for off in [0.0, 0.5, -0.5, 0.25, 0.75, 0.49999999999999994, -0.49999999999999994] {
                for b in [-1i64, 0, 1] {
                    c.op(|| format!("{} {} {} {}", n, base, off, b));
                    double(f64::from_bits(((base + off).to_bits() as i64 + b) as u64))?;
                }
            }
        }
        Ok(())
    });
    ctx.seq("other values", |c: &mut Case| -> R {
        let k = c.choose(9);
        let v: ObservedValue = match k {
            0 => true.into(),
            1 => false.into(),
            2 => Increment.into(),
            3 => Decrement.into(),
            4 => ChangeBy(0).into(),
            5 => ChangeBy(5).into(),
            6 => Duration::from_millis(7).into(),
            7 => (9u64, TimeUnit::Milliseconds).into(),
            _ => (0u64, TimeUnit::Seconds).into(),
        };
        c.op(|| format!("{:?}", v));
        let want = ["Bool(true)", "Bool(false)", "ChangedBy(1)", "ChangedBy(-1)", "ChangedBy(0)", "ChangedBy(5)", "Duration(7000000, Nanoseconds)", "Duration(9, Milliseconds)", "Duration(0, Seconds)"][k];
        same!(ov(&v), want, "value");
        same!(v.convert_to_i64(), None, "i64");
        same!(v.convert_to_u64(), None, "u64");
        same!(v.convert_to_bool(), [Some(true), Some(false), None, None, None, None, None, None, None][k], "bool");
        same!(v.is_delta(), (2..6).contains(&k), "is a delta");
        let b: Option<ItemKind> = v.into();
        same!(b, v.to_item_kind(), "item");
        same!(b, [Some(ItemKind::Boolean(true)), Some(ItemKind::Boolean(false)), None, None, None, None, None, None, None][k].clone(), "item");
        same!(shown(&"t".into()), "tt", "text");
        same!(shown(&String::from("t").into()), "tt", "text");
        same!(shown(&true.into()), "btrue", "boolean");
        same!(shown(&Snapshot::default().into()), "{}", "snapshot");
        same!(format!("{:?}", TimeUnit::default()), "Microseconds", "the default unit");
        Ok(())
    });
    ctx.seq("durations", |c: &mut Case| -> R {
        let secs = *c.pick(&[0u64, 1, 59, 3_600, 1_000_000, 18_446_744_073]);
        let nanos = *c.pick(&[0u32, 1, 999, 1_000, 1_001, 999_999, 1_000_000, 1_999_999, 500_000_000, 709_551_615]);
        let u = c.choose(5);
        let d = Duration::new(secs, nanos);
        c.op(|| format!("{:?} {}", d, u));
        let v: ObservedValue = if u == 4 { d.into() } else { (d, UNITS[u]).into() };
        let unit = UNITS[if u == 4 { 0 } else { u }];
        let n = shown_in(d.as_nanos() as u64, TimeUnit::Nanoseconds, unit);
        same!(ov(&v), format!("Duration({}, {:?})", n, unit), "value");
        // the same duration shown by the instruments
        for du in UNITS {
            let mut g = Gauge::new("g").display_time_unit(du);
            let t = (secs, TimeUnit::Seconds);
            if secs <= 1_000_000 {
                for (t, u) in [t, (secs, TimeUnit::Milliseconds), (secs, TimeUnit::Microseconds), (secs * 1_000 + nanos as u64, TimeUnit::Nanoseconds), (nanos as u64, TimeUnit::Microseconds)] {
                    g.set((t, u).into());
                    same!(g.get(), Some(shown_in(t, u, du) as i64), "{} {:?} shown in {:?}", t, u, du);
                }
            }
        }
        let _ = int_of(&v);
        let _ = catching(|| ());
        Ok(())
    });
}
