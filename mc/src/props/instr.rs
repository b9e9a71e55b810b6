//! Instruments: every sequence of updates and waiting up to a depth, on a
//! virtual clock, against a reference model of the instrument.
use super::util::*;
use crate::fw::{Case, Ctx, R};
use crate::{ensure, same};
use inst::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::{Duration};

const UNITS: [TimeUnit; 4] = [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds];

fn u_one() -> Update {
    Update::Observation(stamp())
}
fn u_many(n: u64) -> Update {
    Update::Observations(n, stamp())
}
fn u_val<T: Into<ObservedValue>>(v: T) -> Update {
    Update::ObservationWithValue(v.into(), stamp())
}

/// duration given in `unit`, shown in `to`, cut off below
pub fn shown_in(time: u64, unit: TimeUnit, to: TimeUnit) -> u64 {
    let f = |u: TimeUnit| -> u128 {
        match u {
            TimeUnit::Nanoseconds => 1,
            TimeUnit::Microseconds => 1_000,
            TimeUnit::Milliseconds => 1_000_000,
            TimeUnit::Seconds => 1_000_000_000,
        }
    };
    // what cannot be told is as near to it as possible
    (time as u128 * f(unit) / f(to)).min(u64::MAX as u128) as u64
}
/// the integer nearest to `v` (halves away from zero) if an i64 can hold it
pub fn rounded(v: f64) -> Option<i64> {
    if v.is_nan() || v.is_infinite() {
        return None;
    }
    let r = v.abs();
    let whole = r.trunc();
    let w = if r - whole >= 0.5 { whole + 1.0 } else { whole };
    let w = if v < 0.0 { -w } else { w };
    // 2^63 is not an i64, -2^63 is
    if w >= 9223372036854775808.0 || w < -9223372036854775808.0 {
        return None;
    }
    Some(w as i64)
}
/// the integer an observed value stands for
pub fn int_of(v: &ObservedValue) -> Option<i64> {
    match *v {
        ObservedValue::SignedInteger(x) => Some(x),
        ObservedValue::UnsignedInteger(x) => std::convert::TryFrom::try_from(x).ok(),
        ObservedValue::Float(x) => rounded(x),
        _ => None,
    }
}

// ---------------------------------------------------------------- C17
/// the gauge's value after `v` was observed; None: `v` means nothing to a gauge
fn gauge_after(cur: Option<i64>, v: &ObservedValue, unit: TimeUnit) -> Option<i64> {
    match *v {
        ObservedValue::ChangedBy(d) => Some(cur.unwrap_or(0) + d),
        ObservedValue::Duration(t, u) => Some(shown_in(t, u, unit).min(i64::MAX as u64) as i64),
        ref x => int_of(x),
    }
}
fn gauge_values() -> Vec<ObservedValue> {
    vec![
        5.into(),
        0.into(),
        (-7).into(),
        9u64.into(),
        u64::MAX.into(),
        2.5.into(),
        (-2.5).into(),
        0.49.into(),
        f64::NAN.into(),
        f64::INFINITY.into(),
        1e300.into(),
        true.into(),
        Increment.into(),
        Decrement.into(),
        IncrementBy(3).into(),
        DecrementBy(4).into(),
        ChangeBy(-20).into(),
        Duration::from_nanos(1_999_999_999).into(),
        (2_500u64, TimeUnit::Microseconds).into(),
        (7u64, TimeUnit::Milliseconds).into(),
        (3u64, TimeUnit::Seconds).into(),
    ]
}
pub fn c17(ctx: &mut Ctx) {
    let depth = ctx.pickt(6, 7);
    ctx.seq("counter", move |c: &mut Case| -> R {
        let mut n = Counter::new("n");
        let mut want = 0u64;
        for _ in 0..depth {
            let op = c.choose(11);
            c.op(|| format!("operation {}", op));
            let (w, u) = match op {
                0 => (1, Some(u_one())),
                1 => (0, Some(u_many(0))),
                2 => (3, Some(u_many(3))),
                3 => (10_000_000_000, Some(u_many(10_000_000_000))),
                4 => (1, Some(u_val(5))),
                5 => (1, Some(u_val(0))),
                6 => (1, Some(u_val(false))),
                7 => (1, Some(u_val(ChangeBy(-2)))),
                8 => (1, Some(u_val(Duration::from_secs(4)))),
                9 => {
                    n.inc();
                    (1, None)
                }
                _ => {
                    n.inc_by(7);
                    (7, None)
                }
            };
            if let Some(u) = u {
                same!(n.update(&u), 1, "instruments updated");
            }
            want += w;
            same!(n.get(), want, "count");
            same!(num(&put_of(&n, false), "n"), want as i64, "count in the snapshot");
            c.state(want);
        }
        Ok(())
    });
    let depth = ctx.pickt(3, 4);
    ctx.seq("gauge", move |c: &mut Case| -> R {
        let unit = c.choose(5);
        let initial = c.flip();
        let group = c.flip();
        let tracked = c.flip();
        let mut g = Gauge::new("g").group_values(group);
        if unit > 0 {
            g.set_display_time_unit(UNITS[unit - 1]);
        }
        if tracked {
            g.set_tracking(3);
        }
        let mut unit = if unit == 0 { TimeUnit::Microseconds } else { UNITS[unit - 1] };
        let mut v = None;
        if initial {
            g = g.value(-4);
            v = Some(-4);
        }
        c.op(|| format!("unit {:?}, initially {:?}, grouped {}, tracking {}", unit, v, group, tracked));
        let values = gauge_values();
        for _ in 0..depth + 1 {
            let op = c.choose(values.len() + 4);
            if op == values.len() + 3 {
                unit = if let TimeUnit::Seconds = unit { TimeUnit::Nanoseconds } else { TimeUnit::Seconds };
                c.op(|| format!("from now on in {:?}", unit));
                g.set_display_time_unit(unit);
                g.set_title("title");
                g.set_description("description");
            } else if op < 2 {
                c.op(|| "no value".into());
                let u = if op == 0 { u_one() } else { u_many(3) };
                same!(g.update(&u), 0, "instruments updated");
            } else if op == 2 {
                c.op(|| "set(12)".into());
                g.set(12.into());
                v = Some(12);
            } else {
                let x = values[op - 3];
                c.op(|| format!("{:?}", x));
                let next = gauge_after(v, &x, unit);
                let n = g.update(&u_val(x));
                if next.is_some() {
                    same!(n, 1, "instruments updated");
                    v = next;
                }
            }
            same!(g.get(), v, "value");
            let s = put_of(&g, false);
            let at = if group { "g/current" } else { "g" };
            let got = match s.find(at) {
                FindItem::Found(ItemKind::Int(x)) => Some(*x),
                FindItem::Found(x) => return Err(format!("value in the snapshot is {:?}", x)),
                FindItem::NotFound => None,
            };
            same!(got, v, "value in the snapshot");
            c.state((unit as u8, v));
        }
        Ok(())
    });
    // which observations reach a gauge, for every kind of adapter
    const KINDS: usize = 18;
    let depth = ctx.pickt(4, 5);
    ctx.seq("gauge adapters", move |c: &mut Case| -> R {
        let kind = c.choose(KINDS);
        let initial = c.flip();
        let mut g = Gauge::new("g");
        let mut v = None;
        if initial {
            g = g.value(10);
            v = Some(10);
        }
        let is_a = |l: &inst::L| *l == A;
        let not_c = |l: &inst::L| *l != C;
        // (mode, accepted or incremented on, decremented on)
        let ab = vec![A, B];
        let (mut a, mode, on, off): (GaugeAdapter<inst::L>, u8, Vec<inst::L>, Vec<inst::L>) = match kind {
            0 => (g.for_label(A), 0, vec![A], vec![]),
            1 => (g.for_labels(ab.clone()), 0, ab, vec![]),
            2 => (g.for_all_labels(), 0, vec![A, B, C], vec![]),
            3 => (g.for_labels_by_predicate(not_c), 0, ab, vec![]),
            4 => (g.adapter(), 0, vec![], vec![]),
            5 => (g.into(), 0, vec![A, B, C], vec![]),
            6 => (GaugeAdapter::new(g), 0, vec![A, B, C], vec![]),
            7 => (GaugeAdapter::deaf(g), 0, vec![], vec![]),
            8 => (g.for_label_deltas_only(A), 1, vec![A], vec![]),
            9 => (g.for_labels_deltas_only(ab.clone()), 1, ab, vec![]),
            10 => (g.for_labels_deltas_only_by_predicate(not_c), 1, ab, vec![]),
            11 => (g.deltas_only(AcceptAllLabels), 1, vec![A, B, C], vec![]),
            12 => (g.inc_dec_on(A, B), 2, vec![A], vec![B]),
            13 => (g.inc_dec_on_many(vec![A, C], vec![B]), 2, vec![A, C], vec![B]),
            // asked for incrementing first
            14 => (g.inc_dec_on_many(vec![A, B], vec![B, C]), 2, ab, vec![C]),
            15 => (g.inc_dec_by_predicates(is_a, not_c), 2, vec![A], vec![B]),
            16 => (GaugeAdapter::inc_dec_on(B, A, g), 2, vec![B], vec![A]),
            _ => (GaugeAdapter::for_labels_deltas_only(vec![], g), 1, vec![], vec![]),
        };
        c.op(|| format!("adapter {}, initially {:?}", kind, v));
        for _ in 0..depth {
            let l = *c.pick(&[A, B, C]);
            let o = c.choose(6);
            let now = stamp();
            let (ob, val): (Observation<inst::L>, Option<ObservedValue>) = match o {
                0 => (Observation::observed_one(l, now), None),
                1 => (Observation::observed(l, 5, now), None),
                2 => (Observation::observed_one_value(l, 3, now), Some(3.into())),
                3 => (Observation::observed_one_value(l, Decrement, now), Some(Decrement.into())),
                4 => (Observation::observed_one_value(l, ChangeBy(0), now), Some(ChangeBy(0).into())),
                _ => (Observation::observed_one_value(l, Duration::from_micros(4), now), Some(Duration::from_micros(4).into())),
            };
            c.op(|| format!("{:?}", ob));
            let before = v;
            let mut hit = 0;
            match mode {
                2 => {
                    let d = if on.contains(&l) { 1 } else if off.contains(&l) { -1 } else { 0 };
                    if d != 0 {
                        v = Some(v.unwrap_or(0) + d);
                        hit = 1;
                    }
                }
                m => {
                    if let (Some(x), true) = (val, on.contains(&l)) {
                        if m == 0 || x.is_delta() {
                            v = gauge_after(v, &x, TimeUnit::Microseconds);
                            hit = 1;
                        }
                    }
                }
            }
            same!(a.handle_observation(&ob), hit, "instruments updated");
            same!(a.gauge().get(), v, "value (it was {:?})", before);
            same!(num(&put_of(&a, false), "g"), v.unwrap_or(-1), "value in the snapshot");
            c.state((kind, v));
        }
        same!(a.gauge_mut().get(), v, "value");
        same!(a.into_inner().get(), v, "value");
        Ok(())
    });
    super::sizes::c17(ctx);
    super::sizes::units(ctx, 0);
}

// ---------------------------------------------------------------- C18
pub fn c18(ctx: &mut Ctx) {
    let depth = ctx.pickt(7, 8);
    for (win, initial, long) in [(1, 0, false), (2, 0, false), (3, 0, false), (3, 1, false), (5, 0, false), (60, 2, false), (1, 0, true), (3, 0, true), (60, 0, true), (600, 0, true)] {
        let depth = if long { depth - 2 } else { depth };
        ctx.seq(&format!("window of {} s, initial value {}{}", win, ["none", "before tracking", "after tracking"][initial], if long { ", long pauses" } else { "" }), move |c: &mut Case| -> R {
            let mut g = Gauge::new("g");
            let mut recs: Vec<(u64, i64)> = vec![];
            let mut cur = None;
            if initial == 1 {
                g = g.value(4);
            }
            let t0 = mcrt::seq_get();
            g = g.tracking(win as usize);
            if initial == 2 {
                g = g.value(4);
                recs.push((0, 4));
            }
            if initial > 0 {
                cur = Some(4);
            }
            pass(SEC / 10);
            for step in 0..depth {
                let op = if step + 1 == depth { 9 } else { c.choose(10) };
                let sec = (mcrt::seq_get() - t0) / SEC;
                match op {
                    0..=2 => {
                        let v = [-2i64, 1, 50][op];
                        c.op(|| format!("value {}", v));
                        g.update(&u_val(v));
                        cur = Some(v);
                        recs.push((sec, v));
                    }
                    3 => {
                        c.op(|| "increment".into());
                        g.update(&u_val(Increment));
                        let v = cur.unwrap_or(0) + 1;
                        cur = Some(v);
                        recs.push((sec, v));
                    }
                    4 => {
                        c.op(|| "no value; settings that do not matter".into());
                        g.update(&u_one());
                        g.set_display_time_unit(TimeUnit::Seconds);
                        g.set_title("title");
                    }
                    5..=8 => {
                        let d = if long {
                            [SEC, (win - 1) * SEC + 370 * MS, 3601 * SEC, 90_061 * SEC][op - 5]
                        } else {
                            [370 * MS, SEC, 2 * SEC, if win == 60 { 59 * SEC } else { 5 * SEC }][op - 5]
                        };
                        c.op(|| format!("after {} ms", d / MS));
                        pass(d);
                    }
                    _ => {
                        c.op(|| "snapshot".into());
                        let s = put_of(&g, false);
                        let first = (sec + 1).saturating_sub(win);
                        let mut per: std::collections::BTreeMap<u64, Vec<i64>> = Default::default();
                        for (t, v) in recs.iter().filter(|r| r.0 >= first) {
                            per.entry(*t).or_default().push(*v);
                        }
                        if per.is_empty() {
                            if let Some(v) = cur {
                                per.insert(0, vec![v]);
                            }
                        }
                        same!(num(&s, "g"), cur.unwrap_or(-1), "value");
                        let maxs: Vec<i64> = per.values().map(|v| *v.iter().max().unwrap()).collect();
                        let mins: Vec<i64> = per.values().map(|v| *v.iter().min().unwrap()).collect();
                        let all: Vec<i64> = per.values().flatten().copied().collect();
                        let avg = |v: &[i64]| v.iter().sum::<i64>() as f64 / v.len() as f64;
                        for (k, w) in [
                            ("g_peak", maxs.iter().max()),
                            ("g_peak_min", maxs.iter().min()),
                            ("g_bottom", mins.iter().min()),
                            ("g_bottom_max", mins.iter().max()),
                        ] {
                            let got = match s.find(k) {
                                FindItem::Found(ItemKind::Int(x)) => Some(*x),
                                FindItem::Found(x) => return Err(format!("{} is {:?}", k, x)),
                                FindItem::NotFound => None,
                            };
                            same!(got, w.copied(), "{}, values by second {:?}", k, per);
                        }
                        for (k, w) in [("g_peak_avg", &maxs), ("g_bottom_avg", &mins), ("g_avg", &all)] {
                            let got = float(&s, k);
                            if w.is_empty() {
                                same!(got, None, "{}", k);
                            } else {
                                let w = avg(w);
                                ensure!(got.map(|x| close(x, w)) == Some(true), "{}: observed {:?}, specified {}, values by second {:?}", k, got, w, per);
                            }
                        }
                        c.state((recs.len(), cur, per));
                    }
                }
            }
            Ok(())
        });
    }
    ctx.seq("names", |c: &mut Case| -> R {
        let long = "long ".repeat(60);
        let name = *c.pick(&["g", "", "_", "peak", "a_b", long.as_str()]);
        let group = c.flip();
        let n = c.choose(3);
        let valued = c.flip();
        let mut g = Gauge::new(name).group_values(group).tracking([0, 1, 4][n]);
        if valued {
            g.set(3.into());
        }
        c.op(|| format!("{:?} grouped {} tracking {} valued {}", name, group, [0, 1, 4][n], valued));
        let mut want = Tree::new();
        if group {
            want.insert(name.into(), "{}".into());
        }
        if valued {
            want.insert(if group { format!("{}/current", name) } else { name.to_string() }.trim_start_matches('/').into(), "i3".into());
            if n > 0 {
                for (k, v) in [("peak", "i3"), ("peak_min", "i3"), ("peak_avg", "f3"), ("bottom", "i3"), ("bottom_max", "i3"), ("bottom_avg", "f3"), ("avg", "f3")] {
                    want.insert(format!("{}{}{}", name, if group { "/" } else { "_" }, k).trim_start_matches('/').into(), v.into());
                }
            }
        }
        same!(pruned(flat(&put_of(&g, false))), pruned(want), "snapshot");
        Ok(())
    });
    super::sizes::c18(ctx);
}

// ---------------------------------------------------------------- C19
/// Rates as the documentation has them: events are collected for 5 seconds,
/// the first such interval sets the rate, each later one is averaged in.
pub(super) struct Rates {
    t0: u64,
    count: u64,
    done: u64,
    pending: u64,
    init: bool,
    rate: [f64; 3],
}
impl Rates {
    pub(super) fn new() -> Rates {
        Rates { t0: mcrt::seq_get(), count: 0, done: 0, pending: 0, init: false, rate: [0.0; 3] }
    }
    fn tick(&mut self) {
        let due = (mcrt::seq_get() - self.t0) / (5 * SEC);
        while self.done < due {
            self.done += 1;
            let per_s = self.pending as f64 / 5.0;
            self.pending = 0;
            for (i, min) in [1.0f64, 5.0, 15.0].iter().enumerate() {
                if self.init {
                    let alpha = 1.0 - (-5.0 / 60.0 / min).exp();
                    self.rate[i] += alpha * (per_s - self.rate[i]);
                } else {
                    self.rate[i] = per_s;
                }
            }
            self.init = true;
        }
    }
    pub(super) fn mark(&mut self, n: u64) {
        self.tick();
        self.count += n;
        self.pending += n;
    }
    pub(super) fn check(&mut self, s: &Snapshot, on: [bool; 3], cutoff: f64) -> R {
        self.tick();
        same!(s.find("m/count"), FindItem::Found(&ItemKind::UInt(self.count)), "count");
        for (i, k) in ["m/one_minute", "m/five_minutes", "m/fifteen_minutes"].iter().enumerate() {
            same!(has(s, k), on[i], "{} is shown", k);
            if on[i] {
                let r = self.rate[i];
                let got = float(s, &format!("{}/rate", k));
                if (r - cutoff).abs() < 1e-9 && r != 0.0 {
                    continue; // at the cutoff, either way
                }
                let w = if r < cutoff { 0.0 } else { r };
                ensure!(got.map(|g| close(g, w)) == Some(true), "{}: observed {:?}, specified {} ({} s after the start)", k, got, w, (mcrt::seq_get() - self.t0) as f64 / 1e9);
            }
        }
        Ok(())
    }
}
const RATE_FLAGS: [[bool; 3]; 8] = [
    [true, false, false], // the default
    [true, true, true],
    [false, false, false],
    [false, true, false],
    [false, false, true],
    [true, true, false],
    [true, false, true],
    [false, true, true],
];
pub fn c19(ctx: &mut Ctx) {
    let depth = ctx.pickt(7, 8);
    // starts 0.3 s off a tick; no sum of the waiting times hits a tick
    const WAIT: [u64; 4] = [1_300, 5_100, 61_700, 601_100];
    ctx.seq("meter", move |c: &mut Case| -> R {
        let mut m = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
        let mut r = Rates::new();
        pass(300 * MS);
        for _ in 0..depth {
            let op = c.choose(11);
            match op {
                0..=3 => {
                    c.op(|| format!("after {} ms", WAIT[op]));
                    pass(WAIT[op] * MS);
                }
                10 => {
                    c.op(|| "all rates are switched off and on again, other settings".into());
                    for on in [false, true] {
                        m.set_one_minute_rate_enabled(on);
                        m.set_five_minute_rate_enabled(on);
                        m.set_fifteen_minute_rate_enabled(on);
                    }
                    m.set_lower_cutoff(5.0);
                    m.set_lower_cutoff(0.001);
                    m.set_title("title");
                }
                4 | 5 | 6 | 7 | 8 => {
                    let (n, u) = match op {
                        4 => (1, u_one()),
                        5 => (40, u_many(40)),
                        6 => (0, u_many(0)),
                        7 => (1, u_val(77)),
                        _ => (1, u_val(ChangeBy(-3))),
                    };
                    c.op(|| format!("{:?}", u));
                    same!(m.update(&u), 1, "instruments updated");
                    r.mark(n);
                }
                _ => {
                    c.op(|| "snapshot".into());
                    r.check(&put_of(&m, false), [true, true, true], 0.001)?;
                }
            }
            c.state((r.done, r.count, r.pending));
        }
        r.check(&put_of(&m, false), [true, true, true], 0.001)
    });
    ctx.seq("meter, long pauses", move |c: &mut Case| -> R {
        let mut m = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
        let mut r = Rates::new();
        pass(300 * MS);
        for _ in 0..4 {
            let op = c.choose(6);
            if op < 4 {
                let ns = [5_100, 901_300, 3_601_700, 90_061_300][op] * MS;
                c.op(|| format!("after {} ms", ns / MS));
                pass(ns);
            } else {
                let n = [1u64 << 40, 1][op - 4];
                c.op(|| format!("{} times", n));
                m.update(&u_many(n));
                r.mark(n);
            }
            c.state((r.done, r.count, r.pending));
        }
        r.check(&put_of(&m, false), [true, true, true], 0.001)
    });
    ctx.seq("meter, what is shown", |c: &mut Case| -> R {
        let f = c.choose(8);
        let by_set = c.flip();
        let cutoff = *c.pick(&[0.001, 0.0, 0.5, 3.0]);
        let mut m = Meter::new("m");
        let mut r = Rates::new();
        if by_set {
            if f > 0 {
                m.set_one_minute_rate_enabled(RATE_FLAGS[f][0]);
                m.set_five_minute_rate_enabled(RATE_FLAGS[f][1]);
                m.set_fifteen_minute_rate_enabled(RATE_FLAGS[f][2]);
            }
            m.set_lower_cutoff(cutoff);
        } else {
            if f > 0 {
                m = m.one_minute_rate_enabled(RATE_FLAGS[f][0]).five_minute_rate_enabled(RATE_FLAGS[f][1]).fifteen_minute_rate_enabled(RATE_FLAGS[f][2]);
            }
            m = m.lower_cutoff(cutoff);
        }
        pass(300 * MS);
        let n = *c.pick(&[1, 7, 40]);
        c.op(|| format!("rates shown {:?} cutoff {} marks {}", RATE_FLAGS[f], cutoff, n));
        m.update(&u_many(n));
        r.mark(n);
        for _ in 0..c.choose(4) {
            pass(61 * SEC);
            r.check(&put_of(&m, false), RATE_FLAGS[f], cutoff)?;
        }
        r.check(&put_of(&m, false), RATE_FLAGS[f], cutoff)
    });
    ctx.seq("value meter", move |c: &mut Case| -> R {
        let unit = c.choose(5);
        let mut m = ValueMeter::new("m");
        if unit > 0 {
            m.set_display_time_unit(UNITS[unit - 1]);
        }
        m.set_five_minute_rate_enabled(true);
        let f = [true, true, false];
        let mut unit = if unit == 0 { TimeUnit::Microseconds } else { UNITS[unit - 1] };
        c.op(|| format!("shown in {:?}", unit));
        let mut r = Rates::new();
        pass(300 * MS);
        for _ in 0..depth - 2 {
            let op = c.choose(13);
            match op {
                12 => {
                    unit = if let TimeUnit::Seconds = unit { TimeUnit::Nanoseconds } else { TimeUnit::Seconds };
                    c.op(|| format!("from now on in {:?}", unit));
                    m.set_display_time_unit(unit);
                    m.set_five_minute_rate_enabled(true);
                }
                0..=2 => {
                    c.op(|| format!("after {} ms", WAIT[op]));
                    pass(WAIT[op] * MS);
                }
                3 | 4 => {
                    c.op(|| "no value".into());
                    same!(m.update(&if op == 3 { u_one() } else { u_many(4) }), 0, "instruments updated");
                }
                5 | 6 => {
                    c.op(|| "a value without a number".into());
                    same!(m.update(&if op == 5 { u_val(true) } else { u_val(f64::NAN) }), 0, "instruments updated");
                }
                11 => {
                    c.op(|| "snapshot".into());
                    r.check(&put_of(&m, false), f, 0.001)?;
                }
                _ => {
                    let v: ObservedValue = match op {
                        7 => 3.into(),
                        8 => 250u64.into(),
                        9 => 1.5.into(),
                        _ => Duration::from_nanos(4_000_001_999).into(),
                    };
                    c.op(|| format!("{:?}", v));
                    same!(m.update(&u_val(v)), 1, "instruments updated");
                    r.mark(match v {
                        ObservedValue::Duration(t, u) => shown_in(t, u, unit),
                        x => int_of(&x).unwrap() as u64,
                    });
                }
            }
            c.state((r.done, r.count, r.pending));
        }
        r.check(&put_of(&m, false), f, 0.001)
    });
    ctx.seq("value meter, what is shown", |c: &mut Case| -> R {
        let f = c.choose(8);
        let by_set = c.flip();
        let cutoff = *c.pick(&[0.001, 0.0, 0.5, 3.0]);
        let mut m = ValueMeter::new("m");
        let mut r = Rates::new();
        if by_set {
            if f > 0 {
                m.set_one_minute_rate_enabled(RATE_FLAGS[f][0]);
                m.set_five_minute_rate_enabled(RATE_FLAGS[f][1]);
                m.set_fifteen_minute_rate_enabled(RATE_FLAGS[f][2]);
            }
            m.set_lower_cutoff(cutoff);
        } else {
            if f > 0 {
                m = m.one_minute_rate_enabled(RATE_FLAGS[f][0]).five_minute_rate_enabled(RATE_FLAGS[f][1]).fifteen_minute_rate_enabled(RATE_FLAGS[f][2]);
            }
            m = m.lower_cutoff(cutoff);
        }
        pass(300 * MS);
        let n = *c.pick(&[1, 7, 40]);
        c.op(|| format!("rates shown {:?} cutoff {} value {}", RATE_FLAGS[f], cutoff, n));
        m.update(&u_val(n));
        r.mark(n);
        for _ in 0..c.choose(4) {
            pass(61 * SEC);
            r.check(&put_of(&m, false), RATE_FLAGS[f], cutoff)?;
        }
        r.check(&put_of(&m, false), RATE_FLAGS[f], cutoff)
    });
    super::sizes::c19(ctx);
    super::sizes::units(ctx, 1);
}

// ---------------------------------------------------------------- C20
const QS: [(&str, f64); 7] = [("p25", 0.25), ("p50", 0.5), ("p75", 0.75), ("p95", 0.95), ("p98", 0.98), ("p99", 0.99), ("p999", 0.999)];
pub(super) fn histo_check(s: &Snapshot, vals: &[i64], same_instant: bool) -> R {
    same!(s.find("h/count"), FindItem::Found(&ItemKind::UInt(vals.len() as u64)), "count");
    if vals.is_empty() {
        for k in ["max", "min", "mean", "stddev", "quantiles/p50"] {
            ensure!(!has(s, &format!("h/{}", k)), "{} of nothing is shown", k);
        }
        return Ok(());
    }
    let mut v = vals.to_vec();
    v.sort_unstable();
    let (min, max) = (v[0], v[v.len() - 1]);
    same!(s.find("h/min"), FindItem::Found(&ItemKind::Int(min)), "min");
    same!(s.find("h/max"), FindItem::Found(&ItemKind::Int(max)), "max");
    // floating point numbers are as exact as the largest of the values allows
    let tol = 1e-6 + 1e-12 * (min as f64).abs().max((max as f64).abs());
    let mean = float(s, "h/mean").ok_or("no mean")?;
    let dev = float(s, "h/stddev").ok_or("no stddev")?;
    ensure!(mean >= min as f64 - tol && mean <= max as f64 + tol, "mean {} is outside of {}..{}", mean, min, max);
    ensure!(dev >= 0.0 && dev <= max as f64 - min as f64 + tol, "standard deviation {} with values in {}..{}", dev, min, max);
    if same_instant {
        let m = v.iter().map(|x| *x as f64).sum::<f64>() / v.len() as f64;
        let d = (v.iter().map(|x| (*x as f64 - m).powi(2)).sum::<f64>() / v.len() as f64).sqrt();
        ensure!((mean - m).abs() <= (1e-6 * m.abs()).max(tol), "mean: observed {}, specified {}", mean, m);
        ensure!((dev - d).abs() <= (1e-4 * d.abs().max(1.0)).max(tol), "standard deviation: observed {}, specified {}", dev, d);
    }
    let mut last = min;
    let n = v.len() as f64;
    for (k, q) in QS {
        let x = match s.find(&format!("h/quantiles/{}", k)) {
            FindItem::Found(ItemKind::Int(x)) => *x,
            x => return Err(format!("quantile {} is {:?}", k, x)),
        };
        ensure!(v.binary_search(&x).is_ok(), "quantile {} is {}, which was not observed", k, x);
        ensure!(x >= last && x <= max, "quantile {} is {}, the one before {}, the maximum {}", k, x, last, max);
        last = x;
        if same_instant {
            let below = v.iter().filter(|y| **y < x).count() as f64;
            let upto = v.iter().filter(|y| **y <= x).count() as f64;
            ensure!(below <= q * n + 1.0 && upto >= q * n - 1.0, "quantile {} is {}: {} of {} values are less, {} are not more", k, x, below, n, upto);
        }
    }
    Ok(())
}
pub fn c20(ctx: &mut Ctx) {
    let depth = ctx.pickt(5, 7);
    ctx.seq("a few updates", move |c: &mut Case| -> R {
        let unit = c.choose(3);
        let mut h = Histogram::new("h");
        if unit > 0 {
            h.set_display_time_unit([TimeUnit::Nanoseconds, TimeUnit::Seconds][unit - 1]);
        }
        let mut unit = [TimeUnit::Microseconds, TimeUnit::Nanoseconds, TimeUnit::Seconds][unit];
        let mut vals = vec![];
        let mut waited = false;
        for _ in 0..depth {
            let op = c.choose(14);
            let v: Option<ObservedValue> = match op {
                0 | 1 => {
                    c.op(|| "no value".into());
                    same!(h.update(&if op == 0 { u_one() } else { u_many(3) }), 0, "instruments updated");
                    None
                }
                2..=4 => {
                    c.op(|| "not a number".into());
                    let v: ObservedValue = match op {
                        2 => true.into(),
                        3 => Increment.into(),
                        _ => f64::NAN.into(),
                    };
                    same!(h.update(&u_val(v)), 0, "instruments updated");
                    None
                }
                5 => {
                    c.op(|| "after 100 s".into());
                    pass(100 * SEC);
                    waited = true;
                    None
                }
                6 => Some((-7).into()),
                7 => Some(3.into()),
                8 => Some(0u64.into()),
                9 => Some(2.6.into()),
                10 => Some(Duration::from_nanos(1_500_000_700).into()),
                11 => Some((9u64, TimeUnit::Milliseconds).into()),
                12 => Some(1_000_000.into()),
                _ => {
                    unit = if let TimeUnit::Seconds = unit { TimeUnit::Nanoseconds } else { TimeUnit::Seconds };
                    c.op(|| format!("from now on in {:?}", unit));
                    h.set_display_time_unit(unit);
                    h.set_title("title");
                    h.set_show_activity_state(true);
                    h.set_reset_after_inactivity(true);
                    None
                }
            };
            if let Some(v) = v {
                c.op(|| format!("{:?}", v));
                same!(h.update(&u_val(v)), 1, "instruments updated");
                vals.push(match v {
                    ObservedValue::Duration(t, u) => shown_in(t, u, unit) as i64,
                    x => int_of(&x).unwrap(),
                });
            }
            histo_check(&put_of(&h, false), &vals, !waited)?;
            vals.sort_unstable();
            c.state((unit as u8, waited, &vals));
        }
        Ok(())
    });
    ctx.seq("inactive and active again", move |c: &mut Case| -> R {
        let reset = c.flip();
        let show = c.flip();
        let lim = 10 * SEC;
        let mut h = Histogram::new("h").inactivity_limit(Duration::from_nanos(lim)).reset_after_inactivity(reset).show_activity_state(show);
        let mut vals: Vec<(i64, u64)> = vec![]; // with when they were recorded
        let mut last = mcrt::seq_get();
        c.op(|| format!("limit 10 s, reset {}, state shown {}", reset, show));
        for _ in 0..depth + 1 {
            let op = c.choose(9);
            let now = mcrt::seq_get();
            let v: Option<ObservedValue> = match op {
                0..=2 => {
                    let w = [1, 4 * SEC, 6 * SEC][op];
                    c.op(|| format!("after {:?}", Duration::from_nanos(w)));
                    pass(w);
                    None
                }
                3 => Some(7.into()),
                4 => Some((-40).into()),
                5 => Some(Duration::from_micros(3).into()),
                _ => {
                    c.op(|| "no value".into());
                    let u = match op {
                        6 => u_one(),
                        7 => u_many(2),
                        _ => u_val(true),
                    };
                    // a reset takes place, or is due, with whatever comes
                    same!(h.update(&u), 0, "instruments updated");
                    None
                }
            };
            if let Some(v) = v {
                c.op(|| format!("{:?}", v));
                same!(h.update(&u_val(v)), 1, "instruments updated");
                if reset && now - last > lim {
                    vals.clear();
                }
                vals.push((match v {
                    ObservedValue::Duration(_, _) => 3,
                    x => int_of(&x).unwrap(),
                }, now));
                last = now;
            }
            let s = put_of(&h, false);
            let active = mcrt::seq_get() - last <= lim;
            if active {
                let vs: Vec<i64> = vals.iter().map(|v| v.0).collect();
                histo_check(&s, &vs, vals.iter().all(|v| v.1 == vals[0].1))?;
            } else {
                ensure!(!has(&s, "h/count") && !has(&s, "h/max") && !has(&s, "h/quantiles"), "values of an inactive histogram are shown");
            }
            same!(s.find("h/_active"), if show { FindItem::Found(&ItemKind::Boolean(active)) } else { FindItem::NotFound }, "_active");
            c.state((reset, show, mcrt::seq_get() - last, &vals.iter().map(|v| (v.0, mcrt::seq_get() - v.1)).collect::<Vec<_>>()));
        }
        Ok(())
    });
    let top = ctx.pickt(1028, 1028);
    ctx.seq("n values", move |c: &mut Case| -> R {
        let n = 1 + c.choose(top) as i64;
        let pattern = c.choose(4);
        c.op(|| format!("{} values in pattern {}", n, pattern));
        let mut h = Histogram::new("h");
        let mut vals = vec![];
        for i in 0..n {
            let v = match pattern {
                0 => i,
                1 => n - i,
                2 => (i * 7919) % n, // n is not a multiple of 7919
                _ => i % 3 - 1,
            };
            h.update(&u_val(v));
            vals.push(v);
        }
        histo_check(&put_of(&h, false), &vals, true)
    });
    super::sizes::c20(ctx);
    super::sizes::units(ctx, 2);
}

// ---------------------------------------------------------------- C21
/// no sum of these reaches 60 s or 30 s exactly
fn inverted_name(k: usize) -> Option<(&'static str, NameAlternation)> {
    match k {
        1 => Some(("not_i", NameAlternation::Prefix("not_".into()))),
        2 => Some(("i_not", NameAlternation::Postfix("_not".into()))),
        3 => Some(("other", NameAlternation::Rename("other".into()))),
        _ => None,
    }
}
fn switch_tree(state: Option<bool>, alt: usize) -> Tree {
    let mut t = Tree::new();
    if let Some(s) = state {
        t.insert("i".into(), format!("b{}", s));
        if let Some((n, _)) = inverted_name(alt) {
            t.insert(n.into(), format!("b{}", !s));
        }
    }
    t
}
macro_rules! alternated {
    ($i:expr, $alt:expr, $how:expr) => {{
        let mut i = $i;
        match ($alt, $how) {
            (0, _) => {}
            (a, 0) => i.set_show_inverted(inverted_name(a).unwrap().1),
            (a, 1) => i = i.show_inverted(inverted_name(a).unwrap().1),
            (1, 2) => i.set_show_inverted_prefixed("not_"),
            (2, 2) => i.set_show_inverted_postfixed("_not"),
            (3, 2) => i.set_show_inverted_renamed("other"),
            (1, _) => i = i.show_inverted_prefixed("not_"),
            (2, _) => i = i.show_inverted_postfixed("_not"),
            _ => i = i.show_inverted_renamed("other"),
        }
        i
    }};
}
fn any_update(k: usize) -> Update {
    match k {
        0 => u_one(),
        1 => u_many(3),
        2 => u_many(0),
        3 => u_val(0),
        4 => u_val(false),
        _ => u_val(Decrement),
    }
}
trait Switch: Updates + PutsSnapshot {
    fn st(&self) -> bool;
    fn retime(&mut self, d: Duration) -> Duration;
}
macro_rules! switch {
    ($t:ty, $set:ident, $get:ident) => {
        impl Switch for $t {
            fn st(&self) -> bool {
                self.state()
            }
            fn retime(&mut self, d: Duration) -> Duration {
                self.$set(d);
                self.$get()
            }
        }
    };
}
switch!(StaircaseTimer, set_switch_off_after, get_switch_off_after);
switch!(OccurrenceIndicator, set_if_happened_within, get_if_happened_within);
switch!(NonOccurrenceIndicator, set_if_not_happened_within, get_if_not_happened_within);
/// milliseconds; sums of them lie just before and just after the deadlines
const SWITCH_WAITS: [u64; 4] = [200, 11_200, 19_200, 60_600];
const DEADLINES: [u64; 2] = [60_000, 30_500];
pub fn c21(ctx: &mut Ctx) {
    let depth = ctx.pickt(4, 5);
    ctx.seq("flag", move |c: &mut Case| -> R {
        let alt = c.choose(4);
        let how = if alt == 0 { 0 } else { c.choose(4) };
        let init = c.choose(4);
        let mut want = [None, Some(true), Some(false), Some(true)][init];
        let mut i = match init {
            0 => Flag::new("i"),
            3 => Flag::new_with_state("i", true),
            _ => Flag::new("i").state(init == 1),
        };
        i = alternated!(i, alt, how);
        c.op(|| format!("initially {:?}, alternative name {} set in way {}", want, alt, how));
        for _ in 0..depth {
            let op = c.choose(10);
            let u = match op {
                0 => u_val(true),
                1 => u_val(false),
                2 => u_val(1),
                3 => u_val(-1),
                4 => u_val(0),
                5 => u_val(0u64),
                6 => u_val(u64::MAX),
                7 => u_one(),
                8 => u_many(2),
                _ => u_val(Increment),
            };
            c.op(|| format!("{:?}", u));
            same!(i.update(&u), (op < 7) as usize, "instruments updated");
            match op {
                0 | 2 | 3 | 6 => want = Some(true),
                1 | 4 | 5 => want = Some(false),
                _ => {}
            }
            same!(i.get_state(), want, "state");
            same!(flat(&put_of(&i, false)), switch_tree(want, alt), "snapshot");
            c.state((alt, want));
        }
        Ok(())
    });
    let depth = ctx.pickt(5, 7);
    for which in 0..3 {
        ctx.seq(["staircase timer", "occurrence indicator", "non occurrence indicator"][which], move |c: &mut Case| -> R {
            let alt = c.choose(4);
            let inv = c.choose(4);
            let kinds = c.choose(6);
            let how = if alt == 0 { 0 } else { (inv + kinds) % 4 };
            let mut d = *c.pick(&DEADLINES);
            let dur = ms(d);
            macro_rules! inverted {
                ($i:expr) => {{
                    let mut i = $i;
                    match inv {
                        1 => i.set_invert_enabled(true),
                        2 => i = i.invert_enabled(true),
                        3 => i = i.inverted(),
                        _ => {}
                    }
                    same!(i.is_inverted(), inv > 0, "is inverted");
                    i
                }};
            }
            let created = mcrt::seq_get();
            let mut i: Box<dyn Switch> = match which {
                0 => {
                    let mut i = StaircaseTimer::new("i");
                    if d != DEADLINES[0] {
                        i = i.switch_off_after(dur);
                    }
                    same!(i.get_switch_off_after(), dur, "switches off after");
                    match inv {
                        1 => i.set_invert(true),
                        2 | 3 => i.enable_invert(),
                        _ => {}
                    }
                    same!(i.invert(), inv > 0, "is inverted");
                    Box::new(alternated!(i, alt, how))
                }
                1 => {
                    let mut i = OccurrenceIndicator::new("i");
                    if d != DEADLINES[0] {
                        i = i.if_happened_within(dur);
                    }
                    same!(i.get_if_happened_within(), dur, "within");
                    Box::new(inverted!(alternated!(i, alt, how)))
                }
                _ => {
                    let mut i = NonOccurrenceIndicator::new("i");
                    if d != DEADLINES[0] {
                        i = i.if_not_happened_within(dur);
                    }
                    same!(i.get_if_not_happened_within(), dur, "within");
                    Box::new(inverted!(alternated!(i, alt, how)))
                }
            };
            c.op(|| format!("{} ms, inverted in way {}, alternative name {} set in way {}", d, inv, alt, how));
            let mut last = if which == 2 { Some(created) } else { None };
            // what a new duration means for what happened before is left open
            let mut open = false;
            for step in 0..=depth {
                let recent = last.map(|l| mcrt::seq_get() - l < d * MS).unwrap_or(false);
                let on = if open { i.st() } else { (if which == 2 { !recent } else { recent }) != (inv > 0) };
                same!(i.st(), on, "state");
                same!(flat(&put_of(&*i, false)), switch_tree(Some(on), alt), "snapshot");
                c.state((d, inv > 0, alt, open, last.map(|l| mcrt::seq_get() - l)));
                if step == depth {
                    break;
                }
                let op = c.choose(6);
                if op < 4 {
                    c.op(|| format!("after {} ms", SWITCH_WAITS[op]));
                    pass(SWITCH_WAITS[op] * MS);
                } else if op == 5 {
                    d = DEADLINES[(d == DEADLINES[0]) as usize];
                    c.op(|| format!("{} ms from now on", d));
                    same!(i.retime(ms(d)), ms(d), "the new duration");
                    open = true;
                } else {
                    open = false;
                    let u = any_update(kinds);
                    c.op(|| format!("{:?}", u));
                    same!(i.update(&u), 1, "instruments updated");
                    last = Some(mcrt::seq_get());
                }
            }
            Ok(())
        });
    }
    ctx.seq("short and long durations", |c: &mut Case| -> R {
        let ts = times();
        let (limit, wait) = (*c.pick(&ts), *c.pick(&ts));
        let d = Duration::from_nanos(limit);
        let by_set = c.flip();
        let (mut a, mut b, mut n) = (StaircaseTimer::new("i"), OccurrenceIndicator::new("i"), NonOccurrenceIndicator::new("i"));
        c.op(|| format!("{} ns, {} ns after the update", limit, wait));
        if by_set {
            a.set_switch_off_after(d);
            b.set_if_happened_within(d);
            n.set_if_not_happened_within(d);
        } else {
            a = a.switch_off_after(d);
            b = b.if_happened_within(d);
            n = n.if_not_happened_within(d);
        }
        a.update(&u_one());
        b.update(&u_one());
        n.update(&u_one());
        pass(wait);
        if limit != wait {
            same!((a.state(), b.state(), n.state()), (wait < limit, wait < limit, wait > limit), "states");
        }
        c.state((limit, wait));
        Ok(())
    });
    for which in 0..3 {
        ctx.seq(["time passes while a staircase timer is shown", "time passes while an occurrence indicator is shown", "time passes while a non occurrence indicator is shown"][which], move |c: &mut Case| -> R {
            let alt = 1 + c.choose(3);
            let inv = c.flip();
            let mut i: Box<dyn Switch> = match which {
                0 => {
                    let mut i = alternated!(StaircaseTimer::new("i"), alt, 0);
                    i.set_invert(inv);
                    Box::new(i)
                }
                1 => {
                    let mut i = alternated!(OccurrenceIndicator::new("i"), alt, 0);
                    i.set_invert_enabled(inv);
                    Box::new(i)
                }
                _ => {
                    let mut i = alternated!(NonOccurrenceIndicator::new("i"), alt, 0);
                    i.set_invert_enabled(inv);
                    Box::new(i)
                }
            };
            let update = c.flip();
            let wait = *c.pick(&[0, 1, 58, 59, 60]);
            if update {
                i.update(&u_one());
            }
            pass(wait * SEC);
            let at = 1 + c.choose(6) as u32;
            let lag = *c.pick(&[1, 2, 59, 61]);
            c.op(|| format!("inverted {}, updated {}, after {} s, {} s pass before the clock is read for the {}. time", inv, update, wait, lag, at));
            let before = i.st();
            mcrt::seq_lag(at, lag * SEC);
            let s = put_of(&*i, false);
            let reached = mcrt::seq_lag_left() == 0;
            mcrt::seq_lag(0, 0);
            if !reached {
                return Ok(());
            }
            let after = i.st();
            let shown = match s.find("i") {
                FindItem::Found(ItemKind::Boolean(b)) => *b,
                x => return Err(format!("shows {:?}", x)),
            };
            ensure!(shown == before || shown == after, "shows {} which it never was", shown);
            same!(flat(&s), switch_tree(Some(shown), alt), "snapshot");
            c.state((alt, inv, before, after, shown));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C22
pub fn c22(ctx: &mut Ctx) {
    let depth = ctx.pickt(6, 7);
    ctx.seq("data display", move |c: &mut Case| -> R {
        let after = *c.pick(&[0, DEADLINES[0], DEADLINES[1]]);
        let reset = c.choose(3);
        let set = c.flip();
        let rv = [None, Some(ItemKind::Text("nothing".into())), Some(ItemKind::Int(0))][reset].clone();
        let mut i = DataDisplay::new("i");
        let d = ms(after);
        match (set, after > 0) {
            (true, true) => i.set_reset_after(d),
            (false, true) => i = i.reset_after(d),
            _ => {}
        }
        same!(i.get_reset_after(), if after > 0 { Some(d) } else { None }, "resets after");
        if let Some(v) = &rv {
            if set {
                i.set_reset_value(v.clone());
            } else {
                i = i.reset_value(v.clone());
            }
        }
        same!(i.get_reset_value(), rv.as_ref(), "reset value");
        c.op(|| format!("resets after {} ms to {:?}", after, rv));
        let mut want = rv.clone();
        let mut last = 0;
        for _ in 0..depth {
            if after > 0 && last > 0 && mcrt::seq_get() - last > after * MS {
                want = rv.clone();
            }
            same!(i.value(), want, "value");
            let s = put_of(&i, false);
            same!(s.find("i").opt().cloned(), want, "value in the snapshot");
            same!(s.items.len(), want.iter().count(), "items in the snapshot");
            c.state((after, reset, format!("{:?}", want), mcrt::seq_get() - last));
            let op = c.choose(10);
            match op {
                0..=3 => {
                    c.op(|| format!("after {} ms", SWITCH_WAITS[op]));
                    pass(SWITCH_WAITS[op] * MS);
                }
                4 | 5 => {
                    let u = if op == 4 { u_one() } else { u_val(Duration::from_secs(1)) };
                    c.op(|| format!("{:?}", u));
                    same!(i.update(&u), 0, "instruments updated");
                }
                _ => {
                    let (v, k): (ObservedValue, ItemKind) = match op {
                        6 => ((-5).into(), ItemKind::Int(-5)),
                        7 => (u64::MAX.into(), ItemKind::UInt(u64::MAX)),
                        8 => (2.5.into(), ItemKind::Float(2.5)),
                        _ => (true.into(), ItemKind::Boolean(true)),
                    };
                    c.op(|| format!("{:?}", v));
                    same!(i.update(&u_val(v)), 1, "instruments updated");
                    want = Some(k);
                    last = mcrt::seq_get();
                }
            }
        }
        Ok(())
    });
    ctx.seq("last occurrence tracker", move |c: &mut Case| -> R {
        let zero = c.choose(3);
        let kinds = c.choose(6);
        let mut i = LastOccurrenceTracker::new("i");
        match zero {
            1 => i.set_make_none_zero(true),
            2 => i = i.make_none_zero(true),
            _ => {}
        }
        same!(i.get_make_none_zero(), zero > 0, "none is shown as zero");
        let mut last: Option<u64> = None;
        for _ in 0..depth {
            let op = c.choose(5);
            if op < 4 {
                let ns = [300 * MS, 700 * MS, 7 * SEC, 3600 * SEC][op];
                c.op(|| format!("after {} ms", ns / MS));
                pass(ns);
            } else {
                let u = any_update(kinds);
                c.op(|| format!("{:?}", u));
                same!(i.update(&u), 1, "instruments updated");
                last = Some(mcrt::seq_get());
            }
            let s = put_of(&i, false);
            let want = match last {
                Some(l) => ((mcrt::seq_get() - l) / SEC) as i64,
                None if zero > 0 => 0,
                None => -1,
            };
            same!(num(&s, "i"), want, "seconds since the last occurrence");
            c.state((zero > 0, want));
        }
        Ok(())
    });
    ctx.seq("long ago", |c: &mut Case| -> R {
        let ts = times();
        let (limit, wait) = (*c.pick(&ts), *c.pick(&ts));
        let mut i = LastOccurrenceTracker::new("i");
        let mut d = DataDisplay::new("d").reset_after(Duration::from_nanos(limit)).reset_value("reset");
        let mut k = DataDisplay::new("k").reset_value("reset");
        c.op(|| format!("displays reset after {} ns, shown {} ns after the update", limit, wait));
        i.update(&u_one());
        d.update(&u_val(7));
        k.update(&u_val(7));
        pass(wait);
        same!(num(&put_of(&i, false), "i"), (wait / SEC) as i64, "seconds since the last occurrence");
        same!(k.value(), Some(ItemKind::Int(7)), "value of what is never reset");
        if wait != limit {
            let want = if wait > limit { ItemKind::Text("reset".into()) } else { ItemKind::Int(7) };
            same!(d.value(), Some(want.clone()), "value");
            same!(put_of(&d, false).find("d").opt().cloned(), Some(want), "value in the snapshot");
        }
        c.state((limit, wait));
        Ok(())
    });
    ctx.seq("constants and polling", |c: &mut Case| -> R {
        let k = c.choose(7);
        let v = match k {
            0 => ItemKind::Int(-3),
            1 => ItemKind::UInt(u64::MAX),
            2 => ItemKind::Float(0.5),
            3 => ItemKind::Boolean(false),
            4 => ItemKind::Text("x".into()),
            5 => ItemKind::Snapshot(Snapshot::default()),
            _ => ItemKind::Snapshot(Snapshot { items: vec![("a".into(), ItemKind::Int(1))] }),
        };
        let i = ConstantValue::new("i", v.clone());
        let n = c.choose(3);
        let grouped = c.flip();
        c.op(|| format!("constant {:?}; polled {} times, grouped {}", v, n, grouped));
        let polls = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let p2 = polls.clone();
        let mut p = PollingInstrument::new_with_defaults("p", Handler::new(|_| 0).putting(move |s: &mut Snapshot, d: bool| {
            let n = p2.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as u64;
            s.push("n", n);
            s.push("d", d);
        }));
        p.set_create_group_with_name(grouped);
        for round in 0..n as u64 + 1 {
            let descriptive = round % 2 == 1;
            let s = put_of(&i, descriptive);
            same!(s, Snapshot { items: vec![("i".into(), v.clone())] }, "the constant");
            let at = if grouped { "p/" } else { "" };
            let mut want: Tree = [(format!("{}n", at), format!("u{}", round)), (format!("{}d", at), format!("b{}", descriptive))].into_iter().collect();
            if grouped {
                want.insert("p".into(), "{}".into());
            }
            same!(flat(&put_of(&p, descriptive)), want, "polled");
            pass(SEC);
        }
        same!(polls.load(std::sync::atomic::Ordering::SeqCst), n + 1, "polls");
        Ok(())
    });
}
