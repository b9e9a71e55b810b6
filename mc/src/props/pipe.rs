//! Processors, mounts, cockpits, panels, filters: every sequence of operations
//! up to a depth and every configuration, against a reference model.
use super::util::*;
use crate::fw::{Case, Ctx, R};
use crate::{ensure, same};
use inst::*;
use mcrt::fair_wait;
use metrix::cockpit::Cockpit;
use metrix::instruments::switches::*;
use metrix::instruments::other_instruments::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Outcome = (usize, usize, usize, usize);
fn o(p: ProcessingOutcome) -> Outcome {
    (p.processed, p.dropped, p.instruments_updated, p.observations_enqueued)
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Copy, Hash, Debug)]
enum Msg {
    Plain,
    Val,
    Other,
    Delta,
    AddHandler,
    AddCockpit,
}
#[derive(Clone, Hash)]
struct QModel {
    q: std::collections::VecDeque<Msg>,
    cap: usize,
    handlers: usize,
    panels: usize,
}
impl QModel {
    fn process(&mut self, max: usize, drop_all: bool) -> Outcome {
        let mut r = (0, 0, 0, 0);
        for _ in 0..max {
            let m = match self.q.pop_front() {
                None => break,
                Some(m) => m,
            };
            match m {
                Msg::AddHandler => {
                    self.handlers += 1;
                    r.0 += 1
                }
                Msg::AddCockpit => {
                    self.panels += 1;
                    r.0 += 1
                }
                _ if drop_all => r.1 += 1,
                m => {
                    r.0 += 1;
                    r.2 += 3 * self.handlers;
                    r.2 += self.panels
                        * match m {
                            Msg::Plain => 1,
                            Msg::Val | Msg::Delta => 2,
                            _ => 0,
                        };
                }
            }
        }
        r.3 = self.q.len();
        r
    }
}
fn two_instruments() -> Cockpit<inst::L> {
    // a nameless cockpit, so that any number of them can coexist
    let mut c = Cockpit::without_name();
    c.add_panel(Panel::new(A).counter(Counter::new("n")).gauge(Gauge::new("g")));
    c
}
fn say(tx: &Tx, m: Msg) {
    match m {
        Msg::Plain => one(tx, A),
        Msg::Val => value(tx, A, 5),
        Msg::Other => value(tx, C, 5),
        Msg::Delta => {
            tx.observed_one_value_now(A, Increment);
        }
        Msg::AddHandler => tx_add_handler(tx, Handler::new(|_| 3)),
        Msg::AddCockpit => tx_add_cockpit(tx, two_instruments()),
    }
}
fn strategy(i: usize) -> ProcessingStrategy {
    match i {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(30), drop_deltas: true },
    }
}
pub fn c08(ctx: &mut Ctx) {
    let depth = ctx.pickt(5, 7);
    for (name, cap) in [("one processor", usize::MAX), ("one processor, bounded", 2)] {
        ctx.seq(name, move |c: &mut Case| -> R {
            let (tx, mut p) = if cap == usize::MAX { pair("p") } else { bounded("p", cap, false) };
            let mut tx = Some(tx);
            cockpit_on(&mut p, two_instruments());
            let mut m = QModel { q: Default::default(), cap, handlers: 0, panels: 1 };
            for _ in 0..depth {
                let op = c.choose(if tx.is_some() { 11 } else { 4 });
                if op < 4 {
                    let max = [1, 2, 1000, 1000][op];
                    let s = strategy([0, 0, 2, 1][op]);
                    c.op(|| format!("process at most {} with {:?}", max, s));
                    let got = o(process(&mut p, max, s));
                    let want = m.process(max, op == 3);
                    same!(got, want, "processed, dropped, instruments updated, still enqueued");
                } else if op == 10 {
                    c.op(|| "drop the transmitter".into());
                    tx = None;
                } else {
                    let x = [Msg::Plain, Msg::Val, Msg::Other, Msg::Delta, Msg::AddHandler, Msg::AddCockpit][op - 4];
                    c.op(|| format!("send {:?}", x));
                    say(tx.as_ref().unwrap(), x);
                    if m.q.len() < m.cap {
                        m.q.push_back(x);
                    }
                }
                c.state(&m);
            }
            let got = o(process(&mut p, 1000, ProcessingStrategy::ProcessAll));
            let want = m.process(1000, false);
            same!(got, want, "the rest: processed, dropped, instruments updated, still enqueued");
            Ok(())
        });
    }
    let depth = ctx.pickt(6, 7);
    ctx.seq("mounts add up their processors", move |c: &mut Case| -> R {
        let ps: Vec<(Tx, Proc)> = (0..3).map(|i| pair(["p", "q", "r"][i])).collect();
        let mut it = ps.into_iter();
        let (t0, mut p0) = it.next().unwrap();
        let (t1, mut p1) = it.next().unwrap();
        let (t2, mut p2) = it.next().unwrap();
        for p in [&mut p0, &mut p1, &mut p2] {
            cockpit_on(p, two_instruments());
        }
        let mut inner = ProcessorMount::new("inner");
        add_to_mount(&mut inner, p1);
        let mut outer = ProcessorMount::new("outer");
        add_to_mount(&mut outer, p0);
        outer.add_processor(inner);
        let am = outer.attached_mount(ProcessorMount::new("attached"));
        add_to_attached(&am, p2);
        let mut ms: Vec<QModel> =
            (0..3).map(|_| QModel { q: Default::default(), cap: usize::MAX, handlers: 0, panels: 1 }).collect();
        let t = [t0, t1, t2];
        for _ in 0..depth {
            let op = c.choose(9);
            if op < 3 {
                let max = [1, 2, 1000][op];
                let s = strategy([0, 1, 0][op]);
                c.op(|| format!("process at most {} with {:?}", max, s));
                let got = o(outer.process(max, s));
                let mut want = (0, 0, 0, 0);
                for m in &mut ms {
                    let r = m.process(max, op == 1);
                    want = (want.0 + r.0, want.1 + r.1, want.2 + r.2, want.3 + r.3);
                }
                same!(got, want, "processed, dropped, instruments updated, still enqueued");
            } else {
                let i = (op - 3) / 2;
                let x = [Msg::Val, Msg::Other][(op - 3) % 2];
                c.op(|| format!("send {:?} to {}", x, i));
                say(&t[i], x);
                ms[i].q.push_back(x);
            }
            c.state(&ms);
        }
        Ok(())
    });
    let depth = ctx.pickt(5, 6);
    super::conc::c08_meanwhile(ctx);
    ctx.seq("handlers which transmit", move |c: &mut Case| -> R {
        // p is before q in a mount; who handles n transmits n more of n - 1
        let other = c.flip();
        let mut m = ProcessorMount::new("m");
        let (t, mut p) = pair("p");
        let (u, mut q) = pair("q");
        let seen: Arc<Mutex<Vec<(usize, i64)>>> = Default::default();
        for (k, r, to) in [(0, &mut p, if other { &u } else { &t }), (1, &mut q, if other { &t } else { &u })] {
            let (seen, to) = (seen.clone(), clone_tx(to));
            handler_on(r, Handler::new(move |ob| {
                let Observation::ObservedOneValue { value: ObservedValue::SignedInteger(n), .. } = ob else { return 0 };
                seen.lock().unwrap().push((k, *n));
                (0..*n).for_each(|_| value(&to, A, n - 1));
                1
            }));
        }
        add_to_mount(&mut m, p);
        add_to_mount(&mut m, q);
        let mut queues = [std::collections::VecDeque::new(), std::collections::VecDeque::new()];
        let mut want = vec![];
        for step in 0..=depth {
            let op = if step == depth { 6 } else { c.choose(7) };
            match op {
                0..=3 => {
                    let (k, n) = ([0, 0, 1, 1][op], [1, 3, 0, 2][op]);
                    c.op(|| format!("{} to {}", n, ["p", "q"][k]));
                    value([&t, &u][k], A, n);
                    queues[k].push_back(n);
                }
                _ => {
                    let max = [1, 3, 1000][op - 4];
                    c.op(|| format!("process at most {}", max));
                    let got = o(m.process(max, ProcessingStrategy::ProcessAll));
                    let (mut n, mut left) = (0, 0);
                    for k in 0..2 {
                        for _ in 0..max {
                            let Some(x) = queues[k].pop_front() else { break };
                            n += 1;
                            want.push((k, x));
                            let to = if other { 1 - k } else { k };
                            (0..x).for_each(|_| queues[to].push_back(x - 1));
                        }
                        left += queues[k].len();
                    }
                    same!(got, (n, 0, n, left), "processed, dropped, instruments updated, still enqueued");
                    same!(*seen.lock().unwrap(), want, "handled, in order");
                }
            }
            same!((t.queue_size(), u.queue_size()), (queues[0].len(), queues[1].len()), "queued");
            c.state((other, &queues, want.len()));
        }
        Ok(())
    });
    ctx.seq("handlers which update any number of instruments", |c: &mut Case| -> R {
        const N: [usize; 7] = [0, 1, 2, 1_000, 100_000, u32::MAX as usize + 1, 1_000_000_000_000_007];
        let n: Vec<usize> = (0..3).map(|_| *c.pick(&N)).collect();
        let max = *c.pick(&[1, 2, 1000]);
        let mounted = c.choose(3);
        c.op(|| format!("{:?} at most {} at a time, mounted {}", n, max, mounted));
        let seen: Arc<Mutex<Vec<usize>>> = Default::default();
        let h = |i: usize| {
            let (s, n) = (seen.clone(), n[i]);
            Handler::new(move |_| {
                s.lock().unwrap().push(i);
                n
            })
        };
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, Cockpit::without_name().panel(Panel::new(A).handler(h(0))));
        handler_on(&mut p, h(1));
        handler_on(&mut p, h(2));
        for _ in 0..3 {
            one(&tx, A);
        }
        let sum: usize = n.iter().sum();
        let mut m = ProcessorMount::default();
        let mut p = Some(p);
        if mounted > 0 {
            let p = p.take().unwrap();
            if mounted == 1 {
                add_to_mount(&mut m, p);
            } else {
                let am = m.attached_mount(ProcessorMount::new("a"));
                add_to_attached(&am, p);
            }
        }
        let mut left = 3;
        for _ in 0..4 {
            let now = left.min(max);
            left -= now;
            let got = o(match &mut p {
                Some(p) => process(p, max, ProcessingStrategy::ProcessAll),
                None => m.process(max, ProcessingStrategy::ProcessAll),
            });
            same!(got, (now, 0, now * sum, left), "processed, dropped, instruments updated, still enqueued");
            let mut s = std::mem::take(&mut *seen.lock().unwrap());
            s.sort_unstable();
            let want: Vec<usize> = (0..3).flat_map(|i| vec![i; now]).collect();
            same!(s, want, "handlers reached");
        }
        Ok(())
    });
    ctx.seq("combining outcomes", |c: &mut Case| -> R {
        let v: Vec<usize> = (0..8).map(|_| c.choose(3)).collect();
        let f = |v: &[usize]| ProcessingOutcome {
            processed: v[0],
            dropped: v[1] * 10,
            instruments_updated: v[2] * 100,
            observations_enqueued: v[3] * 1000,
        };
        let mut a = f(&v[..4]);
        c.step();
        same!(a.something_happened(), v[0] + v[1] > 0, "something happened in {:?}", v);
        a.combine_with(&f(&v[4..]));
        same!(
            o(a),
            (v[0] + v[4], (v[1] + v[5]) * 10, (v[2] + v[6]) * 100, (v[3] + v[7]) * 1000),
            "combined"
        );
        Ok(())
    });
    super::sizes::c08(ctx);
}

// ---------------------------------------------------------------- C11
/// which labels a filter of the configuration accepts
fn filter(i: usize) -> (LabelFilter<inst::L>, [bool; 3]) {
    match i {
        0 => (A.into(), [true, false, false]),
        1 => (AcceptAllLabels.into(), [true, true, true]),
        2 => (vec![A, B].into(), [true, true, false]),
        3 => (LabelPredicate(|l: &inst::L| *l == B).into(), [false, true, false]),
        _ => (AcceptNoLabel.into(), [false, false, false]),
    }
}
const KIND: [&str; 4] = ["one", "three", "value", "bool"];
fn obs(l: inst::L, kind: usize) -> Observation<inst::L> {
    match kind {
        0 => Observation::observed_one_now(l),
        1 => Observation::observed_now(l, 3),
        2 => Observation::observed_one_value_now(l, 7),
        _ => Observation::observed_one_value_now(l, true),
    }
}
fn label(i: usize) -> inst::L {
    [A, B, C][i]
}
#[derive(Default, Clone, Debug, PartialEq, Eq, Hash)]
struct Counts {
    counter: u64,
    gauge: bool,
    meter: u64,
    histogram: u64,
    flag: Option<bool>,
    handler: u64,
}
fn panel_with(f: LabelFilter<inst::L>, name: &str, inst_f: usize) -> Panel<inst::L> {
    let mut p = Panel::named(f, name);
    p.add_counter(Counter::new("counter").accept(filter(inst_f).0));
    p.add_counter(Counter::new("counter2").accept(filter(inst_f).0));
    p.add_gauge(Gauge::new("gauge").accept(filter(inst_f).0));
    p.add_meter(Meter::new("meter").accept(filter(inst_f).0));
    p.add_histogram(Histogram::new("histogram").accept(filter(inst_f).0));
    p.add_handler(Flag::new("flag").accept(filter(inst_f).0));
    p
}
fn feed(m: &mut Counts, acc: bool, kind: usize) -> usize {
    if !acc {
        return 0;
    }
    let n = if kind == 1 { 3 } else { 1 };
    m.counter += n;
    m.meter += n;
    let mut r = 3; // two counters and a meter
    if kind == 2 {
        m.gauge = true;
        m.histogram += 1;
        m.flag = Some(true);
        r += 3;
    }
    if kind == 3 {
        m.flag = Some(true);
        r += 1;
    }
    r
}
fn counts(s: &Snapshot, at: &str) -> Result<Counts, String> {
    let n = |k: &str| num(s, &format!("{}/{}", at, k));
    same!(n("counter2"), n("counter"), "the second counter in {}", at);
    Ok(Counts {
        counter: n("counter") as u64,
        gauge: n("gauge") == 7,
        meter: n("meter/count") as u64,
        histogram: n("histogram/count") as u64,
        flag: match s.find(&format!("{}/flag", at)) {
            FindItem::Found(ItemKind::Boolean(b)) => Some(*b),
            _ => None,
        },
        handler: 0,
    })
}
pub fn c11(ctx: &mut Ctx) {
    let depth = ctx.pickt(1, 2);
    ctx.seq("panels in panels", move |c: &mut Case| -> R {
        let fo = c.choose(5);
        let fi = c.choose(5);
        let fin = c.choose(5);
        let fout = c.choose(3);
        let inner = panel_with(filter(fi).0, "inner", fin);
        let outer = panel_with(filter(fo).0, "outer", fout).panel(inner);
        let mut cp = Cockpit::new("c");
        cp.add_panel(outer);
        let hits = Arc::new(Mutex::new(vec![]));
        let h2 = hits.clone();
        cp.add_handler(Handler::new(move |ob| {
            h2.lock().unwrap().push(*ob.label());
            11
        }));
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, cp);
        let direct = c.flip();
        let (mut mo, mut mi) = (Counts::default(), Counts::default());
        let mut labels = vec![];
        for _ in 0..depth + 1 {
            let l = c.choose(3);
            let k = c.choose(4);
            c.op(|| format!("outer filter {} inner {} instruments {} {}: {} of {:?}", fo, fi, fout, fin, KIND[k], label(l)));
            let mut want = 11;
            if filter(fo).1[l] {
                let gb = mo.gauge;
                want += feed(&mut mo, filter(fout).1[l], k);
                if k == 3 && filter(fout).1[l] {
                    // an observation with a value always updates a gauge's slot
                    mo.gauge = gb;
                }
                if filter(fi).1[l] {
                    want += feed(&mut mi, filter(fin).1[l], k);
                }
            }
            labels.push(label(l));
            transmit(&tx, obs(label(l), k));
            if direct {
                let r = process(&mut p, 10, ProcessingStrategy::ProcessAll);
                if k != 3 {
                    same!(r.instruments_updated, want, "instruments updated");
                }
            }
        }
        process(&mut p, 10, ProcessingStrategy::ProcessAll);
        let s = put(&p, false);
        same!(counts(&s, "p/c/outer")?, mo, "instruments in the outer panel");
        same!(counts(&s, "p/c/outer/inner")?, mi, "instruments in the inner panel");
        same!(*hits.lock().unwrap(), labels, "observations passed to the cockpit's handler");
        c.state((mo, mi));
        Ok(())
    });
    let depth = ctx.pickt(3, 4);
    ctx.seq("handlers and panels side by side", move |c: &mut Case| -> R {
        // every place a handler can be, each must see what it should exactly once, in order
        let log: Arc<Mutex<Vec<(u8, usize)>>> = Default::default();
        // what handlers say they have updated
        let scale = *c.pick(&[1, 0, 1_000_000_007]);
        let rec = |id: u8| {
            let l = log.clone();
            Handler::new(move |ob| {
                let v = match ob {
                    Observation::ObservedOneValue { value, .. } => value.convert_to_u64().unwrap_or(99) as usize,
                    _ => 98,
                };
                l.lock().unwrap().push((id, v));
                id as usize * scale
            })
        };
        let two = c.flip();
        let mut c1 = Cockpit::new("c1");
        c1.add_handler(rec(1));
        c1.add_panel(Panel::named(A, "x").handler(rec(2)));
        c1.add_panel(Panel::named((A, B), "y").handler(rec(3)).panel(Panel::named(B, "z").handler(rec(4))));
        c1.add_panel(Panel::accept_all().handler(rec(5)));
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, c1);
        if two {
            let mut c2 = Cockpit::without_name();
            c2.add_panel(Panel::named(C, "w").handler(rec(6)));
            c2.add_handler(rec(7));
            cockpit_on(&mut p, c2);
        }
        handler_on(&mut p, rec(8));
        handler_on(&mut p, rec(9));
        let mut want: std::collections::BTreeMap<u8, Vec<usize>> = Default::default();
        let mut updated = 0;
        for i in 0..depth {
            let l = c.choose(3);
            c.op(|| format!("value {} of {:?}", i, label(l)));
            value(&tx, label(l), i as i64);
            let to: &[u8] = match (l, two) {
                (0, false) => &[1, 2, 3, 5, 8, 9],
                (1, false) => &[1, 3, 4, 5, 8, 9],
                (_, false) => &[1, 5, 8, 9],
                (0, true) => &[1, 2, 3, 5, 7, 8, 9],
                (1, true) => &[1, 3, 4, 5, 7, 8, 9],
                (_, true) => &[1, 5, 6, 7, 8, 9],
            };
            for t in to {
                want.entry(*t).or_default().push(i as usize);
                updated += *t as usize * scale;
            }
        }
        let r = process(&mut p, 10, ProcessingStrategy::ProcessAll);
        same!(r.instruments_updated, updated, "instruments updated");
        let mut got: std::collections::BTreeMap<u8, Vec<usize>> = Default::default();
        for (h, v) in log.lock().unwrap().iter() {
            got.entry(*h).or_default().push(*v);
        }
        same!(got, want, "what each handler saw");
        c.state(&want);
        Ok(())
    });
    ctx.seq("modified updates", |c: &mut Case| -> R {
        // modify_with sees exactly the accepted updates and the instrument sees what it returns
        let f = c.choose(5);
        let how = c.choose(3);
        let seen = Arc::new(Mutex::new(vec![]));
        let s2 = seen.clone();
        let mut a = Counter::new("n").accept(filter(f).0).modify_with(move |l: &inst::L, u: Update| {
            s2.lock().unwrap().push(*l);
            match (how, u) {
                (0, u) => u,
                (1, Update::Observation(t)) => Update::Observations(10, t),
                (1, Update::Observations(n, t)) => Update::Observations(n * 10, t),
                (1, Update::ObservationWithValue(v, t)) => Update::Observations(v.convert_to_u64().unwrap_or(100), t),
                (_, Update::Observations(_, t)) => Update::Observation(t),
                (_, u) => u,
            }
        });
        let mut want = 0;
        let mut labels = vec![];
        for _ in 0..3 {
            let l = c.choose(3);
            let k = c.choose(3);
            c.op(|| format!("filter {} modifier {}: {} of {:?}", f, how, KIND[k], label(l)));
            let r = a.handle_observation(&obs(label(l), k));
            if filter(f).1[l] {
                labels.push(label(l));
                want += [[1, 3, 1], [10, 30, 7], [1, 1, 1]][how][k];
            }
            same!(r, filter(f).1[l] as usize, "instruments updated");
        }
        same!(a.instrument().get(), want, "count");
        same!(*seen.lock().unwrap(), labels, "labels the modifier saw");
        c.state((f, how, want));
        Ok(())
    });
    ctx.seq("a tree of panels", |c: &mut Case| -> R {
        // every panel has a handler, an instrument without an adapter and a counter;
        // brothers overlap, and what one returns must not matter to the others
        let log: Arc<Mutex<Vec<usize>>> = Default::default();
        // what a handler says it has updated: nothing, a few, very many
        let said = c.choose(3);
        let says = move |id: usize| [0, id + 1, 1_000_000_000 * (id + 1)][said];
        let via = c.choose(2);
        let f: Vec<usize> = (0..4).map(|_| [0, 1, 3][c.choose(3)]).collect();
        let node = |id: usize, filter_of: usize| -> Panel<inst::L> {
            let l = log.clone();
            let mut p = match (via, filter_of) {
                (0, _) => Panel::named(filter(filter_of).0, format!("p{}", id)),
                (_, 1) => Panel::accept_all_named(format!("p{}", id)),
                (_, _) => Panel::accept_named(filter(filter_of).0, format!("p{}", id)),
            };
            p.add_handler(Handler::new(move |_| {
                l.lock().unwrap().push(id);
                says(id)
            }));
            let direct = Seen2(log.clone(), 100 + id);
            if via == 0 {
                p.add_instrument(direct);
                p.counter(Counter::new("n"))
            } else {
                p.counter(Counter::new("n")).instrument(direct)
            }
        };
        // p0 [p1 [p3], p2]
        let tree = node(0, f[0]).panel(node(1, f[1]).panel(node(3, f[3]))).panel(node(2, f[2]));
        let (tx, mut p) = pair("p");
        let mut k = Cockpit::without_name();
        k.add_panel(tree);
        cockpit_on(&mut p, k);
        let mut n = [0i64; 4];
        for _ in 0..2 {
            let l = c.choose(3);
            c.op(|| format!("filters {:?}, handlers return {}: {:?}", f, says(0), label(l)));
            let ok = |i: usize| filter(f[i]).1[l];
            let reached = [ok(0), ok(0) && ok(1), ok(0) && ok(2), ok(0) && ok(1) && ok(3)];
            one(&tx, label(l));
            let r = process(&mut p, 10, ProcessingStrategy::ProcessAll);
            let mut want = vec![];
            let mut updated = 0;
            for i in 0..4 {
                if reached[i] {
                    n[i] += 1;
                    want.extend([i, 100 + i]);
                    updated += 1 + says(i) + 7;
                }
            }
            want.sort_unstable();
            let mut got = std::mem::take(&mut *log.lock().unwrap());
            got.sort_unstable();
            same!(got, want, "handlers and instruments reached");
            same!(r.instruments_updated, updated, "instruments updated");
        }
        let s = put(&p, false);
        for i in 0..4 {
            same!(num(&s, ["p/p0/n", "p/p0/p1/n", "p/p0/p2/n", "p/p0/p1/p3/n"][i]), n[i], "count in panel {}", i);
        }
        c.state((f, n));
        Ok(())
    });
    let n = ctx.pickt(3usize, 4);
    ctx.seq("instruments of a panel", move |c: &mut Case| -> R {
        // any number of each kind of instrument, in any order, some for other labels
        let mut panel = Panel::accept_all_named("x");
        let mut is = vec![];
        for id in 0..n {
            let kind = c.choose(4);
            let adding = c.flip();
            let for_a = c.choose(3);
            macro_rules! put_in {
                ($i:expr, $A:ident, $add:ident, $with:ident) => {{
                    let i = $i;
                    match (for_a, adding) {
                        (0, true) => panel.$add(i),
                        (0, false) => panel = panel.$with(i),
                        (1, true) => panel.$add($A::for_label(A, i)),
                        (1, false) => panel = panel.$with($A::for_label(A, i)),
                        (_, true) => panel.$add($A::for_label(B, i)),
                        (_, false) => panel = panel.$with($A::for_label(B, i)),
                    }
                }};
            }
            let name = format!("i{}", id);
            match kind {
                0 => put_in!(Counter::new_with_defaults(name), InstrumentAdapter, add_counter, counter),
                1 => put_in!(Gauge::new_with_defaults(name), GaugeAdapter, add_gauge, gauge),
                2 => put_in!(Meter::new_with_defaults(name), InstrumentAdapter, add_meter, meter),
                _ => put_in!(Histogram::new_with_defaults(name), InstrumentAdapter, add_histogram, histogram),
            }
            is.push((kind, for_a));
            c.op(|| format!("{} {} {}", if adding { "add" } else { "with" }, ["counter", "gauge", "meter", "histogram"][kind], ["for all", "for A", "for B"][for_a]));
        }
        let (tx, mut p) = pair_nn();
        cockpit_on(&mut p, if c.flip() {
            Cockpit::without_name().panel(panel)
        } else {
            let mut k = Cockpit::without_name();
            k.add_panel(panel);
            k
        });
        for (l, v) in [(A, 3i64), (A, 3), (B, 4)] {
            value(&tx, l, v);
            let r = process(&mut p, 10, ProcessingStrategy::ProcessAll);
            let want = is.iter().filter(|(_, f)| *f == 0 || (*f == 1) == (l == A)).count() as u64;
            same!(r.instruments_updated as u64, want, "instruments updated by {:?}", l);
        }
        let s = put(&p, false);
        for (id, (kind, f)) in is.iter().enumerate() {
            let (n, last) = [(3, 4), (2, 3), (1, 4)][*f];
            let (at, want) = match kind {
                0 => (format!("x/i{}", id), n),
                1 => (format!("x/i{}", id), last),
                _ => (format!("x/i{}/count", id), n),
            };
            same!(num(&s, &at), want, "{}", at);
        }
        c.state(is);
        Ok(())
    });
    ctx.seq("each update modified once", |c: &mut Case| -> R {
        // every kind of update, modified into every kind of update
        fn update(k: usize, at: Instant, n: i64) -> Update {
            match k {
                0 => Update::Observation(at),
                1 => Update::Observations(2 + n as u64, at),
                2 => Update::ObservationWithValue(ObservedValue::SignedInteger(-5 - n), at),
                3 => Update::ObservationWithValue(ObservedValue::UnsignedInteger(5 + n as u64), at),
                4 => Update::ObservationWithValue(ObservedValue::Float(0.5 + n as f64), at),
                5 => Update::ObservationWithValue(ObservedValue::Bool(n % 2 == 0), at),
                6 => Update::ObservationWithValue(ObservedValue::ChangedBy(3 + n), at),
                _ => Update::ObservationWithValue(ObservedValue::Duration(9 + n as u64, TimeUnit::Milliseconds), at),
            }
        }
        let f = c.choose(5);
        let to = c.choose(9);
        let modify = to > 0;
        let calls: Arc<Mutex<Vec<(inst::L, String)>>> = Default::default();
        let got: Arc<Mutex<Vec<String>>> = Default::default();
        let base = Instant::now();
        let later = base + Duration::from_secs(3);
        let c2 = calls.clone();
        let mut a: InstrumentAdapter<inst::L, Seen3> = InstrumentAdapter::accept(filter(f).0, Seen3(got.clone()));
        if modify {
            a = a.modify_with(move |l: &inst::L, u: Update| {
                let mut c = c2.lock().unwrap();
                c.push((*l, format!("{:?}", u)));
                update(to - 1, later, c.len() as i64)
            });
        }
        let deep = c.flip();
        let mut direct = None;
        let mut panel = None;
        if deep {
            panel = Some(Panel::accept_all().panel(Panel::accept_all().handler(a)));
        } else {
            direct = Some(a);
        }
        let mut want_calls = vec![];
        let mut want = vec![];
        for i in 0..2 {
            let l = c.choose(3);
            let k = c.choose(8);
            let at = base - Duration::from_secs(i);
            let u = update(k, at, i as i64 * 10);
            let ob = match u {
                Update::Observation(t) => Observation::observed_one(label(l), t),
                Update::Observations(n, t) => Observation::observed(label(l), n, t),
                Update::ObservationWithValue(v, t) => Observation::observed_one_value(label(l), v, t),
            };
            c.op(|| format!("filter {}, made into kind {}, {:?}", f, to as i64 - 1, ob));
            match (&mut direct, &mut panel) {
                (Some(a), _) => a.handle_observation(&ob),
                (_, Some(p)) => p.handle_observation(&ob),
                _ => unreachable!(),
            };
            if filter(f).1[l] {
                if modify {
                    want_calls.push((label(l), format!("{:?}", u)));
                    want.push(format!("{:?}", update(to - 1, later, want_calls.len() as i64)));
                } else {
                    want.push(format!("{:?}", u));
                }
            }
        }
        same!(*calls.lock().unwrap(), want_calls, "what was to be modified");
        same!(*got.lock().unwrap(), want, "what arrived");
        c.state((f, to));
        Ok(())
    });
    ctx.seq("updates arrive as they were observed", |c: &mut Case| -> R {
        let got: Arc<Mutex<Vec<String>>> = Default::default();
        let what = whats();
        let x = what[c.choose(what.len())];
        let back = *c.pick(&[0, 1, 86_400]);
        let at = Instant::now() - Duration::from_secs(back);
        let how = c.choose(4);
        let n = c.choose(3);
        let ob = x.observation(A, at);
        c.op(|| format!("{:?}, {} times, way {}", ob, n + 1, how));
        let i = Seen3(got.clone());
        let mut to: Box<dyn HandlesObservations<Label = inst::L>> = match how {
            0 => Box::new(InstrumentAdapter::new(i)),
            1 => Box::new(Panel::new(A).instrument(i)),
            2 => Box::new(Panel::accept_all().panel(Panel::new((A, B)).handler(InstrumentAdapter::for_label(A, i)))),
            _ => Box::new(Cockpit::without_name().panel(Panel::new(A).instrument(i))),
        };
        for _ in 0..=n {
            same!(to.handle_observation(&ob), 1, "instruments updated");
        }
        let want = vec![format!("{:?}", x.update(at)); n + 1];
        same!(*got.lock().unwrap(), want, "what arrived");
        same!(
            format!("{:?}", x.update(at).observed_value()),
            format!("{:?}", match x { What::Value(ref v) => Some(v), _ => None }),
            "value of {:?}", x
        );
        // split into parts
        let BorrowedLabelAndUpdate(l, u) = (&ob).into();
        same!((*l, format!("{:?}", u)), (A, want[0].clone()), "parts of {:?}", ob);
        let LabelAndUpdate(l, u) = ob.into();
        same!((l, format!("{:?}", u)), (A, want[0].clone()), "parts of the observation");
        Ok(())
    });
    super::sizes::c11(ctx);
}

/// what can be observed: counts and values of every kind and size
#[derive(Clone, Copy, Debug)]
enum What {
    One,
    Many(u64),
    Value(ObservedValue),
}
impl What {
    fn observation(self, l: inst::L, at: Instant) -> Observation<inst::L> {
        match self {
            What::One => Observation::ObservedOne { label: l, timestamp: at },
            What::Many(count) => Observation::Observed { label: l, count, timestamp: at },
            What::Value(value) => Observation::ObservedOneValue { label: l, value, timestamp: at },
        }
    }
    fn update(self, at: Instant) -> Update {
        match self {
            What::One => Update::Observation(at),
            What::Many(n) => Update::Observations(n, at),
            What::Value(v) => Update::ObservationWithValue(v, at),
        }
    }
}
const COUNTS28: [u64; 14] = [0, 1, 2, 3, 9, 10, 100, 255, 256, 65_536, u32::MAX as u64, 1 << 32, i64::MAX as u64 + 1, u64::MAX];
fn whats() -> Vec<What> {
    use ObservedValue::*;
    let mut v = vec![What::One];
    v.extend(COUNTS28.map(What::Many));
    for n in COUNTS28 {
        v.push(What::Value(UnsignedInteger(n)));
        for u in [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds] {
            v.push(What::Value(Duration(n, u)));
        }
    }
    for n in [0, 1, -1, 2, -2, 100, -100, i32::MIN as i64 - 1, i64::MAX, i64::MIN] {
        v.push(What::Value(SignedInteger(n)));
        v.push(What::Value(ChangedBy(n)));
    }
    for x in [0.0, -0.0, 0.1, -1.5, 1e300, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push(What::Value(Float(x)));
    }
    v.push(What::Value(Bool(true)));
    v.push(What::Value(Bool(false)));
    v
}
/// an instrument of someone else's
struct Seen2(Arc<Mutex<Vec<usize>>>, usize);
impl Updates for Seen2 {
    fn update(&mut self, _: &Update) -> usize {
        self.0.lock().unwrap().push(self.1);
        7
    }
}
impl PutsSnapshot for Seen2 {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("direct", self.1 as u64);
    }
}
impl Instrument for Seen2 {}
struct Seen3(Arc<Mutex<Vec<String>>>);
impl Updates for Seen3 {
    fn update(&mut self, u: &Update) -> usize {
        self.0.lock().unwrap().push(format!("{:?}", u));
        1
    }
}
impl PutsSnapshot for Seen3 {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl Instrument for Seen3 {}

// ---------------------------------------------------------------- C12
pub fn c12(ctx: &mut Ctx) {
    let n = ctx.pickt(8usize, 10);
    ctx.seq("labels added one after another", move |c: &mut Case| -> R {
        // labels up to renaming: each is new or repeats one seen before
        let start = c.choose(9);
        let mut set: Vec<u8> = vec![];
        let mut all = false;
        let mut even = false;
        let mut next = 0u8;
        let take = |k: usize, set: &mut Vec<u8>, next: &mut u8| -> Vec<u8> {
            let v: Vec<u8> = (0..k).map(|i| *next + i as u8).collect();
            *next += k as u8;
            set.extend(&v);
            v
        };
        let mut f: LabelFilter<u8> = match start {
            0 => LabelFilter::accept_none(),
            1 => LabelFilter::new(take(1, &mut set, &mut next)[0]),
            2 => {
                all = true;
                LabelFilter::accept_all()
            }
            3 => {
                all = true;
                LabelFilter::default()
            }
            4 => {
                even = true;
                LabelFilter::predicate(|l: &u8| *l % 2 == 0)
            }
            5 => {
                let v = take(2, &mut set, &mut next);
                (v[0], v[1]).into()
            }
            6 => {
                let v = take(5, &mut set, &mut next);
                (v[0], v[1], v[2], v[3], v[4]).into()
            }
            7 => take(7, &mut set, &mut next).into(),
            _ => take(4, &mut set, &mut next).into(),
        };
        let k = n.min(if start >= 6 { 4 } else { 99 });
        for i in 0..=k {
            for l in 0..20u8 {
                let want = all || set.contains(&l) || (even && l % 2 == 0);
                same!(f.accepts(&l), want, "label {} with {:?} accepted (all: {}, even: {})", l, set, all, even);
            }
            c.state((all, even, &set));
            if i == k {
                break;
            }
            let r = c.choose(next as usize + 1);
            let l = if r == next as usize {
                next += 1;
                next - 1
            } else {
                r as u8
            };
            c.op(|| format!("constructor {}: accept another: {}", start, l));
            f.accept_another(l);
            set.push(l);
        }
        Ok(())
    });
    ctx.seq("filters from values", |c: &mut Case| -> R {
        let what = c.choose(13);
        let v: Vec<u8> = match what {
            0 | 1 | 2 => vec![c.choose(4) as u8],
            3 => (0..2).map(|_| c.choose(4) as u8).collect(),
            4 => (0..3).map(|_| c.choose(4) as u8).collect(),
            5 => (0..4).map(|_| c.choose(5) as u8).collect(),
            6 => (0..5).map(|_| c.choose(6) as u8).collect(),
            7 => {
                let n = c.choose(5);
                (0..n).map(|_| c.choose(4) as u8).collect()
            }
            _ => vec![],
        };
        c.op(|| format!("filter kind {} of {:?}", what, v));
        let (f, want): (LabelFilter<u8>, Box<dyn Fn(u8) -> bool>) = {
            let w = v.clone();
            let within: Box<dyn Fn(u8) -> bool> = Box::new(move |l| w.contains(&l));
            match what {
                0 => (v[0].into(), within),
                1 => (metrix::instruments::L(v[0]).into(), within),
                2 => (AcceptOneLabel(v[0]).into(), within),
                3 => ((v[0], v[1]).into(), within),
                4 => ((v[0], v[1], v[2]).into(), within),
                5 => ((v[0], v[1], v[2], v[3]).into(), within),
                6 => ((v[0], v[1], v[2], v[3], v[4]).into(), within),
                7 => (v.clone().into(), within),
                8 => (AcceptAllLabels.into(), Box::new(|_| true)),
                9 => (AcceptNoLabel.into(), Box::new(|_| false)),
                10 => (LabelPredicate(|l: &u8| *l > 2).into(), Box::new(|l| l > 2)),
                11 => (LP(|l: &u8| *l > 2).into(), Box::new(|l| l > 2)),
                _ => (LabelFilter::predicate(|l: &u8| *l > 2), Box::new(|l| l > 2)),
            }
        };
        for l in 0..8 {
            same!(f.accepts(&l), want(l), "label {} accepted by a filter of kind {} from {:?}", l, what, v);
        }
        let p = Panel::<u8>::new(f);
        for l in 0..8 {
            same!(p.accepts_label(&l), want(l), "label {} accepted by a panel with a filter of kind {} from {:?}", l, what, v);
        }
        c.state((what, v));
        Ok(())
    });
    // the adapters each instrument offers
    macro_rules! adapters {
        ($c:expr, $how:expr, $make:expr, $into:expr) => {{
            let i = $make;
            let how: usize = $how;
            let a: Box<dyn HandlesObservations<Label = u8>> = match how {
                0 => Box::new(i.accept((1u8, 3u8))),
                1 => Box::new(i.for_label(1u8)),
                2 => Box::new(i.for_labels(vec![1u8, 3])),
                3 => Box::new(i.for_all_labels()),
                4 => Box::new(i.for_labels_by_predicate(|l: &u8| *l == 1 || *l == 3)),
                5 => Box::new(i.adapter()),
                6 => Box::new(i.for_labels(vec![])),
                _ => $into(how, i),
            };
            a
        }};
    }
    fn accepted(how: usize, l: u8) -> bool {
        match how {
            0 | 2 | 4 | 9 | 10 => l == 1 || l == 3,
            1 | 8 => l == 1,
            3 | 7 | 12 | 13 => true,
            _ => false,
        }
    }
    fn generic<I: Instrument>(how: usize, i: I) -> Box<dyn HandlesObservations<Label = u8>> {
        Box::new(match how {
            7 => InstrumentAdapter::new(i),
            8 => InstrumentAdapter::for_label(1u8, i),
            9 => InstrumentAdapter::for_labels(vec![3u8, 1], i),
            10 => InstrumentAdapter::by_predicate(|l: &u8| *l == 1 || *l == 3, i),
            11 => InstrumentAdapter::deaf(i),
            12 => InstrumentAdapter::from(i),
            13 => InstrumentAdapter::accept(1u8, i).accept_all_labels(),
            _ => InstrumentAdapter::new(i).accept_no_labels(),
        })
    }
    fn gauges(how: usize, i: Gauge) -> Box<dyn HandlesObservations<Label = u8>> {
        Box::new(match how {
            7 => GaugeAdapter::new(i),
            8 => GaugeAdapter::for_label(1u8, i),
            9 => GaugeAdapter::for_labels(vec![3u8, 1], i),
            10 => GaugeAdapter::for_labels_by_predicate(|l: &u8| *l == 1 || *l == 3, i),
            11 => GaugeAdapter::deaf(i),
            12 => GaugeAdapter::from(i),
            13 => GaugeAdapter::accept(AcceptAllLabels, i),
            _ => GaugeAdapter::accept(AcceptNoLabel, i),
        })
    }
    const WHAT: [&str; 11] = [
        "counter", "meter", "histogram", "gauge", "flag", "staircase timer", "occurrence indicator",
        "non occurrence indicator", "data display", "last occurrence tracker", "value meter",
    ];
    ctx.seq("adapters of instruments", |c: &mut Case| -> R {
        let what = c.choose(11);
        let how = c.choose(15);
        let mut a = match what {
            0 => adapters!(c, how, Counter::new("i"), generic),
            1 => adapters!(c, how, Meter::new("i"), generic),
            2 => adapters!(c, how, Histogram::new("i"), generic),
            3 => adapters!(c, how, Gauge::new("i"), gauges),
            4 => adapters!(c, how, Flag::new("i"), generic),
            5 => adapters!(c, how, StaircaseTimer::new("i"), generic),
            6 => adapters!(c, how, OccurrenceIndicator::new("i"), generic),
            7 => adapters!(c, how, NonOccurrenceIndicator::new("i"), generic),
            8 => adapters!(c, how, DataDisplay::new("i"), generic),
            9 => adapters!(c, how, LastOccurrenceTracker::new("i"), generic),
            _ => adapters!(c, how, ValueMeter::new("i"), generic),
        };
        for _ in 0..2 {
            let l = c.choose(5) as u8;
            c.op(|| format!("{} adapter {}: value 1 of label {}", WHAT[what], how, l));
            let before = put_of(&*a, false);
            mcrt::seq_advance(100 * SEC);
            let r = a.handle_observation(&Observation::observed_one_value_now(l, 1));
            same!(r, accepted(how, l) as usize, "instruments updated by label {} ({} adapter {})", l, WHAT[what], how);
            if !accepted(how, l) && what < 6 {
                mcrt::seq_set(mcrt::seq_get() - 100 * SEC);
                let after = put_of(&*a, false);
                ensure!(before == after, "{} adapter {}: a label that is not accepted changed the snapshot", WHAT[what], how);
            }
        }
        c.state((what, how));
        Ok(())
    });
    super::sizes::c12(ctx);
}

// ---------------------------------------------------------------- C13
pub fn c13(ctx: &mut Ctx) {
    const S: i64 = SEC as i64;
    let rounds: &[(usize, usize)] = ctx.pickt(&[(1, 3), (2, 1), (3, 1)], &[(2, 2), (4, 1)]);
    for &(depth, many) in rounds {
    ctx.seq(&format!("ages and limits, {} rounds of up to {} observations", depth, many), move |c: &mut Case| -> R {
        let max_age = *c.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1), Duration::from_secs(30), Duration::MAX]);
        let drop_deltas = c.flip();
        let s = ProcessingStrategy::DropOlderThan { max_age, drop_deltas };
        let seen: Arc<Mutex<Vec<usize>>> = Default::default();
        let s2 = seen.clone();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, Handler::new(move |ob| {
            s2.lock().unwrap().push(match ob {
                Observation::ObservedOneValue { value: ObservedValue::ChangedBy(n), .. } => *n as usize,
                Observation::ObservedOneValue { value, .. } => value.convert_to_u64().unwrap() as usize,
                Observation::Observed { count, .. } => *count as usize,
                _ => 77,
            });
            1
        }));
        let mut queue: Vec<(u64, bool, usize)> = vec![];
        let mut all = vec![];
        let mut id = 0;
        for _ in 0..depth {
            let n = 1 + c.choose(many);
            for _ in 0..n {
                id += 1;
                let now = mcrt::seq_get();
                let at = (now as i64 + *c.pick(&[-61 * S, -30 * S - 1, -30 * S, -S - 1, -S, -1, 0, S])) as u64;
                let ts = if at <= now { Instant::now() - Duration::from_nanos(now - at) } else { Instant::now() + Duration::from_nanos(at - now) };
                let kind = c.choose(3);
                c.op(|| format!("{} {} at {} ns from now", ["value", "delta", "count"][kind], id, at as i64 - now as i64));
                match kind {
                    0 => { tx.observed_one_value(A, id as u64, ts); }
                    1 => { tx.observed_one_value(A, ChangeBy(id as i64), ts); }
                    _ => { tx.observed(A, id as u64, ts); }
                }
                queue.push((at, kind == 1, id));
            }
            let wait = *c.pick(&[0, SEC]);
            pass(wait);
            c.op(|| format!("after {} s process with {:?}", wait / SEC, s));
            let r = process(&mut p, 100, s);
            let now = mcrt::seq_get();
            let (mut kept, mut dropped) = (vec![], 0);
            for (at, delta, id) in queue.drain(..) {
                let old = at as u128 + max_age.as_nanos() >= now as u128;
                if old || (delta && !drop_deltas) {
                    kept.push(id);
                } else {
                    dropped += 1;
                }
            }
            same!((r.processed, r.dropped), (kept.len(), dropped), "processed and dropped");
            all.extend(kept);
            same!(*seen.lock().unwrap(), all, "observations that took effect");
            c.state((max_age, drop_deltas, &all));
        }
        Ok(())
    });
    }
    let depth = ctx.pickt(3, 4);
    ctx.seq("deciding about single observations", |c: &mut Case| -> R {
        let x = *c.pick(&whats());
        let limit = Instant::now() - Duration::from_secs(5);
        const DAY: i64 = 86_400 * SEC as i64;
        let away = *c.pick(&[-36_500 * DAY, -DAY - 1, -3_600 * SEC as i64, -(SEC as i64), -1, 0, 1, SEC as i64, 61 * SEC as i64, 3_601 * SEC as i64, DAY + 1, 36_500 * DAY]);
        let at = if away < 0 { limit - Duration::from_nanos((-away) as u64) } else { limit + Duration::from_nanos(away as u64) };
        let drop_deltas = c.flip();
        let is_delta = matches!(x, What::Value(ObservedValue::ChangedBy(_)));
        let ob = x.observation(A, at);
        c.op(|| format!("{:?} {} ns after the limit, drop deltas {}", x, away, drop_deltas));
        same!(ProcessingDecider::ProcessAll.should_be_processed(&ob), true, "process all");
        same!(ProcessingDecider::DropAll.should_be_processed(&ob), false, "drop all");
        let d = ProcessingDecider::DropBeforeDeadline { drop_if_older_than: limit, drop_deltas };
        let keep = away >= 0 || (is_delta && !drop_deltas);
        same!(d.should_be_processed(&ob), keep, "drop older ones");
        // the same by a processor
        let (tx, mut p) = pair("p");
        match x {
            What::One => { tx.observed_one(A, at); }
            What::Many(n) => { tx.observed(A, n, at); }
            What::Value(v) => { tx.observed_one_value(A, v, at); }
        }
        let r = process(&mut p, 9, ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(5), drop_deltas });
        same!((r.processed, r.dropped), (keep as usize, !keep as usize), "processed and dropped");
        Ok(())
    });
    ctx.seq("short and long limits", |c: &mut Case| -> R {
        let mut ts = times();
        ts.extend([30 * SEC - 1, 30 * SEC, 30 * SEC + 1]);
        let (age, k) = (*c.pick(&ts), c.choose(ts.len() + 2));
        let drop_deltas = c.flip();
        let (s, limit) = if k <= ts.len() {
            let max_age = ts.get(k).map(|x| Duration::from_nanos(*x)).unwrap_or(Duration::MAX);
            (ProcessingStrategy::DropOlderThan { max_age, drop_deltas }, max_age)
        } else if drop_deltas {
            return Ok(());
        } else {
            (ProcessingStrategy::default(), Duration::from_secs(30))
        };
        c.op(|| format!("{:?}, observations of {} ns ago", s, age));
        let (tx, mut p) = pair("p");
        handler_on(&mut p, Handler::new(|_| 1));
        let at = Instant::now();
        pass(age);
        tx.observed_one(A, at);
        tx.observed_one_value(A, ChangeBy(1), at);
        let r = process(&mut p, 9, s);
        let n = if Duration::from_nanos(age) <= limit { 2 } else { !drop_deltas as usize };
        same!((r.processed, r.dropped, r.instruments_updated), (n, 2 - n, n), "processed, dropped, instruments updated");
        c.state((limit, age));
        Ok(())
    });
    ctx.seq("control messages are never dropped by age", move |c: &mut Case| -> R {
        let s = *c.pick(&[
            ProcessingStrategy::DropAll,
            ProcessingStrategy::DropOlderThan { max_age: Duration::ZERO, drop_deltas: true },
            ProcessingStrategy::default(),
        ]);
        let (tx, mut p) = pair("p");
        let mut handlers = 0;
        let mut cockpits = 0;
        for _ in 0..depth {
            let k = c.choose(4);
            c.op(|| format!("control message {}", k));
            match k {
                0 => {
                    tx_add_handler(&tx, Handler::new(|_| 1));
                    handlers += 1;
                }
                1 => {
                    tx_add_cockpit(&tx, Cockpit::without_name());
                    cockpits += 1;
                }
                2 => {
                    tx_add_cockpit(&tx, Cockpit::new("x"));
                    tx_add_panel(&tx, "x", Panel::named(A, "y"));
                    tx_remove_panel(&tx, "x", "y");
                    tx_remove_cockpit(&tx, "x");
                }
                _ => one(&tx, A),
            }
            pass(100 * SEC);
        }
        process(&mut p, 100, s);
        same!(p.get_handlers().len(), handlers, "handlers");
        same!(p.get_cockpits().len(), cockpits, "cockpits");
        Ok(())
    });
    let young: &[u64] = ctx.pickt(&[0, 600 * MS, SEC, SEC + 1], &[0, 1, 500 * MS, 600 * MS, SEC, SEC + 1, 3 * SEC]);
    ctx.seq("mounts pass the strategy on", move |c: &mut Case| -> R {
        // m [p0, n [p1, k [p2]], p3], the mounts n and k attached
        let k = c.choose(5);
        let s = match k {
            0 => ProcessingStrategy::ProcessAll,
            1 => ProcessingStrategy::DropAll,
            2 => ProcessingStrategy::default(),
            k => ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(1), drop_deltas: k == 3 },
        };
        let at = Instant::now();
        let mut txs = vec![];
        let mut want = vec![];
        let mut m = ProcessorMount::new("m");
        let mut inner = None;
        let mut innermost = None;
        for i in 0..4 {
            let age = *c.pick(young);
            let delta = c.flip();
            c.op(|| format!("processor {}: a {} that is {} ms old", i, if delta { "delta" } else { "value" }, age as f64 / MS as f64));
            let (tx, mut p) = pair("p");
            let seen: Arc<Mutex<u32>> = Default::default();
            let s2 = seen.clone();
            handler_on(&mut p, Handler::new(move |_| {
                *s2.lock().unwrap() += 1;
                1
            }));
            tx.observed_one_value(A, if delta { ObservedValue::ChangedBy(1) } else { 1.into() }, at - Duration::from_nanos(age));
            match i {
                0 | 3 => add_to_mount(&mut m, p),
                1 => {
                    let n = m.attached_mount(ProcessorMount::new("n"));
                    add_to_attached(&n, p);
                    innermost = Some(n.attach_mount::<Proc>(ProcessorMount::new("k")));
                    inner = Some(n);
                }
                _ => add_to_attached(innermost.as_ref().unwrap(), p),
            }
            txs.push((tx, seen));
            want.push(match k {
                0 => true,
                1 => false,
                2 => true,
                k => age <= SEC || (delta && k == 4),
            } as u32);
        }
        c.op(|| format!("process with {:?}", s));
        let r = m.process(10, s);
        let n = want.iter().sum::<u32>() as usize;
        same!((r.processed, r.dropped, r.instruments_updated), (n, 4 - n, n), "processed, dropped, instruments updated");
        same!(txs.iter().map(|x| *x.1.lock().unwrap()).collect::<Vec<_>>(), want, "observations each processor took");
        c.state((k, want));
        drop(inner);
        Ok(())
    });
    ctx.conc((1, 3), harness("all processors of a driver", || {
        let mut d = driver();
        d.change_processing_stragtegy(ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(1), drop_deltas: true });
        d.pause();
        let mut txs = vec![];
        for (i, age) in [0, 2_000, 600, 999, 3_000u64].into_iter().enumerate() {
            let (tx, mut p) = pair(&format!("p{}", i));
            let mut k = Cockpit::new("c");
            k.add_panel(Panel::named(AcceptAllLabels, "p1").counter(Counter::new("n")));
            cockpit_on(&mut p, k);
            tx.observed_one(A, Instant::now() - ms(age));
            tx.observed_one(B, Instant::now());
            if i == 2 {
                let mut m = ProcessorMount::default();
                add_to_mount(&mut m, p);
                d.add_processor(m);
            } else {
                add_to_driver(&mut d, p);
            }
            txs.push(tx);
        }
        d.resume();
        // the first collection is the one that counts
        fair_wait(80 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        let got: Vec<i64> = (0..5).map(|i| num(&s, &format!("p{}/c/p1/n", i))).collect();
        ensure!(got[0] == 2 && got[1] == 1 && got[2] == 2 && (1..=2).contains(&got[3]) && got[4] == 1, "counts {:?}", got);
        Ok(format!("{:?}", got))
    }));
}

// ---------------------------------------------------------------- C14
#[derive(Clone, Hash, PartialEq, Eq, Debug)]
struct CockpitM {
    name: Option<&'static str>,
    id: u64,
    panels: Vec<(Option<&'static str>, u64)>,
}
const NAMES: [Option<&str>; 3] = [None, Some("x"), Some("y")];
fn make_cockpit(name: Option<&str>, id: u64, panels: &[(Option<&'static str>, u64)]) -> Cockpit<inst::L> {
    let mut c = match name {
        Some(n) => Cockpit::new(n),
        None => Cockpit::without_name(),
    };
    c.set_title(format!("cockpit {}", id));
    for (n, i) in panels {
        c.add_panel(make_panel(*n, *i));
    }
    c
}
fn make_panel(name: Option<&str>, id: u64) -> Panel<inst::L> {
    let mut p = match name {
        Some(n) => Panel::named(A, n),
        None => Panel::new(A),
    };
    p.set_title(format!("panel {}", id));
    p
}
fn see(p: &Proc) -> Vec<(Option<String>, Option<String>, Vec<(Option<String>, Option<String>)>)> {
    p.get_cockpits()
        .iter()
        .map(|c| {
            (
                c.get_name().map(|x| x.to_string()),
                c.title().map(|x| x.to_string()),
                c.get_panels().iter().map(|p| (p.name().map(|x| x.to_string()), p.title().map(|x| x.to_string()))).collect(),
            )
        })
        .collect()
}
fn expected(m: &[CockpitM]) -> Vec<(Option<String>, Option<String>, Vec<(Option<String>, Option<String>)>)> {
    m.iter()
        .map(|c| {
            (
                c.name.map(|x| x.to_string()),
                Some(format!("cockpit {}", c.id)),
                c.panels.iter().map(|p| (p.0.map(|x| x.to_string()), Some(format!("panel {}", p.1)))).collect(),
            )
        })
        .collect()
}
fn add_panel_m(v: &mut Vec<(Option<&'static str>, u64)>, name: Option<&'static str>, id: u64) {
    if name.is_none() || !v.iter().any(|p| p.0 == name) {
        v.push((name, id));
    }
}
pub fn c14(ctx: &mut Ctx) {
    let depth = ctx.pickt(5, 6);
    ctx.seq("cockpits and panels come and go", move |c: &mut Case| -> R {
        let (tx, mut p) = pair("p");
        let mut m: Vec<CockpitM> = vec![];
        let mut id = 0;
        let via_tx = c.flip();
        for _ in 0..depth {
            id += 1;
            // 3 add cockpit, 2 remove cockpit, 6 add panel to cockpit, 4 remove panel
            let op = c.choose(15);
            match op {
                0..=2 => {
                    let name = NAMES[op];
                    let panels = [(Some("x"), id * 10), (None, id * 10 + 1)];
                    c.op(|| format!("add cockpit {} named {:?}", id, name));
                    let k = make_cockpit(name, id, &panels[..1]);
                    if via_tx {
                        tx_add_cockpit(&tx, k);
                    } else {
                        process(&mut p, 1000, ProcessingStrategy::ProcessAll);
                        cockpit_on(&mut p, k);
                    }
                    if name.is_none() || !m.iter().any(|c| c.name == name) {
                        m.push(CockpitM { name, id, panels: panels[..1].to_vec() });
                    }
                }
                3 | 4 => {
                    let name = NAMES[op - 2];
                    c.op(|| format!("remove cockpit {:?}", name));
                    tx_remove_cockpit(&tx, name.unwrap());
                    m.retain(|c| c.name != name);
                }
                5..=10 => {
                    let cn = NAMES[1 + (op - 5) / 3];
                    let pn = NAMES[(op - 5) % 3];
                    c.op(|| format!("add panel {} named {:?} to cockpit {:?}", id, pn, cn));
                    tx_add_panel(&tx, cn.unwrap(), make_panel(pn, id));
                    if let Some(k) = m.iter_mut().find(|c| c.name == cn) {
                        add_panel_m(&mut k.panels, pn, id);
                    }
                }
                _ => {
                    let cn = NAMES[1 + (op - 11) / 2];
                    let pn = NAMES[1 + (op - 11) % 2];
                    c.op(|| format!("remove panel {:?} from cockpit {:?}", pn, cn));
                    tx_remove_panel(&tx, cn.unwrap(), pn.unwrap());
                    if let Some(k) = m.iter_mut().find(|c| c.name == cn) {
                        k.panels.retain(|p| p.0 != pn);
                    }
                }
            }
            c.state(&m);
        }
        process(&mut p, 1000, ProcessingStrategy::ProcessAll);
        same!(see(&p), expected(&m), "cockpits with their panels");
        Ok(())
    });
    ctx.seq("panels of a cockpit", move |c: &mut Case| -> R {
        let mut k: Cockpit<inst::L> = Cockpit::new("c");
        let mut m: Vec<(Option<&'static str>, u64)> = vec![];
        let builder = c.flip();
        for id in 0..depth as u64 {
            let op = c.choose(7);
            if op > 4 {
                // rename the first one; there may be several of one name afterwards
                c.op(|| format!("rename the first panel to {:?}", NAMES[op - 4]));
                if let Some(p) = k.get_panels_mut().into_iter().next() {
                    p.set_name(NAMES[op - 4].unwrap());
                    m[0].0 = NAMES[op - 4];
                }
            } else if op < 3 {
                c.op(|| format!("add panel {} named {:?}", id, NAMES[op]));
                if builder {
                    k = k.panel(make_panel(NAMES[op], id));
                } else {
                    k.add_panel(make_panel(NAMES[op], id));
                }
                add_panel_m(&mut m, NAMES[op], id);
            } else {
                c.op(|| format!("remove panel {:?}", NAMES[op - 2]));
                k.remove_panel(NAMES[op - 2].unwrap());
                m.retain(|p| p.0 != NAMES[op - 2]);
            }
            c.state(&m);
            let got: Vec<_> = k.get_panels().iter().map(|p| (p.name().map(|x| x.to_string()), p.title().map(|x| x.to_string()))).collect();
            let want: Vec<_> = m.iter().map(|p| (p.0.map(|x| x.to_string()), Some(format!("panel {}", p.1)))).collect();
            same!(got, want, "panels");
            same!(k.get_panels_mut().len(), m.len(), "panels to modify");
        }
        Ok(())
    });
    // a name is this very name
    ctx.seq("names which are nearly the same", move |c: &mut Case| -> R {
        const ALIKE: [Option<&str>; 14] = [
            None, Some(""), Some(" "), Some("name"), Some("Name"), Some("name "), Some(" name"), Some("nam"), Some("name2"),
            Some("name/x"), Some("n\u{e4}me"), Some("na\u{308}me"), Some("eman"), Some("a name that is rather long: the end counts, too"),
        ];
        let (x, y) = (*c.pick(&ALIKE), *c.pick(&ALIKE));
        let gone = *c.pick(&ALIKE[1..]);
        let into = *c.pick(&ALIKE[1..]);
        let direct = c.flip();
        c.op(|| format!("add {:?} and {:?}, add a panel to {:?}, remove {:?}", x, y, into, gone));
        // as cockpits
        let (tx, mut p) = pair("p");
        let mut m: Vec<CockpitM> = vec![];
        for (id, n) in [x, y].into_iter().enumerate() {
            let k = make_cockpit(n, id as u64, &[(Some("one"), 7)]);
            if direct {
                cockpit_on(&mut p, k)
            } else {
                tx_add_cockpit(&tx, k)
            }
            if n.is_none() || !m.iter().any(|c| c.name == n) {
                m.push(CockpitM { name: n, id: id as u64, panels: vec![(Some("one"), 7)] });
            }
        }
        tx_add_panel(&tx, into.unwrap(), make_panel(gone, 8));
        if let Some(k) = m.iter_mut().find(|c| c.name == into) {
            add_panel_m(&mut k.panels, gone, 8);
        }
        tx_remove_panel(&tx, gone.unwrap(), into.unwrap());
        if let Some(k) = m.iter_mut().find(|c| c.name == gone) {
            k.panels.retain(|p| p.0 != into);
        }
        process(&mut p, 10, ProcessingStrategy::ProcessAll);
        same!(see(&p), expected(&m), "cockpits with their panels before the removal");
        tx_remove_cockpit(&tx, gone.unwrap());
        m.retain(|c| c.name != gone);
        process(&mut p, 10, ProcessingStrategy::ProcessAll);
        same!(see(&p), expected(&m), "cockpits with their panels");
        // as panels
        let mut k: Cockpit<inst::L> = Cockpit::new("c");
        let mut m: Vec<(Option<&'static str>, u64)> = vec![];
        for (id, n) in [x, y, into].into_iter().enumerate() {
            k.add_panel(make_panel(n, id as u64));
            add_panel_m(&mut m, n, id as u64);
        }
        k.remove_panel(gone.unwrap());
        m.retain(|p| p.0 != gone);
        let got: Vec<_> = k.get_panels().iter().map(|p| (p.name().map(|x| x.to_string()), p.title().map(|x| x.to_string()))).collect();
        let want: Vec<_> = m.iter().map(|p| (p.0.map(|x| x.to_string()), Some(format!("panel {}", p.1)))).collect();
        same!(got, want, "panels");
        c.state((x, y, gone, into));
        Ok(())
    });
    ctx.seq("in the order they were added", move |c: &mut Case| -> R {
        // handlers and the rest of what has no name
        let put_id = |id: u64| move |s: &mut Snapshot, _: bool| s.push(format!("i{}", id), id);
        let level = c.choose(3);
        c.op(|| format!("on a {}", ["processor", "cockpit", "panel"][level]));
        let (tx, mut p) = pair("p");
        let mut k: Cockpit<inst::L> = Cockpit::new("c");
        let mut l: Panel<inst::L> = Panel::named(A, "l");
        let (mut hs, mut ss, mut ps) = (vec![], vec![], vec![]);
        let called = Arc::new(std::sync::Mutex::new(vec![]));
        for id in 0..depth as u64 {
            let op = c.choose(3);
            let how = c.choose(if level == 0 { 3 } else { 2 });
            c.op(|| format!("{} {} in way {}", ["handler", "snapshooter", "part"][op], id, how));
            let calls = called.clone();
            let h = Handler::new(move |_| {
                calls.lock().unwrap().push(id);
                1
            }).putting(put_id(id));
            let part = || Panel::named(A, format!("i{}", id));
            let s = Shooter(Box::new(put_id(id)));
            match (op, level, how) {
                (0, 0, 0) => p.add_handler(h),
                (0, 0, 1) => p = p.handler(h),
                (0, 0, _) => {
                    tx_add_handler(&tx, h);
                    process(&mut p, 9, ProcessingStrategy::ProcessAll);
                }
                (0, 1, 0) => k.add_handler(h),
                (0, 1, _) => k = k.handler(h),
                (0, _, 0) => l.add_handler(h),
                (0, _, _) => l = l.handler(h),
                (1, 0, 0) => p.add_snapshooter(s),
                (1, 0, _) => p = p.snapshooter(s),
                (1, 1, 0) => k.add_snapshooter(s),
                (1, 1, _) => k = k.snapshooter(s),
                (1, _, 0) => l.add_snapshooter(s),
                (1, _, _) => l = l.snapshooter(s),
                (_, 0, 0) => p.add_cockpit(Cockpit::new(format!("i{}", id))),
                (_, 0, 1) => p = p.cockpit(Cockpit::new(format!("i{}", id))),
                (_, 0, _) => {
                    tx_add_cockpit(&tx, Cockpit::new(format!("i{}", id)));
                    process(&mut p, 9, ProcessingStrategy::ProcessAll);
                }
                (_, 1, 0) => k.add_panel(part()),
                (_, 1, _) => k = k.panel(part()),
                (_, _, 0) => l.add_panel(part()),
                (_, _, _) => l = l.panel(part()),
            }
            [&mut hs, &mut ss, &mut ps][op].push(id);
            c.state((level, &hs, &ss, &ps));
        }
        fn ids<'a, T: PutsSnapshot + ?Sized + 'a>(v: Vec<&'a T>) -> Vec<u64> {
            v.into_iter().flat_map(|x| put_of(x, false).items.into_iter().filter_map(|(k, _)| k.strip_prefix('i').and_then(|x| x.parse().ok()))).collect()
        }
        match level {
            0 => {
                same!((ids(p.get_handlers()), ids(p.get_snapshooters()), ids(p.get_cockpits())), (hs.clone(), ss.clone(), ps.clone()), "what the processor says it has");
            }
            1 => {
                same!((ids(k.get_handlers()), ids(k.get_snapshooters()), ids(k.get_panels())), (hs.clone(), ss.clone(), ps.clone()), "what the cockpit says it has");
            }
            _ => {}
        }
        match level {
            0 => {}
            1 => cockpit_on(&mut p, k),
            _ => cockpit_on(&mut p, Cockpit::without_name().panel(l)),
        }
        one(&tx, A);
        process(&mut p, 9, ProcessingStrategy::ProcessAll);
        same!(*called.lock().unwrap(), hs, "handlers called in order");
        let s = put(&p, false);
        let at = ["p", "p/c", "p/l"][level];
        let FindItem::Found(ItemKind::Snapshot(g)) = s.find(at) else { return Err(format!("no {} in the snapshot", at)) };
        let keys: Vec<u64> = g.items.iter().filter_map(|(k, _)| k.strip_prefix('i').and_then(|x| x.parse().ok())).collect();
        let of = |v: &Vec<u64>| keys.iter().filter(|k| v.contains(k)).copied().collect::<Vec<_>>();
        same!((of(&hs), of(&ss), of(&ps)), (hs.clone(), ss.clone(), ps.clone()), "handlers, snapshooters and parts in the snapshot");
        same!(keys.len(), depth, "contributions to the snapshot");
        Ok(())
    });
    ctx.seq("what a mount consists of", move |c: &mut Case| -> R {
        let mut m = ProcessorMount::new("m");
        let mut txs = vec![];
        let (mut ps, mut ss) = (vec![], vec![]);
        for id in 0..depth as u64 {
            let how = c.choose(5);
            c.op(|| format!("{}", ["processor", "boxed processor", "processor without transmitters", "snapshooter", "boxed snapshooter"][how]));
            let name = format!("i{}", id);
            let n = name.clone();
            let f = FnProc { f: Box::new(|_, _| ProcessingOutcome::default()), put: Box::new(move |s: &mut Snapshot, _| s.push(n.clone(), true)) };
            let n = name.clone();
            let shooter = Shooter(Box::new(move |s: &mut Snapshot, _| s.push(n.clone(), true)));
            match how {
                0 => {
                    let (tx, p) = pair(&name);
                    txs.push(tx);
                    add_to_mount(&mut m, p)
                }
                1 => m.add_processor_dyn(Box::new(f)),
                2 => add_to_mount(&mut m, pair(&name).1),
                3 => m.add_snapshooter(shooter),
                _ => m.add_snapshooter_dyn(Box::new(shooter)),
            }
            if how < 3 { &mut ps } else { &mut ss }.push(name);
            c.state((&ps, &ss));
        }
        fn names<'a, T: PutsSnapshot + ?Sized + 'a>(v: Vec<&'a T>) -> Vec<String> {
            v.into_iter().flat_map(|x| put_of(x, false).items.into_iter().map(|(k, _)| k)).collect()
        }
        same!((names(m.processors()), names(m.snapshooters())), (ps.clone(), ss.clone()), "processors and snapshooters");
        let s = put_of(&m, false);
        let FindItem::Found(ItemKind::Snapshot(g)) = s.find("m") else { return Err("no mount in the snapshot".into()) };
        let keys: Vec<String> = g.items.iter().map(|(k, _)| k.clone()).collect();
        let of = |v: &Vec<String>| keys.iter().filter(|k| v.contains(k)).cloned().collect::<Vec<_>>();
        same!((of(&ps), of(&ss)), (ps.clone(), ss.clone()), "processors and snapshooters in the snapshot");
        Ok(())
    });
    let depth = ctx.pickt(6, 7);
    ctx.seq("observations reach exactly the present panels", move |c: &mut Case| -> R {
        // add or remove while observations flow, in one batch or in several
        const AT: [(&str, &str); 3] = [("c", "x"), ("c", "y"), ("d", "x")];
        let (tx, mut p) = pair("p");
        tx_add_cockpit(&tx, Cockpit::new("c").panel(Panel::new(A).counter(Counter::new("all"))));
        let mut present = [false; 3];
        let mut d = false;
        let mut want = [0u64; 3];
        let mut all = 0;
        for _ in 0..depth {
            let op = c.choose(10);
            c.op(|| ["add panel x", "add panel y", "add panel x to d", "remove panel x", "remove panel y", "remove panel x from d", "observe", "add cockpit d with panel x", "remove cockpit d", "process"][op].into());
            match op {
                0..=2 => {
                    tx_add_panel(&tx, AT[op].0, Panel::named(A, AT[op].1).counter(Counter::new("n")));
                    if !present[op] && (op < 2 || d) {
                        present[op] = true;
                        want[op] = 0;
                    }
                }
                3..=5 => {
                    tx_remove_panel(&tx, AT[op - 3].0, AT[op - 3].1);
                    present[op - 3] = false;
                }
                6 => {
                    one(&tx, A);
                    all += 1;
                    for w in &mut want {
                        *w += 1;
                    }
                }
                7 => {
                    tx_add_cockpit(&tx, Cockpit::new("d").panel(Panel::named(A, "x").counter(Counter::new("n"))));
                    if !d {
                        (d, present[2], want[2]) = (true, true, 0);
                    }
                }
                8 => {
                    tx_remove_cockpit(&tx, "d");
                    (d, present[2]) = (false, false);
                }
                _ => {
                    process(&mut p, 1000, ProcessingStrategy::ProcessAll);
                }
            }
            c.state((present, d, want, all));
        }
        process(&mut p, 1000, ProcessingStrategy::ProcessAll);
        let s = put(&p, false);
        same!(num(&s, "p/c/all"), all, "count in the panel without a name");
        same!(s.find("p/d").opt().is_some(), d, "cockpit d is there");
        for i in 0..3 {
            same!(num(&s, &format!("p/{}/{}/n", AT[i].0, AT[i].1)), if present[i] { want[i] as i64 } else { -1 }, "count in panel {:?}", AT[i]);
        }
        Ok(())
    });
    super::sizes::c14(ctx);
}

// ---------------------------------------------------------------- C15
#[derive(Default, Clone, Debug)]
struct Group {
    title: Option<String>,
    description: Option<String>,
    items: std::collections::BTreeMap<String, Node>,
}
#[derive(Clone, Debug)]
enum Node {
    Leaf(String),
    Sub(Group),
}
impl Group {
    fn descr(&mut self, what: &str, t: bool, d: bool) {
        // the outermost one that contributes to a group describes it
        if t && self.title.is_none() {
            self.title = Some(format!("tT {}", what));
        }
        if d && self.description.is_none() {
            self.description = Some(format!("tD {}", what));
        }
    }
    fn leaf(&mut self, k: &str, v: &str) {
        self.items.entry(k.into()).or_insert_with(|| Node::Leaf(v.into()));
    }
    fn enter(&mut self, name: Option<&str>) -> &mut Group {
        match name {
            None => self,
            Some(n) => match self.items.entry(n.into()).or_insert_with(|| Node::Sub(Group::default())) {
                Node::Sub(g) => g,
                Node::Leaf(_) => unreachable!(),
            },
        }
    }
    fn tree(&self, prefix: &str, descriptive: bool, out: &mut Tree) {
        let p = |k: &str| if prefix.is_empty() { k.to_string() } else { format!("{}/{}", prefix, k) };
        if descriptive {
            if let Some(t) = &self.title {
                out.insert(p("_title"), t.clone());
            }
            if let Some(t) = &self.description {
                out.insert(p("_description"), t.clone());
            }
        }
        for (k, v) in &self.items {
            match v {
                Node::Leaf(v) => {
                    out.insert(p(k), v.clone());
                }
                Node::Sub(g) => {
                    out.insert(p(k), "{}".into());
                    g.tree(&p(k), descriptive, out)
                }
            }
        }
    }
}
fn shot(k: &'static str) -> Shooter {
    Shooter(Box::new(move |s, d| s.push(k, if d { "d" } else { "p" })))
}
fn putter(k: &'static str) -> Handler {
    Handler::new(|_| 0).putting(move |s, d| s.push(k, if d { "d" } else { "p" }))
}
pub fn c15(ctx: &mut Ctx) {
    ctx.seq("nested components", |c: &mut Case| -> R {
        let descriptive = c.flip();
        let mount = c.choose(3); // none, named, unnamed
        let proc_named = c.flip();
        let mut three = || (c.flip(), c.flip(), c.flip());
        let ck = three();
        let pa = three();
        let su = three();
        let (it, id) = (c.flip(), c.flip());
        c.op(|| {
            format!(
                "descriptive {}, mount {}, processor named {}, cockpit/panel/inner panel (named, title, description) {:?} {:?} {:?}, counter (title, description) {:?}",
                descriptive, ["none", "named", "unnamed"][mount], proc_named, ck, pa, su, (it, id)
            )
        });
        let d = if descriptive { "td" } else { "tp" };
        let mut want = Group::default();
        // real
        let mut counter = Counter::new("n");
        if it {
            counter.set_title("T n");
        }
        if id {
            counter.set_description("D n");
        }
        let mut inner = if su.0 { Panel::named(A, "inner") } else { Panel::new(A) };
        if su.1 {
            inner.set_title("T inner");
        }
        if su.2 {
            inner.set_description("D inner");
        }
        inner.add_counter(Counter::new("m"));
        inner.add_snapshooter(shot("shot inner"));
        let mut panel = if pa.0 { Panel::named(A, "panel") } else { Panel::new(A) };
        if pa.1 {
            panel.set_title("T panel");
        }
        if pa.2 {
            panel.set_description("D panel");
        }
        panel.add_counter(counter);
        panel.add_gauge(Gauge::new("g").value(3i64).group_values(true));
        panel.add_panel(inner);
        panel.add_snapshooter(shot("shot panel"));
        panel.add_handler(putter("handler panel"));
        let mut cockpit = if ck.0 { Cockpit::new("cockpit") } else { Cockpit::without_name() };
        if ck.1 {
            cockpit.set_title("T cockpit");
        }
        if ck.2 {
            cockpit.set_description("D cockpit");
        }
        cockpit.add_panel(panel);
        cockpit.add_snapshooter(shot("shot cockpit"));
        cockpit.add_handler(putter("handler cockpit"));
        let (tx, mut p) = if proc_named { pair("proc") } else { pair_nn() };
        cockpit_on(&mut p, cockpit);
        p.add_snapshooter(shot("shot proc"));
        handler_on(&mut p, putter("handler proc"));
        one(&tx, A);
        process(&mut p, 10, ProcessingStrategy::ProcessAll);
        let got = match mount {
            0 => put(&p, descriptive),
            k => {
                let mut m = if k == 1 { ProcessorMount::new("mount") } else { ProcessorMount::default() };
                add_to_mount(&mut m, p);
                m.add_snapshooter(shot("shot mount"));
                put_of(&m, descriptive)
            }
        };
        // specified
        let g = if mount > 0 {
            let g = want.enter(if mount == 1 { Some("mount") } else { None });
            g.leaf("shot mount", d);
            g
        } else {
            &mut want
        };
        let g = g.enter(if proc_named { Some("proc") } else { None });
        g.leaf("shot proc", d);
        g.leaf("handler proc", d);
        let g = g.enter(if ck.0 { Some("cockpit") } else { None });
        g.descr("cockpit", ck.1, ck.2);
        g.leaf("shot cockpit", d);
        g.leaf("handler cockpit", d);
        let g = g.enter(if pa.0 { Some("panel") } else { None });
        g.descr("panel", pa.1, pa.2);
        g.leaf("shot panel", d);
        g.leaf("handler panel", d);
        g.leaf("n", "u1");
        if descriptive && it {
            g.leaf("_title_n", "tT n");
        }
        if descriptive && id {
            g.leaf("_description_n", "tD n");
        }
        g.enter(Some("g")).leaf("current", "i3");
        let g = g.enter(if su.0 { Some("inner") } else { None });
        g.descr("inner", su.1, su.2);
        g.leaf("m", "u1");
        g.leaf("shot inner", d);
        let mut t = Tree::new();
        want.tree("", descriptive, &mut t);
        same!(flat(&got), t, "snapshot");
        Ok(())
    });
    ctx.seq("names, titles and descriptions of the instruments of a panel", |c: &mut Case| -> R {
        let descriptive = c.flip();
        let whole = c.flip();
        let mut panel = Panel::named(A, "panel");
        let mut want = Tree::new();
        want.insert("panel".into(), "{}".into());
        for (k, what) in ["counter", "gauge", "meter", "histogram"].into_iter().enumerate() {
            let how = c.choose(3); // none, added, as part
            if how == 0 {
                continue;
            }
            let (t, d) = (c.flip(), c.flip());
            c.op(|| format!("{}: way {}, title {}, description {}", what, how, t, d));
            let (tt, dd) = (format!("T {}", what), format!("D {}", what));
            macro_rules! put_in {
                ($T:ident, $part:ident, $add:ident) => {{
                    let mut i = $T::new(what);
                    if t {
                        i.set_title(tt.clone());
                    }
                    if d {
                        i.set_description(dd.clone());
                    }
                    if how == 1 {
                        panel.$add(i)
                    } else {
                        panel = panel.$part(i)
                    }
                }};
            }
            match k {
                0 => put_in!(Counter, counter, add_counter),
                1 => put_in!(Gauge, gauge, add_gauge),
                2 => put_in!(Meter, meter, add_meter),
                _ => put_in!(Histogram, histogram, add_histogram),
            }
            if descriptive {
                for (on, key, v) in [(t, "_title", &tt), (d, "_description", &dd)] {
                    if on {
                        want.insert(format!("panel/{}_{}", key, what), format!("t{}", v));
                    }
                }
            }
        }
        let s = if whole {
            put_of(&Cockpit::<inst::L>::without_name().panel(panel), descriptive)
        } else {
            put_of(&panel, descriptive)
        };
        let got: Tree = flat(&s).into_iter().filter(|(k, _)| k == "panel" || k.contains("_title") || k.contains("_description")).collect();
        same!(got, want, "descriptions");
        Ok(())
    });
    ctx.seq("the same name side by side", |c: &mut Case| -> R {
        // parts are shown as they are, whether or not others have the same name (snapshooters after other parts)
        let inside = c.choose(5);
        let named_part = |name: Option<&str>, n: u64| -> Vec<(String, ItemKind)> {
            let v = ("v".to_string(), ItemKind::UInt(n));
            match name {
                Some(x) => vec![(x.to_string(), ItemKind::Snapshot(Snapshot { items: vec![v] }))],
                None => vec![v],
            }
        };
        let shot = |name: &str, n: u64| {
            let name = name.to_string();
            Shooter(Box::new(move |s, _| s.push(name.clone(), n)))
        };
        let mut panel = Panel::named(A, "o");
        let mut cockpit = Cockpit::new("o");
        let (_tx, mut p) = pair("o");
        let mut m = ProcessorMount::new("o");
        let mut outer = ProcessorMount::default();
        let am = outer.attached_mount(ProcessorMount::new("o"));
        let mut txs = vec![];
        let mut parts = [vec![], vec![], vec![]];
        for n in 1..=3u64 {
            let (what, which) = (c.choose(3), c.choose(3));
            let name = [Some("x"), Some("y"), None][which];
            c.op(|| format!("to {}: {} {:?}", ["a panel", "a cockpit", "a processor", "a mount", "an attached mount"][inside], [["panel", "handler"], ["panel", "handler"], ["cockpit", "handler"], ["processor", "mount"], ["processor", "mount"]][inside].get(what).unwrap_or(&"snapshooter"), name));
            if what == 2 {
                let k = name.unwrap_or("v");
                parts[2].push((k.to_string(), ItemKind::UInt(n)));
                let x = shot(k, n);
                match inside {
                    0 => panel.add_snapshooter(x),
                    1 => cockpit.add_snapshooter(x),
                    2 => p.add_snapshooter(x),
                    3 => m.add_snapshooter(x),
                    _ => am.put_snapshooter(x),
                }
                continue;
            }
            // cockpits of a processor and panels of a cockpit are there once per name
            if what == 0 && (inside == 1 || inside == 2) && name.is_some() && parts[0].iter().any(|i: &(String, ItemKind)| Some(i.0.as_str()) == name) {
                continue;
            }
            parts[if inside < 3 { what } else { 0 }].extend(named_part(name, n));
            let handler = || {
                let items = named_part(name, n);
                Handler::new(|_| 1).putting(move |s, _| s.items.extend(items.clone()))
            };
            let inner = || {
                let x = match name {
                    Some(x) => Panel::named(A, x),
                    None => Panel::new(A),
                };
                x.snapshooter(shot("v", n))
            };
            match (inside, what) {
                (0, 0) => panel.add_panel(inner()),
                (0, _) => panel.add_handler(handler()),
                (1, 0) => {
                    cockpit.add_panel(inner());
                }
                (1, _) => cockpit.add_handler(handler()),
                (2, 0) => {
                    let mut k = match name {
                        Some(x) => Cockpit::new(x),
                        None => Cockpit::without_name(),
                    };
                    k.add_snapshooter(shot("v", n));
                    cockpit_on(&mut p, k)
                }
                (2, _) => handler_on(&mut p, handler()),
                (_, 0) => {
                    let (tx, mut q) = match name {
                        Some(x) => pair(x),
                        None => pair_nn(),
                    };
                    q.add_snapshooter(shot("v", n));
                    txs.push(tx);
                    if inside == 3 { add_to_mount(&mut m, q) } else { add_to_attached(&am, q) }
                }
                _ => {
                    let mut k = match name {
                        Some(x) => ProcessorMount::new(x),
                        None => ProcessorMount::default(),
                    };
                    k.add_snapshooter(shot("v", n));
                    if inside == 3 {
                        m.add_processor(k)
                    } else {
                        // what is attached to the attached mount comes with its snapshooter
                        k.attached_mount(ProcessorMount::default());
                        let mut am = am.clone();
                        am.add_processor(k)
                    }
                }
            }
        }
        let s = match inside {
            0 => put_of(&panel, false),
            1 => put_of(&cockpit, false),
            2 => put(&p, false),
            3 => put_of(&m, false),
            _ => {
                outer.process(10, ProcessingStrategy::ProcessAll);
                put_of(&outer, false)
            }
        };
        let [a, b, last] = parts;
        let got = match &s.items[..] {
            [(o, ItemKind::Snapshot(x))] if o == "o" => &x.items,
            x => return Err(format!("{:?} instead of one group named o", x)),
        };
        // the order of unlike parts is not specified
        let order = |of: &[(String, ItemKind)]| {
            let mut v: Vec<String> = of.iter().map(|x| format!("{:?}", x)).collect();
            v.sort();
            v
        };
        let want: Vec<_> = a.iter().chain(&b).chain(&last).cloned().collect();
        same!(order(got), order(&want), "contents");
        for like in [a, b, last] {
            let shown: Vec<_> = got.iter().filter(|i| like.contains(i)).cloned().collect();
            same!(shown, like, "in the order they were added");
        }
        c.state((inside, want.len(), s.items.len()));
        Ok(())
    });
    ctx.seq("names and texts of every kind", |c: &mut Case| -> R {
        let (long, longer) = ("long ".repeat(60), "\u{e9}".repeat(3000));
        let texts = ["i", "some name", "", "_title", " ", "T/\n\"\0 ", long.as_str(), longer.as_str()];
        let (name, t, d) = (*c.pick(&texts), *c.pick(&texts), *c.pick(&texts));
        let descriptive = c.flip();
        c.op(|| format!("named {:?}, titled {:?}, described {:?}, descriptive {}", name, t, d, descriptive));
        fn sorted(mut s: Snapshot) -> Snapshot {
            for x in s.items.iter_mut() {
                if let ItemKind::Snapshot(inner) = &mut x.1 {
                    *inner = sorted(std::mem::take(inner));
                }
            }
            s.items.sort_by(|a, b| a.0.cmp(&b.0).then(format!("{:?}", a.1).cmp(&format!("{:?}", b.1))));
            s
        }
        let group = |described: bool, content: Snapshot| {
            let mut s = content;
            if described && descriptive {
                s.push("_title", ItemKind::Text(t.into()));
                s.push("_description", ItemKind::Text(d.into()));
            }
            Snapshot { items: vec![(name.to_string(), ItemKind::Snapshot(s))] }
        };
        let mut panel = Panel::named(A, name).counter(Counter::new("n"));
        panel.set_title(t);
        panel.set_description(d);
        same!((panel.name(), panel.title(), panel.description()), (Some(name), Some(t), Some(d)), "of the panel");
        let mut want = group(true, Snapshot { items: vec![("n".to_string(), ItemKind::UInt(0))] });
        same!(sorted(put_of(&panel, descriptive)), sorted(want.clone()), "panel");
        let mut cockpit = Cockpit::new(name).panel(panel);
        cockpit.set_title(t);
        cockpit.set_description(d);
        same!((cockpit.get_name(), cockpit.title(), cockpit.description()), (Some(name), Some(t), Some(d)), "of the cockpit");
        want = group(true, want);
        same!(sorted(put_of(&cockpit, descriptive)), sorted(want.clone()), "cockpit");
        let (_tx, mut p) = pair(name);
        cockpit_on(&mut p, cockpit);
        want = group(false, want);
        same!(sorted(put(&p, descriptive)), sorted(want.clone()), "processor");
        let mut m = ProcessorMount::new(name);
        add_to_mount(&mut m, p);
        same!(m.name(), Some(name), "of the mount");
        want = group(false, want);
        same!(sorted(put_of(&m, descriptive)), sorted(want), "mount");
        c.state((name, t, d));
        Ok(())
    });
    const WHAT: [&str; 15] = [
        "counter", "meter", "histogram", "gauge", "grouped gauge", "flag", "staircase timer", "occurrence indicator",
        "non occurrence indicator", "data display", "last occurrence tracker", "value meter", "polling instrument",
        "grouped polling instrument", "constant",
    ];
    ctx.seq("names, titles and descriptions of instruments", |c: &mut Case| -> R {
        let what = c.choose(15);
        let how = c.choose(2);
        let (long, longer) = ("long ".repeat(60), "\u{e9}".repeat(3000));
        let texts = ["T", "", "T/\n\"\0 ", long.as_str(), longer.as_str()];
        let name = *c.pick(&["i", "some name", "", "_title", long.as_str(), longer.as_str()]);
        let (t, d, descriptive) = (c.flip(), c.flip(), c.flip());
        let tt = if t { *c.pick(&texts) } else { "" };
        let dd = if d { *c.pick(&texts) } else { "" };
        let (n2, n3) = (c.flip(), c.flip());
        c.op(|| format!("{} set up in way {} named {}: title {}, description {}, descriptive {}", WHAT[what], how, name, t, d, descriptive));
        let first = if n2 { "other" } else { name };
        macro_rules! built {
            ($T:ident, $n:ident) => {{
                let mut i = if n3 { $T::$n(first) } else { $T::new(first) };
                if how == 0 {
                    i.set_name(name);
                    if t {
                        i.set_title(tt);
                    }
                    if d {
                        i.set_description(dd);
                    }
                } else {
                    i = i.name(name);
                    if t {
                        i = i.title(tt);
                    }
                    if d {
                        i = i.description(dd);
                    }
                }
                same!(i.get_name(), name, "name of the {}", WHAT[what]);
                same!(Descriptive::title(&i), if t { Some(tt) } else { None }, "title of the {}", WHAT[what]);
                same!(Descriptive::description(&i), if d { Some(dd) } else { None }, "description of the {}", WHAT[what]);
                i
            }};
        }
        macro_rules! shown {
            ($T:ident, $n:ident, $v:expr) => {{
                let mut i = built!($T, $n);
                i.update(&Update::ObservationWithValue($v.into(), Instant::now()));
                put_of(&i, descriptive)
            }};
        }
        macro_rules! polled {
            ($i:expr) => {{
                let mut i = $i;
                i.set_name(name);
                if t {
                    i.set_title(tt);
                }
                if d {
                    i.set_description(dd);
                }
                same!(i.get_name(), name, "name");
                same!(i.title(), if t { Some(tt) } else { None }, "title");
                same!(i.description(), if d { Some(dd) } else { None }, "description");
                i
            }};
        }
        let s = match what {
            0 => shown!(Counter, new_with_defaults, 1),
            1 => shown!(Meter, new_with_defaults, 1),
            2 => shown!(Histogram, new_with_defaults, 1),
            3 => shown!(Gauge, new_with_defaults, 1),
            4 => {
                let mut i = built!(Gauge, new_with_defaults).group_values(true);
                i.update(&Update::ObservationWithValue(1.into(), Instant::now()));
                put_of(&i, descriptive)
            }
            5 => {
                let mut i = built!(Flag, new);
                i.update(&Update::ObservationWithValue(1.into(), Instant::now()));
                put_of(&i, descriptive)
            }
            6 => shown!(StaircaseTimer, new_with_defaults, 1),
            7 => shown!(OccurrenceIndicator, new_with_defaults, 1),
            8 => shown!(NonOccurrenceIndicator, new_with_defaults, 1),
            9 => shown!(DataDisplay, new_with_defaults, 1),
            10 => shown!(LastOccurrenceTracker, new_with_defaults, 1),
            11 => shown!(ValueMeter, new_with_defaults, 1),
            12 => put_of(&polled!(PollingInstrument::new_with_defaults(first, shot("k"))), descriptive),
            13 => {
                let mut i = polled!(PollingInstrument::new_with_defaults(first, shot("k")));
                i.set_create_group_with_name(true);
                same!(i.create_group_with_name(), true, "grouping");
                put_of(&i, descriptive)
            }
            _ => put_of(&polled!(ConstantValue::new(first, 42)), descriptive),
        };
        let mut want = Tree::new();
        if t && descriptive {
            want.insert(format!("_title_{}", name), format!("t{}", tt));
        }
        if d && descriptive {
            want.insert(format!("_description_{}", name), format!("t{}", dd));
        }
        let ds = if descriptive { "td" } else { "tp" };
        let v = match what {
            0 => "u1",
            3 | 9 => "i1",
            5 | 6 | 7 => "btrue",
            8 => "bfalse",
            10 => "u0",
            14 => "i42",
            12 => "",
            _ => "{}",
        };
        let mut s = s;
        if what == 1 || what == 2 || what == 11 {
            for (k, v) in s.items.iter_mut().filter(|x| x.0 == name) {
                let ItemKind::Snapshot(v) = v else { return Err(format!("{} is {:?}", k, v)) };
                same!(v.items.iter().find(|x| x.0 == "count").map(|x| x.1.clone()), Some(ItemKind::UInt(1)), "count of the {}", WHAT[what]);
                v.items.clear();
            }
        }
        let got = flat(&s);
        if what == 12 {
            want.insert("k".into(), ds.into());
        } else {
            want.insert(name.into(), v.into());
        }
        if what == 13 {
            want.insert(format!("{}/k", name).trim_start_matches('/').into(), ds.into());
        }
        if what == 4 {
            want.insert(format!("{}/current", name).trim_start_matches('/').into(), "i1".into());
        }
        same!(got, want, "snapshot of a {}", WHAT[what]);
        Ok(())
    });
    ctx.conc((1, 2), harness("a driver in a driver, with the same names inside", || {
        {
            let cfg = mcrt::any(8);
            let (named, descriptive, titled) = (cfg & 1 != 0, cfg & 2 != 0, cfg & 4 != 0);
            let mut outer = driver();
            let parts = |d: &mut D, v: i64| {
                let (_tx, p) = pair("p");
                let mut p = p;
                cockpit_on(&mut p, Cockpit::without_name().panel(Panel::named(A, "x").counter(Counter::new("n"))));
                add_to_driver(d, p);
                d.add_snapshooter(Shooter(Box::new(move |s: &mut Snapshot, _| s.push("v", v))));
            };
            parts(&mut outer, 0);
            for k in [1] {
                let mut b = metrix::driver::DriverBuilder::default().set_driver_metrics(false);
                if named {
                    b = b.set_name("inner");
                }
                if titled {
                    b = b.set_title(format!("T {}", k));
                }
                let mut inner = built(b);
                parts(&mut inner, k);
                outer.nest(inner);
            }
            let s = outer.snapshot(descriptive).map_err(err("snapshot"))?;
            let mut got: Vec<String> = s.items.iter().map(|(k, v)| format!("{} {:?}", k, v)).collect();
            let of = |k: i64| {
                let n = Snapshot { items: vec![("n".to_string(), ItemKind::UInt(0))] };
                let p = Snapshot { items: vec![("x".to_string(), ItemKind::Snapshot(n))] };
                let mut v = vec![("p".to_string(), ItemKind::Snapshot(p)), ("v".to_string(), ItemKind::Int(k))];
                if titled && descriptive && k > 0 {
                    v.insert(0, ("_title".to_string(), ItemKind::Text(format!("T {}", k))));
                }
                v
            };
            let mut want = of(0);
            for k in [1] {
                if named {
                    want.push(("inner".to_string(), ItemKind::Snapshot(Snapshot { items: of(k) })));
                } else {
                    want.extend(of(k));
                }
            }
            let mut want: Vec<String> = want.iter().map(|(k, v)| format!("{} {:?}", k, v)).collect();
            got.sort();
            want.sort();
            same!(got, want, "what the snapshot contains");
        }
        Ok(String::new())
    }));
    for cfg in 0..32 {
        ctx.conc((1, 3), harness(&format!("driver with hardly anything, {}", cfg), move || {
            let [t, d, descriptive, named, shooter] = [0, 1, 2, 3, 4].map(|i| cfg >> i & 1 != 0);
            let mut b = metrix::driver::DriverBuilder::default().set_driver_metrics(false);
            if named {
                b = b.set_name("drv");
            }
            if t {
                b = b.set_title("T drv");
            }
            if d {
                b = b.set_description("D drv");
            }
            let mut drv = built(b);
            if shooter {
                drv.add_snapshooter(Shooter(Box::new(|s, _| s.push("k", 1u64))));
            }
            let mut want = Tree::new();
            let at = if named { "drv/" } else { "" };
            if named {
                want.insert("drv".into(), "{}".into());
            }
            if t && descriptive {
                want.insert(format!("{}_title", at), "tT drv".into());
            }
            if d && descriptive {
                want.insert(format!("{}_description", at), "tD drv".into());
            }
            if shooter {
                want.insert(format!("{}k", at), "u1".into());
            }
            let s = drv.snapshot(descriptive).map_err(err("snapshot"))?;
            same!(flat(&s), want, "snapshot with title, description, descriptive, named, snapshooter {:?}", (t, d, descriptive, named, shooter));
            Ok(String::new())
        }));
    }
    for named in [false, true] {
        for metrics in [false, true] {
            ctx.conc((0, 1), harness(&format!("driver, named {}, metrics {}", named, metrics), move || {
                for cfg in 0..8 {
                    let (t, d, descriptive) = (cfg & 1 != 0, cfg & 2 != 0, cfg & 4 != 0);
                    let mut b = metrix::driver::DriverBuilder::default().set_driver_metrics(metrics);
                    if named {
                        b = b.set_name("drv");
                    }
                    if t {
                        b = b.set_title("T drv");
                    }
                    if d {
                        b = b.set_description("D drv");
                    }
                    let mut drv = built(b);
                    same!(drv.name(), if named { Some("drv") } else { None }, "the driver's name");
                    let (tx, p) = pair("proc");
                    let mut p = p;
                    cockpit_on(&mut p, Cockpit::new("c").panel(Panel::named(A, "x").counter(Counter::new("n").title("T n"))));
                    add_to_driver(&mut drv, p);
                    drv.add_snapshooter(shot("shot"));
                    let am = drv.attached_mount(ProcessorMount::new("am"));
                    am.put_snapshooter(shot("in mount"));
                    one(&tx, A);
                    mcrt::fair_wait(25 * MS);
                    let s = drv.snapshot(descriptive).map_err(err("snapshot"))?;
                    let mut got = flat(&s);
                    let at = if named { "drv/" } else { "" };
                    let ds = if descriptive { "td" } else { "tp" };
                    let mut want: Tree = [("proc", "{}"), ("proc/c", "{}"), ("proc/c/x", "{}"), ("proc/c/x/n", "u1"), ("shot", ds), ("am", "{}"), ("am/in mount", ds)]
                        .iter()
                        .map(|(k, v)| (format!("{}{}", at, k), v.to_string()))
                        .collect();
                    if named {
                        want.insert("drv".into(), "{}".into());
                    }
                    if descriptive && t {
                        want.insert(format!("{}_title", at), "tT drv".into());
                    }
                    if descriptive && d {
                        want.insert(format!("{}_description", at), "tD drv".into());
                    }
                    if descriptive {
                        want.insert(format!("{}proc/c/x/_title_n", at), "tT n".into());
                    }
                    let m = format!("{}_metrix", at);
                    same!(got.contains_key(&m), metrics, "metrics of the driver are shown");
                    got.retain(|k, _| !k.starts_with(&m));
                    same!(got, want, "snapshot with {:?}", (t, d, descriptive));
                    // the same through PutsSnapshot
                    let mut s2 = Snapshot::default();
                    drv.put_snapshot(&mut s2, descriptive);
                    let mut got = flat(&s2);
                    got.retain(|k, _| !k.starts_with(&m));
                    same!(got, want, "snapshot put with {:?}", (t, d, descriptive));
                    // and asynchronously
                    let s3 = futures::executor::block_on(drv.snapshot_async(descriptive)).map_err(err("async snapshot"))?;
                    let mut got = flat(&s3);
                    got.retain(|k, _| !k.starts_with(&m));
                    same!(got, want, "asynchronous snapshot with {:?}", (t, d, descriptive));
                }
                Ok(String::new())
            }));
        }
    }
    super::sizes::c15(ctx);
}

// ---------------------------------------------------------------- C16
const LIMIT: Duration = Duration::from_millis(10_250);
/// waits that lead to just before, exactly at, and just after the limit
const WAITS: [u64; 4] = [4 * SEC, 6 * SEC, SEC / 4, 1];
fn state_keys(want: &mut Tree, at: &str, show: bool, active: bool) {
    if show {
        want.insert(format!("{}_active", at), format!("b{}", active));
        want.insert(format!("{}_inactive", at), format!("b{}", !active));
    }
}
/// a limited component: `event(i)` acts on it and says whether that was activity
trait Limited {
    const EVENTS: usize;
    fn make(limit: bool, show: bool) -> Self;
    fn event(&mut self, i: usize) -> bool;
    fn put(&self) -> Snapshot;
    fn content(&self, want: &mut Tree);
    fn can_hide() -> bool {
        true
    }
    fn set_limit(&mut self, limit: Duration);
    fn set_show(&mut self, _show: bool) {}
    const AT: &'static str;
}
/// an observation which happened long ago or is yet to happen; it is activity when it is handled
fn obs_at(l: inst::L, late: bool) -> Observation<inst::L> {
    let now = Instant::now();
    Observation::observed_one(l, if late { now - 60 * LIMIT } else { now + 60 * LIMIT })
}
struct LProc(Tx, Proc, u64, u64);
impl Limited for LProc {
    const EVENTS: usize = 7;
    fn set_limit(&mut self, limit: Duration) {
        self.1.set_inactivity_limit(limit)
    }
    fn set_show(&mut self, show: bool) {
        self.1.set_show_activity_state(show)
    }
    const AT: &'static str = "p/";
    fn make(limit: bool, show: bool) -> Self {
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, Cockpit::new("c").panel(Panel::named(A, "x").counter(Counter::new("n"))));
        if limit {
            p.set_inactivity_limit(LIMIT);
        }
        p.set_show_activity_state(show);
        LProc(tx, p, 0, 0)
    }
    fn event(&mut self, i: usize) -> bool {
        match i {
            0 => one(&self.0, A),
            1 => {
                one(&self.0, A);
                // those that waited, then this one is dropped
                let n = std::mem::take(&mut self.3) as usize;
                self.2 += n as u64;
                process(&mut self.1, n, ProcessingStrategy::ProcessAll);
                process(&mut self.1, 10, ProcessingStrategy::DropAll);
                return true;
            }
            2 => tx_remove_cockpit(&self.0, "nothing"),
            3 | 4 => {
                self.0.transmit(obs_at(A, i == 3));
            }
            5 => {
                // it has to wait
                one(&self.0, A);
                self.3 += 1;
                return false;
            }
            _ => {}
        }
        let waited = std::mem::take(&mut self.3);
        self.2 += waited + [0, 3, 4].contains(&i) as u64;
        process(&mut self.1, 10, ProcessingStrategy::ProcessAll);
        waited > 0 || i < 5
    }
    fn put(&self) -> Snapshot {
        put(&self.1, false)
    }
    fn content(&self, want: &mut Tree) {
        for k in ["p/c", "p/c/x"] {
            want.insert(k.into(), "{}".into());
        }
        want.insert("p/c/x/n".into(), format!("u{}", self.2));
    }
}
struct LMount(Tx, Tx, ProcessorMount, [u64; 2]);
impl Limited for LMount {
    const EVENTS: usize = 6;
    fn set_limit(&mut self, limit: Duration) {
        self.2.set_inactivity_limit(limit)
    }
    const AT: &'static str = "m/";
    fn can_hide() -> bool {
        false
    }
    fn make(limit: bool, _show: bool) -> Self {
        let mut m = ProcessorMount::new("m");
        let mut t = vec![];
        for n in ["p", "q"] {
            let (tx, mut p) = pair(n);
            cockpit_on(&mut p, Cockpit::without_name().panel(Panel::new(A).counter(Counter::new("n"))));
            add_to_mount(&mut m, p);
            t.push(tx);
        }
        if limit {
            m.set_inactivity_limit(LIMIT);
        }
        let t1 = t.pop().unwrap();
        LMount(t.pop().unwrap(), t1, m, [0, 0])
    }
    fn event(&mut self, i: usize) -> bool {
        match i {
            0 => one(&self.0, A),
            1 => one(&self.1, A),
            2 => one(&self.1, C),
            3 | 4 => {
                self.0.transmit(obs_at(A, i == 3));
            }
            _ => {}
        }
        if i != 2 && i < 5 {
            self.3[(i == 1) as usize] += 1;
        }
        self.2.process(10, ProcessingStrategy::ProcessAll);
        i < 5
    }
    fn put(&self) -> Snapshot {
        put_of(&self.2, false)
    }
    fn content(&self, want: &mut Tree) {
        want.insert("m/p".into(), "{}".into());
        want.insert("m/q".into(), "{}".into());
        want.insert("m/p/n".into(), format!("u{}", self.3[0]));
        want.insert("m/q/n".into(), format!("u{}", self.3[1]));
    }
}
struct LCockpit(Cockpit<inst::L>, u64);
impl Limited for LCockpit {
    const EVENTS: usize = 4;
    fn set_limit(&mut self, limit: Duration) {
        self.0.set_inactivity_limit(limit)
    }
    fn set_show(&mut self, show: bool) {
        self.0.set_show_activity_state(show)
    }
    const AT: &'static str = "c/";
    fn make(limit: bool, show: bool) -> Self {
        let mut c = Cockpit::new("c").panel(Panel::named(A, "x").counter(Counter::new("n"))).snapshooter(shot("s"));
        if limit {
            c.set_inactivity_limit(LIMIT);
        }
        LCockpit(c.show_activity_state(show), 0)
    }
    fn event(&mut self, i: usize) -> bool {
        self.1 += (i != 1) as u64;
        self.0.handle_observation(&match i {
            0 | 1 => obs([A, C][i], 0),
            _ => obs_at(A, i == 2),
        });
        true
    }
    fn put(&self) -> Snapshot {
        put_of(&self.0, false)
    }
    fn content(&self, want: &mut Tree) {
        want.insert("c/s".into(), "tp".into());
        want.insert("c/x".into(), "{}".into());
        want.insert("c/x/n".into(), format!("u{}", self.1));
    }
}
struct LPanel(Panel<inst::L>, u64);
impl Limited for LPanel {
    const EVENTS: usize = 5;
    fn set_limit(&mut self, limit: Duration) {
        self.0.set_inactivity_limit(limit)
    }
    fn set_show(&mut self, show: bool) {
        self.0.set_show_activity_state(show)
    }
    const AT: &'static str = "x/";
    fn make(limit: bool, show: bool) -> Self {
        let mut p = Panel::named((A, B), "x").counter(Counter::new("n").for_label(A)).show_activity_state(show);
        if limit {
            p = p.inactivity_limit(LIMIT);
        }
        LPanel(p, 0)
    }
    fn event(&mut self, i: usize) -> bool {
        self.1 += [0, 3, 4].contains(&i) as u64;
        self.0.handle_observation(&match i {
            0..=2 => obs([A, B, C][i], 0),
            _ => obs_at(A, i == 3),
        });
        i != 2
    }
    fn put(&self) -> Snapshot {
        put_of(&self.0, false)
    }
    fn content(&self, want: &mut Tree) {
        want.insert("x/n".into(), format!("u{}", self.1));
    }
}
fn limited<T: Limited>(ctx: &mut Ctx, name: &str, depth: usize, reconfigured: bool) {
    let name = if reconfigured { format!("{}, set up anew", name) } else { name.into() };
    ctx.seq(&name, move |c: &mut Case| -> R {
        let mut limit = c.flip().then(|| LIMIT);
        let mut show = if T::can_hide() { c.flip() } else { true };
        let mut x = T::make(limit.is_some(), show);
        let mut last = mcrt::seq_get();
        c.op(|| format!("limit {:?} shown {}", limit, show));
        let changes = match (reconfigured, T::can_hide()) {
            (false, _) => 0,
            (_, false) => 3,
            _ => 4,
        };
        for _ in 0..depth {
            let op = c.choose(T::EVENTS + WAITS.len() + changes);
            if op < WAITS.len() {
                c.op(|| format!("after {:?}", Duration::from_nanos(WAITS[op])));
                pass(WAITS[op]);
            } else if op < WAITS.len() + T::EVENTS {
                c.op(|| format!("event {}", op - WAITS.len()));
                if x.event(op - WAITS.len()) {
                    last = mcrt::seq_get();
                }
            } else if op < WAITS.len() + T::EVENTS + 3 {
                let l = [LIMIT, LIMIT / 2, 2 * LIMIT][op - WAITS.len() - T::EVENTS];
                c.op(|| format!("limit {:?}", l));
                x.set_limit(l);
                limit = Some(l);
            } else {
                show = !show;
                c.op(|| format!("shown {}", show));
                x.set_show(show);
            }
            let active = limit.map(|l| mcrt::seq_get() - last <= l.as_nanos() as u64).unwrap_or(true);
            let mut want = Tree::new();
            if limit.is_some() {
                state_keys(&mut want, T::AT, show, active);
            }
            if active {
                x.content(&mut want);
            }
            if !want.is_empty() {
                want.insert(T::AT.trim_end_matches('/').into(), "{}".into());
            }
            same!(pruned(flat(&x.put())), want, "snapshot {:?} after the last activity", Duration::from_nanos(mcrt::seq_get() - last));
            c.state((limit, show, active, &want));
        }
        Ok(())
    });
}
/// short and long limits
fn limited_long<T: Limited>(ctx: &mut Ctx, name: &str) {
    ctx.seq(&format!("{}, short and long limits", name), move |c: &mut Case| -> R {
        let ts = times();
        let (wait, k) = (*c.pick(&ts), c.choose(ts.len() + 1));
        let limit = ts.get(k).map(|l| Duration::from_nanos(*l)).unwrap_or(Duration::MAX);
        c.op(|| format!("limit {:?}, {} ns after the event", limit, wait));
        let mut x = T::make(false, true);
        x.set_limit(limit);
        x.event(0);
        pass(wait);
        let active = Duration::from_nanos(wait) <= limit;
        let mut want = Tree::new();
        state_keys(&mut want, T::AT, true, active);
        if active {
            x.content(&mut want);
        }
        want.insert(T::AT.trim_end_matches('/').into(), "{}".into());
        same!(pruned(flat(&x.put())), want, "snapshot");
        c.state((limit, wait));
        Ok(())
    });
}
/// components with limits of their own within each other
fn limited_nested(ctx: &mut Ctx) {
    const LIMITS: [Option<u64>; 3] = [None, Some(5), Some(12)];
    let depth = ctx.pickt(4, 5);
    ctx.seq("within each other", move |c: &mut Case| -> R {
        let limits: Vec<Option<u64>> = (0..5).map(|_| *c.pick(&LIMITS)).collect();
        let show = c.flip();
        c.op(|| format!("mount, processor, cockpit, panel, inner panel: {:?}, shown {}", limits, show));
        let dur = |l: u64| Duration::from_secs(l);
        let mut inner = Panel::named(A, "i").counter(Counter::new("n")).show_activity_state(show);
        let mut panel = Panel::named((A, B), "x").counter(Counter::new("n")).show_activity_state(show);
        let mut cockpit = Cockpit::new("c").show_activity_state(show);
        let (tx, mut p) = pair("p");
        let (other, mut q) = pair("q");
        let mut m = ProcessorMount::new("m");
        p.set_show_activity_state(show);
        if let Some(l) = limits[4] {
            inner.set_inactivity_limit(dur(l));
        }
        if let Some(l) = limits[3] {
            panel.set_inactivity_limit(dur(l));
        }
        if let Some(l) = limits[2] {
            cockpit.set_inactivity_limit(dur(l));
        }
        if let Some(l) = limits[1] {
            p.set_inactivity_limit(dur(l));
        }
        if let Some(l) = limits[0] {
            m.set_inactivity_limit(dur(l));
        }
        panel.add_panel(inner);
        cockpit.add_panel(panel);
        cockpit_on(&mut p, cockpit);
        cockpit_on(&mut q, Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
        add_to_mount(&mut m, p);
        add_to_mount(&mut m, q);
        let mut last = [mcrt::seq_get(); 5];
        let mut n = [0u64; 3];
        for _ in 0..depth {
            let op = c.choose(8);
            match op {
                0..=2 => pass([3, 5, 1][op] * SEC),
                6 => {
                    one(&tx, A);
                    m.process(10, ProcessingStrategy::DropAll);
                }
                _ => {
                    if op == 7 {
                        one(&other, A)
                    } else {
                        one(&tx, [A, B, C][op - 3])
                    }
                    m.process(10, ProcessingStrategy::ProcessAll);
                }
            }
            c.op(|| ["3 s", "5 s", "1 s", "for all", "not for the inner panel", "not for the panel", "dropped", "for another processor"][op].into());
            // how far down it was noticed
            let deep = [0, 0, 0, 5, 4, 3, 2, 1][op];
            last[..deep].fill(mcrt::seq_get());
            n[0] += (deep >= 5) as u64;
            n[1] += (deep >= 4) as u64;
            n[2] += (deep == 1) as u64;
            let mut want = Tree::new();
            let ats = ["m", "m/p", "m/p/c", "m/p/c/x", "m/p/c/x/i"];
            let mut shown = 0;
            for (i, at) in ats.iter().enumerate() {
                want.insert(at.to_string(), "{}".into());
                let active = limits[i].map(|l| mcrt::seq_get() - last[i] <= l * SEC).unwrap_or(true);
                if limits[i].is_some() {
                    state_keys(&mut want, &format!("{}/", at), show || i == 0, active);
                }
                if !active {
                    break;
                }
                shown = i + 1;
            }
            if shown > 0 {
                want.insert("m/q".into(), "{}".into());
                want.insert("m/q/n".into(), format!("u{}", n[2]));
            }
            if shown > 3 {
                want.insert("m/p/c/x/n".into(), format!("u{}", n[1]));
            }
            if shown > 4 {
                want.insert("m/p/c/x/i/n".into(), format!("u{}", n[0]));
            }
            same!(pruned(flat(&put_of(&m, false))), pruned(want.clone()), "snapshot");
            c.state((&limits, show, &want));
        }
        Ok(())
    });
}
pub fn c16(ctx: &mut Ctx) {
    let d = ctx.pickt(6, 7);
    limited::<LProc>(ctx, "processor", d - 1, false);
    limited::<LProc>(ctx, "processor", d - 2, true);
    limited::<LMount>(ctx, "mount", d, false);
    limited::<LMount>(ctx, "mount", d - 2, true);
    limited::<LCockpit>(ctx, "cockpit", d, false);
    limited::<LCockpit>(ctx, "cockpit", d - 2, true);
    limited::<LPanel>(ctx, "panel", d, false);
    limited::<LPanel>(ctx, "panel", d - 2, true);
    super::sizes::c16(ctx);
    limited_long::<LProc>(ctx, "processor");
    limited_long::<LMount>(ctx, "mount");
    limited_long::<LCockpit>(ctx, "cockpit");
    limited_long::<LPanel>(ctx, "panel");
    ctx.seq("histogram, short and long limits", move |c: &mut Case| -> R {
        let ts = times();
        let (wait, k) = (*c.pick(&ts), c.choose(ts.len() + 1));
        let limit = ts.get(k).map(|l| Duration::from_nanos(*l)).unwrap_or(Duration::MAX);
        c.op(|| format!("limit {:?}, {} ns after the event", limit, wait));
        let mut h = Histogram::new("h").inactivity_limit(limit).reset_after_inactivity(true).show_activity_state(true);
        h.update(&Update::ObservationWithValue(5.into(), Instant::now()));
        pass(wait);
        let active = Duration::from_nanos(wait) <= limit;
        let s = put_of(&h, false);
        same!(s.find("h/_active"), FindItem::Found(&ItemKind::Boolean(active)), "active");
        same!(has(&s, "h/count"), active, "values shown");
        h.update(&Update::ObservationWithValue(5.into(), Instant::now()));
        same!(num(&put_of(&h, false), "h/count"), 1 + active as i64, "values");
        c.state((limit, wait));
        Ok(())
    });
    ctx.seq("histogram", move |c: &mut Case| -> R {
        let limit = c.flip();
        let show = c.flip();
        let reset = c.choose(3);
        let mut h = Histogram::new("h").show_activity_state(show);
        if limit {
            h.set_inactivity_limit(LIMIT);
        }
        if reset > 0 {
            h.set_reset_after_inactivity(reset == 1);
        }
        let mut last = mcrt::seq_get();
        let mut n = 0u64;
        c.op(|| format!("limit {} shown {} reset {}", limit, show, ["by default", "yes", "no"][reset]));
        for _ in 0..d - 1 {
            let op = c.choose(9);
            let lim = LIMIT.as_nanos() as u64;
            match op {
                0..=3 => {
                    c.op(|| format!("after {:?}", Duration::from_nanos(WAITS[op])));
                    pass(WAITS[op]);
                }
                4 | 7 | 8 => {
                    c.op(|| ["a value", "a value of long ago", "a value of the future"][op.saturating_sub(6)].into());
                    let (now, far) = (Instant::now(), 60 * LIMIT);
                    let at = [now, now - far, now + far][op.saturating_sub(6)];
                    if limit && reset != 2 && mcrt::seq_get() - last > lim {
                        n = 0;
                    }
                    n += 1;
                    last = mcrt::seq_get();
                    same!(h.update(&Update::ObservationWithValue(5.into(), at)), 1, "instruments updated");
                }
                5 => {
                    c.op(|| "no value".into());
                    same!(h.update(&Update::Observation(Instant::now())), 0, "instruments updated");
                }
                _ => {
                    c.op(|| "a boolean".into());
                    same!(h.update(&Update::ObservationWithValue(true.into(), Instant::now())), 0, "instruments updated");
                }
            }
            let active = !limit || mcrt::seq_get() - last <= lim;
            let mut want = Tree::new();
            if limit {
                state_keys(&mut want, "h/", show, active);
            }
            if active {
                want.insert("h/count".into(), format!("u{}", n));
            }
            if !want.is_empty() {
                want.insert("h".into(), "{}".into());
            }
            let mut got = pruned(flat(&put_of(&h, false)));
            if n > 0 && active {
                ensure!(got.contains_key("h/quantiles/p99") && got.contains_key("h/max"), "an active histogram shows its values");
                got.retain(|k, _| !k.starts_with("h/quantiles") && !["h/min", "h/max", "h/mean", "h/stddev"].contains(&k.as_str()));
            }
            same!(got, want, "snapshot {:?} after the last value", Duration::from_nanos(mcrt::seq_get() - last));
            c.state((limit, show, reset, active, n));
        }
        Ok(())
    });
    limited_nested(ctx);
    ctx.seq("time passes while something is shown", |c: &mut Case| -> R {
        let which = c.choose(5);
        let wait = *c.pick(&[0u64, 4, 9, 10, 11]);
        let at = 1 + c.choose(8) as u32;
        let lag = *c.pick(&[2u64, 20]);
        let what = ["processor", "mount", "cockpit", "panel", "histogram"][which];
        c.op(|| format!("a {}, {} s after it was active, {} s pass before the clock is read for the {}. time", what, wait, lag, at));
        let (tx, mut p) = pair("x");
        let panel = Panel::named(A, "x").counter(Counter::new("n"));
        let cockpit = Cockpit::new("x");
        let mut h = Histogram::new("x");
        let mut m = ProcessorMount::new("x");
        match which {
            0 => p.set_inactivity_limit(LIMIT),
            1 => m.set_inactivity_limit(LIMIT),
            4 => h.set_inactivity_limit(LIMIT),
            _ => {}
        }
        let shows = match which {
            0 | 1 => {
                cockpit_on(&mut p, Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
                one(&tx, A);
                if which == 1 {
                    add_to_mount(&mut m, p);
                    m.process(10, ProcessingStrategy::ProcessAll);
                    pass(wait * SEC);
                    mcrt::seq_lag(at, lag * SEC);
                    put_of(&m, false)
                } else {
                    process(&mut p, 10, ProcessingStrategy::ProcessAll);
                    pass(wait * SEC);
                    mcrt::seq_lag(at, lag * SEC);
                    put(&p, false)
                }
            }
            2 => {
                let mut k = cockpit.panel(panel);
                k.set_inactivity_limit(LIMIT);
                k.handle_observation(&Observation::observed_one_now(A));
                pass(wait * SEC);
                mcrt::seq_lag(at, lag * SEC);
                put_of(&k, false)
            }
            3 => {
                let mut k = panel.inactivity_limit(LIMIT);
                k.handle_observation(&Observation::observed_one_now(A));
                pass(wait * SEC);
                mcrt::seq_lag(at, lag * SEC);
                put_of(&k, false)
            }
            _ => {
                h.update(&Update::ObservationWithValue(5.into(), Instant::now()));
                pass(wait * SEC);
                mcrt::seq_lag(at, lag * SEC);
                put_of(&h, false)
            }
        };
        let reached = mcrt::seq_lag_left() == 0;
        mcrt::seq_lag(0, 0);
        if !reached {
            return Ok(());
        }
        let active = match shows.find("x/_active") {
            FindItem::Found(ItemKind::Boolean(b)) => *b,
            x => return Err(format!("active is shown as {:?}", x)),
        };
        same!(shows.find("x/_inactive"), FindItem::Found(&ItemKind::Boolean(!active)), "inactive");
        let values = has(&shows, ["x/n", "x/x/n", "x/x/n", "x/n", "x/count"][which]);
        same!(values, active, "values are shown");
        c.state((which, wait, active));
        Ok(())
    });
    ctx.seq("parts added while inactive", |c: &mut Case| -> R {
        let which = c.choose(5);
        let kind = c.choose([4, 3, 3, 2, 2][which]);
        let waits = [c.choose(4), c.choose(4)].map(|k| [0u64, 4, 10, 11][k]);
        let collect = c.flip();
        c.op(|| format!("{}: part {} is added after {} s, shown after {} s more", ["panel", "cockpit", "processor", "mount", "attached mount"][which], kind, waits[0], waits[1]));
        let shot = || Shooter(Box::new(|s, _| s.push("v", 1u64)));
        let counting = || Panel::named(A, "x").counter(Counter::new("n"));
        let active = waits[0] + waits[1] <= 10;
        let (_tx, mut p) = pair("x");
        let (_ux, mut q) = pair("q");
        cockpit_on(&mut q, Cockpit::without_name().panel(counting()));
        let s = match which {
            0 => {
                let mut x = Panel::named(A, "x").inactivity_limit(LIMIT);
                pass(waits[0] * SEC);
                match kind {
                    0 => x.add_counter(Counter::new("n")),
                    1 => x.add_panel(counting()),
                    2 => x.add_snapshooter(shot()),
                    _ => x.add_handler(Handler::new(|_| 1)),
                }
                pass(waits[1] * SEC);
                put_of(&x, false)
            }
            1 => {
                let mut x = Cockpit::new("x");
                x.set_inactivity_limit(LIMIT);
                pass(waits[0] * SEC);
                match kind {
                    0 => {
                        x.add_panel(counting());
                    }
                    1 => x.add_snapshooter(shot()),
                    _ => x.add_handler(Handler::new(|_| 1)),
                }
                pass(waits[1] * SEC);
                put_of(&x, false)
            }
            2 => {
                p.set_inactivity_limit(LIMIT);
                pass(waits[0] * SEC);
                match kind {
                    0 => cockpit_on(&mut p, Cockpit::new("c").panel(counting())),
                    1 => p.add_snapshooter(shot()),
                    _ => handler_on(&mut p, Handler::new(|_| 1)),
                }
                if collect {
                    process(&mut p, 10, ProcessingStrategy::ProcessAll);
                }
                pass(waits[1] * SEC);
                put(&p, false)
            }
            3 => {
                let mut x = ProcessorMount::new("x");
                x.set_inactivity_limit(LIMIT);
                pass(waits[0] * SEC);
                match kind {
                    0 => add_to_mount(&mut x, q),
                    _ => x.add_snapshooter(shot()),
                }
                if collect {
                    x.process(10, ProcessingStrategy::ProcessAll);
                }
                pass(waits[1] * SEC);
                put_of(&x, false)
            }
            _ => {
                let mut x = ProcessorMount::new("x");
                x.set_inactivity_limit(LIMIT);
                let mut outer = ProcessorMount::default();
                let am = outer.attached_mount(x);
                pass(waits[0] * SEC);
                match kind {
                    0 => add_to_attached(&am, q),
                    _ => am.put_snapshooter(shot()),
                }
                if collect {
                    outer.process(10, ProcessingStrategy::ProcessAll);
                }
                pass(waits[1] * SEC);
                put_of(&outer, false)
            }
        };
        same!(s.find("x/_active"), FindItem::Found(&ItemKind::Boolean(active)), "active");
        same!(s.find("x/_inactive"), FindItem::Found(&ItemKind::Boolean(!active)), "inactive");
        let FindItem::Found(ItemKind::Snapshot(x)) = s.find("x") else { return Err(format!("no x in {:?}", s)) };
        let part = x.items.iter().any(|i| !i.0.starts_with('_'));
        let has_any = !((which < 3 && kind == [3, 2, 2][which.min(2)]) || which == 4 && !collect);
        same!(part, active && has_any, "values shown in {:?}", s);
        c.state((which, kind, waits, collect));
        Ok(())
    });
    ctx.seq("limits inside limits", |c: &mut Case| -> R {
        // an inactive panel in an active cockpit in an active processor
        let (tx, mut p) = pair("p");
        p.set_inactivity_limit(LIMIT);
        let mut k = Cockpit::new("c");
        k.set_inactivity_limit(LIMIT);
        for (l, n) in [(A, "x"), (B, "y")] {
            k.add_panel(Panel::named(l, n).counter(Counter::new("n")).inactivity_limit(LIMIT));
        }
        cockpit_on(&mut p, k);
        let mut last = [mcrt::seq_get(); 2];
        let mut n = [0; 2];
        for _ in 0..6 {
            let op = c.choose(4);
            if op < 2 {
                c.op(|| format!("observe {:?}", label(op)));
                one(&tx, label(op));
                process(&mut p, 10, ProcessingStrategy::ProcessAll);
                last[op] = mcrt::seq_get();
                n[op] += 1;
            } else {
                let s = [4, 7][op - 2];
                c.op(|| format!("after {} s", s));
                pass(s * SEC);
            }
            let lim = LIMIT.as_nanos() as u64;
            let now = mcrt::seq_get();
            let s = put(&p, false);
            let any = now - last[0].max(last[1]) < lim;
            for i in 0..2 {
                let active = now - last[i] < lim;
                same!(num(&s, ["p/c/x/n", "p/c/y/n"][i]), if active { n[i] } else { -1 }, "count in panel {}", i);
                if any {
                    same!(s.find(["p/c/x/_active", "p/c/y/_active"][i]), FindItem::Found(&ItemKind::Boolean(active)), "panel {} is active", i);
                }
            }
            same!(s.find("p/_active"), FindItem::Found(&ItemKind::Boolean(any)), "the processor is active");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Debug, PartialEq)]
struct Seen(inst::L, String, u64);
fn seen_of(ob: &Observation<inst::L>, base: Instant, base_ns: u64) -> Seen {
    let t = |i: &Instant| if *i >= base { base_ns + (*i - base).as_nanos() as u64 } else { base_ns - (base - *i).as_nanos() as u64 };
    match ob {
        Observation::ObservedOne { label, timestamp } => Seen(*label, "one".into(), t(timestamp)),
        Observation::Observed { label, count, timestamp } => Seen(*label, format!("{} times", count), t(timestamp)),
        Observation::ObservedOneValue { label, value, timestamp } => Seen(*label, format!("{:?}", value), t(timestamp)),
    }
}
pub fn c28(ctx: &mut Ctx) {
    let depth = ctx.pickt(2, 3);
    ctx.seq("what is transmitted", move |c: &mut Case| -> R {
        let base = Instant::now();
        let base_ns = mcrt::seq_get();
        let got: Arc<Mutex<Vec<Seen>>> = Default::default();
        let g2 = got.clone();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, Handler::new(move |ob| {
            g2.lock().unwrap().push(seen_of(ob, base, base_ns));
            assert_eq!(ob.timestamp(), ObservationLike::timestamp(ob));
            1
        }));
        let mut want = vec![];
        for _ in 0..depth {
            let l = label(c.choose(3));
            let k = c.choose(18);
            let back = *c.pick(&[0, 1, 3_000_000_007u64]);
            pass(*c.pick(&[0, 5]));
            let now = mcrt::seq_get();
            let at = Instant::now() - Duration::from_nanos(back);
            c.op(|| format!("method {} for {:?} {} ns ago", k, l, back));
            let ts = now - back;
            let d = Duration::new(2, 7);
            let (w, wt): (&str, u64) = match k {
                0 => { tx.observed(l, 3, at); ("3 times", ts) }
                1 => { tx.observed_now(l, 4); ("4 times", now) }
                2 => { tx.observed_one(l, at); ("one", ts) }
                3 => { tx.observed_one_now(l); ("one", now) }
                4 => { tx.observed_one_value(l, -5i64, at); ("SignedInteger(-5)", ts) }
                5 => { tx.observed_one_value_now(l, 6u8); ("UnsignedInteger(6)", now) }
                6 => { tx.observed_duration(l, d, at); ("Duration(2000000007, Nanoseconds)", ts) }
                7 => { tx.observed_one_duration_now(l, d); ("Duration(2000000007, Nanoseconds)", now) }
                8 => {
                    tx.measure_time(l, at);
                    (["Duration(0, Nanoseconds)", "Duration(1, Nanoseconds)", "Duration(3000000007, Nanoseconds)"][[0, 1, 3_000_000_007].iter().position(|x| *x == back).unwrap()], now)
                }
                9 => {
                    // measured from the future: nothing to tell
                    tx.measure_time(l, Instant::now() + Duration::from_nanos(back + 1));
                    ("", 0)
                }
                10 => { tx.transmit(Observation::observed(l, 3, at)); ("3 times", ts) }
                11 => { tx.transmit(Observation::observed_now(l, 3)); ("3 times", now) }
                12 => { tx.transmit(Observation::observed_one(l, at)); ("one", ts) }
                13 => { tx.transmit(Observation::observed_one_now(l)); ("one", now) }
                14 => { tx.transmit(Observation::observed_one_value(l, 2.5, at)); ("Float(2.5)", ts) }
                15 => { tx.transmit(Observation::observed_one_value_now(l, true)); ("Bool(true)", now) }
                16 => { tx.observed_one_value(l, DecrementBy(3), at).observed_now(l, 2); want.push(Seen(l, "ChangedBy(-3)".into(), ts)); ("2 times", now) }
                _ => { tx.observed_one_now(l).observed_one_value(l, (7u64, TimeUnit::Seconds), at); want.push(Seen(l, "one".into(), now)); ("Duration(7, Seconds)", ts) }
            };
            if !w.is_empty() {
                want.push(Seen(l, w.into(), wt));
            }
        }
        process(&mut p, 100, ProcessingStrategy::ProcessAll);
        same!(*got.lock().unwrap(), want, "observations that arrived");
        Ok(())
    });
    ctx.seq("every count and value", |c: &mut Case| -> R {
        let base = Instant::now();
        let base_ns = mcrt::seq_get();
        let what = whats();
        let x = what[c.choose(what.len())];
        let back = *c.pick(&[0, 1, 1_000_000_007, 90_000 * SEC]);
        let way = c.choose(6);
        let got: Arc<Mutex<Vec<Seen>>> = Default::default();
        let g2 = got.clone();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, Handler::new(move |ob| {
            g2.lock().unwrap().push(seen_of(ob, base, base_ns));
            1
        }));
        pass(5);
        let at = Instant::now() - Duration::from_nanos(back);
        c.op(|| format!("{:?} in way {}, {} ns ago", x, way, back));
        let l = A;
        match (x, way) {
            (What::One, 0) => drop(tx.observed_one(l, at)),
            (What::One, 1) => drop(tx.observed_one_now(l)),
            (What::One, 2) => drop(tx.transmit(Observation::observed_one(l, at))),
            (What::One, 3) => drop(tx.transmit(Observation::observed_one_now(l))),
            (What::Many(n), 0) => drop(tx.observed(l, n, at)),
            (What::Many(n), 1) => drop(tx.observed_now(l, n)),
            (What::Many(n), 2) => drop(tx.transmit(Observation::observed(l, n, at))),
            (What::Many(n), 3) => drop(tx.transmit(Observation::observed_now(l, n))),
            (What::Value(v), 0) => drop(tx.observed_one_value(l, v, at)),
            (What::Value(v), 1) => drop(tx.observed_one_value_now(l, v)),
            (What::Value(v), 2) => drop(tx.transmit(Observation::observed_one_value(l, v, at))),
            (What::Value(v), 3) => drop(tx.transmit(Observation::observed_one_value_now(l, v))),
            (x, 4) => drop(tx.transmit(x.observation(l, at))),
            (x, _) => drop(tx.transmit(x.observation(l, at)).transmit(x.observation(l, at))),
        }
        let ts = base_ns + 5 - if way == 1 || way == 3 { 0 } else { back };
        let said = match x {
            What::One => "one".to_string(),
            What::Many(n) => format!("{} times", n),
            What::Value(v) => format!("{:?}", v),
        };
        pass(5);
        process(&mut p, 100, ProcessingStrategy::ProcessAll);
        let want = vec![Seen(l, said, ts); if way == 5 { 2 } else { 1 }];
        same!(*got.lock().unwrap(), want, "observations that arrived");
        Ok(())
    });
    ctx.seq("every duration", |c: &mut Case| -> R {
        let s = *c.pick(&[0u64, 1, 59, 60, 3_600, 4_294_967, 4_294_968, 4_294_967_296, 9_223_372_036, 9_223_372_037, 18_446_744_072]);
        let n = *c.pick(&[0u32, 1, 999, 1_000, 999_999, 1_000_000, 999_999_999]);
        let way = c.choose(5);
        let d = Duration::new(s, n);
        c.op(|| format!("{:?} in way {}", d, way));
        let base = Instant::now();
        let base_ns = mcrt::seq_get();
        let got: Arc<Mutex<Vec<Seen>>> = Default::default();
        let g2 = got.clone();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, Handler::new(move |ob| {
            g2.lock().unwrap().push(seen_of(ob, base, base_ns));
            1
        }));
        let back = Duration::from_secs(3);
        let (mut ts, mut said) = (base_ns, format!("Duration({}, Nanoseconds)", d.as_nanos()));
        match way {
            0 => {
                tx.observed_duration(A, d, base - back);
                ts -= 3 * SEC;
            }
            1 => drop(tx.observed_one_duration_now(A, d)),
            2 => {
                // time which has passed
                if s > 4_294_967_296 {
                    return Ok(());
                }
                pass(d.as_nanos() as u64);
                ts += d.as_nanos() as u64;
                tx.measure_time(A, base);
            }
            3 => {
                // the future
                let Some(at) = base.checked_add(d) else { return Ok(()) };
                tx.measure_time(A, at);
                if d > Duration::ZERO {
                    said.clear();
                }
            }
            _ => drop(tx.observed_one_value(A, d, base)),
        }
        process(&mut p, 100, ProcessingStrategy::ProcessAll);
        let want = if said.is_empty() { vec![] } else { vec![Seen(A, said, ts)] };
        same!(*got.lock().unwrap(), want, "observations that arrived");
        Ok(())
    });
    ctx.seq("observations and their parts", |c: &mut Case| -> R {
        let l = label(c.choose(3));
        let k = c.choose(5);
        let at = Instant::now() - Duration::from_secs(c.choose(3) as u64);
        let ob = match k {
            0 => Observation::observed(l, 3, at),
            1 => Observation::observed_one(l, at),
            2 => Observation::observed_one_value(l, 4, at),
            3 => Observation::observed_one_value(l, Increment, at),
            _ => Observation::observed_one_value(l, Duration::from_nanos(9), at),
        };
        c.op(|| format!("{:?}", ob));
        same!(*ob.label(), l, "label");
        same!(ob.timestamp(), at, "timestamp");
        same!(ObservationLike::timestamp(&ob), at, "timestamp");
        same!(ob.is_delta(), k == 3, "is a delta");
        let BorrowedLabelAndUpdate(bl, bu) = (&ob).into();
        let bu = format!("{:?}", bu);
        let bv = *bl;
        let LabelAndUpdate(ol, ou) = ob.into();
        same!((bv, ol), (l, l), "label of the update");
        same!(bu, format!("{:?}", ou), "update");
        let want = match k {
            0 => format!("{:?}", Update::Observations(3, at)),
            1 => format!("{:?}", Update::Observation(at)),
            2 => format!("{:?}", Update::ObservationWithValue(ObservedValue::SignedInteger(4), at)),
            3 => format!("{:?}", Update::ObservationWithValue(ObservedValue::ChangedBy(1), at)),
            _ => format!("{:?}", Update::ObservationWithValue(ObservedValue::Duration(9, TimeUnit::Nanoseconds), at)),
        };
        same!(bu, want, "update");
        Ok(())
    });
}
