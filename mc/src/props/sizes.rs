//! Many, large and deep: every size from a set, where the other harnesses have
//! few and small things in every order.
use super::misc::walk;
use super::util::*;
use crate::fw::{Case, Ctx, R};
use crate::{ensure, same};
use inst::*;
use mcrt::explore::Harness;
use mcrt::fair_wait;
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const ALL: ProcessingStrategy = ProcessingStrategy::ProcessAll;
fn old30() -> ProcessingStrategy {
    ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(30), drop_deltas: false }
}
/// every small number and those around powers of two and ten
fn sizes(dense: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut p = 1usize;
    while p <= 2 * most {
        v.extend([p.saturating_sub(1), p, p + 1]);
        p *= 2;
    }
    for t in [10, 25, 50, 100, 250, 500, 1000, 2500, 5000, 10_000] {
        v.extend([t - 1, t, t + 1]);
    }
    v.retain(|x| *x <= most);
    v.sort_unstable();
    v.dedup();
    v
}
fn names(s: &Snapshot, prefix: &str) -> Vec<String> {
    s.items.iter().map(|x| x.0.clone()).filter(|k| k.starts_with(prefix)).collect()
}
fn counting(n: &str) -> Panel<inst::L> {
    Panel::named(A, n.to_string()).counter(Counter::new("n"))
}
type Log = Arc<Mutex<Vec<u64>>>;
fn logging(log: &Log) -> Handler {
    let l = log.clone();
    Handler::new(move |o| {
        if let Observation::ObservedOneValue { value, .. } = o {
            l.lock().unwrap().push(value.convert_to_u64().unwrap_or(999_999));
        }
        1
    })
}

/// queues that get very long before anything is processed
pub fn very_long(ctx: &mut Ctx) {
    let ns: &'static [usize] = ctx.pickt(&[70_000, 140_000], &[20_000, 33_000, 66_000, 100_001, 132_000, 263_000, 1_100_000]);
    ctx.seq("very long queues", move |c: &mut Case| -> R {
        let n = *c.pick(ns);
        let waits = c.flip();
        let cap = *c.pick(&[None, Some(0), Some(1)]);
        c.op(|| format!("{} messages, {}, {}", n, match cap {
            None => "unbounded".to_string(),
            Some(k) => format!("place for {}", n + k),
        }, ["try", "wait"][waits as usize]));
        let log: Log = Default::default();
        let (tx, mut p) = match cap {
            None => pair("p"),
            Some(k) => bounded("p", n + k, waits),
        };
        handler_on(&mut p, logging(&log));
        for i in 0..n {
            if i % 1000 < 2 || i < 20 {
                same!((q_size(&tx), q_full(&tx), q_empty(&tx)), (i, false, i == 0), "queue size, full, empty after {}", i);
            }
            value(&tx, A, i as i64);
        }
        same!((q_size(&tx), q_full(&tx), q_empty(&tx)), (n, cap == Some(0), false), "queue size, full, empty");
        same!(q_cap(&tx), cap.map(|k| n + k), "capacity");
        let part = n / 2 + 7;
        let o = process(&mut p, part, ALL);
        same!((o.processed, o.dropped, o.instruments_updated, o.observations_enqueued), (part, 0, part, n - part), "the first part");
        let o = process(&mut p, usize::MAX, ALL);
        same!((o.processed, o.dropped, o.instruments_updated, o.observations_enqueued), (n - part, 0, n - part, 0), "the rest");
        let seen = log.lock().unwrap();
        ensure!(seen.len() == n && seen.iter().enumerate().all(|(i, x)| i as u64 == *x), "not each once and in order: {} of {}", seen.len(), n);
        Ok(())
    });
}

/// long queues, processed in parts
pub fn c08(ctx: &mut Ctx) {
    let qs = sizes(ctx.pickt(12, 130), ctx.pickt(1100, 5100));
    let ms = sizes(ctx.pickt(4, 40), ctx.pickt(1100, 5100));
    ctx.seq("long queues in parts", move |c: &mut Case| -> R {
        let n = *c.pick(&qs);
        let max = *c.pick(&ms);
        // which of them are old: none, all, the first half, every third
        let old = c.choose(4);
        let k = c.choose(3);
        let is_old = |i: usize| match old {
            0 => false,
            1 => true,
            2 => i < n / 2,
            _ => i % 3 == 0,
        };
        c.op(|| format!("{} messages, {} of them old, {} at a time, {}", n, ["none", "all", "the first half", "a third"][old], max, ["all", "drop all", "drop the old"][k]));
        let s = [ALL, ProcessingStrategy::DropAll, old30()][k];
        let log: Log = Default::default();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, logging(&log));
        for i in 0..n {
            let at = if is_old(i) { Instant::now() - Duration::from_secs(60) } else { Instant::now() };
            value_at(&tx, A, i as i64, at);
        }
        let keeps = |i: usize| match k {
            0 => true,
            1 => false,
            _ => !is_old(i),
        };
        let mut from = 0;
        let mut kept = vec![];
        // a processing of 0 once, parts until nothing is left, then once more
        for round in 0..4 {
            let m = if round == 2 { usize::MAX } else { max };
            let o = process(&mut p, m, s);
            let to = (from + m.min(n)).min(n);
            let new: Vec<u64> = (from..to).filter(|i| keeps(*i)).map(|i| i as u64).collect();
            same!((o.processed, o.dropped, o.instruments_updated, o.observations_enqueued), (new.len(), to - from - new.len(), new.len(), n - to), "processed, dropped, updated, enqueued (part {})", round);
            same!(q_size(&tx), n - to, "left in the queue");
            kept.extend(new);
            from = to;
        }
        same!(*log.lock().unwrap(), kept, "observations in order");
        Ok(())
    });
    very_long(ctx);
    let ps = sizes(ctx.pickt(20, 70), ctx.pickt(130, 520));
    ctx.seq("mounts with many processors", move |c: &mut Case| -> R {
        let n = *c.pick(&ps);
        let each = *c.pick(&[0usize, 1, 3]);
        let max = *c.pick(&[0usize, 1, 2, 1000]);
        let way = c.choose(3);
        c.op(|| format!("{} processors with {} messages each, at most {}, {}", n, each, max, ["directly", "attached", "half and half"][way]));
        let mut top = ProcessorMount::new("top");
        let am = top.attached_mount(ProcessorMount::new("m"));
        let mut txs = vec![];
        for i in 0..n {
            let (tx, mut p) = pair(&format!("p{}", i));
            cockpit_on(&mut p, Cockpit::without_name().panel(counting("x")));
            for _ in 0..each {
                one(&tx, A);
            }
            txs.push(tx);
            if way == 0 || way == 2 && i % 2 == 0 {
                add_to_mount(&mut top, p)
            } else {
                add_to_attached(&am, p)
            }
        }
        let mut left = each;
        for _ in 0..2 {
            let now = left.min(max);
            left -= now;
            let o = top.process(max, ALL);
            same!((o.processed, o.dropped, o.instruments_updated, o.observations_enqueued), (n * now, 0, n * now, n * left), "processed, dropped, updated, enqueued");
        }
        let s = put_of(&top, false);
        for i in 0..n {
            let at = if way == 0 || way == 2 && i % 2 == 0 { "top" } else { "top/m" };
            same!(num(&s, &format!("{}/p{}/x/n", at, i)), (each - left) as i64, "count of processor {}", i);
        }
        Ok(())
    });
}

/// capacities of all sizes
pub fn c07(ctx: &mut Ctx) {
    let caps = sizes(ctx.pickt(40, 200), ctx.pickt(1100, 5100));
    ctx.seq("capacities", move |c: &mut Case| -> R {
        let cap = *c.pick(&caps);
        let over = *c.pick(&[0usize, 1, 5]);
        let named = c.flip();
        c.op(|| format!("a queue for {}, {} more than fit", cap, over));
        let log: Log = Default::default();
        let (tx, mut p) = if named { bounded("p", cap, false) } else { bounded_nn(cap, false) };
        handler_on(&mut p, logging(&log));
        same!(q_cap(&tx), Some(cap), "capacity");
        let mut want = vec![];
        for round in 0..2u64 {
            for i in 0..cap + over {
                same!((q_size(&tx), q_full(&tx), q_empty(&tx)), (i.min(cap), i >= cap, i == 0 || cap == 0), "size, full, empty after {}", i);
                let x = round * 100_000 + i as u64;
                value(&tx, A, x as i64);
                if i < cap {
                    want.push(x);
                }
            }
            let o = process(&mut p, usize::MAX, ALL);
            same!((o.processed, o.observations_enqueued), (cap, 0), "processed, left");
        }
        same!(*log.lock().unwrap(), want, "observations kept");
        Ok(())
    });
}

/// many additions between two collections
pub fn c10(ctx: &mut Ctx) {
    let ns = sizes(ctx.pickt(70, 300), ctx.pickt(520, 2100));
    ctx.seq("many additions between two collections", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let deep = c.choose(2);
        let gone = c.flip();
        c.op(|| format!("{} additions to {}, handle {}", n, ["m", "m/k"][deep], if gone { "dropped" } else { "kept" }));
        let mut top = ProcessorMount::default();
        let am = top.attached_mount(ProcessorMount::new("m"));
        let m = if deep == 1 { am.attach_mount::<Proc>(ProcessorMount::new("k")) } else { am };
        let mut want = [vec![], vec![]];
        let mut txs = vec![];
        for round in 0..2 {
            for i in 0..n {
                let name = format!("{}{}", ["p", "s"][i % 2], round * n + i);
                if i % 2 == 0 {
                    let (tx, mut p) = pair(&name);
                    cockpit_on(&mut p, Cockpit::without_name().panel(counting("x")));
                    one(&tx, A);
                    txs.push(tx);
                    m.put_processor(p);
                } else {
                    let k = name.clone();
                    m.put_snapshooter(Shooter(Box::new(move |s, _| s.push(k.clone(), 1u64))));
                }
                want[i % 2].push(name);
            }
            let o = top.process(10, ALL);
            same!((o.processed, o.instruments_updated, o.observations_enqueued), ((n + 1) / 2, (n + 1) / 2, 0), "processed, updated, enqueued");
            let s = put_of(&top, false);
            let here = match s.find(["m", "m/k"][deep]) {
                FindItem::Found(ItemKind::Snapshot(h)) => h,
                x => return Err(format!("{:?} instead of the mount", x)),
            };
            same!(names(here, "p"), want[0], "processors");
            same!(names(here, "s"), want[1], "snapshooters");
            same!(here.items.len(), want[0].len() + want[1].len(), "items");
            for p in &want[0] {
                same!(num(here, &format!("{}/x/n", p)), 1, "count of {}", p);
            }
        }
        if gone {
            drop(m);
            top.process(10, ALL);
            let s = put_of(&top, false);
            let here = match s.find(["m", "m/k"][deep]) {
                FindItem::Found(ItemKind::Snapshot(h)) => h,
                x => return Err(format!("{:?} instead of the mount after its handle is gone", x)),
            };
            same!(here.items.len(), want[0].len() + want[1].len(), "items after the handle is gone");
        }
        Ok(())
    });
    for n in [5usize, 40, 200] {
        ctx.conc((0, 1), Harness {
            max_steps: 40_000,
            ..harness(&format!("{} additions to a running driver and its mount", n), move || {
                let mut d = driver();
                let am = d.attached(ProcessorMount::new("m"));
                let mut keep = vec![];
                for i in 0..n {
                    let (tx, mut p) = pair(&format!("p{}", i));
                    cockpit_on(&mut p, Cockpit::without_name().panel(counting("x")));
                    one(&tx, A);
                    keep.push(tx);
                    if i % 2 == 0 {
                        add_to_driver(&mut d, p)
                    } else {
                        add_to_attached(&am, p)
                    }
                }
                let s = d.snapshot(false).map_err(err("snapshot"))?;
                let mut seen = names(&s, "p");
                let want: Vec<String> = (0..n).step_by(2).map(|i| format!("p{}", i)).collect();
                same!(seen, want, "processors of the driver");
                fair_wait(60 * MS);
                let s = d.snapshot(false).map_err(err("snapshot"))?;
                let m = match s.find("m") {
                    FindItem::Found(ItemKind::Snapshot(h)) => h,
                    x => return Err(format!("{:?} instead of the mount", x)),
                };
                seen = names(m, "p");
                let want: Vec<String> = (1..n).step_by(2).map(|i| format!("p{}", i)).collect();
                same!(seen, want, "processors of the mount");
                for i in 0..n {
                    same!(num(&s, &format!("{}p{}/x/n", ["", "m/"][i % 2], i)), 1, "count of processor {}", i);
                }
                Ok("ok".into())
            })
        });
    }
}

/// a backlog larger than what one round of the driver handles
pub fn backlog(ctx: &mut Ctx, which: &'static str) {
    let ns: &[usize] = ctx.pickt(&[999, 1001, 2500], &[101, 999, 1000, 1001, 2001, 3500]);
    for &n in ns {
        let name = format!("a backlog of {} messages", n);
        let b = if n <= 1001 { (1, 2) } else { (0, 1) };
        ctx.conc(b, Harness {
            max_steps: 60_000,
            ..harness(&name, move || {
                let log: Log = Default::default();
                let (tx, mut p) = pair("p");
                handler_on(&mut p, logging(&log));
                cockpit_on(&mut p, Cockpit::without_name().panel(Panel::named(A, "x").counter(Counter::new("n")).meter(Meter::new("m")).gauge(Gauge::new("last"))));
                let (t2, mut p2) = pair("q");
                cockpit_on(&mut p2, Cockpit::without_name().panel(counting("x")));
                for i in 0..n {
                    value(&tx, A, i as i64);
                    if i % 3 == 0 {
                        one(&t2, A);
                    }
                }
                let mut d = built(DriverBuilder::new("d").set_driver_metrics(which == "C27").set_processing_strategy(ALL));
                add_to_driver(&mut d, p);
                add_to_driver(&mut d, p2);
                let mut before = 0;
                let mut outcome = String::new();
                let mut snapshots = 0;
                for round in 0..8 {
                    if which == "C06" && round == 2 {
                        d.pause();
                        d.snapshot(false).map_err(err("snapshot"))?;
                        let at = log.lock().unwrap().len();
                        fair_wait(200 * MS);
                        same!(log.lock().unwrap().len(), at, "processed while paused");
                        d.resume();
                    }
                    let s = d.snapshot(false).map_err(err("snapshot"))?;
                    snapshots += 1;
                    let k = num(&s, "d/p/x/n");
                    ensure!(k >= before && k <= n as i64, "{} after {} of {}", k, before, n);
                    same!(num(&s, "d/p/x/m/count"), k, "meter and counter");
                    same!(num(&s, "d/p/x/last"), if k == 0 { -1 } else { k - 1 }, "last value and counter");
                    outcome += &format!("{} ", k);
                    before = k;
                }
                fair_wait(60 * MS);
                let s = d.snapshot(false).map_err(err("snapshot"))?;
                same!(num(&s, "d/p/x/n"), n as i64, "processed in the end");
                same!(num(&s, "d/q/x/n"), (n as i64 + 2) / 3, "processed by the other processor");
                let seen = log.lock().unwrap().clone();
                ensure!(seen.len() == n && seen.iter().enumerate().all(|(i, x)| i as u64 == *x), "not each once and in order: {} of {}", seen.len(), n);
                if which == "C27" {
                    let q = (n + 2) / 3;
                    let m = |what: &str| num(&s, &format!("d/_metrix/{}", what));
                    same!(m("observations_processed_per_second/count"), (n + q) as i64, "reported as processed");
                    same!(m("observations_dropped_per_second/count"), 0, "reported as dropped");
                    same!(m("instruments_updated_per_second/count"), (4 * n + q) as i64, "reported as updated");
                    same!(m("collection_times_us/count"), m("collections_per_second/count"), "collections timed");
                    same!(m("snapshots_per_second/count"), snapshots + 1, "reported snapshots");
                    same!(m("observations_enqueued/current"), 0, "reported as waiting");
                    let per = "observations_processed_per_collection";
                    let (k, lo, hi) = (m(&format!("{}/count", per)), m(&format!("{}/min", per)), m(&format!("{}/max", per)));
                    let all = (n + q) as i64;
                    ensure!(k >= 1 && k * lo <= all && all <= k * hi && hi <= all, "{} in {} collections of {} to {}", all, k, lo, hi);
                }
                Ok(outcome)
            })
        });
    }
}

/// each of many components is reached exactly once
pub fn c11(ctx: &mut Ctx) {
    let ns = sizes(ctx.pickt(70, 300), ctx.pickt(130, 1030));
    ctx.seq("many of each", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let what = c.choose(6);
        let rounds = 2;
        c.op(|| format!("{} {}", n, ["handlers of a panel", "panels of a panel", "panels of a cockpit", "handlers of a cockpit", "handlers of a processor", "cockpits of a processor"][what]));
        let log: Log = Default::default();
        let h = |i: usize| {
            let l = log.clone();
            Handler::new(move |_| {
                l.lock().unwrap().push(i as u64);
                1
            })
        };
        let (tx, mut p) = pair("p");
        let mut k = Cockpit::new("k");
        let mut pa = Panel::named(A, "a");
        for i in 0..n {
            match what {
                0 => pa.add_handler(h(i)),
                1 => pa.add_panel(Panel::named(A, format!("x{}", i)).handler(h(i))),
                2 => {
                    k.add_panel(Panel::named(A, format!("x{}", i)).handler(h(i)));
                }
                3 => k.add_handler(h(i)),
                4 => handler_on(&mut p, h(i)),
                _ => cockpit_on(&mut p, Cockpit::new(format!("k{}", i)).handler(h(i))),
            }
        }
        k.add_panel(pa);
        cockpit_on(&mut p, k);
        for _ in 0..rounds {
            one(&tx, A);
        }
        let o = process(&mut p, 100, ALL);
        same!((o.processed, o.instruments_updated), (rounds, rounds * n), "processed, updated");
        let l = log.lock().unwrap();
        let (first, second) = l.split_at(n.min(l.len()));
        same!(sorted(first.to_vec()), (0..n as u64).collect::<Vec<_>>(), "reached by the first observation");
        same!(sorted(second.to_vec()), (0..n as u64).collect::<Vec<_>>(), "reached by the second observation");
        Ok(())
    });
    let depths = sizes(ctx.pickt(40, 130), ctx.pickt(40, 130));
    ctx.seq("deep down", move |c: &mut Case| -> R {
        let n = *c.pick(&depths);
        let wrong = c.choose(n + 2); // the level whose filter does not let the label through
        c.op(|| format!("{} panels within each other, number {} is not for the label", n + 1, wrong));
        let mut x: Option<Panel<inst::L>> = None;
        for i in (0..=n).rev() {
            let l = if i == wrong { B } else { A };
            let mut here = Panel::named(l, "x").counter(Counter::new("n"));
            if let Some(inner) = x {
                here.add_panel(inner);
            }
            x = Some(here);
        }
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, Cockpit::without_name().panel(x.unwrap()));
        one(&tx, A);
        let o = process(&mut p, 100, ALL);
        same!(o.instruments_updated, wrong.min(n + 1), "updated");
        let s = put(&p, false);
        let mut path = "p".to_string();
        for i in 0..=n {
            path += "/x";
            same!(num(&s, &format!("{}/n", path)), (i < wrong) as i64, "count in panel {}", i);
        }
        Ok(())
    });
}

/// filters with very many labels
pub fn c12(ctx: &mut Ctx) {
    let ns = sizes(ctx.pickt(70, 300), ctx.pickt(5_001, 10_001));
    ctx.seq("many labels", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let how = c.choose(5);
        c.op(|| format!("{} labels, built in way {}", n, how));
        let spread = |i: usize| (i as u32).wrapping_mul(2_654_435_761) | 1; // odd numbers, all different
        let ls: Vec<u32> = (0..n).map(spread).collect();
        let mut f: LabelFilter<u32> = match how {
            0 => LabelFilter::accept_none(),
            1 | 2 => ls.clone().into(),
            3 => {
                let mut v = ls.clone();
                v.extend(ls.iter().take(100));
                v.into()
            }
            _ => ls[..n / 2].to_vec().into(),
        };
        match how {
            0 => ls.iter().for_each(|l| f.accept_another(*l)),
            2 => ls.iter().rev().take(100).for_each(|l| f.accept_another(*l)),
            4 => ls[n / 2..].iter().for_each(|l| f.accept_another(*l)),
            _ => {}
        }
        for (i, l) in ls.iter().enumerate() {
            ensure!(f.accepts(l), "label {} of {} is not accepted", i, n);
            if n < 500 || i % 17 == 0 {
                ensure!(!f.accepts(&(*l - 1)), "{} is accepted", *l - 1);
            }
        }
        for i in n..n + 3 {
            ensure!(!f.accepts(&spread(i)), "a label that was not added is accepted");
        }
        f.accept_another(4);
        ensure!(f.accepts(&4) && !f.accepts(&6), "one more label");
        Ok(())
    });
}

/// removing each of many
pub fn c14(ctx: &mut Ctx) {
    let ns = sizes(ctx.pickt(20, 70), ctx.pickt(66, 258));
    ctx.seq("one of many", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let what = c.choose(3);
        let gone = c.choose(n + 1);
        c.op(|| format!("number {} of {} {} is removed", gone, n, ["cockpits", "panels", "panels, by message"][what]));
        let (tx, mut p) = pair("p");
        let mut k = Cockpit::new("k");
        for i in 0..n {
            let x = format!("x{}", i);
            match what {
                0 => cockpit_on(&mut p, Cockpit::new(x).panel(counting("y"))),
                _ => {
                    k.add_panel(counting(&x));
                }
            }
        }
        if what == 1 {
            one(&tx, A);
        }
        let name = format!("x{}", gone);
        if what == 1 {
            // on the cockpit itself, before it is mounted
            k.remove_panel(&name);
        }
        if what > 0 {
            cockpit_on(&mut p, k);
        }
        if what != 1 {
            one(&tx, A);
        }
        match what {
            0 => tx_remove_cockpit(&tx, &name),
            2 => tx_remove_panel(&tx, "k", &name),
            _ => {}
        }
        let o = process(&mut p, 100, ALL);
        same!(o.processed, if what == 1 { 1 } else { 2 }, "processed");
        let s = put(&p, false);
        let at = if what == 0 { "p" } else { "p/k" };
        let want: Vec<String> = (0..n).filter(|i| *i != gone).map(|i| format!("x{}", i)).collect();
        let here = match s.find(at) {
            FindItem::Found(ItemKind::Snapshot(h)) => h,
            x => return Err(format!("{:?} at {}", x, at)),
        };
        same!(names(here, ""), want, "what is left");
        for x in &want {
            same!(num(here, &format!("{}/{}n", x, if what == 0 { "y/" } else { "" })), 1, "count of {}", x);
        }
        Ok(())
    });
}

/// components with many parts have one limit
pub fn c16(ctx: &mut Ctx) {
    let ns = sizes(ctx.pickt(34, 130), ctx.pickt(130, 1030));
    ctx.seq("limits of components with many parts", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let (what, part) = (c.choose(4), c.choose(3));
        let limit = 10 * SEC;
        let lim = Duration::from_nanos(limit);
        c.op(|| format!("{} with {} {}", ["panel", "cockpit", "processor", "mount"][what], n, [["instruments", "panels", "snapshooters"], ["panels", "handlers", "snapshooters"], ["cockpits", "handlers", "snapshooters"], ["processors", "mounts", "snapshooters"]][what][part]));
        let shot = |i: usize| Shooter(Box::new(move |s, _| s.push(format!("v{}", i), 1u64)));
        let mut panel = Panel::named(A, "x");
        let mut cockpit = Cockpit::new("x");
        let (tx, mut p) = pair("x");
        let mut m = ProcessorMount::new("x");
        for i in 0..n {
            match (what, part) {
                (0, 0) => panel.add_counter(Counter::new(format!("v{}", i))),
                (0, 1) => panel.add_panel(counting(&format!("v{}", i))),
                (0, _) => panel.add_snapshooter(shot(i)),
                (1, 0) => cockpit.add_panel(counting(&format!("v{}", i))),
                (1, 1) => cockpit.add_handler(Handler::new(|_| 1)),
                (1, _) => cockpit.add_snapshooter(shot(i)),
                (2, 0) => cockpit_on(&mut p, Cockpit::new(format!("v{}", i)).panel(counting("y"))),
                (2, 1) => handler_on(&mut p, Handler::new(|_| 1)),
                (2, _) => p.add_snapshooter(shot(i)),
                (_, 0) => {
                    let (t, mut q) = pair(&format!("v{}", i));
                    handler_on(&mut q, Handler::new(|_| 1));
                    if i + 1 == n {
                        one(&t, A);
                    }
                    add_to_mount(&mut m, q);
                }
                (_, 1) => m.add_processor(ProcessorMount::new(format!("v{}", i))),
                _ => m.add_snapshooter(shot(i)),
            }
        }
        let mut x: Box<dyn FnMut(bool) -> Snapshot> = match what {
            0 => {
                panel.set_inactivity_limit(lim);
                panel.set_show_activity_state(true);
                Box::new(move |event| {
                    if event {
                        panel.handle_observation(&Observation::observed_one(A, Instant::now()));
                    }
                    put_of(&panel, false)
                })
            }
            1 => {
                cockpit.set_inactivity_limit(lim);
                cockpit.set_show_activity_state(true);
                Box::new(move |event| {
                    if event {
                        cockpit.handle_observation(&Observation::observed_one(A, Instant::now()));
                    }
                    put_of(&cockpit, false)
                })
            }
            2 => {
                p.set_inactivity_limit(lim);
                p.set_show_activity_state(true);
                Box::new(move |event| {
                    if event {
                        one(&tx, A);
                        process(&mut p, 10, ALL);
                    }
                    put(&p, false)
                })
            }
            _ => {
                m.set_inactivity_limit(lim);
                // only a processor which is the last has something to process
                let (t, mut q) = pair("last");
                handler_on(&mut q, Handler::new(|_| 1));
                add_to_mount(&mut m, q);
                Box::new(move |event| {
                    if event {
                        one(&t, A);
                        m.process(10, ALL);
                    }
                    put_of(&m, false)
                })
            }
        };
        let shown = |s: &Snapshot| match s.find("x") {
            FindItem::Found(ItemKind::Snapshot(s)) => s.items.iter().filter(|x| x.0.starts_with('v')).count(),
            _ => 0,
        };
        let all = if part == 1 && (what == 1 || what == 2) { 0 } else { n };
        for round in 0..3 {
            // new, or again active
            for (wait, active) in [(0, true), (limit, true), (1, false)] {
                pass(wait);
                let s = x(false);
                same!(s.find("x/_active"), FindItem::Found(&ItemKind::Boolean(active)), "active, round {}", round);
                same!(shown(&s), if active { all } else { 0 }, "parts shown, round {}", round);
            }
            let s = x(true);
            same!(s.find("x/_active"), FindItem::Found(&ItemKind::Boolean(true)), "active with an observation");
            same!(shown(&s), all, "parts shown");
        }
        Ok(())
    });
}

/// deep nesting of every kind of component that can contain its like
pub fn c15(ctx: &mut Ctx) {
    let ns = sizes(ctx.pickt(40, 130), ctx.pickt(66, 258));
    ctx.seq("nested deeply", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let what = c.choose(2);
        let named = c.choose(3); // all, none, every second
        let descriptive = c.flip();
        c.op(|| format!("{} {} within each other, {} named, descriptive {}", n, ["panels", "mounts"][what], ["all", "none", "each second"][named], descriptive));
        let has_name = |i: usize| named == 0 || named == 2 && i % 2 == 0;
        let (_tx, mut p) = pair_nn();
        let mut want = Tree::new();
        let mut at = vec!["top".to_string()];
        want.insert("top".into(), "{}".into());
        for i in 0..n {
            if has_name(i) {
                at.push(format!("x{}", i));
                want.insert(at.join("/"), "{}".into());
                if descriptive && what == 0 {
                    want.insert(format!("{}/_title", at.join("/")), format!("tT{}", i));
                }
            }
            want.insert(format!("{}/v{}", at.join("/"), i), format!("u{}", i));
        }
        let shot = |i: usize| Shooter(Box::new(move |s, _| s.push(format!("v{}", i), i as u64)));
        let mut top = ProcessorMount::new("top");
        match what {
            0 => {
                let mut x: Option<Panel<inst::L>> = None;
                for i in (0..n).rev() {
                    let mut h = if has_name(i) { Panel::named(A, format!("x{}", i)) } else { Panel::new(A) };
                    if has_name(i) {
                        h.set_title(format!("T{}", i));
                    }
                    h.add_snapshooter(shot(i));
                    if let Some(x) = x {
                        h.add_panel(x);
                    }
                    x = Some(h);
                }
                if let Some(x) = x {
                    cockpit_on(&mut p, Cockpit::without_name().panel(x));
                }
                add_to_mount(&mut top, p);
            }
            _ => {
                let mut x: Option<ProcessorMount> = None;
                for i in (0..n).rev() {
                    let mut h = if has_name(i) { ProcessorMount::new(format!("x{}", i)) } else { ProcessorMount::default() };
                    h.add_snapshooter(shot(i));
                    if let Some(x) = x {
                        h.add_processor(x);
                    }
                    x = Some(h);
                }
                if let Some(x) = x {
                    top.add_processor(x);
                }
            }
        }
        let s = put_of(&top, descriptive);
        same!(flat(&s), want, "snapshot");
        Ok(())
    });
}

/// deep, wide and long
pub fn c24(ctx: &mut Ctx, check: impl Fn(&Snapshot, &JsonConfig) -> R + Copy + 'static) {
    let mut ns = sizes(ctx.pickt(66, 200), ctx.pickt(260, 520));
    ns.extend([1000, 1025, 4097, 10_001]);
    ctx.seq("deep and wide", move |c: &mut Case| -> R {
        let cfg = JsonConfig { pretty: [None, Some(0), Some(1), Some(4)][c.choose(4)], make_booleans_ints: c.flip() };
        let n = *c.pick(&ns);
        let what = c.choose(6);
        let (where_, what) = if what >= 3 { (what - 2, 0) } else { (0, what) };
        if what == 0 && n > 300 || n > 1030 && cfg.pretty == Some(1) {
            return Ok(()); // deep ones get long when they are indented
        }
        c.op(|| format!("{} {}", n, ["levels", "items", "characters"][what]));
        let mut s = Snapshot::default();
        match what {
            0 => {
                s.push("leaf", true);
                for i in 0..n {
                    // in the middle, first, last, alone
                    let mut o = Snapshot::default();
                    if where_ % 2 == 0 {
                        o.push(format!("a{}", i), i as u64);
                    }
                    o.push("x", std::mem::take(&mut s));
                    if where_ < 2 {
                        o.push("z", "after");
                    }
                    s = o;
                }
            }
            1 => {
                for i in 0..n {
                    s.push(format!("i{}", i), [ItemKind::UInt(i as u64), ItemKind::Boolean(i % 4 == 1), ItemKind::Text("t".into()), ItemKind::Float(i as f64 / 8.0)][i % 4].clone());
                }
            }
            _ => {
                let t: String = (0..n).map(|i| ['a', '"', '\\', '\u{e9}', '\n', '\u{1F600}', ' '][(i * i + i / 7) % 7]).collect();
                s.push(format!("k{}", t), t);
            }
        }
        check(&s, &cfg)
    });
    let step = ctx.pickt(16u32, 16);
    ctx.seq("every character", move |c: &mut Case| -> R {
        let hi = c.choose(0x1100) as u32; // blocks of 256 characters
        let block: String = (hi * 256..hi * 256 + 256).filter_map(char::from_u32).collect();
        let ch: Vec<char> = block.chars().collect();
        if ch.is_empty() {
            return Ok(());
        }
        c.op(|| format!("characters {:x}00 to {:x}ff", hi, hi));
        let mut s = Snapshot::default();
        for x in ch.chunks(step as usize) {
            let t: String = x.iter().collect();
            s.push(t.clone(), t);
        }
        if hi == 0 {
            for x in &ch {
                s.push(format!("one {}", x), x.to_string());
            }
        }
        check(&s, &JsonConfig::default())?;
        check(&s, &JsonConfig { pretty: Some(2), make_booleans_ints: false })
    });
}

pub fn c25(ctx: &mut Ctx) {
    let mut ns = sizes(ctx.pickt(70, 200), ctx.pickt(260, 1030));
    ns.extend([4097, 10_001, 65_537]);
    ctx.seq("deep and wide", move |c: &mut Case| -> R {
        let n = *c.pick(&ns);
        let what = c.choose(3);
        if what == 0 && n > 1030 {
            return Ok(());
        }
        c.op(|| format!("{} {}", n, ["levels", "items", "bytes in a name"][what]));
        let mut s = Snapshot::default();
        let mut paths: Vec<Vec<String>> = vec![];
        match what {
            0 => {
                s.push("leaf", 7u64);
                for i in 0..n {
                    let mut o = Snapshot::default();
                    o.push(format!("a{}", i), i as u64);
                    o.push("x", std::mem::take(&mut s));
                    s = o;
                }
                for d in 0..=n {
                    let base = vec!["x".to_string(); d];
                    let with = |k: &str| [base.clone(), vec![k.to_string()]].concat();
                    paths.extend([base.clone(), with("leaf"), with(&format!("a{}", n as i64 - d as i64 - 1)), with("a0"), with("nothing")]);
                }
            }
            1 => {
                for i in 0..n {
                    // some names occur twice, the first counts
                    s.push(format!("i{}", i - i % 5 / 4), i as u64);
                }
                for i in (0..=n).filter(|i| *i < 300 || i + 9 > n || i.is_power_of_two()) {
                    paths.push(vec![format!("i{}", i)]);
                }
            }
            _ => {
                let name = "n".repeat(n + 1);
                let mut i = Snapshot::default();
                i.push(name.clone(), 1u64);
                s.push(name.clone(), i);
                s.push(format!("{}m", name), 2u64);
                for k in [n.saturating_sub(1), n, n + 1, n + 2] {
                    paths.push(vec!["n".repeat(k)]);
                    paths.push(vec!["n".repeat(k), "n".repeat(n + 1)]);
                    paths.push(vec![format!("{}m", "n".repeat(k))]);
                }
            }
        }
        let item = ItemKind::Snapshot(s.clone());
        for p in &paths {
            c.step();
            let segs: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
            let want = if segs.iter().all(|x| x.is_empty()) { None } else { walk(&item, &segs) };
            same!(s.find(&segs.join("/")).opt().cloned(), want.cloned(), "find {:?}", segs.join("/"));
            same!(s.find_with_separator(&segs.join(":"), ':').opt().cloned(), want.cloned(), "find {:?}", segs.join(":"));
            let want = walk(&item, &segs);
            same!(find_item(&item, &segs).opt().cloned(), want.cloned(), "find_item {:?}", segs);
        }
        Ok(())
    });
}

fn upd<T: Into<ObservedValue>>(v: T) -> Update {
    Update::ObservationWithValue(v.into(), stamp())
}
/// many observations
pub fn c17(ctx: &mut Ctx) {
    let ns: &'static [usize] = ctx.pickt(&[254, 255, 256, 257, 1000, 32_767, 32_768, 65_535, 65_536, 70_000], &[127, 128, 254, 255, 256, 257, 1000, 32_767, 32_768, 65_535, 65_536, 131_073, 1_100_000]);
    ctx.seq("many observations", move |c: &mut Case| -> R {
        let n = *c.pick(ns);
        let kind = c.choose(5);
        c.op(|| format!("{} times {}", n, ["one", "five times", "an increment", "a decrement", "a value"][kind]));
        let mut k = Counter::new("k");
        let mut g = Gauge::new("g");
        for i in 0..n {
            let u = match kind {
                0 => Update::Observation(stamp()),
                1 => Update::Observations(5, stamp()),
                2 => upd(Increment),
                3 => upd(Decrement),
                _ => upd(i as u64),
            };
            k.update(&u);
            g.update(&u);
        }
        let per = if kind == 1 { 5 } else { 1 };
        same!(num(&put_of(&k, false), "k"), (per * n) as i64, "count");
        let want = match kind {
            0 | 1 => None,
            2 => Some(n as i64),
            3 => Some(-(n as i64)),
            _ => Some(n as i64 - 1),
        };
        same!(g.get(), want, "gauge");
        Ok(())
    });
}
/// long windows and many values within a second
pub fn c18(ctx: &mut Ctx) {
    let ws: &'static [usize] = ctx.pickt(&[2, 59, 60, 61, 127, 128, 254, 255, 256, 257, 300, 1000], &[2, 59, 60, 61, 127, 128, 254, 255, 256, 257, 300, 1000, 3600, 32_767, 32_768, 65_535, 65_536, 65_537, 86_400]);
    fn gauge_check(s: &Snapshot, per: &[Vec<i64>]) -> R {
        let maxs: Vec<i64> = per.iter().map(|v| *v.iter().max().unwrap()).collect();
        let mins: Vec<i64> = per.iter().map(|v| *v.iter().min().unwrap()).collect();
        let all: Vec<i64> = per.iter().flatten().copied().collect();
        let avg = |v: &[i64]| v.iter().map(|x| *x as i128).sum::<i128>() as f64 / v.len() as f64;
        for (k, w) in [("g_peak", maxs.iter().max()), ("g_peak_min", maxs.iter().min()), ("g_bottom", mins.iter().min()), ("g_bottom_max", mins.iter().max())] {
            same!(s.find(k), FindItem::Found(&ItemKind::Int(*w.unwrap())), "{}", k);
        }
        for (k, w) in [("g_peak_avg", &maxs), ("g_bottom_avg", &mins), ("g_avg", &all)] {
            let (got, w) = (float(s, k), avg(w));
            ensure!(got.map(|x| (x - w).abs() <= 1e-9 * w.abs().max(1.0)) == Some(true), "{}: observed {:?}, specified {}", k, got, w);
        }
        Ok(())
    }
    ctx.seq("long windows", move |c: &mut Case| -> R {
        let w = *c.pick(ws);
        let secs = match c.choose(4) {
            0 => w / 2 + 1,
            1 => w,
            2 => w + 1,
            _ => 2 * w + 3,
        };
        // how many values in a second: one, three, one every seventh second
        let k = c.choose(3);
        let read = c.flip();
        c.op(|| format!("a window of {} s, {} s with {}{}", w, secs, ["a value each", "three values each", "a value in every seventh"][k], if read { ", read once in a while" } else { "" }));
        let mut g = Gauge::new("g").tracking(w);
        pass(SEC / 10);
        let mut recs: std::collections::VecDeque<Vec<i64>> = Default::default();
        let mut cur = 0;
        for t in 0..secs as i64 {
            let vs: Vec<i64> = match k {
                0 => vec![t % 101 - 50],
                1 => vec![1000 - t, t % 7, 3 * t],
                _ if t % 7 == 0 => vec![t],
                _ => vec![],
            };
            for v in &vs {
                g.update(&upd(*v));
                cur = *v;
            }
            if read && t % 50 == 3 {
                put_of(&g, false);
            }
            recs.push_back(vs);
            if recs.len() > w {
                recs.pop_front();
            }
            if t + 1 < secs as i64 {
                pass(SEC);
            }
        }
        let per: Vec<Vec<i64>> = recs.into_iter().filter(|v| !v.is_empty()).collect();
        let s = put_of(&g, false);
        same!(num(&s, "g"), cur, "value");
        gauge_check(&s, &if per.is_empty() { vec![vec![cur]] } else { per })
    });
    let ns: &'static [usize] = ctx.pickt(&[127, 128, 254, 255, 256, 257, 1000, 32_767, 32_768, 65_535, 65_536, 70_000], &[127, 128, 254, 255, 256, 257, 1000, 32_767, 32_768, 65_535, 65_536, 70_000, 131_073, 1_100_000]);
    ctx.seq("many values within a second", move |c: &mut Case| -> R {
        let n = *c.pick(ns);
        let of = *c.pick(&[1i64, -3, i64::MAX, i64::MIN, 1 << 53, (1 << 31) - 1]);
        let mixed = c.flip();
        c.op(|| format!("{} times {}{}", n, of, if mixed { " and less" } else { "" }));
        let mut g = Gauge::new("g").tracking(3);
        pass(SEC / 10);
        let vs: Vec<i64> = (0..n as i64).map(|i| if mixed { of / (i % 5 + 1) } else { of }).collect();
        for v in &vs {
            g.update(&upd(*v));
        }
        let last = *vs.last().unwrap();
        gauge_check(&put_of(&g, false), &[vs.clone()])?;
        pass(SEC);
        g.update(&upd(5));
        gauge_check(&put_of(&g, false), &[vs, vec![5]])?;
        pass(2 * SEC);
        gauge_check(&put_of(&g, false), &[vec![5]])?;
        pass(3 * SEC);
        g.update(&upd(last));
        gauge_check(&put_of(&g, false), &[vec![last]])
    });
}
/// many marks, large numbers, long times
pub fn c19(ctx: &mut Ctx) {
    let ns: &'static [u64] = &[1, 255, 256, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 53];
    let rounds: &'static [u64] = ctx.pickt(&[1, 2, 13, 300], &[1, 2, 13, 181, 300, 2000, 20_000]);
    ctx.seq("many and large marks", move |c: &mut Case| -> R {
        let n = *c.pick(ns);
        let rounds = *c.pick(rounds);
        let wait = *c.pick(&[0u64, 1_700, 5_000, 61_000]);
        if n.saturating_mul(rounds) >= 1 << 62 {
            return Ok(()); // more than a meter can count
        }
        let singly = n <= 256 && c.flip();
        c.op(|| format!("{} times {}{}, {} ms apart", rounds, n, if singly { " singly" } else { "" }, wait));
        let mut m = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
        let mut v = ValueMeter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
        let mut r = super::instr::Rates::new();
        pass(300 * MS);
        for _ in 0..rounds {
            if singly {
                for _ in 0..n {
                    m.update(&Update::Observation(stamp()));
                    v.update(&upd(1));
                    r.mark(1);
                }
            } else {
                m.update(&Update::Observations(n, stamp()));
                v.update(&upd(n));
                r.mark(n);
            }
            pass(wait * MS);
        }
        r.check(&put_of(&m, false), [true; 3], 0.001)?;
        if n < 1 << 50 {
            r.check(&put_of(&v, false), [true; 3], 0.001)?;
        }
        pass(7 * SEC);
        r.check(&put_of(&m, false), [true; 3], 0.001)
    });
}

/// histograms of very large values, and of more values than they can keep
pub fn c20(ctx: &mut Ctx) {
    let depth = ctx.pickt(3, 4);
    ctx.seq("large values", move |c: &mut Case| -> R {
        const VALUES: [i64; 14] = [
            0,
            1,
            -1,
            i32::MAX as i64 + 1,
            u32::MAX as i64 + 1,
            (1 << 53) + 1,
            -(1 << 53) - 1,
            1 << 62,
            i64::MAX - 1,
            i64::MAX,
            i64::MIN,
            i64::MIN + 1,
            1_000_000_007,
            -32_769,
        ];
        let mut h = Histogram::new("h");
        let mut vals = vec![];
        for _ in 0..depth {
            let v = *c.pick(&VALUES);
            let how = c.choose(2);
            c.op(|| format!("{} in way {}", v, how));
            let ob: ObservedValue = match (how, v >= 0) {
                (0, _) => v.into(),
                (_, true) => (v as u64).into(),
                // in the unit that is shown
                (_, false) => ObservedValue::Duration(v.unsigned_abs(), TimeUnit::Microseconds),
            };
            same!(h.update(&Update::ObservationWithValue(ob, stamp())), 1, "instruments updated");
            vals.push(if how == 1 && v < 0 { v.unsigned_abs().min(i64::MAX as u64) as i64 } else { v });
            super::instr::histo_check(&put_of(&h, false), &vals, true)?;
        }
        Ok(())
    });
    let most = ctx.pickt(4_100, 70_000);
    ctx.seq("more values than can be kept", move |c: &mut Case| -> R {
        let ns: Vec<usize> = sizes(0, most).into_iter().filter(|n| *n > 1028).chain([1029, 1030, 1500, 3000]).collect();
        let n = *c.pick(&ns);
        let pattern = c.choose(3);
        let pause = *c.pick(&[0, SEC, 7 * SEC]);
        c.op(|| format!("{} values in pattern {}, one every {:?}", n, pattern, Duration::from_nanos(pause)));
        let mut h = Histogram::new("h");
        let value = |i: usize| match pattern {
            0 => 1_000 + 2 * i as i64,
            1 => -2 * i as i64,
            _ => 1_000 + (i as i64 * 7919) % 1_009 * 2,
        };
        for i in 0..n {
            h.update(&Update::ObservationWithValue(value(i).into(), stamp()));
            pass(pause);
        }
        let s = put_of(&h, false);
        same!(num(&s, "h/count"), n as i64, "count");
        let of = |k: &str| match s.find(k) {
            FindItem::Found(ItemKind::Int(x)) => Ok(*x),
            x => Err(format!("{} is {:?}", k, x)),
        };
        let (min, max) = (of("h/min")?, of("h/max")?);
        let recorded: std::collections::HashSet<i64> = (0..n).map(value).collect();
        ensure!(recorded.contains(&min) && recorded.contains(&max) && min < max, "{}..{} is shown, recorded have been others", min, max);
        let mut last = min;
        for q in ["p25", "p50", "p75", "p95", "p98", "p99", "p999"] {
            let x = of(&format!("h/quantiles/{}", q))?;
            ensure!(recorded.contains(&x), "quantile {} is {}, which was not recorded", q, x);
            ensure!(x >= last && x <= max, "quantile {} is {}, the one before {}, the maximum {}", q, x, last, max);
            last = x;
        }
        let (mean, dev) = (float(&s, "h/mean").ok_or("no mean")?, float(&s, "h/stddev").ok_or("no stddev")?);
        ensure!(mean > min as f64 && mean < max as f64, "mean {} of {}..{}", mean, min, max);
        ensure!(dev > 0.0 && dev < (max - min) as f64, "standard deviation {} in {}..{}", dev, min, max);
        Ok(())
    });
}

/// durations of every size in every unit, shown in every unit
pub fn units(ctx: &mut Ctx, by: usize) {
    ctx.seq("durations of every size in every unit", move |c: &mut Case| -> R {
        const UNITS: [TimeUnit; 4] = [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds];
        let mut ts: Vec<u64> = vec![0, 1, 7, 1_500, 1_499_999, 86_400_000_000_001];
        for r in [1u64, 1_000, 1_000_000, 1_000_000_000] {
            for top in [u64::MAX / r, i64::MAX as u64 / r] {
                ts.extend([top - 1, top, top.saturating_add(1), top / 2]);
            }
            ts.extend([r - 1, r, r + 1, 2 * r - 1, 10 * r]);
        }
        ts.sort_unstable();
        ts.dedup();
        let (t, u, to) = (*c.pick(&ts), *c.pick(&UNITS), *c.pick(&UNITS));
        let n = c.choose(2);
        c.op(|| format!("{} {:?} in {:?}", t, u, to));
        let want = super::instr::shown_in(t, u, to);
        let whole = want.min(i64::MAX as u64) as i64;
        let up = Update::ObservationWithValue(ObservedValue::Duration(t, u), stamp());
        match by {
            0 => {
                let mut g = if n == 0 { Gauge::new("g").display_time_unit(to) } else { Gauge::new("g").tracking(5).display_time_unit(to) };
                same!(g.update(&up), 1, "instruments updated");
                same!(g.get(), Some(whole), "{} {:?} shown in {:?}", t, u, to);
                same!(num(&put_of(&g, false), "g"), whole, "shown in a snapshot");
                if n == 1 {
                    same!(num(&put_of(&g, false), "g_peak"), whole, "peak");
                }
            }
            1 => {
                let mut m = ValueMeter::new("m").display_time_unit(to);
                same!(m.update(&up), 1, "instruments updated");
                same!(num(&put_of(&m, false), "m/count"), whole, "count");
            }
            _ => {
                let mut h = Histogram::new("h").display_time_unit(to);
                for _ in 0..=n {
                    same!(h.update(&up), 1, "instruments updated");
                }
                let s = put_of(&h, false);
                for k in ["h/min", "h/max", "h/quantiles/p50"] {
                    same!(s.find(k), FindItem::Found(&ItemKind::Int(whole)), "{}", k);
                }
            }
        }
        Ok(())
    });
}
