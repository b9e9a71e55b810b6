//! What the driver tells about itself.
use super::util::*;
use crate::fw::{Ctx, R};
use crate::{ensure, same};
use inst::*;
use mcrt::explore::Harness;
use mcrt::{advance, fair_wait};
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::{Counter, Panel};
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use std::sync::Arc;
use std::time::Instant;

fn self_aware(s: ProcessingStrategy) -> D {
    built(DriverBuilder::default().set_driver_metrics(true).set_processing_strategy(s))
}
fn snap(d: &TelemetryDriver) -> Result<Snapshot, String> {
    d.snapshot(false).map_err(err("snapshot"))
}
fn m(s: &Snapshot, what: &str) -> i64 {
    num(s, &format!("_metrix/{}", what))
}
fn alarm(s: &Snapshot, what: &str) -> String {
    flat(s).get(&format!("_metrix/{}", what)).cloned().unwrap_or_default()
}
/// processed, dropped, updated, number of collections that processed or dropped something
fn totals(s: &Snapshot) -> (i64, i64, i64) {
    (
        m(s, "observations_processed_per_second/count"),
        m(s, "observations_dropped_per_second/count"),
        m(s, "instruments_updated_per_second/count"),
    )
}
fn histo(s: &Snapshot, what: &str) -> (i64, i64, i64) {
    (m(s, &format!("{}/count", what)), m(s, &format!("{}/min", what)), m(s, &format!("{}/max", what)))
}
fn counted() -> Cockpit<inst::L> {
    Cockpit::new("c").panel(Panel::named(A, "p").counter(Counter::new("n")).counter(Counter::new("k")))
}

pub fn c27(ctx: &mut Ctx) {
    let b = (3, 4);
    {
        use super::conc::{commands, Cmd, Cmd::*};
        const ANY: &[Cmd] = &[Snapshot, Request, Value, Pause, Resume, Wait, Processor];
        let d = ctx.pickt(3, 4);
        ctx.conc((1, 1), commands(&format!("any {} commands", d), ANY, d, true));
        let d = ctx.pickt(4, 6);
        ctx.conc((0, 0), commands(&format!("any {} commands", d), ANY, d, true));
    }
    ctx.conc(b, harness("processed", || {
        let mut d = self_aware(ProcessingStrategy::ProcessAll);
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, counted());
        add_to_driver(&mut d, p);
        let h = spawn(move || {
            value(&tx, A, 1);
            one(&tx, B);
            many(&tx, A, 5);
        });
        let s1 = snap(&d)?;
        h.join().unwrap();
        fair_wait(35 * MS);
        let s2 = snap(&d)?;
        let mut seen = vec![];
        for (k, s) in [(1, &s1), (2, &s2)] {
            let (p, x, i) = totals(s);
            // the counter tells how far the processor has come: 0, 1, 1, 6
            let n = num(s, "p/c/p/n");
            let (ok, updates) = match n {
                0 => (p == 0, 0),
                1 => (p == 1 || p == 2, 2),
                6 => (p == 3, 4),
                _ => (false, 0),
            };
            ensure!(ok, "counted {} but told {} processed", n, p);
            same!(x, 0, "dropped");
            same!(i, updates, "instruments updated");
            same!(m(s, "snapshots_per_second/count"), k, "snapshots");
            let q = m(s, "observations_enqueued/current");
            ensure!(q == -1 && p == 0 || (0..=3 - p).contains(&q), "{} enqueued, {} processed", q, p);
            same!(alarm(s, "dropped_observations_alarm"), "bfalse".to_string(), "alarm");
            same!(alarm(s, "inactivity_alarm"), "bfalse".to_string(), "inactivity alarm");
            let (n, lo, hi) = histo(s, "observations_processed_per_collection");
            if p == 0 {
                same!(n, 0, "collections which processed something");
            } else {
                ensure!(n >= 1 && lo >= 1 && hi <= p && lo <= hi && n * lo <= p && p <= n * hi, "{} in {} collections of {} to {}", p, n, lo, hi);
            }
            seen.push(p);
        }
        same!(seen[1], 3, "processed at last");
        let (c1, c2) = (m(&s1, "collections_per_second/count"), m(&s2, "collections_per_second/count"));
        ensure!(c1 >= 0 && c2 >= c1 + 3, "{} collections, then {}", c1, c2);
        same!(m(&s2, "collection_times_us/count"), c2, "collections timed");
        Ok(format!("{:?}", seen))
    }));
    ctx.conc(b, harness("dropped", || {
        let mut d = self_aware(ProcessingStrategy::DropAll);
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, counted());
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h = spawn(move || {
            value(&t2, A, 1);
            one(&t2, B);
        });
        one(&tx, A);
        tx_add_handler(&tx, recorder(1));
        h.join().unwrap();
        fair_wait(35 * MS);
        let s = snap(&d)?;
        same!(totals(&s), (1, 3, 0), "processed, dropped, updated");
        same!(num(&s, "p/c/p/n"), 0, "count");
        same!(alarm(&s, "dropped_observations_alarm"), "btrue".to_string(), "alarm");
        same!(m(&s, "observations_enqueued/current"), 0, "enqueued");
        let (n, lo, hi) = histo(&s, "observations_dropped_per_collection");
        ensure!(n >= 1 && lo >= 1 && hi <= 3 && n * lo <= 3 && 3 <= n * hi, "{} collections of {} to {}", n, lo, hi);
        d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
        snap(&d)?;
        one(&tx, A);
        fair_wait(35 * MS);
        let s = snap(&d)?;
        same!(totals(&s), (2, 3, 3), "processed, dropped, updated");
        same!(alarm(&s, "dropped_observations_alarm"), "btrue".to_string(), "alarm");
        Ok(format!("{}", n))
    }));
    // what processors report, added up
    type O = (usize, usize, usize, usize);
    fn scripted(name: &'static str, script: Vec<O>) -> FnProc {
        let mut at = 0;
        FnProc {
            f: Box::new(move |_, _| {
                let (processed, dropped, instruments_updated, observations_enqueued) = script.get(at).copied().unwrap_or((0, 0, 0, 0));
                mcrt::val(7, at as u64, mcrt::vnow().unwrap());
                at += 1;
                ProcessingOutcome { processed, dropped, instruments_updated, observations_enqueued }
            }),
            put: Box::new(move |s, _| s.push(name, true)),
        }
    }
    let menu: [O; 7] = [(0, 0, 0, 0), (3, 0, 5, 2), (0, 4, 0, 1), (2, 1, 7, 0), (150, 0, 0, 9), (70_000, 0, 1, 5_000_000_000), (5_000_000_000, 3_000_000_000, 6_000_000_000, 0)];
    for (k, (x, y)) in [(1, 2), (1, 3), (2, 3), (3, 3), (4, 1), (0, 1), (2, 2), (4, 4), (5, 1), (6, 5)].into_iter().enumerate() {
        let (x, y) = (menu[x], menu[y]);
        ctx.conc((2, 3), harness(&format!("what processors report {}", k), move || {
            let mut d = self_aware(ProcessingStrategy::ProcessAll);
            let mut mount = ProcessorMount::new("m");
            // both are in one mount, so that they are collected together
            mount.add_processor(scripted("x", vec![x, y, (0, 0, 0, 0), x]));
            mount.add_processor(scripted("y", vec![y, y, (0, 0, 0, 3), x]));
            let d2 = d.clone();
            let h = spawn(move || {
                let s = snap(&d2)?;
                R::Ok(ensure!(m(&s, "snapshots_per_second/count") >= 1, "no snapshot counted"))
            });
            d.add_processor(mount);
            h.join().unwrap()?;
            fair_wait(85 * MS);
            let s = snap(&d)?;
            let all: Vec<Vec<O>> = vec![vec![x, y], vec![y, y], vec![(0, 0, 0, 3)], vec![x, x]];
            let sum = |f: fn(&O) -> usize| all.iter().map(|c| c.iter().map(f).sum::<usize>() as i64).collect::<Vec<_>>();
            let (p, dr, i, e) = (sum(|o| o.0), sum(|o| o.1), sum(|o| o.2), sum(|o| o.3));
            let tot = |v: &Vec<i64>| v.iter().sum::<i64>();
            same!(totals(&s), (tot(&p), tot(&dr), tot(&i)), "processed, dropped, updated");
            for (what, v) in [("observations_processed_per_collection", p), ("observations_dropped_per_collection", dr.clone())] {
                let v: Vec<i64> = v.into_iter().filter(|x| *x > 0).collect();
                let want = (v.len() as i64, v.iter().min().copied().unwrap_or(-1), v.iter().max().copied().unwrap_or(-1));
                same!(histo(&s, what), want, "{}: collections, least, most", what);
            }
            same!(m(&s, "observations_enqueued/current"), 0, "enqueued");
            same!(m(&s, "observations_enqueued/peak"), e.into_iter().max().unwrap(), "most enqueued");
            same!(alarm(&s, "dropped_observations_alarm"), format!("b{}", tot(&dr) > 0), "alarm");
            same!(m(&s, "snapshots_per_second/count"), 2, "snapshots");
            Ok(String::new())
        }));
    }
    ctx.conc((2, 3), harness("the alarm about dropped observations ends", || {
        let mut d = self_aware(ProcessingStrategy::default());
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, counted());
        add_to_driver(&mut d, p);
        let long_ago = Instant::now() - ms(31_000);
        value_at(&tx, A, 1, long_ago);
        fair_wait(25 * MS);
        let mut seen = vec![];
        // dropped within the first 25 ms; the alarm lasts a minute
        for (by, on) in [(0, true), (59_000, true), (1_200, false), (60_000, false)] {
            advance(by * MS);
            fair_wait(25 * MS);
            let s = snap(&d)?;
            same!(alarm(&s, "dropped_observations_alarm"), format!("b{}", on), "alarm {} ms later", by);
            same!(totals(&s), (0, 1, 0), "processed, dropped, updated");
            seen.push(on);
        }
        value_at(&tx, A, 1, long_ago);
        one(&tx, A);
        fair_wait(25 * MS);
        let s = snap(&d)?;
        same!(alarm(&s, "dropped_observations_alarm"), "btrue".to_string(), "alarm after dropping again");
        same!(totals(&s), (1, 2, 2), "processed, dropped, updated");
        Ok(String::new())
    }));
    ctx.conc((2, 3), harness("the alarm about inactivity", || {
        let mut d = self_aware(ProcessingStrategy::ProcessAll);
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, counted());
        add_to_driver(&mut d, p);
        fair_wait(25 * MS);
        d.pause();
        fair_wait(120 * MS);
        let s0 = snap(&d)?;
        let before = m(&s0, "collections_per_second/count");
        one(&tx, A);
        for (by, on) in [(0, false), (58_000, false), (3_000, true)] {
            advance(by * MS);
            fair_wait(60 * MS);
            let s = snap(&d)?;
            same!(alarm(&s, "inactivity_alarm"), format!("b{}", on), "inactive {} ms later", by);
            same!(m(&s, "collections_per_second/count"), before, "collections while paused");
            same!(totals(&s), (0, 0, 0), "processed, dropped, updated");
        }
        d.resume();
        fair_wait(120 * MS);
        let s = snap(&d)?;
        same!(alarm(&s, "inactivity_alarm"), "bfalse".to_string(), "inactive when resumed");
        ensure!(m(&s, "collections_per_second/count") > before, "no collections when resumed");
        same!(totals(&s), (1, 0, 2), "processed, dropped, updated");
        Ok(String::new())
    }));
    // every collection counts as one, whatever came of it
    for (k, o) in [(0, 0, 0, 0), (0, 0, 0, 7), (3, 0, 0, 7), (0, 0, 5, 0), (100, 0, 300, 0), (1, 0, 1, 100_000)].into_iter().enumerate() {
        ctx.conc((1, 2), harness(&format!("no alarm while there are collections {}", k), move || {
            let mut d = self_aware(ProcessingStrategy::ProcessAll);
            d.add_processor(scripted("x", vec![o; 200]));
            fair_wait(25 * MS);
            for by in [0, 59_000, 59_000, 59_000] {
                advance(by * MS);
                fair_wait(25 * MS);
                let s = snap(&d)?;
                same!(alarm(&s, "inactivity_alarm"), "bfalse".to_string(), "inactive with {:?} reported", o);
                same!(alarm(&s, "dropped_observations_alarm"), "bfalse".to_string(), "alarm with {:?} reported", o);
                same!(m(&s, "observations_enqueued/current"), o.3 as i64, "enqueued");
            }
            Ok(String::new())
        }));
    }
    // each time something was dropped the minute starts anew
    ctx.conc((1, 2), harness("the alarm about dropped observations is prolonged", move || {
        let mut d = self_aware(ProcessingStrategy::DropAll);
        let (tx, p) = pair("p");
        add_to_driver(&mut d, p);
        let mut last: Option<u64> = None;
        let mut shown = 0;
        // (time to pass in ms, something is dropped then)
        for (k, (by, drop)) in [(10, true), (40_000, true), (40_000, false), (10_000, true), (59_000, false), (2_000, false), (10, true), (61_000, true), (59_000, true), (59_000, false)].into_iter().enumerate() {
            advance(by * MS);
            if drop {
                one(&tx, A);
                last = mcrt::vnow();
            }
            fair_wait(25 * MS);
            let s = snap(&d)?;
            let since = last.map(|l| mcrt::vnow().unwrap() - l).unwrap_or(u64::MAX);
            ensure!(since.abs_diff(60 * SEC) > 900 * MS, "harness: {} too close to the end", since);
            same!(alarm(&s, "dropped_observations_alarm"), format!("b{}", since < 60 * SEC), "alarm in step {}", k);
            shown += (since < 60 * SEC) as u32;
        }
        Ok(format!("{}", shown))
    }));
    ctx.conc((2, 4), harness("snapshots are counted", || {
        let d = self_aware(ProcessingStrategy::ProcessAll);
        let d2 = d.clone();
        let d3 = d.clone();
        let h = spawn(move || snap(&d2).map(|s| m(&s, "snapshots_per_second/count")));
        let g = spawn(move || futures::executor::block_on(d3.snapshot_async(true)).map(|s| m(&s, "snapshots_per_second/count")).map_err(err("async")));
        let a = m(&snap(&d)?, "snapshots_per_second/count");
        let v = vec![a, h.join().unwrap()?, g.join().unwrap()?];
        same!(sorted(v.iter().map(|x| *x as u64).collect()), vec![1, 2, 3], "counts of three snapshots");
        let s = snap(&d)?;
        same!(m(&s, "snapshots_per_second/count"), 4, "fourth");
        same!(m(&s, "snapshots_times_us/count"), 4, "timed");
        Ok(format!("{:?}", v))
    }));
    fn us(n: u64) -> std::time::Duration {
        std::time::Duration::from_micros(n)
    }
    fn timed(busy: u64, put: u64) -> Harness {
        harness(&format!("times, {} us to collect, {} us to take a snapshot", busy, put), move || {
            let mut d = self_aware(ProcessingStrategy::ProcessAll);
            let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
            d.add_processor(FnProc {
                f: Box::new(move |_, _| {
                    mcrt::val(7, n.fetch_add(1, std::sync::atomic::Ordering::SeqCst), mcrt::vnow().unwrap());
                    std::thread::sleep(us(busy));
                    ProcessingOutcome::default()
                }),
                put: Box::new(move |_, _| std::thread::sleep(us(put))),
            });
            fair_wait(300 * MS);
            // when collections began
            let began = || -> Vec<u64> { mcrt::vals().iter().filter(|v| v.0 == 7).map(|v| v.2).collect() };
            let t = began();
            let s = snap(&d)?;
            ensure!(t.len() > 5, "{} collections in 300 ms", t.len());
            let (c, lo, hi) = histo(&s, "collection_times_us");
            // some may have been before the processor was there
            ensure!(c + 1 >= t.len() as i64 && c <= began().len() as i64 + 2, "{} collections timed, {} seen", c, t.len());
            same!(hi, busy as i64, "longest collection");
            ensure!(lo == hi || lo == 0, "shortest collection {}", lo);
            same!(histo(&s, "snapshots_times_us"), (1, put as i64, put as i64), "time of the snapshot");
            let period = t[2] - t[1];
            ensure!((1..t.len() - 1).all(|i| t[i + 1] - t[i] == period), "collected at {:?}", t);
            let ratio = m(&s, "iteration_update_ratio_per_mille/current");
            let want = (busy * 1000 * 1000 / period) as i64;
            ensure!((ratio - want).abs() <= 1, "ratio of the time spent collecting: {}, specified {}", ratio, want);
            let (_, lo, hi) = histo(&s, "iteration_update_ratio_per_mille_histo");
            ensure!(hi == ratio && (lo == hi || lo == 0), "ratios {} to {}", lo, hi);
            Ok(format!("{}", period))
        })
    }
    for (x, y) in [(0, 0), (1_000, 3_000), (5_000, 0), (9_000, 40_000), (25_000, 1_000), (333, 999), (9_876, 12_345)] {
        ctx.conc((2, 3), timed(x, y));
    }
    ctx.conc((2, 4), harness("not asked for", || {
        let mut d = built(DriverBuilder::default().set_driver_metrics(false));
        let (tx, p) = pair("p");
        add_to_driver(&mut d, p);
        let h = spawn(move || one(&tx, A));
        let s = snap(&d)?;
        h.join().unwrap();
        ensure!(!has(&s, "_metrix"), "metrics of the driver nobody asked for: {:?}", s);
        let d = built(DriverBuilder::new("n").set_driver_metrics(true));
        let s = snap(&d)?;
        ensure!(has(&s, "n/_metrix/collections_per_second") && !has(&s, "_metrix"), "of a driver with a name: {:?}", s);
        Ok(String::new())
    }));
    super::sizes::backlog(ctx, "C27");
}
