//! Properties about threads: every schedule up to a preemption bound.
use super::util::*;
use crate::fw::{Case, Ctx, R};
use crate::{ensure, same};
use inst::*;
use mcrt::fair_wait;
use metrix::cockpit::Cockpit;
use metrix::driver::*;
use metrix::instruments::{Counter, Panel};
use metrix::processor::*;
use metrix::attached_mount::AttachedMount;
use metrix::snapshot::{FindItem, ItemKind, Snapshot};
use metrix::*;
use std::sync::{Arc, Mutex};
use std::time::Instant;

const ALL: ProcessingStrategy = ProcessingStrategy::ProcessAll;

fn counting(name: &str, l: inst::L) -> Panel<inst::L> {
    Panel::named(l, name).counter(Counter::new_with_defaults("n"))
}
fn two_panels() -> Cockpit<inst::L> {
    let mut c = Cockpit::new("c");
    c.add_panel(counting("p1", A));
    c.add_panel(counting("p2", A));
    c
}

/// two senders, two observations each
fn two_senders(tx: Tx, t2: Tx) {
    let h1 = spawn(move || {
        value(&tx, A, 10);
        value(&tx, A, 11);
    });
    let h2 = spawn(move || {
        value(&t2, A, 20);
        value(&t2, A, 21);
    });
    h1.join().unwrap();
    h2.join().unwrap();
}
const FOUR: [u64; 4] = [10, 11, 20, 21];

fn all_delivered(d: &TelemetryDriver, prefix: &str) -> Result<String, String> {
    let got = recorded(1);
    same!(sorted(got.clone()), FOUR.to_vec(), "observations delivered to the handler");
    let s = d.snapshot(false).map_err(err("snapshot"))?;
    same!(num(&s, &format!("{}p/c/p1/n", prefix)), 4, "count in the first panel");
    same!(num(&s, &format!("{}p/c/p2/n", prefix)), 4, "count in the second panel");
    Ok(format!("{:?}", got))
}
fn dress(p: &mut Proc) {
    cockpit_on(p, two_panels());
    handler_on(p, recorder(1));
}

pub fn c01(ctx: &mut Ctx) {
    let b = (3, 4);
    ctx.conc(b, harness("unbounded queue", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        two_senders(tx, t2);
        fair_wait(35 * MS);
        all_delivered(&d, "")
    }));
    ctx.conc((3, 4), harness("default driver, one shared transmitter", || {
        let mut d = default_driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        add_to_driver(&mut d, p);
        let t = Arc::new(tx);
        let t2 = t.clone();
        let h1 = spawn(move || {
            value(&t2, A, 10);
            value(&t2, A, 11);
        });
        value(&t, A, 20);
        value(&t, A, 21);
        h1.join().unwrap();
        fair_wait(35 * MS);
        all_delivered(&d, "")
    }));
    for cap in [0usize, 1, 2] {
        ctx.conc((if cap == 2 { 3 } else { 2 }, 4), harness(&format!("bounded blocking queue of {}", cap), move || {
            let mut d = driver();
            let (tx, mut p) = bounded("p", cap, true);
            dress(&mut p);
            add_to_driver(&mut d, p);
            let t2 = clone_tx(&tx);
            two_senders(tx, t2);
            fair_wait(75 * MS);
            all_delivered(&d, "")
        }));
    }
    for cap in [0usize, 2] {
        ctx.conc((2, 3), harness(&format!("a handler which transmits{}", if cap > 0 { ", bounded" } else { "" }), move || {
            let mut d = driver();
            let (tx, mut p) = pair("p");
            // it is taken from by the same thread: there must be room
            let (ux, mut q) = if cap > 0 { bounded("q", 4, true) } else { pair("q") };
            let (to_p, to_q) = (clone_tx(&tx), clone_tx(&ux));
            handler_on(&mut p, Handler::new(move |ob| {
                let Observation::ObservedOneValue { value: ObservedValue::SignedInteger(n), .. } = ob else { return 0 };
                mcrt::val(1, *n as u64, 0);
                value(&to_q, A, n + 100);
                1
            }));
            handler_on(&mut q, Handler::new(move |ob| {
                let Observation::ObservedOneValue { value: ObservedValue::SignedInteger(n), .. } = ob else { return 0 };
                mcrt::val(2, *n as u64, 0);
                if *n < 110 {
                    value(&to_p, A, n + 100);
                }
                1
            }));
            add_to_driver(&mut d, p);
            add_to_driver(&mut d, q);
            let h = spawn(move || {
                value(&tx, A, 1);
                value(&ux, A, 150);
            });
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            let _ = s;
            h.join().unwrap();
            fair_wait(75 * MS);
            same!((sorted(recorded(1)), sorted(recorded(2))), (vec![1, 201], vec![101, 150, 301]), "handled");
            Ok("ok".into())
        }));
    }
    ctx.conc((2, 4), harness("inside a mount", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        let mut m = ProcessorMount::new("m");
        add_to_mount(&mut m, p);
        d.add_processor(m);
        let t2 = clone_tx(&tx);
        two_senders(tx, t2);
        fair_wait(35 * MS);
        all_delivered(&d, "m/")
    }));
    ctx.conc(b, harness("put into an attached mount meanwhile", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        let am = d.attached(ProcessorMount::new("m"));
        let t2 = clone_tx(&tx);
        let h = spawn(move || {
            value(&t2, A, 10);
            value(&t2, A, 11);
        });
        value(&tx, A, 20);
        add_to_attached(&am, p);
        value(&tx, A, 21);
        h.join().unwrap();
        fair_wait(35 * MS);
        all_delivered(&d, "m/")
    }));
    ctx.conc((2, 4), harness("mounted late, transmitters already gone", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        let t2 = clone_tx(&tx);
        let h1 = spawn(move || {
            value(&tx, A, 10);
            value(&tx, A, 11);
            drop_tx(tx);
        });
        let h2 = spawn(move || {
            value(&t2, A, 20);
            value(&t2, A, 21);
            drop_tx(t2);
        });
        add_to_driver(&mut d, p);
        h1.join().unwrap();
        h2.join().unwrap();
        fair_wait(35 * MS);
        all_delivered(&d, "")
    }));
    ctx.conc(b, harness("pausing and resuming meanwhile", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        add_to_driver(&mut d, p);
        let d2 = d.clone();
        let t2 = clone_tx(&tx);
        let h = spawn(move || {
            value(&tx, A, 10);
            value(&tx, A, 11);
            value(&tx, A, 20);
        });
        d2.pause();
        value(&t2, A, 21);
        d2.resume();
        h.join().unwrap();
        fair_wait(175 * MS);
        all_delivered(&d, "")
    }));
    ctx.conc(b, harness("two processors", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dress(&mut p);
        let (ux, mut q) = pair("q");
        handler_on(&mut q, recorder(2));
        add_to_driver(&mut d, p);
        add_to_driver(&mut d, q);
        let h = spawn(move || {
            value(&tx, A, 10);
            value(&ux, A, 30);
            value(&tx, A, 11);
            value(&ux, A, 31);
            value(&tx, A, 20);
            value(&tx, A, 21);
        });
        h.join().unwrap();
        fair_wait(35 * MS);
        same!(sorted(recorded(2)), vec![30, 31], "observations delivered to the other processor");
        all_delivered(&d, "")
    }));
    // more than a processor takes in one go (1000), and more than 100 at once
    for n in [150u64, 2300] {
        let mut hs = harness(&format!("backlog of {}", n), move || {
            let mut d = driver();
            let (tx, mut p) = pair("p");
            handler_on(&mut p, recorder(1));
            let t2 = clone_tx(&tx);
            mcrt::quiet(|| {
                for i in 0..n {
                    value(&tx, A, i as i64);
                }
            });
            add_to_driver(&mut d, p);
            let h = spawn(move || value(&t2, A, 5000));
            value(&tx, A, 5001);
            h.join().unwrap();
            fair_wait(35 * MS);
            let got = recorded(1);
            let mut want: Vec<u64> = (0..n).collect();
            want.extend([5000, 5001]);
            same!(sorted(got), want, "delivered");
            Ok(String::new())
        });
        hs.max_steps = 40_000;
        ctx.conc(if n > 200 { (0, 1) } else { (1, 2) }, hs);
    }
    super::sizes::very_long(ctx);
}

pub fn c02(ctx: &mut Ctx) {
    let b = (3, 4);
    fn ordered(v: &[u64], a: u64, z: u64) -> bool {
        let v: Vec<u64> = v.iter().copied().filter(|x| (a..=z).contains(x)).collect();
        v.windows(2).all(|w| w[0] < w[1])
    }
    ctx.conc(b, harness("two senders", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h1 = spawn(move || (10..13).for_each(|i| value(&tx, A, i)));
        let h2 = spawn(move || (20..23).for_each(|i| value(&t2, A, i)));
        h1.join().unwrap();
        h2.join().unwrap();
        fair_wait(35 * MS);
        let v = recorded(1);
        ensure!(ordered(&v, 10, 19) && ordered(&v, 20, 29) && v.len() == 6, "order of delivery {:?}", v);
        Ok(format!("{:?}", v))
    }));
    for cap in [0usize, 1] {
        ctx.conc((2, 4), harness(&format!("two senders, bounded blocking queue of {}", cap), move || {
            let mut d = driver();
            let (tx, mut p) = bounded("p", cap, true);
            handler_on(&mut p, recorder(1));
            add_to_driver(&mut d, p);
            let t2 = clone_tx(&tx);
            let h1 = spawn(move || (10..12).for_each(|i| value(&tx, A, i)));
            let h2 = spawn(move || (20..22).for_each(|i| value(&t2, A, i)));
            h1.join().unwrap();
            h2.join().unwrap();
            fair_wait(75 * MS);
            let v = recorded(1);
            ensure!(ordered(&v, 10, 19) && ordered(&v, 20, 29) && v.len() == 4, "order of delivery {:?}", v);
            Ok(format!("{:?}", v))
        }));
    }
    ctx.conc(b, harness("control messages are in order with observations", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h1 = spawn(move || {
            value(&tx, A, 10);
            tx_add_handler(&tx, recorder(2));
            value(&tx, A, 11);
            let mut c = Cockpit::new("k");
            c.add_handler(recorder(3));
            tx_add_cockpit(&tx, c);
            value(&tx, A, 12);
            let mut pa = Panel::named(A, "x");
            pa.add_handler(recorder(4));
            tx_add_panel(&tx, "k", pa);
            value(&tx, A, 13);
            tx_remove_panel(&tx, "k", "x");
            value(&tx, A, 14);
            tx_remove_cockpit(&tx, "k");
            value(&tx, A, 15);
        });
        let h2 = spawn(move || value(&t2, A, 20));
        h1.join().unwrap();
        h2.join().unwrap();
        fair_wait(35 * MS);
        let own = |k: u32| recorded(k).into_iter().filter(|x| *x < 20).collect::<Vec<_>>();
        same!(own(1), vec![10, 11, 12, 13, 14, 15], "all");
        same!(own(2), vec![11, 12, 13, 14, 15], "after adding a handler");
        same!(own(3), vec![12, 13, 14], "between adding and removing a cockpit");
        same!(own(4), vec![13], "between adding and removing a panel");
        Ok(format!("{:?}", recorded(1)))
    }));
    ctx.conc(b, harness("handed from thread to thread", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        value(&tx, A, 1);
        let h = spawn(move || {
            value(&t2, A, 2);
            let t3 = clone_tx(&t2);
            let h = spawn(move || value(&t3, A, 3));
            h.join().unwrap();
            value(&t2, A, 4);
        });
        h.join().unwrap();
        value(&tx, A, 5);
        fair_wait(35 * MS);
        same!(recorded(1), vec![1, 2, 3, 4, 5], "order of delivery");
        Ok("in order".into())
    }));
    ctx.conc((2, 3), harness("a backlog keeps its order", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        mcrt::quiet(|| (0..120).for_each(|i| value(&tx, A, i)));
        add_to_driver(&mut d, p);
        value(&tx, A, 120);
        d.pause();
        value(&tx, A, 121);
        d.resume();
        value(&tx, A, 122);
        fair_wait(175 * MS);
        same!(recorded(1), (0..123).collect::<Vec<u64>>(), "order of delivery");
        Ok("in order".into())
    }));
    super::sizes::backlog(ctx, "C02");
}

/// What one thread may tell a driver.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmd {
    Processor,
    Snapshooter,
    Snapshot,
    Request,
    GiveUp,
    Pause,
    Resume,
    Value,
    DropAll,
    ProcessAll,
    Wait,
}

/// Any sequence of `depth` commands given by one thread to a driver which has nothing to do,
/// or for a while very much, or drops observations for a while.
pub fn commands(name: &str, alphabet: &'static [Cmd], depth: usize, metrics: bool) -> mcrt::explore::Harness {
    use Cmd::*;
    let mut h = harness(name, move || {
        let busy = mcrt::any(3);
        let mut d = built(DriverBuilder::default().set_driver_metrics(metrics).set_processing_strategy(ALL));
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, two_panels());
        add_to_driver(&mut d, p);
        let mut round = 0;
        d.add_processor(FnProc {
            f: Box::new(move |_, _| {
                round += 1;
                match busy {
                    1 if round < 13 => ProcessingOutcome { processed: 1_000, ..Default::default() },
                    2 if round < 13 => ProcessingOutcome { dropped: 1, ..Default::default() },
                    _ => ProcessingOutcome::default(),
                }
            }),
            put: Box::new(|_, _| {}),
        });
        let mut added: Vec<String> = vec![];
        let (mut requests, mut last) = (0, 0);
        let mut pending = vec![];
        // what the driver was told last, and whether it has certainly heard of it
        let (mut paused, mut dropping, mut heard) = (false, false, true);
        // as long as a pause is in force
        let mut frozen: Option<i64> = None;
        // values which were certainly processed, which may have been or will be, and which cannot be
        let (mut sure, mut open) = (0i64, 0i64);
        // of those which may, the ones which are when they are processed with what is in force
        let mut waiting = 0i64;
        fn look(s: &metrix::snapshot::Snapshot, added: &[String], metrics: Option<i64>) -> Result<i64, String> {
            for a in added {
                ensure!(has(s, a), "{}, added before the request, is missing: {:?}", a, s);
            }
            let (x, y) = (num(s, "p/c/p1/n"), num(s, "p/c/p2/n"));
            same!(x, y, "counters fed by the same observations");
            if let Some(k) = metrics {
                same!(num(s, "_metrix/snapshots_per_second/count"), k, "snapshots, this one included");
            }
            Ok(x)
        }
        let mut said = vec![];
        for i in 0..depth {
            let c = alphabet[mcrt::any(alphabet.len())];
            said.push(c);
            let r = (|| -> Result<(), String> {
                match c {
                    Processor => {
                        d.add_processor(ProcessorMount::new(format!("m{}", i)));
                        added.push(format!("m{}", i));
                    }
                    Snapshooter => {
                        let name = format!("s{}", i);
                        added.push(name.clone());
                        d.add_snapshooter(Shooter(Box::new(move |s: &mut metrix::snapshot::Snapshot, _| s.push(name.clone(), 1u64))));
                    }
                    Snapshot => {
                        requests += 1;
                        let s = d.snapshot(false).map_err(err("snapshot"))?;
                        let n = look(&s, &added, if metrics { Some(requests) } else { None })?;
                        ensure!(n >= last, "the count went back from {} to {}", last, n);
                        if let Some(f) = frozen {
                            same!(n, f, "count while paused");
                        }
                        last = n;
                        heard = true;
                        if paused {
                            frozen = Some(n);
                        }
                    }
                    Request => {
                        requests += 1;
                        pending.push((d.snapshot_async(false), requests, added.clone(), last, frozen));
                    }
                    GiveUp => drop(d.snapshot_async(true)),
                    Pause => {
                        d.pause();
                        heard &= paused;
                        paused = true;
                    }
                    Resume => {
                        d.resume();
                        heard &= !paused;
                        paused = false;
                        frozen = None;
                    }
                    Value => {
                        value(&tx, A, 1);
                        if heard {
                            waiting += 1
                        } else {
                            open += 1
                        }
                    }
                    DropAll | ProcessAll => {
                        d.change_processing_stragtegy(if c == DropAll { ProcessingStrategy::DropAll } else { ALL });
                        if dropping != (c == DropAll) {
                            heard = false;
                            dropping = c == DropAll;
                            open += waiting;
                            waiting = 0;
                        }
                    }
                    Wait => {
                        fair_wait(30 * MS);
                        if heard && !paused {
                            if !dropping {
                                sure += waiting;
                            }
                            waiting = 0;
                        }
                    }
                }
                Ok(())
            })();
            r.map_err(|e| format!("{:?} with {}: {}", said, ["nothing to do", "much to do", "observations being dropped"][busy], e))?;
        }
        let r = (|| -> Result<i64, String> {
            d.resume();
            requests += 1;
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            look(&s, &added, if metrics { Some(requests) } else { None })?;
            fair_wait(60 * MS);
            requests += 1;
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            let n = look(&s, &added, if metrics { Some(requests) } else { None })?;
            if !dropping {
                sure += waiting;
            }
            ensure!(n >= sure && n <= sure + open, "{} observations took effect of {} to {}", n, sure, sure + open);
            for (f, k, added, last, frozen) in pending {
                let s = futures::executor::block_on(f).map_err(err("asynchronous request"))?;
                let m = look(&s, &added, if metrics { Some(k) } else { None })?;
                ensure!(m >= last && m <= n, "request {}: count {} between {} and {}", k, m, last, n);
                if let Some(f) = frozen {
                    same!(m, f, "count while paused");
                }
            }
            Ok(n)
        })();
        r.map(|n| format!("{}", n)).map_err(|e| format!("{:?} with {}: {}", said, ["nothing to do", "much to do", "observations being dropped"][busy], e))
    });
    h.max_steps = 20_000;
    h
}

pub fn c03(ctx: &mut Ctx) {
    let b = (3, 4);
    ctx.conc(b, harness("one requester", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, two_panels());
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let h = spawn(move || (1..4).for_each(|i| value(&tx, A, i)));
        let mut last = 0;
        let mut seen = vec![];
        for _ in 0..3 {
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            let (x, y) = (num(&s, "p/c/p1/n"), num(&s, "p/c/p2/n"));
            same!(x, y, "counters fed by the same observations in one snapshot");
            ensure!((0..=3).contains(&x), "count {} of 3", x);
            ensure!(x >= last, "a later snapshot went back from {} to {}", last, x);
            last = x;
            seen.push(x);
        }
        h.join().unwrap();
        fair_wait(35 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "p/c/p1/n"), 3, "final count");
        Ok(format!("{:?}", seen))
    }));
    ctx.conc(b, harness("two requesters and an asynchronous one", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, two_panels());
        add_to_driver(&mut d, p);
        let d2 = d.clone();
        let h = spawn(move || (1..3).for_each(|i| value(&tx, A, i)));
        let g = spawn(move || -> Result<Vec<i64>, String> {
            let f = d2.snapshot_async(false);
            let s1 = futures::executor::block_on(f).map_err(err("async snapshot"))?;
            let s2 = d2.snapshot(false).map_err(err("snapshot"))?;
            let mut v = vec![];
            for s in [s1, s2] {
                let (x, y) = (num(&s, "p/c/p1/n"), num(&s, "p/c/p2/n"));
                same!(x, y, "counters fed by the same observations in one snapshot");
                v.push(x);
            }
            ensure!(v[0] <= v[1], "went back {:?}", v);
            Ok(v)
        });
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "p/c/p1/n"), num(&s, "p/c/p2/n"), "counters of one snapshot");
        let v = g.join().unwrap()?;
        // this request is made after the other thread got its answers
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        ensure!(num(&s, "p/c/p1/n") >= v[1], "went back after {:?}", v);
        h.join().unwrap();
        Ok(format!("{:?}", v))
    }));
    ctx.conc(b, harness("added before requested", || {
        let mut d = driver();
        let (tx, p) = pair("p");
        let d2 = d.clone();
        let h = spawn(move || value(&tx, A, 1));
        add_to_driver(&mut d, p);
        d.add_snapshooter(Shooter(Box::new(|s: &mut Snapshot, _| s.push("shot", 1u64))));
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        ensure!(has(&s, "p"), "a processor added before the request is missing: {:?}", s);
        same!(num(&s, "shot"), 1, "a snapshooter added before the request");
        let g = spawn(move || d2.snapshot(true).map(|s| has(&s, "p") && has(&s, "shot")));
        same!(g.join().unwrap().map_err(err("snapshot"))?, true, "seen by a thread started afterwards");
        h.join().unwrap();
        Ok("present".into())
    }));
    {
        use Cmd::*;
        const ANY: &[Cmd] = &[Snapshot, Processor, Snapshooter, Request, Value, Pause, Resume, Wait];
        let d = ctx.pickt(3, 4);
        ctx.conc((1, 1), commands(&format!("any {} commands", d), ANY, d, false));
        let d = ctx.pickt(5, 6);
        ctx.conc((0, 0), commands(&format!("any {} commands", d), ANY, d, false));
    }
    ctx.conc((2, 3), harness("added to a nested driver which is slow", || {
        let mut d = driver();
        let mut i = built(DriverBuilder::default().set_name("inner").set_driver_metrics(false));
        i.add_processor(FnProc {
            f: Box::new(|_, _| {
                std::thread::sleep(ms(90_000));
                ProcessingOutcome { processed: 1, ..Default::default() }
            }),
            put: Box::new(|s, _| s.push("slow", 1u64)),
        });
        d.nest(i);
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, two_panels());
        add_to_driver(&mut d, p);
        let h = spawn(move || value(&tx, A, 1));
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "inner/slow"), 1, "what was added to the nested driver");
        h.join().unwrap();
        Ok(format!("{}", num(&s, "p/c/p1/n")))
    }));
    ctx.conc(b, harness("values a handler writes are from between observations", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        // a handler with two fields it updates together
        let f1 = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let f2 = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let (g1, g2) = (f1.clone(), f2.clone());
        use std::sync::atomic::Ordering::SeqCst;
        handler_on(&mut p, Handler::new(move |_| {
            f1.fetch_add(1, SeqCst);
            mcrt::point(50);
            f2.fetch_add(1, SeqCst);
            1
        }).putting(move |s, _| {
            let x = g1.load(SeqCst);
            mcrt::point(50);
            s.push("x", x);
            s.push("y", g2.load(SeqCst));
        }));
        add_to_driver(&mut d, p);
        let d2 = d.clone();
        let h = spawn(move || (0..2).for_each(|i| value(&tx, A, i)));
        let g = spawn(move || d2.snapshot(false));
        let s1 = d.snapshot(false).map_err(err("snapshot"))?;
        let s2 = g.join().unwrap().map_err(err("snapshot"))?;
        for s in [s1, s2] {
            same!(num(&s, "p/x"), num(&s, "p/y"), "a snapshot from the middle of an observation");
        }
        h.join().unwrap();
        Ok(String::new())
    }));
    super::sizes::backlog(ctx, "C03");
}

fn any_result<T, E>(r: Result<T, E>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(_) => "err",
    }
}

pub fn c04(ctx: &mut Ctx) {
    let b = (3, 5);
    {
        use Cmd::*;
        const ANY: &[Cmd] = &[Snapshot, Request, GiveUp, Pause, Resume, Value, Wait, DropAll];
        let d = ctx.pickt(3, 4);
        ctx.conc((1, 1), commands(&format!("any {} commands", d), ANY, d, false));
        let d = ctx.pickt(4, 6);
        ctx.conc((0, 0), commands(&format!("any {} commands", d), ANY, d, false));
    }
    ctx.conc((4, 5), harness("two synchronous, one asynchronous", || {
        let d = driver();
        let d2 = d.clone();
        let f = d.snapshot_async(true);
        let h = spawn(move || d2.snapshot(false).is_ok());
        ensure!(d.snapshot(false).is_ok(), "a snapshot of a running driver failed");
        ensure!(futures::executor::block_on(f).is_ok(), "an asynchronous snapshot of a running driver failed");
        ensure!(h.join().unwrap(), "a concurrent snapshot of a running driver failed");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("paused", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        d.pause();
        value(&tx, A, 1);
        let d2 = d.clone();
        let h = spawn(move || futures::executor::block_on(d2.snapshot_async(false)).is_ok());
        let s = d.snapshot(false).map_err(err("snapshot while paused"))?;
        ensure!(has(&s, "p"), "no processor in {:?}", s);
        ensure!(h.join().unwrap(), "async snapshot while paused failed");
        d.resume();
        ensure!(d.snapshot(false).is_ok(), "after resuming");
        Ok("ok".into())
    }));
    ctx.conc((4, 5), harness("driver dropped with a pending asynchronous request", || {
        let d = driver();
        let f = d.snapshot_async(false);
        let g = d.snapshot_async(false);
        let h = spawn(move || any_result(futures::executor::block_on(g)));
        drop(d);
        let x = any_result(futures::executor::block_on(f));
        Ok(format!("{} {}", x, h.join().unwrap()))
    }));
    ctx.conc((4, 5), harness("paused driver dropped with a pending asynchronous request", || {
        let d = driver();
        d.pause();
        let f = d.snapshot_async(false);
        drop(d);
        Ok(any_result(futures::executor::block_on(f)).into())
    }));
    ctx.conc((4, 5), harness("a dropped request harms nobody", || {
        let d = driver();
        let d2 = d.clone();
        let f = d.snapshot_async(false);
        let h = spawn(move || drop(f));
        ensure!(d2.snapshot(false).is_ok(), "a later snapshot failed");
        ensure!(futures::executor::block_on(d.snapshot_async(true)).is_ok(), "a later async snapshot failed");
        h.join().unwrap();
        Ok("ok".into())
    }));
    for named in [false, true] {
        ctx.conc((2, 3), harness(&format!("nested driver, named {}", named), move || {
            let mut d = driver();
            let inner = if named { DriverBuilder::new("in") } else { DriverBuilder::default() };
            let mut inner = built(inner.set_driver_metrics(false));
            let (tx, mut p) = pair("p");
            cockpit_on(&mut p, two_panels());
            add_to_driver(&mut inner, p);
            let i2 = inner.clone();
            d.nest(inner);
            let h = spawn(move || i2.snapshot(false).is_ok());
            value(&tx, A, 1);
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            ensure!(has(&s, if named { "in/p/c/p1/n" } else { "p/c/p1/n" }), "values of the nested driver missing: {:?}", s);
            ensure!(h.join().unwrap(), "snapshot of the nested driver failed");
            Ok("ok".into())
        }));
    }
    {
        let mut hs = harness("a handler panics", || {
            let mut d = driver();
            let (tx, mut p) = pair("p");
            handler_on(&mut p, Handler::new(|_| panic!("in a handler")));
            add_to_driver(&mut d, p);
            let d2 = d.clone();
            let h = spawn(move || value(&tx, A, 1));
            let g = spawn(move || any_result(d2.snapshot(false)));
            let f = d.snapshot_async(false);
            let x = any_result(d.snapshot(false));
            let y = any_result(futures::executor::block_on(f));
            h.join().unwrap();
            let z = g.join().unwrap();
            fair_wait(35 * MS);
            // whatever became of the backend, nobody hangs
            let v = any_result(d.snapshot(false));
            let w = any_result(futures::executor::block_on(d.snapshot_async(false)));
            Ok(format!("{} {} {} {} {}", x, y, z, v, w))
        });
        hs.allow_panics = true;
        ctx.conc((3, 5), hs);
    }
    {
        let mut hs = harness("a snapshooter panics", || {
            let mut d = driver();
            d.add_snapshooter(Shooter(Box::new(|_, _| panic!("in a snapshooter"))));
            let d2 = d.clone();
            let g = spawn(move || any_result(d2.snapshot(false)));
            let x = any_result(futures::executor::block_on(d.snapshot_async(false)));
            let z = g.join().unwrap();
            Ok(format!("{} {}", x, z))
        });
        hs.allow_panics = true;
        ctx.conc(b, hs);
    }
    {
        let mut hs = harness("a nested driver panics", || {
            let mut d = driver();
            let mut inner = built(DriverBuilder::new("in").set_driver_metrics(false));
            let (tx, mut p) = pair("p");
            handler_on(&mut p, Handler::new(|_| panic!("in a handler of the nested driver")));
            add_to_driver(&mut inner, p);
            let (ux, mut q) = pair("q");
            cockpit_on(&mut q, two_panels());
            d.nest(inner);
            add_to_driver(&mut d, q);
            let d2 = d.clone();
            let h = spawn(move || value(&tx, A, 1));
            let g = spawn(move || d2.snapshot(false).map(|s| num(&s, "q/c/p1/n")));
            value(&ux, A, 1);
            let s = futures::executor::block_on(d.snapshot_async(false)).map_err(err("asynchronous snapshot"))?;
            ensure!(num(&s, "q/c/p1/n") <= 1, "{:?}", s);
            g.join().unwrap().map_err(err("snapshot of another thread"))?;
            h.join().unwrap();
            fair_wait(45 * MS);
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            same!(num(&s, "q/c/p1/n"), 1, "count beside the nested driver");
            Ok("ok".into())
        });
        hs.allow_panics = true;
        ctx.conc((1, 2), hs);
    }
    ctx.conc((3, 4), harness("while observations are being dropped", || {
        let mut d = driver();
        d.change_processing_stragtegy(ProcessingStrategy::DropAll);
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let h = spawn(move || (0..3).for_each(|i| value(&tx, A, i)));
        ensure!(d.snapshot(false).is_ok(), "snapshot");
        ensure!(futures::executor::block_on(d.snapshot_async(false)).is_ok(), "async snapshot");
        h.join().unwrap();
        Ok("ok".into())
    }));
    ctx.conc(b, harness("one of two handles dropped", || {
        let d = default_driver();
        let d2 = d.clone();
        let h = spawn(move || drop(d2));
        ensure!(d.snapshot(false).is_ok(), "snapshot");
        h.join().unwrap();
        ensure!(d.snapshot(true).is_ok(), "snapshot");
        Ok("ok".into())
    }));
    // a backlog larger than what is taken in one go
    {
        let mut hs = harness("backlog of 2500", || {
            let mut d = driver();
            let (tx, mut p) = pair("p");
            cockpit_on(&mut p, two_panels());
            let (seen, r1) = (Arc::new(std::sync::atomic::AtomicU64::new(0)), Released(1));
            let s2 = seen.clone();
            handler_on(&mut p, Handler::new(move |_| {
                let _ = &r1;
                s2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                1
            }));
            mcrt::quiet(|| (0..2500).for_each(|i| value(&tx, A, i)));
            add_to_driver(&mut d, p);
            let d2 = d.clone();
            let h = spawn(move || d2.snapshot(false).is_ok());
            let mut asked = Box::pin(d.snapshot_async(false));
            let at_once = std::future::Future::poll(asked.as_mut(), &mut std::task::Context::from_waker(futures::task::noop_waker_ref()));
            let before = seen.load(std::sync::atomic::Ordering::SeqCst);
            let s = match at_once {
                std::task::Poll::Ready(s) => s,
                std::task::Poll::Pending => futures::executor::block_on(asked),
            }
            .map_err(err("snapshot"))?;
            ensure!(h.join().unwrap(), "snapshot");
            // answered between two rounds of processing, not after the whole backlog
            let n = num(&s, "p/c/p1/n");
            ensure!(before > 0 || (0..2500).contains(&n), "asked before the first, answered only after {} observations", n);
            Ok("ok".into())
        });
        hs.max_steps = 60_000;
        ctx.conc((0, 1), hs);
    }
    own_thread(ctx);
    many(ctx, 0);
}

/// Whatever a handler does with a handle of the driver it runs on, that is on the driver's own thread
fn own_thread(ctx: &mut Ctx) {
    #[derive(Default)]
    struct Of {
        own: Option<D>,
        tx: Option<Tx>,
        mount: Option<Am>,
        requests: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Result<Snapshot, GetSnapshotError>> + Send>>>,
        senders: Vec<Tx>,
        added: Vec<String>,
    }
    for (bound, depth) in ctx.pickt([(0u8, 4), (1, 3)], [(0, 5), (2, 3)]) {
        ctx.conc((bound, bound), harness(&format!("{} things a handler does with its own driver", depth), move || {
            let mut d = driver();
            let of = Arc::new(Mutex::new(Of::default()));
            let (tx, mut p) = pair("p");
            let (o2, r1) = (of.clone(), Released(1));
            handler_on(&mut p, Handler::new(move |o| {
                let _ = &r1;
                let Observation::ObservedOneValue { value: v, .. } = o else { return 0 };
                let v = v.convert_to_u64().unwrap();
                mcrt::val(1, v, 0);
                let mut guard = o2.lock().unwrap();
                let of = &mut *guard;
                let name = format!("i{}", v);
                if let Some(own) = &mut of.own {
                    match v % 10 {
                        0 => {
                            of.added.push(format!("{}/c/p1/n", name));
                            let (tx, mut q) = pair(&name);
                            cockpit_on(&mut q, two_panels());
                            value(&tx, A, 1);
                            of.senders.push(tx);
                            add_to_driver(own, q);
                        }
                        1 => {
                            of.added.push(name.clone());
                            own.add_snapshooter(Shooter(Box::new(move |s, _| s.push(name.clone(), 1u64))));
                        }
                        2 => {
                            of.added.push(format!("m/{}", name));
                            let am = of.mount.as_ref().unwrap();
                            am.put_snapshooter(Shooter(Box::new(move |s, _| s.push(name.clone(), 1u64))));
                        }
                        3 => of.requests.push(Box::pin(own.snapshot_async(false))),
                        4 => own.pause(),
                        5 => own.resume(),
                        6 => drop(own.clone()),
                        7 => {
                            let tx = of.tx.as_ref().unwrap();
                            value(tx, A, 1000 + v as i64 / 10 * 10 + 8);
                        }
                        _ => {}
                    }
                }
                if v == 999 {
                    let own = of.own.take();
                    drop(guard);
                    drop(own);
                }
                1
            }));
            {
                let mut o = of.lock().unwrap();
                o.own = Some(d.clone());
                o.tx = Some(clone_tx(&tx));
                o.mount = Some(d.attached(ProcessorMount::new("m")));
            }
            add_to_driver(&mut d, p);
            let r2 = Released(2);
            d.add_snapshooter(Shooter(Box::new(move |s, _| {
                let _ = &r2;
                s.push("x", 1u64)
            })));
            let early = mcrt::any(2) == 1;
            let mut d = Some(d);
            let (mut sent, mut held, mut paused) = (vec![], vec![], false);
            let mut did = vec![];
            let r = (|| -> Result<(), String> {
                if early {
                    // only the handle of the handler is left
                    d = None;
                }
                for step in 0..depth as u64 {
                    let op = mcrt::any(if early { 4 } else { 8 }) as u64;
                    did.push(["add processor", "add snapshooter", "add to mount", "request", "pause", "resume", "clone", "transmit"][op as usize]);
                    let v = step * 10 + 10 + op;
                    value(&tx, A, v as i64);
                    let of_it = if op == 7 { vec![v, 1000 + v / 10 * 10 + 8] } else { vec![v] };
                    if paused { held.push((v, of_it)) } else {
                        sent.extend(of_it);
                        paused = op == 4;
                    }
                    fair_wait(if paused { 120 } else { 45 } * MS);
                    same!(recorded(1), sent, "processed");
                    same!(sorted(recorded(99)), Vec::<u64>::new(), "released while a handle exists");
                }
                if let Some(d) = &d {
                    while !held.is_empty() || paused {
                        d.resume();
                        paused = false;
                        // everything held back is processed in one go: a pause among it applies afterwards
                        let mut after = vec![];
                        for (v, of_it) in held.drain(..) {
                            sent.push(v);
                            after.extend(of_it.into_iter().skip(1));
                            match v % 10 {
                                4 => paused = true,
                                5 => paused = false,
                                _ => {}
                            }
                        }
                        sent.extend(after);
                        fair_wait(120 * MS);
                    }
                    same!(recorded(1), sent, "processed after resuming");
                    let s = d.snapshot(false).map_err(err("snapshot"))?;
                    let added = of.lock().unwrap().added.clone();
                    for a in added {
                        same!(num(&s, &a), 1, "{} in {:?}", a, s);
                    }
                    same!(num(&s, "x"), 1, "x in {:?}", s);
                }
                let requests = std::mem::take(&mut of.lock().unwrap().requests);
                for f in requests {
                    let s = futures::executor::block_on(f).map_err(err("a request of a living driver"))?;
                    same!(num(&s, "x"), 1, "x in the snapshot of a request: {:?}", s);
                }
                d = None;
                fair_wait(120 * MS);
                same!(sorted(recorded(99)), Vec::<u64>::new(), "released while a handle exists");
                // the last handle is dropped by the handler
                value(&tx, A, 999);
                fair_wait(250 * MS);
                same!(sorted(recorded(99)), vec![1, 2], "released after the last handle was dropped by a handler");
                Ok(())
            })();
            // nothing may keep the driver
            let rest = std::mem::take(&mut *of.lock().unwrap());
            drop(rest);
            r.map(|_| "ok".into()).map_err(|e| format!("{:?}, early {}: {}", did, early, e))
        }));
    }
    for n in ctx.pickt(vec![70u64, 1030, 10_030], vec![70, 1030, 10_030, 66_000]) {
        let mut hs = harness(&format!("a handler adds {} things to its own driver", n), move || {
            let mut d = driver();
            let own = Arc::new(Mutex::new(Some(d.clone())));
            let (tx, mut p) = pair("p");
            handler_on(&mut p, Handler::new(move |_| {
                let mut own = own.lock().unwrap().take().unwrap();
                for k in 0..n {
                    own.add_snapshooter(Shooter(Box::new(move |s, _| s.push(format!("x{}", k), 1u64))));
                }
                drop(own);
                1
            }));
            add_to_driver(&mut d, p);
            value(&tx, A, 1);
            fair_wait(30 * MS);
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            for k in [0, n / 2, n - 1] {
                same!(num(&s, &format!("x{}", k)), 1, "the {}th thing added", k);
            }
            Ok("ok".into())
        });
        hs.max_steps = 10_000 + 20 * n;
        hs.max_jumps = 10_000 + 3 * n;
        ctx.conc((0, 0), hs);
    }
}

/// Many requests, handles and commands at a time
fn many(ctx: &mut Ctx, what: usize) {
    for n in ctx.pickt(vec![3u64, 17, 70, 300, 1030, 4100], vec![3, 5, 9, 17, 33, 70, 130, 300, 513, 1030, 4100, 10_030, 66_000]) {
        let name = [format!("{} requests at once", n), format!("{} handles", n), format!("{} commands at once", n)][what].clone();
        let mut hs = harness(&name, move || {
            let mut d = driver();
            let way = mcrt::any(4);
            let r = Released(1);
            let (tx, mut p) = pair("p");
            handler_on(&mut p, recorder(1));
            add_to_driver(&mut d, p);
            d.add_snapshooter(Shooter(Box::new(move |s, _| {
                let _ = &r;
                s.push("x", 1u64)
            })));
            let r = (|| -> Result<(), String> {
                match what {
                    0 => {
                        // running, paused, with a backlog, all but each fifth given up
                        if way == 1 {
                            d.pause();
                        }
                        if way == 2 {
                            (0..300).for_each(|_| value(&tx, A, 1));
                        }
                        let mut all = vec![];
                        for k in 0..n {
                            let f = d.snapshot_async(false);
                            if way < 3 || k % 5 == 0 {
                                all.push(f);
                            }
                        }
                        for (k, f) in all.into_iter().enumerate() {
                            let s = futures::executor::block_on(f).map_err(|e| format!("request {}: {}", k, e))?;
                            same!(num(&s, "x"), 1, "answer to request {}: {:?}", k, s);
                        }
                        let s = d.snapshot(false).map_err(err("snapshot"))?;
                        same!(num(&s, "x"), 1, "{:?}", s);
                        drop(d);
                    }
                    1 => {
                        // dropped from the first on, from the last on, alternately, each before the next is made
                        let mut hs: std::collections::VecDeque<_> = Some(d).into_iter().collect();
                        for k in 0..n {
                            let h = hs[if way == 0 { 0 } else { hs.len() - 1 }].clone();
                            hs.push_back(h);
                            if way == 3 && k % 2 == 0 {
                                hs.pop_front();
                            }
                        }
                        let mut k = 0;
                        while hs.len() > 1 {
                            k += 1;
                            if way == 0 || way == 2 && k % 2 == 0 { hs.pop_front(); } else { hs.pop_back(); }
                        }
                        value(&tx, A, 7);
                        fair_wait(35 * MS);
                        same!(recorded(1), vec![7], "processed");
                        let s = hs[0].snapshot(false).map_err(err("a snapshot of the last of many handles"))?;
                        same!(num(&s, "x"), 1, "{:?}", s);
                        same!(recorded(99), Vec::<u64>::new(), "released while a handle exists");
                    }
                    _ => {
                        // pause, then many commands of one kind or all of them, and resume
                        d.pause();
                        fair_wait(60 * MS);
                        value(&tx, A, 7);
                        for k in 0..n {
                            match if way == 3 { k as usize % 3 } else { way } {
                                0 => d.pause(),
                                1 => d.change_processing_stragtegy(ProcessingStrategy::DropAll),
                                _ => {
                                    let name = format!("x{}", k);
                                    d.add_snapshooter(Shooter(Box::new(move |s, _| s.push(name.clone(), 1u64))))
                                }
                            }
                        }
                        d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
                        let s = d.snapshot(false).map_err(err("a snapshot while paused"))?;
                        let shown: std::collections::HashSet<_> = s.items.iter().map(|x| x.0.clone()).collect();
                        for k in 0..n {
                            let there = way == 2 || way == 3 && k % 3 == 2;
                            same!(shown.contains(&format!("x{}", k)), there, "x{} shown", k);
                        }
                        same!(recorded(1), Vec::<u64>::new(), "processed while paused");
                        d.resume();
                        fair_wait(120 * MS);
                        same!(recorded(1), vec![7], "processed after resuming");
                        drop(d);
                    }
                }
                fair_wait(120 * MS);
                same!(recorded(99), vec![1], "released after the last handle was dropped");
                Ok(())
            })();
            r.map(|_| "ok".into()).map_err(|e| format!("way {}: {}", way, e))
        });
        hs.max_steps = 10_000 + 60 * n;
        hs.max_jumps = 10_000 + 8 * n;
        ctx.conc((0, 0), hs);
    }
}

pub fn c05(ctx: &mut Ctx) {
    let b = (4, 5);
    let owned = |d: &mut TelemetryDriver| -> Tx {
        let (tx, mut p) = pair("p");
        let r = Released(1);
        handler_on(&mut p, Handler::new(move |o| {
            let _ = &r;
            if let Observation::ObservedOneValue { value, .. } = o {
                mcrt::val(1, value.convert_to_u64().unwrap(), 0);
            }
            1
        }));
        add_to_driver(d, p);
        let r = Released(2);
        d.add_snapshooter(Shooter(Box::new(move |s, _| {
            let _ = &r;
            s.push("x", 1u64)
        })));
        tx
    };
    fn released() -> Vec<u64> {
        sorted(recorded(99))
    }
    for (bound, depth) in ctx.pickt([(0u8, 6), (1, 4)], [(0, 7), (1, 5)]) {
        ctx.conc((bound, bound), harness(&format!("any {} things done with handles", depth), move || {
            let mut d = driver();
            let tx = owned(&mut d);
            let mut handles = vec![d];
            let (mut mounts, mut requests) = (vec![], vec![]);
            let (mut sent, mut paused) = (0u64, false);
            let mut did = vec![];
            let r = (|| -> Result<(), String> {
                for _ in 0..depth {
                    let op = mcrt::any(8);
                    did.push(["clone", "drop first", "drop last", "snapshot", "request", "pause", "value", "attach"][op]);
                    let n = handles.len();
                    match op {
                        0 => {
                            let h = handles[0].clone();
                            handles.push(h);
                        }
                        1 => drop(handles.remove(0)),
                        2 => drop(handles.remove(n - 1)),
                        3 => {
                            let s = handles[n - 1].snapshot(false).map_err(err("a snapshot while a handle exists"))?;
                            same!(num(&s, "x"), 1, "what is mounted in {:?}", s);
                        }
                        4 => requests.push(handles[0].snapshot_async(false)),
                        5 => {
                            handles[n - 1].pause();
                            paused = true;
                        }
                        6 => {
                            sent += 1;
                            value(&tx, A, sent as i64);
                        }
                        _ => {
                            let am = handles[0].attached(ProcessorMount::default());
                            am.put_snapshooter(Shooter(Box::new(|s, _| s.push("late", 1u64))));
                            mounts.push(am);
                        }
                    }
                    if handles.is_empty() {
                        break;
                    }
                    same!(released(), Vec::<u64>::new(), "released while a handle exists");
                }
                if let Some(h) = handles.first() {
                    let s = h.snapshot(false).map_err(err("a snapshot of the first handle left"))?;
                    same!(num(&s, "x"), 1, "what is mounted in {:?}", s);
                    if !paused {
                        fair_wait(35 * MS);
                        same!(recorded(1), (1..=sent).collect::<Vec<u64>>(), "processed");
                    }
                    // everything requested before is answered by now
                    for f in requests.drain(..) {
                        futures::executor::block_on(f).map_err(err("a request of a living driver"))?;
                    }
                }
                handles.clear();
                fair_wait(300 * MS);
                same!(released(), vec![1, 2], "released after the last handle was dropped");
                let n = recorded(1).len();
                value(&tx, A, 0);
                fair_wait(60 * MS);
                same!(recorded(1).len(), n, "processed after the end");
                // of these some may be answered, none hangs
                for f in requests {
                    let _ = futures::executor::block_on(f);
                }
                Ok(())
            })();
            r.map(|_| "ok".into()).map_err(|e| format!("{:?}: {}", did, e))
        }));
    }
    ctx.conc(b, harness("two handles dropped by two threads", move || {
        let mut d = driver();
        let tx = owned(&mut d);
        let d2 = d.clone();
        let h = spawn(move || {
            value(&tx, A, 1);
            drop(d2);
            tx
        });
        drop(d);
        let tx = h.join().unwrap();
        fair_wait(120 * MS);
        same!(released(), vec![1, 2], "released after the last handle was dropped");
        value(&tx, A, 2);
        ensure!(!recorded(1).contains(&2), "processed after the end");
        Ok(format!("{:?}", recorded(1)))
    }));
    ctx.conc(b, harness("three handles, the last one still works", move || {
        let mut d = driver();
        let tx = owned(&mut d);
        let d2 = d.clone();
        let d3 = d2.clone();
        drop(d);
        let h = spawn(move || drop(d2));
        value(&tx, A, 1);
        fair_wait(35 * MS);
        h.join().unwrap();
        value(&tx, A, 2);
        fair_wait(35 * MS);
        same!(released(), Vec::<u64>::new(), "released while a handle exists");
        same!(recorded(1), vec![1, 2], "processed while a handle exists");
        let s = d3.snapshot(false).map_err(err("snapshot of the last handle"))?;
        ensure!(has(&s, "p") && num(&s, "x") == 1, "contents {:?}", s);
        d3.pause();
        d3.resume();
        drop(d3);
        fair_wait(120 * MS);
        same!(released(), vec![1, 2], "released after the last handle was dropped");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("dropped while paused", move || {
        let mut d = driver();
        let tx = owned(&mut d);
        d.pause();
        let h = spawn(move || value(&tx, A, 1));
        drop(d);
        h.join().unwrap();
        fair_wait(175 * MS);
        same!(released(), vec![1, 2], "released after the last handle was dropped");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("dropped without ever being used", || {
        let d = default_driver();
        drop(d);
        Ok("ok".into())
    }));
    ctx.conc(b, harness("a sender that waits for room is let go", move || {
        let mut d = driver();
        let (tx, mut p) = bounded("p", 1, true);
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        d.pause();
        let h = spawn(move || (0..3).for_each(|i| value(&tx, A, i)));
        drop(d);
        h.join().unwrap();
        Ok("ok".into())
    }));
    ctx.conc((3, 4), harness("nested drivers", move || {
        let mut d = driver();
        let mut i = driver();
        let tx = owned(&mut i);
        let i2 = i.clone();
        d.nest(i);
        let h = spawn(move || drop(i2));
        value(&tx, A, 1);
        drop(d);
        h.join().unwrap();
        fair_wait(120 * MS);
        same!(released(), vec![1, 2], "released after the last handle was dropped");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("transmitters and attached mounts do not keep it alive", move || {
        let mut d = driver();
        let tx = owned(&mut d);
        let am = d.attached(ProcessorMount::new("m"));
        let (ux, mut q) = pair("q");
        let r = Released(3);
        handler_on(&mut q, Handler::new(move |_| {
            let _ = &r;
            1
        }));
        let am2 = am.clone();
        let h = spawn(move || add_to_attached(&am2, q));
        drop(d);
        h.join().unwrap();
        fair_wait(120 * MS);
        same!(released(), vec![1, 2, 3], "released after the last handle was dropped");
        value(&tx, A, 1);
        value(&ux, A, 1);
        am.put_snapshooter(Shooter(Box::new(|_, _| {})));
        Ok("ok".into())
    }));
    for paused in [false, true] {
        let name = format!("a request nobody waits for does not keep it alive{}", if paused { ", paused" } else { "" });
        ctx.conc(b, harness(&name, move || {
            let mut d = driver();
            let _tx = owned(&mut d);
            if paused {
                d.pause();
            }
            let f = d.snapshot_async(false);
            let d2 = d.clone();
            let h = spawn(move || drop(d2));
            drop(d);
            h.join().unwrap();
            fair_wait(175 * MS);
            same!(released(), vec![1, 2], "released after the last handle was dropped");
            Ok(any_result(futures::executor::block_on(f)).into())
        }));
    }
    for busy in 0..3 {
        let name = format!("a driver that always {}", ["processes", "drops", "is slow"][busy]);
        ctx.conc((2, 3), harness(&name, move || {
            let mut d = driver();
            let tx = owned(&mut d);
            let each = Box::new(move |_: usize, _: ProcessingStrategy| {
                std::thread::sleep(ms([1, 1, 90_000][busy]));
                ProcessingOutcome { processed: [500, 0, 1][busy], dropped: (busy == 1) as usize, ..Default::default() }
            });
            let r = Released(3);
            d.add_processor(FnProc {
                f: each,
                put: Box::new(move |_, _| {
                    let _ = &r;
                }),
            });
            value(&tx, A, 1);
            let d2 = d.clone();
            let h = spawn(move || d2.snapshot(false).map(|s| num(&s, "x")));
            let s = d.snapshot(false).map_err(err("snapshot"))?;
            same!(num(&s, "x"), 1, "contents of the snapshot");
            same!(h.join().unwrap().map_err(err("second snapshot"))?, 1, "contents of the second snapshot");
            same!(released(), Vec::<u64>::new(), "released while a handle exists");
            drop(d);
            fair_wait([150, 150, 300_000][busy] * MS);
            same!(recorded(1), vec![1], "processed while a handle existed");
            same!(released(), vec![1, 2, 3], "released after the last handle was dropped");
            Ok("ok".into())
        }));
    }
    {
        let mut hs = harness("a driver which panicked", move || {
            let mut d = driver();
            let _tx = owned(&mut d);
            let (ux, mut q) = pair("q");
            handler_on(&mut q, Handler::new(|_| panic!("in a handler")));
            let mut inner = driver();
            let r = Released(3);
            inner.add_snapshooter(Shooter(Box::new(move |_, _| {
                let _ = &r;
            })));
            d.nest(inner);
            add_to_driver(&mut d, q);
            let d2 = d.clone();
            let h = spawn(move || {
                value(&ux, A, 1);
                drop(d2);
            });
            let x = any_result(d.snapshot(false));
            drop(d);
            h.join().unwrap();
            fair_wait(120 * MS);
            same!(released(), vec![1, 2, 3], "released");
            Ok(x.into())
        });
        hs.allow_panics = true;
        ctx.conc((1, 2), hs);
    }
    ctx.conc(b, harness("dropped during a snapshot of another handle", move || {
        let mut d = driver();
        let _tx = owned(&mut d);
        let d2 = d.clone();
        let h = spawn(move || {
            let r = d2.snapshot(false).is_ok();
            drop(d2);
            r
        });
        drop(d);
        ensure!(h.join().unwrap(), "a snapshot failed while its handle existed");
        fair_wait(120 * MS);
        same!(released(), vec![1, 2], "released after the last handle was dropped");
        Ok("ok".into())
    }));
    own_thread(ctx);
    many(ctx, 1);
}

pub fn c06(ctx: &mut Ctx) {
    let b = (4, 5);
    {
        use Cmd::*;
        const ANY: &[Cmd] = &[Snapshot, Pause, Resume, Value, DropAll, ProcessAll, Wait];
        let d = ctx.pickt(3, 4);
        ctx.conc((1, 1), commands(&format!("any {} commands", d), ANY, d, false));
        let d = ctx.pickt(5, 7);
        ctx.conc((0, 0), commands(&format!("any {} commands", d), ANY, d, false));
    }
    ctx.conc(b, harness("nothing is processed between pause and resume", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let h = spawn(move || {
            (0..3).for_each(|i| value(&tx, A, i));
            tx
        });
        d.pause();
        d.snapshot(false).map_err(err("snapshot while paused"))?;
        let before = recorded(1);
        let tx = h.join().unwrap();
        value(&tx, A, 3);
        fair_wait(220 * MS);
        same!(recorded(1), before, "processed while paused");
        d.resume();
        fair_wait(100 * MS);
        same!(recorded(1), vec![0, 1, 2, 3], "processed after resuming");
        Ok(format!("{}", before.len()))
    }));
    ctx.conc((3, 5), harness("pausing twice, resuming once, from two handles", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let d2 = d.clone();
        let h = spawn(move || d2.pause());
        d.pause();
        h.join().unwrap();
        d.snapshot(false).map_err(err("snapshot while paused"))?;
        value(&tx, A, 0);
        fair_wait(120 * MS);
        same!(recorded(1), Vec::<u64>::new(), "processed while paused");
        let d3 = d.clone();
        let h = spawn(move || d3.resume());
        h.join().unwrap();
        fair_wait(120 * MS);
        same!(recorded(1), vec![0], "processed after resuming");
        d.resume();
        value(&tx, A, 1);
        fair_wait(50 * MS);
        same!(recorded(1), vec![0, 1], "processed after resuming again");
        d.pause();
        d.snapshot(false).map_err(err("snapshot while paused"))?;
        value(&tx, A, 2);
        fair_wait(120 * MS);
        same!(recorded(1), vec![0, 1], "processed while paused again");
        Ok("ok".into())
    }));
    ctx.conc((3, 5), harness("changing the strategy", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h = spawn(move || value(&t2, A, 50));
        d.change_processing_stragtegy(ProcessingStrategy::DropAll);
        d.snapshot(false).map_err(err("snapshot"))?;
        // in force from here
        value(&tx, A, 0);
        value(&tx, A, 1);
        h.join().unwrap();
        fair_wait(50 * MS);
        let n = recorded(1);
        ensure!(n.is_empty() || n == vec![50], "processed though all are to be dropped: {:?}", n);
        d.change_processing_stragtegy(ALL);
        d.snapshot(false).map_err(err("snapshot"))?;
        value(&tx, A, 2);
        fair_wait(50 * MS);
        let mut want = n.clone();
        want.push(2);
        same!(recorded(1), want, "processed after the strategy changed back");
        Ok(format!("{:?}", n))
    }));
    ctx.conc(b, harness("changing the strategy while paused", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        d.pause();
        d.change_processing_stragtegy(ProcessingStrategy::DropOlderThan { max_age: ms(100_000), drop_deltas: false });
        d.snapshot(false).map_err(err("snapshot"))?;
        let old = Instant::now();
        let h = spawn(move || {
            value_at(&tx, A, 0, old);
            tx
        });
        let tx = h.join().unwrap();
        mcrt::advance(200_000 * MS);
        fair_wait(300 * MS);
        value(&tx, A, 1);
        same!(recorded(1), Vec::<u64>::new(), "processed while paused");
        d.resume();
        fair_wait(70 * MS);
        same!(recorded(1), vec![1], "observations young enough when processing resumed");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("commands take effect in the order they were given", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        value(&tx, A, 0);
        d.pause();
        add_to_driver(&mut d, p);
        d.change_processing_stragtegy(ProcessingStrategy::DropAll);
        d.resume();
        d.snapshot(false).map_err(err("snapshot"))?;
        let d2 = d.clone();
        let h = spawn(move || d2.change_processing_stragtegy(ALL));
        h.join().unwrap();
        d.snapshot(false).map_err(err("snapshot"))?;
        value(&tx, A, 1);
        fair_wait(50 * MS);
        // 0 was there before processing resumed, with everything being dropped then
        same!(recorded(1), vec![1], "processed");
        Ok("ok".into())
    }));
    for (n, name) in ["set and taken back while paused", "set after resuming", "set before pausing"].into_iter().enumerate() {
        ctx.conc((3, 4), harness(&format!("a strategy {}", name), move || {
            let mut d = driver();
            let (tx, mut p) = pair("p");
            handler_on(&mut p, recorder(1));
            add_to_driver(&mut d, p);
            value(&tx, A, 1);
            match n {
                0 => {
                    // never in force while anything is processed
                    d.pause();
                    d.change_processing_stragtegy(ProcessingStrategy::DropAll);
                    d.change_processing_stragtegy(ALL);
                    d.resume();
                }
                1 => {
                    // 1 is either processed before the pause or dropped after it, or not processed until the last
                    d.pause();
                    d.change_processing_stragtegy(ProcessingStrategy::DropAll);
                    d.snapshot(false).map_err(err("snapshot"))?;
                    let before = recorded(1);
                    d.resume();
                    d.snapshot(false).map_err(err("snapshot"))?;
                    fair_wait(70 * MS);
                    same!(recorded(1), before, "processed with everything being dropped");
                    d.change_processing_stragtegy(ALL);
                    d.snapshot(false).map_err(err("snapshot"))?;
                    value(&tx, A, 2);
                    fair_wait(45 * MS);
                    same!(recorded(1).last().copied(), Some(2), "processed at last");
                    same!(recorded(1).len(), before.len() + 1, "processed");
                    return Ok(format!("{:?}", before));
                }
                _ => {
                    d.snapshot(false).map_err(err("snapshot"))?;
                    d.change_processing_stragtegy(ALL);
                    d.pause();
                    d.change_processing_stragtegy(ALL);
                    d.resume();
                    d.pause();
                    value(&tx, A, 2);
                    d.change_processing_stragtegy(ALL);
                    d.resume();
                }
            }
            fair_wait(420 * MS);
            same!(recorded(1), (1..=1 + (n == 2) as u64).collect::<Vec<_>>(), "processed");
            Ok("ok".into())
        }));
    }
    // only resuming resumes
    for (k, what) in ["a request is given up", "a request is given up later", "a handle is dropped", "a transmitter is dropped", "a processor which is gone already", "a mount is added", "snapshots, waiting and not", "another thread pauses, too"].into_iter().enumerate() {
        ctx.conc((2, 3), harness(&format!("still paused: {}", what), move || {
            let mut d = driver();
            let (tx, mut p) = pair("p");
            handler_on(&mut p, recorder(1));
            add_to_driver(&mut d, p);
            d.pause();
            d.snapshot(false).map_err(err("snapshot"))?;
            value(&tx, A, 0);
            let mut d2 = d.clone();
            let t2 = clone_tx(&tx);
            let h = spawn(move || {
                match k {
                    0 => drop(d2.snapshot_async(false)),
                    1 => {
                        let f = d2.snapshot_async(false);
                        fair_wait(30 * MS);
                        drop(f);
                    }
                    2 => drop(d2),
                    3 => {
                        value(&t2, A, 1);
                        drop(t2);
                    }
                    4 => {
                        let (tx, p) = pair("q");
                        drop(tx);
                        add_to_driver(&mut d2, p);
                    }
                    5 => d2.add_processor(ProcessorMount::new("m")),
                    6 => {
                        let f = d2.snapshot_async(true);
                        let _ = d2.snapshot(true);
                        let _ = futures::executor::block_on(f);
                    }
                    _ => d2.pause(),
                }
            });
            fair_wait(120 * MS);
            h.join().unwrap();
            same!(recorded(1), Vec::<u64>::new(), "processed while paused");
            d.snapshot(false).map_err(err("snapshot while paused"))?;
            fair_wait(120 * MS);
            same!(recorded(1), Vec::<u64>::new(), "processed while paused");
            d.resume();
            fair_wait(80 * MS);
            same!(recorded(1), if k == 3 { vec![0, 1] } else { vec![0] }, "processed after resuming");
            Ok("ok".into())
        }));
    }
    // however long that is: minutes, hours, weeks
    ctx.conc((1, 2), harness("paused for a long time", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        d.pause();
        d.snapshot(false).map_err(err("snapshot"))?;
        value(&tx, A, 0);
        mcrt::lag(&[400 * SEC, 4_000 * SEC, 100_000 * SEC, 3_000_000 * SEC]);
        fair_wait(110 * MS);
        mcrt::lag(&[]);
        value(&tx, A, 1);
        fair_wait(110 * MS);
        same!(recorded(1), Vec::<u64>::new(), "processed while paused");
        d.resume();
        fair_wait(80 * MS);
        same!(recorded(1), vec![0, 1], "processed after resuming");
        Ok("ok".into())
    }));
    // and however long it was not
    ctx.conc((1, 2), harness("running for a long time", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        mcrt::lag(&[400 * SEC, 4_000 * SEC, 100_000 * SEC, 3_000_000 * SEC]);
        fair_wait(50 * MS);
        mcrt::lag(&[]);
        value(&tx, A, 0);
        fair_wait(30 * MS);
        same!(recorded(1), vec![0], "processed");
        d.pause();
        d.snapshot(false).map_err(err("snapshot"))?;
        value(&tx, A, 1);
        fair_wait(110 * MS);
        same!(recorded(1), vec![0], "processed while paused");
        d.resume();
        fair_wait(80 * MS);
        same!(recorded(1), vec![0, 1], "processed after resuming");
        Ok("ok".into())
    }));
    ctx.conc((1, 3), harness("configuration and snapshots work while paused", || {
        let mut d = built(DriverBuilder::new("d"));
        d.pause();
        d.snapshot(false).map_err(err("snapshot"))?;
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, two_panels());
        add_to_driver(&mut d, p);
        let h = spawn(move || value(&tx, A, 1));
        d.add_snapshooter(Shooter(Box::new(|s, _| s.push("x", 1u64))));
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "d/p/c/p1/n"), 0, "count while paused");
        same!(num(&s, "d/x"), 1, "snapshooter added while paused");
        h.join().unwrap();
        d.resume();
        fair_wait(80 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "d/p/c/p1/n"), 1, "count after resuming");
        Ok("ok".into())
    }));
    super::sizes::backlog(ctx, "C06");
    own_thread(ctx);
    many(ctx, 2);
}

fn queue_model(c: &mut Case, ops: usize) -> R {
    // capacity: none (unbounded), or bounded without waiting; a bounded queue that
    // waits is only filled up to its capacity here
    let kind = c.choose(2 + 4);
    let (cap, block) = match kind {
        0 => (None, false),
        1 => (Some(3), true),
        k => (Some([0usize, 1, 2, 3][k - 2]), false),
    };
    let named = c.flip();
    let (tx, mut p) = match (cap, named) {
        (None, true) => pair("p"),
        (None, false) => pair_nn(),
        (Some(n), true) => bounded("p", n, block),
        (Some(n), false) => bounded_nn(n, block),
    };
    let seen = Arc::new(std::sync::Mutex::new(Vec::<u64>::new()));
    let s2 = seen.clone();
    handler_on(&mut p, Handler::new(move |o| {
        if let Observation::ObservedOneValue { value, .. } = o {
            s2.lock().unwrap().push(value.convert_to_u64().unwrap());
        }
        1
    }));
    let txs = [clone_tx(&tx), tx];
    let mut queue: Vec<u64> = vec![];
    let mut handled: Vec<u64> = vec![];
    same!(q_cap(&txs[0]), cap, "capacity");
    for n in 0..ops {
        match c.choose(5) {
            w @ 0..=1 => {
                let full = cap.map(|x| queue.len() >= x).unwrap_or(false);
                if full && block {
                    continue;
                }
                c.op(|| format!("transmit {} on transmitter {}", n, w));
                value(&txs[w], A, n as i64);
                if !full {
                    queue.push(n as u64);
                }
            }
            m => {
                let max = [0usize, 1, 5][m - 2];
                c.op(|| format!("process at most {}", max));
                let o = process(&mut p, max, ALL);
                let k = max.min(queue.len());
                handled.extend(queue.drain(..k));
                same!((o.processed, o.dropped), (k, 0), "processed");
                same!(o.observations_enqueued, queue.len(), "still enqueued");
            }
        }
        same!(*seen.lock().unwrap(), handled, "delivered");
        same!(q_size(&txs[1]), queue.len(), "queue size");
        same!(q_full(&txs[0]), cap.map(|x| queue.len() >= x).unwrap_or(false), "queue full");
        if cap.is_some() {
            same!(q_empty(&txs[0]), queue.is_empty(), "queue empty");
        }
        c.state((kind, queue.len(), handled.len()));
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) {
    let d = ctx.pickt(6, 8);
    ctx.seq("one thread, every sequence of transmissions and processing", |c| queue_model(c, d));
    let b = (4, 5);
    for cap in [0usize, 1, 2] {
        ctx.conc(b, harness(&format!("not waiting, capacity {}, nobody takes", cap), move || {
            let (tx, mut p) = bounded("p", cap, false);
            handler_on(&mut p, recorder(1));
            let t2 = clone_tx(&tx);
            let t3 = clone_tx(&tx);
            two_senders(tx, t2);
            same!(q_size(&t3), cap, "queue size");
            ensure!(q_full(&t3), "not full");
            let o = process(&mut p, 100, ALL);
            same!(o.processed, cap, "processed");
            let v = recorded(1);
            same!(v.len(), cap, "delivered");
            // the first ones of each sender
            let pos = |x: u64| v.iter().position(|y| *y == x);
            ensure!(pos(11).is_none() || pos(10).is_some(), "{:?}", v);
            ensure!(pos(21).is_none() || pos(20).is_some(), "{:?}", v);
            Ok(format!("{:?}", v))
        }));
    }
    // what is dropped while the queue is being emptied
    for (cap, senders, name) in [(1usize, 1, "one sender"), (1, 2, "two senders"), (2, 2, "two senders")] {
        ctx.conc((4, 6), harness(&format!("not waiting, capacity {}, taken meanwhile, {}", cap, name), move || {
            // 100 + x before x is sent, 200 + x when it has been, x when it is handled
            let log: Arc<Mutex<Vec<u64>>> = Default::default();
            let (tx, mut p) = bounded("p", cap, false);
            let l = log.clone();
            handler_on(&mut p, Handler::new(move |o| {
                if let Observation::ObservedOneValue { value, .. } = o {
                    l.lock().unwrap().push(value.convert_to_u64().unwrap());
                }
                1
            }));
            let mut hs = vec![];
            for k in 0..senders {
                let (tx, l) = (clone_tx(&tx), log.clone());
                let n = if senders == 1 { 4 } else { 3 - k };
                hs.push(spawn(move || {
                    for i in 0..n {
                        let x = 10 * (k + 1) + i;
                        l.lock().unwrap().push(100 + x);
                        value(&tx, A, x as i64);
                        l.lock().unwrap().push(200 + x);
                    }
                }));
            }
            let mut taken = 0;
            for max in [1usize, 2, 100] {
                let o = process(&mut p, max, ALL);
                ensure!(o.processed <= max.min(cap + 2) || max == 100, "{} processed of at most {}", o.processed, max);
                ensure!(o.observations_enqueued <= cap, "{} in a queue of {}", o.observations_enqueued, cap);
                same!((o.dropped, o.instruments_updated), (0, o.processed), "dropped, instruments updated");
                taken += o.processed;
                same!(log.lock().unwrap().iter().filter(|x| **x < 100).count(), taken, "handled");
            }
            hs.into_iter().for_each(|h| h.join().unwrap());
            process(&mut p, 100, ALL);
            let log = log.lock().unwrap().clone();
            let at = |x: u64| log.iter().position(|y| *y == x);
            let all: Vec<u64> = log.iter().filter(|x| **x >= 200).map(|x| x - 200).collect();
            let kept: Vec<u64> = log.iter().filter(|x| **x < 100).cloned().collect();
            for x in &all {
                let (begun, done) = (at(100 + x).unwrap(), at(200 + x).unwrap());
                // at most, at least as many as this were in the queue in the meantime
                let handled_before = log[..begun].iter().filter(|y| **y < 100).count();
                let most = kept.iter().filter(|y| *y != x && at(100 + **y).unwrap() < done).count() - handled_before.min(kept.len());
                let handled_after = log[..done].iter().filter(|y| **y < 100 && *y != x).count() + 1;
                let least = kept.iter().filter(|y| *y != x && at(200 + **y).unwrap() < begun).count().saturating_sub(handled_after);
                if kept.contains(x) {
                    ensure!(least < cap, "{} was kept though the queue was full: {:?}", x, log);
                } else {
                    ensure!(most >= cap, "{} was dropped though there was room: {:?}", x, log);
                }
                same!(kept.iter().filter(|y| *y == x).count(), kept.contains(x) as usize, "times {} was handled", x);
            }
            Ok(format!("{:?}", kept))
        }));
    }
    ctx.conc((3, 5), harness("not waiting, with a driver", || {
        let mut d = driver();
        let (tx, mut p) = bounded("p", 1, false);
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let t3 = clone_tx(&tx);
        two_senders(tx, t2);
        fair_wait(35 * MS);
        let v = recorded(1);
        ensure!(!v.is_empty(), "nothing delivered");
        let mut w = sorted(v.clone());
        w.dedup();
        ensure!(w.len() == v.len() && v.iter().all(|x| FOUR.contains(x)), "not a selection of what was sent {:?}", v);
        let pos = |x: u64| v.iter().position(|y| *y == x);
        ensure!(pos(11).is_none() || pos(10).is_none() || pos(11) > pos(10), "{:?}", v);
        ensure!(pos(21).is_none() || pos(20).is_none() || pos(21) > pos(20), "{:?}", v);
        // there is room again
        value(&t3, A, 30);
        fair_wait(35 * MS);
        ensure!(recorded(1).contains(&30), "not delivered though there was room");
        Ok(format!("{:?}", v))
    }));
    ctx.conc((3, 5), harness("not waiting, enough room", || {
        let mut d = driver();
        let (tx, mut p) = bounded("p", 4, false);
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        two_senders(tx, t2);
        fair_wait(35 * MS);
        let v = recorded(1);
        same!(sorted(v.clone()), FOUR.to_vec(), "delivered with room for all");
        Ok(format!("{:?}", v))
    }));
    for cap in [0usize, 1, 2] {
        ctx.conc(b, harness(&format!("waiting, capacity {}", cap), move || {
            let (tx, mut p) = bounded("p", cap, true);
            handler_on(&mut p, recorder(1));
            let t2 = clone_tx(&tx);
            let t3 = clone_tx(&tx);
            let h1 = spawn(move || {
                value(&tx, A, 10);
                value(&tx, A, 11);
                mcrt::val(5, 1, 0);
            });
            let h2 = spawn(move || {
                value(&t2, A, 20);
                mcrt::val(5, 2, 0);
            });
            fair_wait(1 * MS);
            // nobody has taken anything: at most `cap` transmissions may have come through
            ensure!(q_size(&t3) <= cap, "{} in a queue of {}", q_size(&t3), cap);
            let done = recorded(5);
            if cap == 2 {
                ensure!(done.len() <= 1, "all transmissions returned though the queue holds {}", cap);
            } else if cap < 2 {
                ensure!(!done.contains(&1), "two transmissions returned though the queue holds {}", cap);
                ensure!(cap > 0 || done.is_empty(), "a transmission returned without a taker");
            }
            while recorded(1).len() < 3 {
                process(&mut p, 1, ALL);
                fair_wait(1 * MS);
                ensure!(q_size(&t3) <= cap, "{} in a queue of {}", q_size(&t3), cap);
            }
            h1.join().unwrap();
            h2.join().unwrap();
            let v = recorded(1);
            same!(sorted(v.clone()), vec![10, 11, 20], "delivered");
            Ok(format!("{:?} {:?}", done, v))
        }));
    }
    super::sizes::c07(ctx);
    super::sizes::very_long(ctx);
}

pub fn c09(ctx: &mut Ctx) {
    let b = (4, 5);
    // everything that contributes to a snapshot goes on doing so
    fn dressed(p: &mut Proc, kind: u32) {
        cockpit_on(p, two_panels());
        let mut k = Cockpit::without_name();
        k.add_panel(counting("p3", A));
        k.add_handler(Handler::new(|_| 1).putting(|s, _| s.push("kh", 5u64)));
        k.add_snapshooter(Shooter(Box::new(|s, _| s.push("ks", 6u64))));
        cockpit_on(p, k);
        let n = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let m = n.clone();
        let mut r = recorder(kind);
        handler_on(p, Handler::new(move |o| {
            n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            (r.on)(o)
        }).putting(move |s, _| s.push("h", m.load(std::sync::atomic::Ordering::Relaxed))));
        p.add_snapshooter(Shooter(Box::new(|s, _| s.push("s", 7u64))));
    }
    fn still_there(d: &TelemetryDriver, n: i64) -> Result<(), String> {
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        for (k, v) in [("c/p1/n", n), ("c/p2/n", n), ("p3/n", n), ("h", n), ("kh", 5), ("ks", 6), ("s", 7)] {
            same!(num(&s, &format!("p/{}", k)), v, "{} in the snapshot after the disconnection", k);
        }
        Ok(())
    }
    for (bound, depth) in ctx.pickt([(0u8, 6), (1, 4)], [(0, 7), (1, 5)]) {
        ctx.conc((bound, bound), harness(&format!("any {} things done with transmitters", depth), move || {
            let mut d = driver();
            let (t, mut p) = pair("p");
            cockpit_on(&mut p, two_panels());
            let (u, mut q) = bounded("q", 2, false);
            cockpit_on(&mut q, two_panels());
            add_to_driver(&mut d, q);
            // of p, of q
            let mut txs = [vec![t], vec![u]];
            let mut late = Some(p);
            let mut sent = [0i64, 0];
            let mut did = vec![];
            let r = (|| -> Result<(), String> {
                for step in 0..=depth {
                    let op = if step == depth { 7 } else { mcrt::any(8) };
                    did.push(["clone p", "drop oldest p", "drop newest p", "send p", "send q", "drop q", "mount p", "wait and look"][op]);
                    match op {
                        0 => {
                            if let Some(t) = txs[0].first().map(clone_tx) {
                                txs[0].push(t)
                            }
                        }
                        1 => {
                            if !txs[0].is_empty() {
                                drop(txs[0].remove(0))
                            }
                        }
                        2 => drop(txs[0].pop()),
                        3 => {
                            if let Some(t) = txs[0].last() {
                                value(t, A, 1);
                                sent[0] += 1;
                            }
                        }
                        4 => {
                            if let Some(t) = txs[1].last() {
                                // there is always room for two
                                if t.queue_size() < 2 {
                                    value(t, A, 1);
                                    sent[1] += 1;
                                }
                            }
                        }
                        5 => drop(txs[1].pop()),
                        6 => {
                            if let Some(p) = late.take() {
                                add_to_driver(&mut d, p)
                            }
                        }
                        _ => {
                            let s = d.snapshot(false).map_err(err("snapshot"))?;
                            ensure!(has(&s, "q"), "q is missing in {:?}", s);
                            fair_wait(25 * MS);
                            let s = d.snapshot(false).map_err(err("snapshot"))?;
                            for (i, at) in ["p/c/p1/n", "q/c/p2/n"].iter().enumerate() {
                                let want = if i == 0 && late.is_some() { -1 } else { sent[i] };
                                same!(num(&s, at), want, "{}", at);
                            }
                        }
                    }
                }
                Ok(())
            })();
            r.map(|_| format!("{:?}", sent)).map_err(|e| format!("{:?}: {}", did, e))
        }));
    }
    ctx.conc((3, 5), harness("transmitters dropped right after sending", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dressed(&mut p, 1);
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h1 = spawn(move || {
            value(&tx, A, 10);
            value(&tx, A, 11);
            drop_tx(tx);
        });
        let h2 = spawn(move || {
            value(&t2, A, 20);
            drop_tx(t2);
        });
        h1.join().unwrap();
        h2.join().unwrap();
        fair_wait(55 * MS);
        same!(sorted(recorded(1)), vec![10, 11, 20], "delivered before the disconnection");
        // values stay
        still_there(&d, 3)?;
        fair_wait(35 * MS);
        still_there(&d, 3)?;
        Ok(format!("{:?}", recorded(1)))
    }));
    ctx.conc((3, 5), harness("dropped inside a mount, which goes on", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        dressed(&mut p, 1);
        let (ux, mut q) = pair("q");
        handler_on(&mut q, recorder(2));
        let mut m = ProcessorMount::default();
        add_to_mount(&mut m, p);
        add_to_mount(&mut m, q);
        d.add_processor(m);
        let h = spawn(move || {
            value(&tx, A, 10);
            drop_tx(tx);
        });
        value(&ux, A, 1);
        h.join().unwrap();
        fair_wait(45 * MS);
        value(&ux, A, 2);
        fair_wait(35 * MS);
        same!(recorded(1), vec![10], "delivered before the disconnection");
        same!(recorded(2), vec![1, 2], "of the other processor");
        still_there(&d, 1)?;
        drop_tx(ux);
        fair_wait(35 * MS);
        still_there(&d, 1)?;
        Ok("ok".into())
    }));
    ctx.conc(b, harness("others go on when one processor is disconnected", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        let (ux, mut q) = pair("q");
        handler_on(&mut q, recorder(2));
        add_to_driver(&mut d, p);
        add_to_driver(&mut d, q);
        let h = spawn(move || {
            value(&tx, A, 1);
            drop_tx(tx);
        });
        value(&ux, A, 1);
        h.join().unwrap();
        fair_wait(35 * MS);
        value(&ux, A, 2);
        fair_wait(35 * MS);
        same!(recorded(1), vec![1], "of the disconnected processor");
        same!(recorded(2), vec![1, 2], "of the other processor");
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        ensure!(has(&s, "p") && has(&s, "q"), "snapshot {:?}", s);
        Ok("ok".into())
    }));
    ctx.conc(b, harness("one of several transmitters dropped", || {
        let mut d = driver();
        let (tx, mut p) = pair("p");
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h = spawn(move || {
            value(&tx, A, 1);
            drop_tx(tx);
        });
        value(&t2, A, 20);
        h.join().unwrap();
        fair_wait(35 * MS);
        value(&t2, A, 21);
        fair_wait(35 * MS);
        same!(sorted(recorded(1)), vec![1, 20, 21], "delivered");
        Ok("ok".into())
    }));
    for (name, cap, block) in [("unbounded", 9usize, true), ("bounded, waiting", 1, true), ("bounded, not waiting", 1, false), ("no capacity, waiting", 0, true)] {
        ctx.conc(b, harness(&format!("transmitting to a processor that is gone: {}", name), move || {
            let (tx, p) = if cap == 9 { pair("p") } else { bounded("p", cap, block) };
            let t2 = clone_tx(&tx);
            let h = spawn(move || (0..3).for_each(|i| value(&t2, A, i)));
            drop(p);
            value(&tx, A, 10);
            one(&tx, A);
            tx_add_handler(&tx, recorder(1));
            tx_remove_cockpit(&tx, "x");
            tx_add_cockpit(&tx, Cockpit::new("k"));
            tx_add_panel(&tx, "x", Panel::new(A));
            tx_remove_panel(&tx, "x", "y");
            h.join().unwrap();
            Ok("ok".into())
        }));
    }
    ctx.conc((3, 5), harness("transmitting while the driver goes away", || {
        let mut d = driver();
        let (tx, mut p) = bounded("p", 1, true);
        handler_on(&mut p, recorder(1));
        add_to_driver(&mut d, p);
        let t2 = clone_tx(&tx);
        let h1 = spawn(move || (0..2).for_each(|i| value(&tx, A, i)));
        let h2 = spawn(move || (0..2).for_each(|i| value(&t2, A, i)));
        drop(d);
        h1.join().unwrap();
        h2.join().unwrap();
        Ok(format!("{}", recorded(1).len()))
    }));
    {
        let mut hs = harness("transmitting while a handler panics", || {
            let mut d = driver();
            let (tx, mut p) = bounded("p", 1, true);
            handler_on(&mut p, Handler::new(|_| panic!("in a handler")));
            add_to_driver(&mut d, p);
            let t2 = clone_tx(&tx);
            let h1 = spawn(move || (0..3).for_each(|i| value(&tx, A, i)));
            (0..2).for_each(|i| value(&t2, A, i));
            h1.join().unwrap();
            Ok("ok".into())
        });
        hs.allow_panics = true;
        ctx.conc(b, hs);
    }
}

pub fn c10(ctx: &mut Ctx) {
    let b = (4, 5);
    fn shot(name: &'static str) -> Shooter {
        Shooter(Box::new(move |s, _| s.push(name, 1u64)))
    }
    for (bound, depth) in ctx.pickt([(0u8, 6), (1, 4)], [(0, 7), (1, 5)]) {
        ctx.conc((bound, bound), harness(&format!("any {} additions to attached mounts", depth), move || {
            let mut d = driver();
            // the handle of each mount, how it is called and what was added
            let mut mounts = vec![(Some(d.attached(ProcessorMount::new("m"))), "m".to_string(), vec![])];
            let mut txs = vec![];
            let mut did = vec![];
            fn contents(s: &Snapshot, at: &str) -> Vec<String> {
                match s.find(at) {
                    FindItem::Found(ItemKind::Snapshot(g)) => g.items.iter().map(|(k, _)| k.clone()).collect(),
                    _ => vec![],
                }
            }
            let r = (|| -> Result<(), String> {
                for step in 0..=depth {
                    let op = if step == depth { 6 } else { mcrt::any(7) };
                    did.push(["processor to first", "processor to last", "snapshooter to first", "snapshooter to last", "mount to last", "let go of first", "wait and look"][op]);
                    let n = mounts.len();
                    let at = if op % 2 == 0 { 0 } else { n - 1 };
                    let name = format!("i{}", step);
                    match op {
                        0 | 1 => {
                            let (tx, mut p) = pair(&name);
                            cockpit_on(&mut p, two_panels());
                            value(&tx, A, 1);
                            let (Some(am), path, had) = &mut mounts[at] else { continue };
                            if at == 0 { am.add_processor(p) } else { add_to_attached(am, p) }
                            txs.push((tx, format!("{}/{}/c/p1/n", path, name), 1));
                            had.push((0, name));
                        }
                        2 | 3 => {
                            let shooter = { let n = name.clone(); Shooter(Box::new(move |s, _| s.push(n.clone(), 1u64))) };
                            let (Some(am), _, had) = &mut mounts[at] else { continue };
                            if at == 0 { am.add_snapshooter(shooter) } else { am.put_snapshooter(shooter) }
                            had.push((1, name));
                        }
                        4 => {
                            let (Some(am), path, had) = &mut mounts[n - 1] else { continue };
                            let am = am.attached(ProcessorMount::new(name.clone()));
                            let path = format!("{}/{}", path, name);
                            had.push((0, name));
                            mounts.push((Some(am), path, vec![]));
                        }
                        5 => {
                            if let Some(m) = mounts.iter_mut().find(|m| m.0.is_some()) {
                                m.0 = None
                            }
                        }
                        _ => {
                            for (tx, _, sent) in &mut txs {
                                value(tx, A, 1);
                                *sent += 1;
                            }
                            // a collection for what was added before, per level
                            fair_wait(35 * MS);
                            let s = d.snapshot(false).map_err(err("snapshot"))?;
                            for (_, path, had) in &mounts {
                                let (mut want, last): (Vec<_>, Vec<_>) = had.iter().cloned().partition(|x| x.0 == 0);
                                want.extend(last);
                                same!(contents(&s, path), want.into_iter().map(|x| x.1).collect::<Vec<_>>(), "contents of {}", path);
                            }
                            for (_, path, sent) in &txs {
                                same!(num(&s, path), *sent, "count of {}", path);
                            }
                        }
                    }
                    // what is shown while this goes on is from the front
                    if step % 2 == 1 {
                        let s = d.snapshot(false).map_err(err("snapshot"))?;
                        for (_, path, had) in &mounts {
                            let shown = contents(&s, path);
                            for kind in 0..2 {
                                let of: Vec<_> = had.iter().filter(|x| x.0 == kind).map(|x| &x.1).collect();
                                let shown: Vec<_> = shown.iter().filter(|x| of.contains(x)).collect();
                                ensure!(of.starts_with(&shown), "{} shows {:?} of {:?}", path, shown, of);
                            }
                        }
                    }
                }
                Ok(())
            })();
            r.map(|_| "ok".into()).map_err(|e| format!("{:?}: {}", did, e))
        }));
    }
    ctx.conc((3, 5), harness("two threads add", || {
        let mut d = driver();
        let am = d.attached(ProcessorMount::new("m"));
        let am2 = am.clone();
        let h = spawn(move || {
            let (tx, mut p) = pair("p1");
            cockpit_on(&mut p, two_panels());
            value(&tx, A, 1);
            add_to_attached(&am2, p);
            value(&tx, A, 1);
            am2.put_snapshooter(shot("s1"));
            drop(am2);
            tx
        });
        let (ux, mut q) = pair("p2");
        cockpit_on(&mut q, two_panels());
        let mut am = am;
        am.add_processor(q);
        am.add_snapshooter(shot("s2"));
        value(&ux, A, 1);
        let tx = h.join().unwrap();
        fair_wait(35 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "m/p1/c/p1/n"), 2, "count of the first processor");
        same!(num(&s, "m/p2/c/p2/n"), 1, "count of the second processor");
        same!((num(&s, "m/s1"), num(&s, "m/s2")), (1, 1), "snapshooters");
        // dropping the handle keeps what was added
        drop(am);
        value(&tx, A, 1);
        fair_wait(35 * MS);
        value(&ux, A, 1);
        fair_wait(35 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "m/p1/c/p1/n"), 3, "count of the first processor later");
        same!(num(&s, "m/p2/c/p2/n"), 2, "count of the second processor later");
        same!((num(&s, "m/s1"), num(&s, "m/s2")), (1, 1), "snapshooters later");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("handle dropped right after adding", || {
        let mut d = driver();
        let mut m = ProcessorMount::new("m");
        let (t0, mut p0) = pair("p0");
        cockpit_on(&mut p0, two_panels());
        add_to_mount(&mut m, p0);
        m.add_snapshooter(shot("s0"));
        let am = d.attached(m);
        let (tx, mut p) = pair("p1");
        cockpit_on(&mut p, two_panels());
        let h = spawn(move || {
            add_to_attached(&am, p);
            am.put_snapshooter(shot("s1"));
            drop(am);
        });
        value(&tx, A, 1);
        value(&t0, A, 1);
        h.join().unwrap();
        fair_wait(35 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "m/p1/c/p1/n"), 1, "count of the added processor");
        same!(num(&s, "m/p0/c/p1/n"), 1, "count of the processor that was there");
        same!((num(&s, "m/s0"), num(&s, "m/s1")), (1, 1), "snapshooters");
        same!(s.items.len(), 1, "items at the top of the snapshot");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("mount attached to an attached mount", || {
        let mut d = driver();
        let am = d.attached(ProcessorMount::new("m"));
        let bm = am.attach_mount::<Proc>(ProcessorMount::new("k"));
        let (tx, mut p) = pair("p");
        cockpit_on(&mut p, two_panels());
        let h = spawn(move || {
            add_to_attached(&bm, p);
            bm.put_snapshooter(shot("s1"));
            bm
        });
        am.put_snapshooter(shot("s2"));
        value(&tx, A, 1);
        let bm = h.join().unwrap();
        drop(am);
        fair_wait(35 * MS);
        bm.put_snapshooter(shot("s3"));
        fair_wait(35 * MS);
        let s = d.snapshot(false).map_err(err("snapshot"))?;
        same!(num(&s, "m/k/p/c/p1/n"), 1, "count in the inner mount");
        same!((num(&s, "m/k/s1"), num(&s, "m/s2"), num(&s, "m/k/s3")), (1, 1, 1), "snapshooters");
        Ok("ok".into())
    }));
    ctx.conc(b, harness("additions of one thread appear in order", || {
        let mut d = driver();
        let am = d.attached(ProcessorMount::default());
        let d2 = d.clone();
        let h = spawn(move || {
            am.put_snapshooter(shot("s1"));
            am.put_snapshooter(shot("s2"));
            am
        });
        let s = d2.snapshot(false).map_err(err("snapshot"))?;
        ensure!(!has(&s, "s2") || has(&s, "s1"), "the second addition alone in {:?}", s);
        let am = h.join().unwrap();
        d.pause();
        d.snapshot(false).map_err(err("snapshot"))?;
        am.put_snapshooter(shot("s3"));
        d.resume();
        fair_wait(120 * MS);
        let s = d2.snapshot(false).map_err(err("snapshot"))?;
        let names: Vec<&str> = s.items.iter().map(|i| i.0.as_str()).collect();
        let mut n = names.clone();
        n.sort_unstable();
        same!(n, vec!["s1", "s2", "s3"], "snapshooters");
        ensure!(s.items.iter().all(|i| i.1 == ItemKind::UInt(1)), "{:?}", s);
        Ok("ok".into())
    }));
    let depth = ctx.pickt(6, 7);
    ctx.seq("additions between collections", move |c: &mut Case| -> R {
        // a mount with an attached mount `m` (which may get another one, `k`), collected over and over
        let mut top = ProcessorMount::default();
        let mut am = Some(top.attached_mount(ProcessorMount::new("m")));
        let mut bm: Option<AttachedMount> = None;
        let mut attached = false;
        // per mount: what was added, what has been collected, in the order of the additions
        let mut procs: [Vec<String>; 2] = Default::default();
        let mut shots: [Vec<String>; 2] = Default::default();
        let mut waiting: Vec<(usize, String, Tx, u64)> = vec![];
        let mut n = 0;
        let max = *c.pick(&[100usize, 1000, usize::MAX]);
        c.op(|| format!("at most {} messages in a collection", max));
        for step in 0..=depth {
            let op = if step == depth { 0 } else { c.choose(9) };
            n += 1;
            match op {
                0 | 1 => {
                    c.op(|| ["collect", "collect, dropping messages"][op].into());
                    let pending: usize = waiting.iter().map(|w| w.2.queue_size()).sum();
                    if op == 0 {
                        waiting.iter_mut().for_each(|w| w.3 += w.2.queue_size() as u64);
                    }
                    let o = top.process(max, [ALL, ProcessingStrategy::DropAll][op]);
                    same!((o.processed + o.dropped, if op == 0 { o.dropped } else { o.processed }), (pending, 0), "messages handled in this collection");
                    let s = put_of(&top, false);
                    for (i, at) in ["m", "m/k"].iter().enumerate() {
                        let FindItem::Found(ItemKind::Snapshot(here)) = s.find(*at) else {
                            ensure!(i == 1 && !attached, "no mount {} in {:?}", at, s);
                            continue;
                        };
                        let keys: Vec<&String> = here.items.iter().map(|x| &x.0).collect();
                        let of = |k: &str| -> Vec<String> { keys.iter().filter(|x| x.starts_with(k)).map(|x| x.to_string()).collect() };
                        same!(of("p"), procs[i], "processors in {}", at);
                        same!(of("s"), shots[i], "snapshooters in {}", at);
                        same!(keys.len(), procs[i].len() + shots[i].len() + (i == 0 && attached) as usize, "items in {}", at);
                    }
                    for w in &waiting {
                        same!(num(&s, &format!("{}/{}/n", ["m", "m/k"][w.0], w.1)), w.3 as i64, "count of processor {}", w.1);
                    }
                    c.state((&procs, &shots, am.is_some(), bm.is_some()));
                }
                2..=5 => {
                    let inner = op % 2;
                    let Some(m) = [&am, &bm][inner].as_ref() else { return Ok(()) };
                    if op < 4 {
                        c.op(|| format!("add processor p{} with a message to {}", n, ["m", "k"][inner]));
                        let (tx, mut p) = pair(&format!("p{}", n));
                        cockpit_on(&mut p, Cockpit::without_name().panel(Panel::new(A).counter(Counter::new("n"))));
                        one(&tx, A);
                        m.put_processor(p);
                        procs[inner].push(format!("p{}", n));
                        waiting.push((inner, format!("p{}", n), tx, 0));
                    } else {
                        c.op(|| format!("add snapshooter s{} to {}", n, ["m", "k"][inner]));
                        let name = format!("s{}", n);
                        let k = name.clone();
                        m.put_snapshooter(Shooter(Box::new(move |s, _| s.push(k.clone(), 1u64))));
                        shots[inner].push(name);
                    }
                }
                6 => {
                    let Some(m) = am.as_ref() else { return Ok(()) };
                    if attached {
                        return Ok(());
                    }
                    c.op(|| "attach mount k to m".into());
                    bm = Some(m.attach_mount::<Proc>(ProcessorMount::new("k")));
                    attached = true;
                }
                7 => {
                    let which = if am.is_some() { &mut am } else { &mut bm };
                    c.op(|| "drop a handle".into());
                    if which.take().is_none() {
                        return Ok(());
                    }
                }
                _ => {
                    c.op(|| "a message for each processor".into());
                    for w in &waiting {
                        one(&w.2, A);
                    }
                }
            }
        }
        Ok(())
    });
    super::sizes::c10(ctx);
    own_thread(ctx);
}

/// processing while others transmit
pub fn c08_meanwhile(ctx: &mut Ctx) {
    for mounted in [false, true] {
        for drops in [false, true] {
            ctx.conc((3, 5), harness(&format!("others transmit meanwhile, mounted {}, all dropped {}", mounted, drops), move || {
                // 100 + x before x is sent, 200 + x when it has been, x when it is handled
                let log: Arc<Mutex<Vec<u64>>> = Default::default();
                let mut m = ProcessorMount::new("m");
                let mut single = None;
                let mut hs = vec![];
                for k in 0..2u64 {
                    let (tx, mut p) = if mounted || k == 0 { pair("p") } else { break };
                    let l = log.clone();
                    handler_on(&mut p, Handler::new(move |o| {
                        if let Observation::ObservedOneValue { value, .. } = o {
                            l.lock().unwrap().push(value.convert_to_u64().unwrap());
                        }
                        2
                    }));
                    for j in 0..if mounted { 1 } else { 2 } {
                        let (tx, l) = (clone_tx(&tx), log.clone());
                        hs.push(spawn(move || {
                            for i in 0..2 + j {
                                let x = 10 * (k + j + 1) + i;
                                l.lock().unwrap().push(100 + x);
                                value(&tx, A, x as i64);
                                l.lock().unwrap().push(200 + x);
                            }
                        }));
                    }
                    if mounted {
                        add_to_mount(&mut m, p);
                    } else {
                        single = Some(p);
                    }
                }
                let s = if drops { ProcessingStrategy::DropAll } else { ALL };
                let mut taken = 0;
                let mut shape = vec![];
                let count = |from: u64| log.lock().unwrap().iter().filter(|x| **x >= from && **x < from + 100).count();
                for max in [1usize, 2, 100, 100] {
                    if max == 100 {
                        fair_wait(MS);
                    }
                    let (sent, handled) = (count(200), count(0));
                    let o = match single.as_mut() {
                        Some(p) => process(p, max, s),
                        None => m.process(max, s),
                    };
                    let begun = count(100);
                    let n = o.processed + o.dropped;
                    same!(if drops { o.processed } else { o.dropped }, 0, "the others");
                    same!(count(0) - handled, o.processed, "handled");
                    same!(o.instruments_updated, 2 * o.processed, "instruments updated");
                    let most = if mounted { 2 * max } else { max };
                    ensure!(n <= most, "{} of at most {}", n, most);
                    if !mounted {
                        ensure!(n >= max.min(sent - taken), "only {} though {} were sent, at most {}", n, sent - taken, max);
                    }
                    taken += n;
                    ensure!(taken <= begun, "{} of {} sent", taken, begun);
                    let left = o.observations_enqueued;
                    ensure!(left <= begun - taken, "{} left of {} sent, {} taken", left, begun, taken);
                    ensure!(left >= sent.saturating_sub(taken), "{} left of {} sent, {} taken", left, sent, taken);
                    if !mounted && o.processed > 1 {
                        // what had come before the last but one was handled is left, or was taken
                        let l = log.lock().unwrap();
                        let at = l.iter().enumerate().filter(|x| *x.1 < 100).rev().nth(1).unwrap().0;
                        let sent = l[..at].iter().filter(|x| **x >= 200).count();
                        ensure!(left >= sent.saturating_sub(taken), "{} left, {} taken, when {} were sent in: {:?}", left, taken, sent, l);
                    }
                    shape.push((n, left));
                }
                hs.into_iter().for_each(|h| h.join().unwrap());
                let o = match single.as_mut() {
                    Some(p) => process(p, 100, s),
                    None => m.process(100, s),
                };
                let all = count(200);
                same!((o.processed + o.dropped + taken, o.observations_enqueued), (all, 0), "handled in the end, left");
                Ok(format!("{:?}", shape))
            }));
        }
    }
}
