id="s05-last-handle-race"; prop="C05"
needs="two threads dropping the last two handles of a driver at the same time"
breaks="each dropped handle looks whether it is the last one; two dropped at the same time both see the other one, and the driver's thread never ends"
edits=[("src/driver.rs","impl Drop for DropGuard {\n    fn drop(&mut self) {\n        self.is_running.store(false, Ordering::Relaxed);\n    }\n}","impl Drop for TelemetryDriver {\n    fn drop(&mut self) {\n        // the last handle stops the driver\n        if Arc::strong_count(&self.drop_guard) == 1 {\n            self.drop_guard.is_running.store(false, Ordering::Relaxed);\n        }\n    }\n}"),
("src/driver.rs","                break;\n            }\n        }\n\n        if paused {","                thread::sleep(Duration::from_millis(1));\n            }\n        }\n\n        if paused {")]
demo='''
use metrix::{processor::*, driver::*, snapshot::*, *};
use std::sync::{Arc, atomic::*};
use std::time::{Duration, Instant};
struct S(Arc<AtomicUsize>);
impl Drop for S { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::SeqCst); } }
impl PutsSnapshot for S { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
fn main() {
    let alive = Arc::new(AtomicUsize::new(0));
    for _ in 0..60 {
        let mut a = vec![]; let mut b = vec![];
        for _ in 0..200 {
            let mut d = DriverBuilder::new("d").set_driver_metrics(false).build();
            alive.fetch_add(1, Ordering::SeqCst);
            d.add_snapshooter(S(alive.clone()));
            b.push(d.clone()); a.push(d);
        }
        let turn = Arc::new(AtomicUsize::new(0));
        let run = |v: Vec<TelemetryDriver>| { let turn = turn.clone(); std::thread::spawn(move || {
            for (i, d) in v.into_iter().enumerate() {
                turn.fetch_add(1, Ordering::SeqCst);
                while turn.load(Ordering::SeqCst) < 2 * (i + 1) { std::hint::spin_loop(); }
                drop(d);
            }
        }) };
        let (x, y) = (run(a), run(b));
        x.join().unwrap(); y.join().unwrap();
        let until = Instant::now() + Duration::from_secs(10);
        while alive.load(Ordering::SeqCst) > 0 {
            assert!(Instant::now() < until, "{} drivers are still alive", alive.load(Ordering::SeqCst));
            std::thread::sleep(Duration::from_millis(5));
        }
    }
}
'''
