id='s53-dropping-waits'; prop='C05'
needs="the last handle is dropped by a handler, that is on the driver's own thread"
breaks='dropping a handle waits for the background thread: a handler which drops the last handle never returns from it (or panics), and what it was to do is lost'
edits=[('src/driver.rs', 'struct DropGuard {\n    pub is_running: Arc<AtomicBool>,\n}', 'struct DropGuard {\n    pub is_running: Arc<AtomicBool>,\n    pub thread: Option<thread::JoinHandle<()>>,\n}'), ('src/driver.rs', '        self.is_running.store(false, Ordering::Relaxed);\n    }', '        self.is_running.store(false, Ordering::Relaxed);\n        if let Some(t) = self.thread.take() {\n            let _ = t.join();\n        }\n    }'), ('src/driver.rs', '        let driver = TelemetryDriver {\n            descriptives: descriptives.clone(),\n            drop_guard: Arc::new(DropGuard {\n                is_running: is_running.clone(),\n            }),\n            sender,\n        };\n\n        start_telemetry_loop(\n            descriptives,\n            is_running,\n            processing_strategy,\n            driver_metrics,\n            receiver,\n        );\n\n        driver', '        let thread = start_telemetry_loop(\n            descriptives.clone(),\n            is_running.clone(),\n            processing_strategy,\n            driver_metrics,\n            receiver,\n        );\n\n        TelemetryDriver {\n            descriptives,\n            drop_guard: Arc::new(DropGuard {\n                is_running,\n                thread: Some(thread),\n            }),\n            sender,\n        }'), ('src/driver.rs', '    receiver: CrossbeamReceiver<DriverMessage>,\n) {\n    let builder', '    receiver: CrossbeamReceiver<DriverMessage>,\n) -> thread::JoinHandle<()> {\n    let builder'), ('src/driver.rs', '        })\n        .unwrap();\n}\n\nenum DriverMessage', '        })\n        .unwrap()\n}\n\nenum DriverMessage')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    let (done, seen) = std::sync::mpsc::channel();
    let mut own = Some(d.clone());
    p.add_handler(H(Box::new(move || {
        drop(own.take());
        let _ = done.send(());
        1
    })));
    d.add_processor(p);
    drop(d);
    tx.observed_one_now(1);
    assert!(seen.recv_timeout(ms(5000)).is_ok());
}
'''
