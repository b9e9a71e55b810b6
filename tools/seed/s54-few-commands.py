id='s54-few-commands'; prop='C04'
needs='a handler adds more than 256 things to the driver it runs on'
breaks='the driver waits for itself to take commands, and every request for a snapshot hangs'
edits=[('src/driver.rs', 'let (sender, receiver) = crossbeam_channel::unbounded();', 'let (sender, receiver) = crossbeam_channel::bounded(256);')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    let mut own = d.clone();
    p.add_handler(H(Box::new(move || {
        for _ in 0..300 {
            own.add_snapshooter(Shot("x", 1));
        }
        1
    })));
    d.add_processor(p);
    tx.observed_one_now(1);
    sleep(ms(300));
    let (done, seen) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = done.send(d.snapshot(false).is_ok());
    });
    assert_eq!(seen.recv_timeout(ms(20_000)), Ok(true));
}
'''
