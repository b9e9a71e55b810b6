id='s48-unbounded-is-full'; prop='C07'
needs='an unbounded queue with a thousand messages in it'
breaks='an unbounded queue is reported to be full'
edits=[('src/lib.rs', '        self.sender.is_full()\n', '        self.sender.len() >= self.sender.capacity().unwrap_or(1_000)\n')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let (tx, _p) = TelemetryProcessor::new_pair("p");
    for _ in 0..5_000 {
        tx.observed_one_now(7u8);
        assert!(!tx.is_queue_full());
    }
}
'''
