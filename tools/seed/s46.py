id='s46-enqueued-from-before'; prop='C08'
needs='messages which arrive while messages are being processed'
breaks='what is reported as left in the queue is what was there when processing began, less what was handled'
edits=[('src/processor.rs', '        let decider = strategy.decider();\n        while num_received < max {', '        let decider = strategy.decider();\n        let waiting = self.receiver.len();\n        while num_received < max {'), ('src/processor.rs', 'observations_enqueued: self.receiver.len(),', 'observations_enqueued: waiting.saturating_sub(num_received),')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let (tx, mut p) = TelemetryProcessor::new_pair("p");
    let t2 = tx.clone();
    let mut first = true;
    p.add_handler(H(Box::new(move || {
        if std::mem::replace(&mut first, false) {
            for _ in 0..3 {
                t2.observed_one_now(7u8);
            }
        }
        1
    })));
    tx.observed_one_now(7);
    tx.observed_one_now(7);
    let o = p.process(2, all());
    assert_eq!((o.processed, o.observations_enqueued), (2, 3));
}
'''
