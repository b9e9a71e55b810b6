id="s02-handlers-after-batch"; prop="C02"
needs="a handler added through a transmitter with an observation behind it in the same batch of the queue"
breaks="handlers added by message become active after the batch only, so that the observations sent after the addition are not seen by the handler"
edits=[("src/processor.rs","        let decider = strategy.decider();\n","        let decider = strategy.decider();\n        let mut added = Vec::new();\n"),
("src/processor.rs","                    self.handlers.push(h);\n","                    added.push(h);\n"),
("src/processor.rs","        let outcome = ProcessingOutcome {\n            processed,","        self.handlers.append(&mut added);\n\n        let outcome = ProcessingOutcome {\n            processed,")]
demo='''
use metrix::{processor::*, snapshot::*, *};
use std::sync::{Arc, atomic::*};
struct H(Arc<AtomicUsize>);
impl PutsSnapshot for H { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
impl HandlesObservations for H { type Label = u8; fn handle_observation(&mut self, _: &Observation<u8>) -> usize { self.0.fetch_add(1, Ordering::SeqCst); 1 } }
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let (tx, mut p) = TelemetryProcessor::new_pair("p");
    tx.observed_one_now(1);
    tx.add_handler(H(n.clone()));
    tx.observed_one_now(1);
    tx.observed_one_now(2);
    p.process(10, ProcessingStrategy::ProcessAll);
    assert_eq!(n.load(Ordering::SeqCst), 2);
}
'''
