id="s12-young-from-here-on"; prop="C13"
needs="old observations queued behind one that is young enough (given timestamps, or several senders)"
breaks="too old observations are processed"
edits=[("src/processor.rs",'''        let decider = strategy.decider();
''','''        let decider = strategy.decider();
        let mut young = false;
'''),("src/processor.rs",'''                    if decider.should_be_processed(&obs) {
''','''                    if young || decider.should_be_processed(&obs) {
                        // what is behind an observation is not older
                        young = young || !obs.is_delta();
''')]
demo='''
use metrix::processor::*;
use metrix::*;
use std::time::*;
fn main() {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    let now = Instant::now();
    tx.observed_one(1, now);
    tx.observed_one(1, now - Duration::from_secs(120));
    let o = p.process(10, ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(60), drop_deltas: true });
    assert_eq!((o.processed, o.dropped), (1, 1));
}
'''
