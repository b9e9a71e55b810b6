id="s34-half-the-age-after-a-drop"; prop="C13"
needs="a mount whose first processor drops something, and observations between half and the whole maximum age in the second"
breaks="mounts drop observations that are not too old yet"
edits=[("src/processor.rs",'''        for processor in self.processors.iter_mut() {
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome.something_happened() {''','''        for processor in self.processors.iter_mut() {
            // what waits here has waited further up already
            let strategy = match strategy {
                ProcessingStrategy::DropOlderThan {
                    max_age,
                    drop_deltas,
                } if outcome.dropped > 0 => ProcessingStrategy::DropOlderThan {
                    max_age: max_age / 2,
                    drop_deltas,
                },
                s => s,
            };
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome.something_happened() {''')]
demo='''
use metrix::processor::*;
use metrix::*;
use std::time::*;
fn main() {
    let (t1, p1) = TelemetryProcessor::<u8>::new_pair("p");
    let (t2, p2) = TelemetryProcessor::<u8>::new_pair("q");
    let mut m = ProcessorMount::new("m");
    m.add_processor(p1);
    m.add_processor(p2);
    let now = Instant::now();
    t1.observed_one(1, now - Duration::from_secs(120));
    t2.observed_one(1, now - Duration::from_secs(40));
    let o = m.process(10, ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(60), drop_deltas: true });
    assert_eq!((o.processed, o.dropped), (1, 1));
}
'''
