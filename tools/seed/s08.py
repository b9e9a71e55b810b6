id="s08-enqueued-of-one"; prop="C08"
needs="a mount with two processors which both have messages left over"
breaks="the number of observations left of a mount is that of the fullest processor and not the sum"
edits=[("src/processor.rs","        self.observations_enqueued += other.observations_enqueued;","        self.observations_enqueued =\n            std::cmp::max(self.observations_enqueued, other.observations_enqueued);")]
demo='''
use metrix::{processor::*, *};
fn main() {
    let mut m = ProcessorMount::new("m");
    for n in 0..2 {
        let (tx, p) = TelemetryProcessor::new_pair("p");
        for _ in 0..(3 + n) { tx.observed_one_now(1u8); }
        m.add_processor(p);
    }
    let o = m.process(2, ProcessingStrategy::ProcessAll);
    assert_eq!((o.processed, o.observations_enqueued), (4, 3));
}
'''
