id="s10-gone-transmitters-free-handlers"; prop="C09"
needs="all transmitters of a processor dropped, and a snapshot after a further collection"
breaks="a processor which finds its transmitters gone releases its handlers, whose values vanish from the snapshots"
edits=[("src/processor.rs",'''                    self.is_disconnected = true;
                    break;''','''                    self.is_disconnected = true;
                    // nothing will be observed any more
                    self.handlers = Vec::new();
                    break;''')]
demo='''
use metrix::{processor::*, snapshot::*, *};
struct H(u64);
impl PutsSnapshot for H { fn put_snapshot(&self, s: &mut Snapshot, _: bool) { s.push("seen", self.0); } }
impl HandlesObservations for H { type Label = u8; fn handle_observation(&mut self, _: &Observation<u8>) -> usize { self.0 += 1; 1 } }
fn main() {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    p.add_handler(H(0));
    tx.observed_one_now(1);
    drop(tx);
    for _ in 0..3 { p.process(1, ProcessingStrategy::ProcessAll); }
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    assert_eq!(s.find("seen"), FindItem::Found(&ItemKind::UInt(1)));
}
'''
