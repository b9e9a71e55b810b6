id="s13-removal-reorders"; prop="C14"
needs="at least three cockpits of a processor, of which one that is neither the last nor the one before it is removed"
breaks="removing a cockpit moves the last one to its place"
edits=[("src/processor.rs",'''        self.cockpits
            .retain(|c| c.get_name().map(|n| n != name.as_ref()).unwrap_or(true))''','''        let name = name.as_ref();
        if let Some(i) = self.cockpits.iter().position(|c| c.get_name() == Some(name)) {
            self.cockpits.swap_remove(i);
        }''')]
demo='''
use metrix::{cockpit::*, processor::*, snapshot::*, *};
fn main() {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    for n in &["a", "b", "c", "d"] { p.add_cockpit(Cockpit::new(*n)); }
    tx.remove_cockpit("b");
    p.process(10, ProcessingStrategy::ProcessAll);
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    let names: Vec<&str> = s.items.iter().map(|x| &*x.0).collect();
    assert_eq!(names, vec!["a", "c", "d"]);
}
'''
