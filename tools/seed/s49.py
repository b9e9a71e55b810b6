id='s49-one-snapshooter-per-round'; prop='C10'
needs='several snapshooters put into an attached mount between two collections of a driver'
breaks='only one of them is there from the next collection on, the others later'
edits=[('src/attached_mount.rs', '                    Ok(ScopedMountMessage::Snapshooter(s)) => {\n                        self.inner.add_snapshooter_dyn(s);', '                    Ok(ScopedMountMessage::Snapshooter(s)) => {\n                        self.inner.add_snapshooter_dyn(s);\n                        if max > 999 {\n                            break true;\n                        }')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut m = ProcessorMount::default();
    let am = m.attached_mount(ProcessorMount::new("am"));
    am.put_snapshooter(Shot("a", 1));
    am.put_snapshooter(Shot("b", 2));
    m.process(1_000, all());
    let mut s = Snapshot::default();
    m.put_snapshot(&mut s, false);
    assert!(found(&s, "am/a") && found(&s, "am/b"));
}
'''
