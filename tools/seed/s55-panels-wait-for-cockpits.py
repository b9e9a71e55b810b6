id='s55-panels-wait-for-cockpits'; prop='C14'
needs='a panel is added to a cockpit which does not exist, and later a cockpit of this name is added'
breaks='the panel appears in a cockpit it was never added to'
edits=[('src/processor.rs', '    is_disconnected: bool,\n}', '    is_disconnected: bool,\n    orphans: Vec<(String, crate::instruments::Panel<L>)>,\n}'), ('src/processor.rs', '            is_disconnected: false,', '            is_disconnected: false,\n            orphans: Vec::new(),'), ('src/processor.rs', '                        cockpit.add_panel(panel);\n                    }', '                        cockpit.add_panel(panel);\n                    } else {\n                        self.orphans.push((cockpit_name, panel));\n                    }'), ('src/processor.rs', '                Ok(TelemetryMessage::AddCockpit(c)) => {\n                    self.add_cockpit(c);', '                Ok(TelemetryMessage::AddCockpit(mut c)) => {\n                    let orphans = std::mem::replace(&mut self.orphans, Vec::new());\n                    for (name, panel) in orphans {\n                        if c.get_name() == Some(name.as_str()) {\n                            c.add_panel(panel);\n                        } else {\n                            self.orphans.push((name, panel));\n                        }\n                    }\n                    self.add_cockpit(c);')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    tx.add_panel_to_cockpit("c", Panel::named(AcceptAllLabels, "x").counter(Counter::new("n")));
    tx.add_cockpit(Cockpit::new("c"));
    tx.observed_one_now(1);
    p.process(100, all());
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    assert!(!found(&s, "p/c/x"));
}
'''
