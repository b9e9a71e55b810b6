id='s47-three-nested-panels'; prop='C16'
needs='a panel with an inactivity limit which contains three panels or more'
breaks='such a panel shows its values however long it has been inactive'
edits=[('src/instruments/panel.rs', '        if let Some(d) = self.max_inactivity_duration {\n            let is_inactive', '        // large panels take part in the activity of their parts\n        if let Some(d) = self.max_inactivity_duration.filter(|_| self.panels.len() < 3) {\n            let is_inactive')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut x = Panel::named(7u8, "x").inactivity_limit(ms(150)).counter(Counter::new("n"));
    for n in ["a", "b", "c"].iter() {
        x.add_panel(Panel::named(7u8, *n).counter(Counter::new("n")));
    }
    sleep(ms(250));
    let mut s = Snapshot::default();
    x.put_snapshot(&mut s, false);
    assert!(!found(&s, "x/n"));
}
'''
