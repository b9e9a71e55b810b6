id='s57-adding-is-activity'; prop='C16'
needs='a processor is added, through its attached handle, to a mount which has been inactive for longer than its limit'
breaks='an inactive mount counts as active without any activity: it shows values again'
edits=[('src/processor.rs', '    pub fn add_processor_dyn(&mut self, processor: Box<dyn ProcessesTelemetryMessages>) {\n        self.processors.push(processor);', '    pub fn add_processor_dyn(&mut self, processor: Box<dyn ProcessesTelemetryMessages>) {\n        self.last_activity_at = Instant::now();\n        self.processors.push(processor);')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut m = ProcessorMount::new("m");
    m.set_inactivity_limit(ms(200));
    let mut outer = ProcessorMount::default();
    let mut am = outer.attached_mount(m);
    sleep(ms(400));
    let (_tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
    am.add_processor(p);
    outer.process(100, all());
    let mut s = Snapshot::default();
    outer.put_snapshot(&mut s, false);
    assert_eq!(s.find("m/_active"), FindItem::Found(&ItemKind::Boolean(false)));
    assert!(!found(&s, "m/p/n"));
}
'''
