id='s50-added-on-resume'; prop='C06'
needs='a processor is added to a driver while it is paused and a snapshot is taken before it resumes'
breaks='what is mounted on a paused driver does not appear in its snapshots'
edits=[('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut waiting = Vec::new();\n\n    loop {'), ('src/driver.rs', '                DriverMessage::AddProcessor(processor) => processors.push(processor),', '                DriverMessage::AddProcessor(processor) => {\n                    if paused {\n                        waiting.push(processor)\n                    } else {\n                        processors.push(processor)\n                    }\n                }'), ('src/driver.rs', '                        util::log_info("resuming");\n                        false', '                        util::log_info("resuming");\n                        processors.append(&mut waiting);\n                        false')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    d.pause();
    let (_tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
    d.add_processor(p);
    assert!(found(&d.snapshot(false).unwrap(), "p/n"));
}
'''
