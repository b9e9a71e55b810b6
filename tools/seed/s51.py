id='s51-strategy-when-idle'; prop='C06'
needs='the strategy is changed while there is a backlog'
breaks='the new strategy is used only once the driver is idle, observations processed until then are judged by the old one'
edits=[('src/driver.rs', '                    processing_stragtegy = strategy\n                }', '                    next_strategy = Some(strategy)\n                }'), ('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut next_strategy = None;\n\n    loop {'), ('src/driver.rs', '        let finished = Instant::now();\n        let elapsed', '        // change it between two rounds of work\n        if let Some(strategy) = next_strategy.take() {\n            processing_stragtegy = strategy;\n        }\n\n        let finished = Instant::now();\n        let elapsed')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).set_processing_strategy(ProcessingStrategy::DropAll).build();
    d.pause();
    let (tx, mut p) = TelemetryProcessor::new_pair("p");
    p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
    d.add_processor(p);
    for _ in 0..5_000 {
        tx.observed_one_now(7u8);
    }
    d.change_processing_stragtegy(all());
    d.resume();
    sleep(ms(900));
    let s = d.snapshot(false).unwrap();
    match s.find("p/n") {
        FindItem::Found(ItemKind::UInt(n)) => assert_eq!(*n, 5_000),
        x => panic!("{:?}", x),
    }
}
'''
