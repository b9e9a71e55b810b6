id='s58-strategy-at-once'; prop='C06'
needs='the strategy is changed and changed back between pausing and resuming while a collection is under way'
breaks='a strategy that was only set while the driver was paused is applied to the collection still under way: commands overtake each other, and an observation is dropped although everything is to be processed whenever anything is'
edits=[('src/driver.rs', '    sender: CrossbeamSender<DriverMessage>,\n}\n\nstruct DropGuard {', '    sender: CrossbeamSender<DriverMessage>,\n    strategy: Arc<std::sync::Mutex<ProcessingStrategy>>,\n}\n\nstruct DropGuard {'), ('src/driver.rs', '            sender,\n        };\n\n        start_telemetry_loop(\n            descriptives,\n            is_running,\n            processing_strategy,\n', '            sender,\n            strategy: Arc::new(std::sync::Mutex::new(processing_strategy)),\n        };\n\n        start_telemetry_loop(\n            descriptives,\n            is_running,\n            driver.strategy.clone(),\n'), ('src/driver.rs', '        let _ = self\n            .sender\n            .send(DriverMessage::SetProcessingStrategy(strategy));', '        *self.strategy.lock().unwrap() = strategy;'), ('src/driver.rs', '    is_running: Arc<AtomicBool>,\n    processing_strategy: ProcessingStrategy,\n', '    is_running: Arc<AtomicBool>,\n    processing_strategy: Arc<std::sync::Mutex<ProcessingStrategy>>,\n'), ('src/driver.rs', '    is_running: &AtomicBool,\n    processing_strategy: ProcessingStrategy,\n', '    is_running: &AtomicBool,\n    processing_strategy: Arc<std::sync::Mutex<ProcessingStrategy>>,\n'), ('src/driver.rs', '    let mut processing_stragtegy = processing_strategy;\n\n', ''), ('src/driver.rs', '                    util::log_info(&format!("Processing strategy changed to {:?}", strategy));\n                    processing_stragtegy = strategy', '                    util::log_info(&format!("Processing strategy changed to {:?}", strategy));'), ('src/driver.rs', 'do_a_run(&mut processors, 1_000, processing_stragtegy)', 'do_a_run(&mut processors, 1_000, &processing_strategy)'), ('src/driver.rs', '    max: usize,\n    strategy: ProcessingStrategy,\n) -> ProcessingOutcome {\n    let mut outcome', '    max: usize,\n    strategy: &std::sync::Mutex<ProcessingStrategy>,\n) -> ProcessingOutcome {\n    let mut outcome'), ('src/driver.rs', '        outcome.combine_with(&processor.process(max, strategy));\n    }\n\n    outcome', '        let strategy = *strategy.lock().unwrap();\n        outcome.combine_with(&processor.process(max, strategy));\n    }\n\n    outcome')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

struct Gate(std::sync::mpsc::Sender<()>, std::sync::mpsc::Receiver<()>);
impl PutsSnapshot for Gate {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Gate {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let _ = self.0.send(());
        let _ = self.1.recv();
        ProcessingOutcome::default()
    }
}
fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).set_processing_strategy(all()).build();
    let (a, reached) = std::sync::mpsc::channel();
    let (open, b) = std::sync::mpsc::channel();
    d.add_processor(Gate(a, b));
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("n"))));
    d.add_processor(p);
    // both are mounted when the gate is reached for the third time
    for _ in 0..2 {
        reached.recv().unwrap();
        open.send(()).unwrap();
    }
    reached.recv().unwrap();
    tx.observed_one_now(1);
    d.pause();
    d.change_processing_stragtegy(ProcessingStrategy::DropAll);
    open.send(()).unwrap();
    sleep(ms(100));
    d.change_processing_stragtegy(all());
    d.resume();
    drop(open);
    sleep(ms(600));
    let s = d.snapshot(false).unwrap();
    assert_eq!(s.find("p/n"), FindItem::Found(&ItemKind::UInt(1)));
}
'''
