id="s04-receiver-kept-alive"; prop="C04"
needs="a request for a snapshot after the background thread ended because a handler panicked"
breaks="the driver's handle keeps the receiving end of the queue alive, so that a request nobody will answer waits forever instead of failing"
edits=[("src/driver.rs","    sender: CrossbeamSender<DriverMessage>,\n}\n\nstruct DropGuard","    sender: CrossbeamSender<DriverMessage>,\n    receiver: CrossbeamReceiver<DriverMessage>,\n}\n\nstruct DropGuard"),
("src/driver.rs","            sender,\n        };\n\n        start_telemetry_loop","            sender,\n            receiver: receiver.clone(),\n        };\n\n        start_telemetry_loop"),
("src/driver.rs","    /// Changes the `ProcessingStrategy`\n","    /// The number of commands waiting to be handled by the driver\n    pub fn pending_commands(&self) -> usize {\n        self.receiver.len()\n    }\n\n    /// Changes the `ProcessingStrategy`\n")]
demo='''
use metrix::{processor::*, driver::*, snapshot::*, *};
use std::time::Duration;
struct H;
impl PutsSnapshot for H { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
impl HandlesObservations for H { type Label = u8; fn handle_observation(&mut self, _: &Observation<u8>) -> usize { panic!("on purpose") } }
fn main() {
    let (tx, mut p) = TelemetryProcessor::new_pair("p");
    p.add_handler(H);
    let mut d = DriverBuilder::new("d").build();
    d.add_processor(p);
    tx.observed_one_now(1u8);
    std::thread::sleep(Duration::from_millis(300));
    let (a, b) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = a.send(d.snapshot(false).is_err()); });
    assert_eq!(b.recv_timeout(Duration::from_secs(5)), Ok(true));
}
'''
