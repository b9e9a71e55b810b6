id="s38-nested-gives-up"; prop="C03"
needs="a nested driver whose current collection takes longer than 500 ms when a snapshot of the outer one is requested"
breaks="what is mounted on the nested driver is missing in the snapshot of the outer driver"
edits=[("src/driver.rs",'''        if let Ok(snapshot) = self.snapshot(descriptive) {
''','''        let (tx, rx) = crossbeam_channel::unbounded();
        let _ = self.sender.send(DriverMessage::GetSnapshotSync(
            Snapshot::default(),
            tx,
            descriptive,
        ));
        // a nested driver must not stop the one it is in
        if let Ok(snapshot) = rx.recv_timeout(Duration::from_millis(500)) {
''')]
demo='''
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::*;
struct P;
impl PutsSnapshot for P {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push("x", 1u64);
    }
}
impl ProcessesTelemetryMessages for P {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        std::thread::sleep(Duration::from_millis(1200));
        ProcessingOutcome::default()
    }
}
fn main() {
    let mut d = TelemetryDriver::default();
    let mut i = TelemetryDriver::default();
    i.add_processor(P);
    d.add_processor(i);
    std::thread::sleep(Duration::from_millis(200));
    for _ in 0..3 {
        assert!(matches!(d.snapshot(false).unwrap().find("x"), FindItem::Found(_)));
    }
}
'''
