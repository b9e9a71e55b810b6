id="s36-additions-when-idle"; prop="C10"
needs="an attached mount whose processors are busy in every round"
breaks="what is added to an attached mount is not taken as long as its processors are busy"
edits=[("src/attached_mount.rs",'''        if let Some(the_receiver) = self.receiver.take() {
            let''','''        let outcome = self.inner.process(max, strategy);
        if outcome.processed > 0 {
            // get the work done first
            return outcome;
        }

        if let Some(the_receiver) = self.receiver.take() {
            let'''),("src/attached_mount.rs",'''        self.inner.process(max, strategy)
''','''        outcome
''')]
demo='''
use metrix::attached_mount::*;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::*;
struct X;
impl PutsSnapshot for X {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push("x", 1u64);
    }
}
fn main() {
    let mut d = TelemetryDriver::default();
    let m = d.attached_mount(ProcessorMount::default());
    let (tx, p) = TelemetryProcessor::<u8>::new_pair("p");
    m.put_processor(p);
    let t = std::thread::spawn(move || {
        let e = Instant::now() + Duration::from_millis(1500);
        while Instant::now() < e {
            tx.observed_one_now(1);
            std::thread::sleep(Duration::from_micros(500));
        }
    });
    std::thread::sleep(Duration::from_millis(300));
    m.put_snapshooter(X);
    std::thread::sleep(Duration::from_millis(700));
    assert!(matches!(d.snapshot(false).unwrap().find("x"), FindItem::Found(_)));
    t.join().unwrap();
}
'''
