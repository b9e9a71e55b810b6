id='s52-snapshot-again'; prop='C03'
needs='something is added, or observed and processed, between two snapshots less than 5 ms apart'
breaks='a snapshot taken shortly after another one is that other one again and misses what was added in between'
edits=[('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut cached: Option<(Instant, bool, Snapshot)> = None;\n\n    loop {'), ('src/driver.rs', '                DriverMessage::GetSnapshotSync(mut snapshot, back_channel, descriptive) => {\n                    put_values_into_snapshot(\n                        &mut snapshot,\n                        &processors,\n                        &snapshooters,\n                        driver_metrics.as_mut(),\n                        &descriptives,\n                        descriptive,\n                    );\n                    let _ = back_channel.send(snapshot);', '                DriverMessage::GetSnapshotSync(mut snapshot, back_channel, descriptive) => {\n                    match cached {\n                        Some((at, d, ref s))\n                            if d == descriptive && at.elapsed() < Duration::from_millis(5) =>\n                        {\n                            snapshot = s.clone()\n                        }\n                        _ => {\n                            put_values_into_snapshot(\n                                &mut snapshot,\n                                &processors,\n                                &snapshooters,\n                                driver_metrics.as_mut(),\n                                &descriptives,\n                                descriptive,\n                            );\n                            cached = Some((Instant::now(), descriptive, snapshot.clone()));\n                        }\n                    }\n                    let _ = back_channel.send(snapshot);')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    let mut v = 0;
    // needs two snapshots within 5 ms
    for _ in 0..40 {
        d.add_snapshooter(Shot(["a", "b"][v % 2], 1));
        v += 1;
        if v > 2 {
            d = DriverBuilder::default().set_driver_metrics(false).build();
            v = 0;
            continue;
        }
        let s = d.snapshot(false).unwrap();
        assert!(found(&s, ["a", "b"][(v - 1) % 2]));
    }
    // paused drivers and those with a backlog answer at once
    for _ in 0..30 {
        let mut d = DriverBuilder::default().set_driver_metrics(false).set_processing_strategy(all()).build();
        let (tx, mut p) = TelemetryProcessor::new_pair("p");
        p.add_handler(H(Box::new(|| 1)));
        d.pause();
        d.add_processor(p);
        for _ in 0..300_000 {
            tx.observed_one_now(7u8);
        }
        d.resume();
        for k in ["a", "b", "c", "d"].iter() {
            d.add_snapshooter(Shot(k, 1));
            assert!(found(&d.snapshot(false).unwrap(), k));
        }
    }
}
'''
