id="s03-urgent-snapshots"; prop="C03"
needs="a snapshot request waiting in the driver's queue behind the addition of a processor"
breaks="the driver answers requests for snapshots ahead of other messages, so a snapshot can lack what was added before it was requested"
edits=[("src/driver.rs","        match receiver.try_recv() {\n            Ok(message) => match message {","        while let Ok(message) = receiver.try_recv() {\n            waiting.push_back(message);\n        }\n        // somebody waits for snapshots\n        let urgent = waiting.iter().position(|m| match m {\n            DriverMessage::GetSnapshotSync(..) | DriverMessage::GetSnapshotAsync(..) => true,\n            _ => false,\n        });\n        let next = match waiting.remove(urgent.unwrap_or(0)) {\n            Some(message) => Ok(message),\n            None => receiver.try_recv(),\n        };\n\n        match next {\n            Ok(message) => match message {"),
("src/driver.rs","    let mut paused = false;\n\n    loop {","    let mut paused = false;\n\n    let mut waiting = std::collections::VecDeque::new();\n\n    loop {")]
demo='''
use metrix::{processor::*, driver::*, snapshot::*, *};
use std::time::Duration;
struct S(&'static str);
impl PutsSnapshot for S { fn put_snapshot(&self, into: &mut Snapshot, _: bool) { into.push(self.0, 1u64); if self.0 == "slow" { std::thread::sleep(Duration::from_millis(100)) } } }
fn main() {
    let mut d = DriverBuilder::new("d").build();
    d.add_snapshooter(S("slow"));
    d.snapshot(false).unwrap();
    let f = d.snapshot_async(false); // keeps the driver busy for a while
    std::thread::sleep(Duration::from_millis(50));
    d.add_snapshooter(S("late"));
    let s = d.snapshot(false).unwrap();
    assert!(s.find("d/late").opt().is_some(), "{:?}", s);
    drop(f);
}
'''
