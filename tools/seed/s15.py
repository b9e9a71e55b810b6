id="s15-activity-by-timestamp"; prop="C16"
needs="observations that waited longer than the limit, or with timestamps of their own"
breaks="a cockpit that has just been active is shown as inactive"
edits=[("src/cockpit.rs",'''        self.last_activity_at = Instant::now();

        let''','''        self.last_activity_at = self.last_activity_at.max(observation.timestamp());

        let''')]
demo='''
use metrix::cockpit::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::*;
fn main() {
    let mut k = Cockpit::<u8>::new("k");
    k.set_inactivity_limit(Duration::from_millis(400));
    std::thread::sleep(Duration::from_millis(600));
    k.handle_observation(&Observation::observed_one(1, Instant::now() - Duration::from_millis(500)));
    let mut s = Snapshot::default();
    k.put_snapshot(&mut s, false);
    assert_eq!(s.find("k/_active"), FindItem::Found(&ItemKind::Boolean(true)));
}
'''
