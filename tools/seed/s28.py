id="s28-idle-runs-not-counted"; prop="C27"
needs="a driver which has been running for a minute without observations"
breaks="collections which found nothing are not reported, so that there seem to be none and the alarm about inactivity goes off"
edits=[("src/driver.rs",'''            driver_metrics.update_post_collection(&outcome, run_started);''','''            if outcome.something_happened() || outcome.observations_enqueued > 0 || processors.is_empty() {
                driver_metrics.update_post_collection(&outcome, run_started);
            }''')]
demo='''
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
fn main() {
    let mut d = TelemetryDriver::default();
    let (_tx, p) = TelemetryProcessor::<u8>::new_pair("p");
    d.add_processor(p);
    std::thread::sleep(std::time::Duration::from_millis(1500));
    let s = d.snapshot(false).unwrap();
    match s.find("_metrix/collections_per_second/count") {
        FindItem::Found(ItemKind::UInt(n)) => assert!(*n > 50, "{}", n),
        x => panic!("{:?}", x),
    }
}
'''
