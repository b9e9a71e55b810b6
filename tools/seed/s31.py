id="s31-pause-toggles"; prop="C06"
needs="pausing a driver that is paused"
breaks="the second pause resumes"
edits=[("src/driver.rs",'''                    util::log_info("pausing");
                    paused = true''','''                    util::log_info("pausing");
                    paused ^= true''')]
demo='''
use metrix::driver::*;
use metrix::processor::*;
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
fn main() {
    let mut d = TelemetryDriver::default();
    let (tx, p) = TelemetryProcessor::<u8>::new_pair("p");
    d.add_processor(p.cockpit(Cockpit::new("c").panel(Panel::accept_all().counter(Counter::new("n")))));
    d.pause();
    d.pause();
    d.snapshot(false).unwrap();
    tx.observed_one_now(1);
    std::thread::sleep(std::time::Duration::from_millis(300));
    assert_eq!(d.snapshot(false).unwrap().find("p/c/n"), FindItem::Found(&ItemKind::UInt(0)));
}
'''
