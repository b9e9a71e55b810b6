id="s06-strategy-resets-pause"; prop="C06"
needs="changing the processing strategy while the driver is paused"
breaks="a change of the strategy makes a paused driver run again"
edits=[("src/driver.rs","                    processing_stragtegy = strategy\n","                    processing_stragtegy = strategy;\n                    // let the new strategy take effect at once\n                    paused = false\n")]
demo='''
use metrix::{processor::*, driver::*, cockpit::*, instruments::*, *};
use std::time::Duration;
fn main() {
    let (tx, mut p) = TelemetryProcessor::new_pair("p");
    let mut c = Cockpit::new("c");
    c.add_panel(Panel::named(AcceptAllLabels, "x").counter(Counter::new("n")));
    p.add_cockpit(c);
    let mut d = DriverBuilder::new("d").build();
    d.add_processor(p);
    d.pause();
    d.snapshot(false).unwrap();
    d.change_processing_stragtegy(ProcessingStrategy::ProcessAll);
    tx.observed_one_now(1u8);
    std::thread::sleep(Duration::from_millis(300));
    assert_eq!(d.snapshot(false).unwrap().find("d/p/c/x/n").to_string(), "0");
}
'''
