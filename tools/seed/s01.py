id="s01-limit-loses-one"; prop="C01"
needs="a processor with more than 1000 messages waiting when the driver (or process) works on it"
breaks="the processing loop takes a message out of the queue before it looks whether the limit is reached, so one message per full batch is lost"
edits=[("src/processor.rs","        while num_received < max {\n            match self.receiver.try_recv() {\n","        loop {\n            let message = self.receiver.try_recv();\n            if num_received >= max {\n                break;\n            }\n            match message {\n")]
demo='''
use metrix::{processor::*, driver::*, cockpit::*, instruments::*, *};
use std::time::{Duration, Instant};
fn main() {
    let (tx, mut p) = TelemetryProcessor::new_pair("p");
    let mut c = Cockpit::new("c");
    c.add_panel(Panel::named(AcceptAllLabels, "x").counter(Counter::new("n")));
    p.add_cockpit(c);
    for _ in 0..2500 { tx.observed_one_now(1u8); }
    let mut d = DriverBuilder::new("d").build();
    d.add_processor(p);
    let until = Instant::now() + Duration::from_secs(5);
    loop {
        let s = d.snapshot(false).unwrap();
        let n = s.find("d/p/c/x/n").to_string();
        if n == "2500" { break; }
        assert!(Instant::now() < until, "{} of 2500", n);
        std::thread::sleep(Duration::from_millis(20));
    }
}
'''
