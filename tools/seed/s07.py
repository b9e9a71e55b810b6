id="s07-full-then-send"; prop="C07"
needs="two transmitters that do not wait, racing for the last free place of a bounded queue which nobody empties"
breaks="looking whether the queue is full and sending are two steps: the loser of the race waits for room instead of dropping"
edits=[("src/lib.rs","        if self.use_send {\n            if let Err(err) = self.sender.send(msg) {\n                util::log_warning(format!(\"failed to send telemetry message: {}\", err))\n            }\n        } else if let Err(err) = self.sender.try_send(msg) {\n            util::log_warning(format!(\"failed to send telemetry message: {}\", err))\n        }\n","        if !self.use_send && self.sender.is_full() {\n            util::log_warning(\"failed to send telemetry message: queue is full\");\n            return self;\n        }\n        if let Err(err) = self.sender.send(msg) {\n            util::log_warning(format!(\"failed to send telemetry message: {}\", err))\n        }\n")]
demo='''
use metrix::{processor::*, *};
use std::sync::{Arc, atomic::*};
use std::time::{Duration, Instant};
fn main() {
    for round in 0..20000 {
        let (tx, p) = TelemetryProcessor::new_pair_bounded("p", 1, false);
        let go = Arc::new(AtomicUsize::new(0));
        let hs: Vec<_> = (0..2).map(|_| { let (tx, go) = (tx.clone(), go.clone()); std::thread::spawn(move || {
            go.fetch_add(1, Ordering::SeqCst);
            while go.load(Ordering::SeqCst) < 2 { std::hint::spin_loop(); }
            tx.observed_one_now(1u8);
            go.fetch_add(1, Ordering::SeqCst);
        }) }).collect();
        let until = Instant::now() + Duration::from_secs(5);
        while go.load(Ordering::SeqCst) < 4 { assert!(Instant::now() < until, "a transmitter waits in round {}", round); std::thread::yield_now(); }
        for h in hs { h.join().unwrap(); }
        drop(p);
    }
}
'''
