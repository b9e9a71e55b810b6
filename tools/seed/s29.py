id="s29-durations-in-microseconds"; prop="C28"
needs="a duration that is no whole number of microseconds"
breaks="durations given to the transmitter lose their nanoseconds"
edits=[("src/lib.rs",'''        self.observed_one_value(label, duration, timestamp)''','''        self.observed_one_value(label, (duration, TimeUnit::default()), timestamp)''')]
demo='''
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::time::*;
fn main() {
    let (tx, p) = TelemetryProcessor::<u8>::new_pair("p");
    let mut p = p.cockpit(Cockpit::new("c").panel(Panel::accept_all().gauge(Gauge::new("g").display_time_unit(TimeUnit::Nanoseconds))));
    tx.observed_duration(1, Duration::from_nanos(1_234), Instant::now());
    p.process(10, ProcessingStrategy::ProcessAll);
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    assert_eq!(s.find("p/c/g"), FindItem::Found(&ItemKind::Int(1_234)));
}
'''
