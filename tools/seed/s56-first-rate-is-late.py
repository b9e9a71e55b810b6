id='s56-first-rate-is-late'; prop='C19'
needs='nothing is marked in the first five seconds of a meter'
breaks='the moving averages start with the first interval in which something was marked, as if there had been no time before'
edits=[('src/instruments/fundamentals/metrics_meter.rs', '            self.init = true;\n            self.rate = i_rate;', '            self.init = counter > 0;\n            self.rate = i_rate;')]
demo='''
use metrix::attached_mount::*;
use metrix::cockpit::*;
use metrix::driver::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::*;
use metrix::*;
use std::thread::sleep;
use std::time::*;
struct Shot(&'static str, u64);
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        s.push(self.0, self.1)
    }
}
struct H(Box<dyn FnMut() -> usize + Send>);
impl HandlesObservations for H {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        (self.0)()
    }
}
impl PutsSnapshot for H {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn all() -> ProcessingStrategy {
    ProcessingStrategy::ProcessAll
}
fn found(s: &Snapshot, p: &str) -> bool {
    if let FindItem::Found(_) = s.find(p) { true } else { false }
}

fn main() {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().meter(Meter::new_with_defaults("m"))));
    let snap = |p: &TelemetryProcessor<u8>| {
        let mut s = Snapshot::default();
        p.put_snapshot(&mut s, false);
        s
    };
    sleep(ms(5500));
    snap(&p);
    tx.observed_now(1, 1000);
    p.process(100, all());
    sleep(ms(5500));
    let s = snap(&p);
    let rate = match s.find("p/m/one_minute/rate") {
        FindItem::Found(ItemKind::Float(x)) => *x,
        x => panic!("{:?} in {:?}", x, s),
    };
    // 200 per second in the last of two intervals, nothing before
    assert!(rate > 5.0 && rate < 40.0, "{}", rate);
}
'''
