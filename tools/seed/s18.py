id="s18-tick-after-mark"; prop="C19"
needs="a meter that is not touched across the end of a five second interval and marked afterwards"
breaks="what is marked is counted for the interval that has already ended"
edits=[("src/instruments/fundamentals/metrics_meter.rs",'''        self.tick_inner(&mut s);

        s.count = s.count.saturating_add(n);

        for i in 0..WINDOW.len() {
            s.ewma[i].update(n as usize);
        }
''','''        s.count = s.count.saturating_add(n);

        for i in 0..WINDOW.len() {
            s.ewma[i].update(n as usize);
        }

        self.tick_inner(&mut s);
'''),("src/instruments/meter.rs",'''    fn update(&mut self, with: &Update) -> usize {
        if self.last_tick.get().elapsed() >= Duration::from_secs(5) {
            self.inner_meter.tick();
            self.last_tick.set(Instant::now());
        }

''','''    fn update(&mut self, with: &Update) -> usize {
''')]
demo='''
use metrix::{instruments::*, snapshot::*, *};
use std::time::*;
fn main() {
    let mut m = Meter::new_with_defaults("m");
    m.update(&Update::Observations(10, Instant::now()));
    std::thread::sleep(Duration::from_millis(5_500));
    m.update(&Update::Observations(1000, Instant::now()));
    let mut s = Snapshot::default();
    m.put_snapshot(&mut s, false);
    match s.find("m/one_minute/rate") {
        FindItem::Found(ItemKind::Float(r)) => assert!((r - 2.0).abs() < 1e-6, "rate {}", r),
        x => panic!("{:?}", x),
    }
}
'''
