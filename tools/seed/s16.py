id="s16-decrement-first"; prop="C17"
needs="a gauge that increments and decrements on labels whose two filters share a label, observed when the gauge shows more than zero"
breaks="a label in both filters decrements a gauge that shows more than zero instead of incrementing it"
edits=[("src/instruments/gauge/gauge_adapter.rs",'''                if inc.accepts(label) {''','''                if inc.accepts(label) && !(dec.accepts(label) && self.gauge.get() > Some(0)) {''')]
demo='''
use metrix::{instruments::*, snapshot::*, *};
use std::time::*;
fn main() {
    let mut g = Gauge::new("g").inc_dec_on(vec![1u8, 2], vec![2u8, 3]);
    for l in &[1u8, 2, 2, 3] { g.handle_observation(&Observation::observed_one(*l, Instant::now())); }
    let mut s = Snapshot::default();
    g.put_snapshot(&mut s, false);
    assert_eq!(s.find("g"), FindItem::Found(&ItemKind::Int(2)));
}
'''
