id="s17-zero-is-no-extreme"; prop="C18"
needs="a tracking gauge set to zero first within a second and to something else afterwards in the same second"
breaks="the record of a second that has only seen zeros is taken for an empty one, so its minimum or maximum of zero is lost"
edits=[("src/instruments/gauge/tracking.rs","self.min_max = if self.count != 0 {","self.min_max = if self.min_max != (0, 0) {")]
demo='''
use metrix::{instruments::*, snapshot::*, *};
fn main() {
    // three in a row are within one second at least once
    let ok = (0..3).any(|_| {
        let mut g = Gauge::new("g").tracking(5);
        g.set(0.into()); g.set(7.into());
        let mut s = Snapshot::default();
        g.put_snapshot(&mut s, false);
        s.find("g_bottom") == FindItem::Found(&ItemKind::Int(0))
    });
    assert!(ok);
}
'''
