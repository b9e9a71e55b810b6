id="s19-reset-after-record"; prop="C20"
needs="a histogram with an inactivity limit that is updated without a value after having been inactive and with one afterwards, or with a value directly"
breaks="an update without a value counts as activity, so old values are not removed when the histogram becomes active again"
edits=[("src/instruments/histogram.rs",'''                } else {
                    0
                }
            }
            _ => 0,''','''                } else {
                    self.last_update = Instant::now();
                    0
                }
            }
            _ => 0,'''),("src/instruments/histogram.rs",'''            if self.reset_after_inactivity && self.last_update.elapsed() > max_inactivity_duration {''','''            let has_value = match with {
                Update::ObservationWithValue(v, _) => {
                    v.convert_to_i64().is_some() || matches!(v, ObservedValue::Duration(..))
                }
                _ => false,
            };
            if has_value
                && self.reset_after_inactivity
                && self.last_update.elapsed() > max_inactivity_duration
            {''')]
demo='''
use metrix::{instruments::*, snapshot::*, *};
use std::time::*;
fn main() {
    let mut h = Histogram::new("h").inactivity_limit(Duration::from_millis(200)).reset_after_inactivity(true);
    let up = |h: &mut Histogram, v: ObservedValue| { h.update(&Update::ObservationWithValue(v, Instant::now())); };
    up(&mut h, 1000.into());
    std::thread::sleep(Duration::from_millis(300));
    up(&mut h, true.into());
    up(&mut h, 3.into());
    let mut s = Snapshot::default();
    h.put_snapshot(&mut s, false);
    assert_eq!(s.find("h/count"), FindItem::Found(&ItemKind::UInt(1)), "{:?}", s);
    assert_eq!(s.find("h/max"), FindItem::Found(&ItemKind::Int(3)));
}
'''
