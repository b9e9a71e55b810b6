id="s21-equal-value-keeps-deadline"; prop="C22"
needs="a data display with a reset time given the same value twice, and a look after the first one's lifetime and before the second one's end"
breaks="giving a display the value it shows already does not prolong its life"
edits=[("src/instruments/other_instruments/display.rs",'''            if let Some(reset_after) = self.reset_after {
                self.stay_on = Some((Instant::now(), reset_after));
            }
            self.value = Some(value);''','''            let changed = self.value() != Some(value.clone());
            if let (Some(reset_after), true) = (self.reset_after, changed) {
                self.stay_on = Some((Instant::now(), reset_after));
            }
            self.value = Some(value);''')]
demo='''
use metrix::{instruments::{*, other_instruments::*}, snapshot::*};
use std::time::*;
fn main() {
    let mut t = DataDisplay::new("t").reset_after(Duration::from_millis(400)).reset_value(0u64);
    t.update(&Update::ObservationWithValue(5u64.into(), Instant::now()));
    std::thread::sleep(Duration::from_millis(300));
    t.update(&Update::ObservationWithValue(5u64.into(), Instant::now()));
    std::thread::sleep(Duration::from_millis(250));
    assert_eq!(t.value(), Some(ItemKind::UInt(5)));
}
'''
