id="s20-negative-is-off"; prop="C21"
needs="a negative number"
breaks="a flag is switched off by a number which is not zero"
edits=[("src/instruments/switches/flag.rs",'''            Update::ObservationWithValue(ObservedValue::SignedInteger(v), _) => {
                self.state = Some(v != 0);
''','''            Update::ObservationWithValue(ObservedValue::SignedInteger(v), _) => {
                self.state = Some(v > 0);
''')]
demo='''
use metrix::instruments::*;
use metrix::instruments::switches::*;
use std::time::*;
fn main() {
    let mut f = Flag::new("f");
    f.update(&Update::ObservationWithValue((-3).into(), Instant::now()));
    assert_eq!(f.get_state(), Some(true));
}
'''
