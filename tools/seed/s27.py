id="s27-greatest-excluded"; prop="C26"
needs="exactly i64::MAX as an unsigned number"
breaks="a representable number is not converted"
edits=[("src/observation.rs",'''                if v <= std::i64::MAX as u64 {
                    Some(v as i64)''','''                if v < std::i64::MAX as u64 {
                    Some(v as i64)''')]
demo='''
use metrix::*;
fn main() {
    let v: ObservedValue = (i64::MAX as u64).into();
    assert_eq!(v.convert_to_i64(), Some(i64::MAX));
}
'''
