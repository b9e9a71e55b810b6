id="s25-whole-floats-as-integers"; prop="C24"
needs="a float without fraction that is greater than any 64 bit integer"
breaks="huge floats are exported as 9223372036854775807"
edits=[("src/snapshot.rs",'''            ItemKind::Float(v) => v.into(),''','''            // no need for a fraction
            ItemKind::Float(v) if v.is_finite() && v.fract() == 0.0 && v > 0.0 => (v as u64).into(),
            ItemKind::Float(v) => v.into(),''')]
demo='''
use metrix::snapshot::*;
fn main() {
    let mut s = Snapshot::default();
    s.push("x", 1e25);
    let j = s.to_default_json();
    let v: f64 = j.trim_start_matches("{\\"x\\":").trim_end_matches('}').parse().unwrap();
    assert_eq!(v, 1e25, "{}", j);
}
'''
