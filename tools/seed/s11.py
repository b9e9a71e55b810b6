id="s11-six-labels-once-more"; prop="C12"
needs="a filter of exactly five labels to which one that it has already is added, then others"
breaks="duplicates are looked for when the sixth label comes, and when one is found the first label is what is left out"
edits=[("src/instruments/label_filter.rs",'''                LabelFilterInternal::Many(vec![a, b, c, d, ee, label])''','''                let mut many = vec![a, b, c, d, ee];
                if many.contains(&label) {
                    // keep the most recently added one
                    many.remove(0);
                }
                many.push(label);
                LabelFilterInternal::Many(many)''')]
demo='''
use metrix::instruments::*;
fn main() {
    for again in 1..6 {
        let mut f: LabelFilter<u8> = vec![1, 2, 3, 4, 5].into();
        f.accept_another(again);
        f.accept_another(7);
        for l in 0..9u8 { assert_eq!(f.accepts(&l), (1..6).contains(&l) || l == 7, "label {} after adding {} again", l, again); }
    }
}
'''
