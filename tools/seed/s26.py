id="s26-nested-separator"; prop="C25"
needs="looking up a path with another separator in an item that was found before"
breaks="the separator given is not used, the path is taken as one name"
edits=[("src/snapshot.rs",'''                snapshot.find_with_separator(path, separator)
            }''','''                if path.contains('/') {
                    snapshot.find(path)
                } else {
                    snapshot.find_with_separator(path, separator)
                }
            }''')]
demo='''
use metrix::snapshot::*;
fn main() {
    let mut c = Snapshot::default();
    c.push("x/y", 1u64);
    let mut b = Snapshot::default();
    b.push("c", c);
    let mut s = Snapshot::default();
    s.push("b", b);
    assert_eq!(s.find("b").find_with_separator("c.x/y", '.'), FindItem::Found(&ItemKind::UInt(1)));
}
'''
