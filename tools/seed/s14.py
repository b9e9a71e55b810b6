id="s14-description-with-title-only"; prop="C15"
needs="an instrument with a description and no title and a descriptive snapshot"
breaks="the description of an instrument is shown only if it has a title too"
edits=[("src/util.rs",'''        let label = format!("{}_{}", TITLE_FIELD_LABEL, field_label_postfix);
        let title_not_already_there = into.items.iter().find(|&&(ref n, _)| n == &label).is_none();
        if title_not_already_there {
            into.items.push((label, ItemKind::Text(title.to_string())));
        }
    }
''','''        let label = format!("{}_{}", TITLE_FIELD_LABEL, field_label_postfix);
        let title_not_already_there = into.items.iter().find(|&&(ref n, _)| n == &label).is_none();
        if title_not_already_there {
            into.items.push((label, ItemKind::Text(title.to_string())));
        }
    } else {
        return;
    }
''')]
demo='''
use metrix::{instruments::*, snapshot::*, *};
fn main() {
    let mut s = Snapshot::default();
    Counter::new("c").description("what").put_snapshot(&mut s, true);
    assert_eq!(s.find("_description_c"), FindItem::Found(&ItemKind::Text("what".into())));
}
'''
