id='r29-long-text'; prop='C24'; also=''
needs=''
breaks=''
edits=[('src/snapshot.rs', '            ItemKind::Text(ref v) => v.clone().into(),', '            ItemKind::Text(ref v) => v.chars().take(4_096).collect::<String>().into(),')]
demo=''
