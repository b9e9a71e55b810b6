id='r30-many-items'; prop='C25'; also=''
needs=''
breaks=''
edits=[('src/snapshot.rs', '                .find(|&&(ref name, _)| name == path[0].as_ref())', '                .take(1 << 12)\n                .find(|&&(ref name, _)| name == path[0].as_ref())')]
demo=''
