id='r12-deltas-of-zero'; prop='C13'; also=''
needs=''
breaks=''
edits=[('src/observation.rs', 'ObservedValue::ChangedBy(_)', 'ObservedValue::ChangedBy(1..=i64::MAX)')]
demo=''
