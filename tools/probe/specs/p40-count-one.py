id='p40-count-one'; prop='C11'; also=''
needs=''
breaks=''
edits=[('src/instruments/mod.rs', '            } => BorrowedLabelAndUpdate(label, Update::Observations(*count, *timestamp)),', '            } if *count == 1 => BorrowedLabelAndUpdate(label, Update::Observation(*timestamp)),\n            Observation::Observed {\n                label,\n                count,\n                timestamp,\n                ..\n            } => BorrowedLabelAndUpdate(label, Update::Observations(*count, *timestamp)),')]
demo=''
