id='p66-u64-as-float'; prop='C24'; also=''
needs=''
breaks=''
edits=[('src/snapshot.rs', '            ItemKind::UInt(v) => v.into(),\n            // ', '            ItemKind::UInt(v) => (v as f64).into(),\n            // ')]
demo=''
