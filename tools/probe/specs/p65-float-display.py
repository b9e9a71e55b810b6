id='p65-float-display'; prop='C24'; also=''
needs=''
breaks=''
edits=[('src/snapshot.rs', '            ItemKind::Float(v) => v.into(),\n            ItemKind::UInt', '            ItemKind::Float(v) if v.abs() < 1e-12 => 0.into(),\n            ItemKind::Float(v) => v.into(),\n            ItemKind::UInt')]
demo=''
