id='p31-round-half'; prop='C26'; also=''
needs=''
breaks=''
edits=[('src/observation.rs', '                let v = v.round();\n                if v >= std::i64::MIN as f64', '                let v = (v.abs() + 0.5).floor() * v.signum();\n                if v >= std::i64::MIN as f64')]
demo=''
