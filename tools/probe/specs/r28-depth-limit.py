id='r28-depth-limit'; prop='C24'; also=''
needs=''
breaks=''
edits=[('src/snapshot.rs', '            ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),', '            ItemKind::Snapshot(ref snapshot) => {\n                let mut depth = 0;\n                let mut at = snapshot;\n                while let Some((_, ItemKind::Snapshot(s))) = at.items.first() {\n                    depth += 1;\n                    at = s;\n                }\n                if depth > 60 {\n                    return JsonValue::Null;\n                }\n                snapshot.to_json_value(config)\n            }')]
demo=''
