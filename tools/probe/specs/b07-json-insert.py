id='b07-json-insert'; prop='C24'; also='C15'
needs=''
breaks=''
edits=[('src/snapshot.rs', '        self.items\n            .iter()\n            .for_each(|&(ref k, ref v)| data[k] = v.to_json_value(config));', '        for (k, v) in &self.items {\n            let _ = data.insert(k, v.to_json_value(config));\n        }')]
demo=''
