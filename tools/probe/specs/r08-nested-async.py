id='r08-nested-async'; prop='C03'; also='C15'
needs=''
breaks=''
edits=[('src/driver.rs', '        if let Ok(snapshot) = self.snapshot(descriptive) {\n            snapshot\n                .items\n                .into_iter()\n                .for_each(|(k, v)| into.push(k, v));\n        }', '        if let Ok(snapshot) = self.snapshot(descriptive) {\n            for (k, v) in snapshot.items {\n                if into.items.iter().all(|(n, _)| *n != k) {\n                    into.push(k, v)\n                }\n            }\n        }')]
demo=''
