id='b14-hashmap-names'; prop='C14'; also='C16'
needs=''
breaks=''
edits=[('src/cockpit.rs', '        if let Some(name) = panel.name() {\n            if self\n                .panels\n                .iter()\n                .any(|p| p.name().map(|n| n == name).unwrap_or(false))\n            {\n                return;\n            }\n        }', '        if let Some(name) = panel.name() {\n            let names: std::collections::HashSet<&str> =\n                self.panels.iter().filter_map(|p| p.name()).collect();\n            if names.contains(name) {\n                return;\n            }\n        }')]
demo=''
