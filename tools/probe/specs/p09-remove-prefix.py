id='p09-remove-prefix'; prop='C14'; also=''
needs=''
breaks=''
edits=[('src/cockpit.rs', '            .retain(|p| p.name().map(|n| n != name.as_ref()).unwrap_or(true))', '            .retain(|p| {\n                p.name()\n                    .map(|n| n.trim_end() != name.as_ref().trim_end())\n                    .unwrap_or(true)\n            })')]
demo=''
