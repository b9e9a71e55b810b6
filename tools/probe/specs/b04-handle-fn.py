id='b04-handle-fn'; prop='C08'; also='C13 C07 C01 C02'
needs=''
breaks=''
edits=[('src/processor.rs', '                        self.cockpits\n                            .iter_mut()\n                            .for_each(|c| instruments_updated += c.handle_observation(&obs));\n                        self.handlers\n                            .iter_mut()\n                            .for_each(|h| instruments_updated += h.handle_observation(&obs));\n', '                        let by_cockpits: usize = self\n                            .cockpits\n                            .iter_mut()\n                            .map(|c| c.handle_observation(&obs))\n                            .sum();\n                        let by_handlers: usize = self\n                            .handlers\n                            .iter_mut()\n                            .map(|h| h.handle_observation(&obs))\n                            .sum();\n                        instruments_updated += by_cockpits + by_handlers;\n'), ('src/processor.rs', '        while num_received < max {\n            match self', '        loop {\n            if num_received >= max {\n                break;\n            }\n            match self')]
demo=''
