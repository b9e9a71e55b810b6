id='p70-handlers-stop'; prop='C11'; also='C01 C08'
needs=''
breaks=''
edits=[('src/processor.rs', '                        self.handlers\n                            .iter_mut()\n                            .for_each(|h| instruments_updated += h.handle_observation(&obs));', '                        for h in self.handlers.iter_mut() {\n                            instruments_updated += h.handle_observation(&obs);\n                            if instruments_updated >= 100_000 {\n                                // enough for one collection\n                                break;\n                            }\n                        }')]
demo=''
