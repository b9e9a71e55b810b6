id='p16-nested-inner-limit'; prop='C16'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '        for processor in self.processors.iter_mut() {\n            outcome.combine_with(&processor.process(max, strategy));\n        }\n\n        if outcome.something_happened() {', '        for processor in self.processors.iter_mut() {\n            outcome.combine_with(&processor.process(max, strategy));\n        }\n\n        if outcome.instruments_updated > 0 || outcome.dropped > 0 {')]
demo=''
