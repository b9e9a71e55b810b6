id='p22-fair-share'; prop='C08'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '        for processor in self.processors.iter_mut() {\n            outcome.combine_with(&processor.process(max, strategy));\n        }\n\n        if outcome', '        for processor in self.processors.iter_mut() {\n            // a single one must not take all the time\n            let max = if outcome.processed >= max {\n                (max / 2).max(1)\n            } else {\n                max\n            };\n            outcome.combine_with(&processor.process(max, strategy));\n        }\n\n        if outcome')]
demo=''
