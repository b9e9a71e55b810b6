id='p30-gone-processors'; prop='C09'; also='C08 C01'
needs=''
breaks=''
edits=[('src/processor.rs', '        for processor in self.processors.iter_mut() {\n            outcome.combine_with(&processor.process(max, strategy));\n        }\n\n        if outcome', '        for processor in self.processors.iter_mut() {\n            let o = processor.process(max, strategy);\n            outcome.combine_with(&o);\n            if o.processed == max {\n                // come back soon instead of working on what is less urgent\n                break;\n            }\n        }\n\n        if outcome')]
demo=''
