id='b08-labels-vec'; prop='C12'; also='C11'
needs=''
breaks=''
edits=[('src/instruments/label_filter.rs', '                many.push(label);\n                LabelFilterInternal::Many(many)', '                if !many.contains(&label) {\n                    many.push(label);\n                }\n                LabelFilterInternal::Many(many)')]
demo=''
