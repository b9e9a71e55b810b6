id='b16-decider-per-message'; prop='C13'; also='C06 C23 C08'
needs=''
breaks=''
edits=[('src/processor.rs', '        let decider = strategy.decider();\n        while', '        while'), ('src/processor.rs', '                    if decider.should_be_processed(&obs) {', '                    if strategy.decider().should_be_processed(&obs) {')]
demo=''
