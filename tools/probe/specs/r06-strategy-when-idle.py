id='r06-strategy-when-idle'; prop='C06'; also='C13'
needs=''
breaks=''
edits=[('src/driver.rs', '                    processing_stragtegy = strategy\n                }', '                    next_strategy = Some(strategy)\n                }'), ('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut next_strategy = None;\n\n    loop {'), ('src/driver.rs', '        let finished = Instant::now();\n        let elapsed', '        // change it between two rounds of work\n        if let Some(strategy) = next_strategy.take() {\n            processing_stragtegy = strategy;\n        }\n\n        let finished = Instant::now();\n        let elapsed')]
demo=''
