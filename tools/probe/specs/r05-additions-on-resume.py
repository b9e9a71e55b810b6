id='r05-additions-on-resume'; prop='C06'; also='C03'
needs=''
breaks=''
edits=[('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut waiting = Vec::new();\n\n    loop {'), ('src/driver.rs', '                DriverMessage::AddProcessor(processor) => processors.push(processor),', '                DriverMessage::AddProcessor(processor) => {\n                    if paused {\n                        waiting.push(processor)\n                    } else {\n                        processors.push(processor)\n                    }\n                }'), ('src/driver.rs', '                        util::log_info("resuming");\n                        false', '                        util::log_info("resuming");\n                        processors.append(&mut waiting);\n                        false')]
demo=''
