id='r07-pause-twice-resume-twice'; prop='C06'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '                    util::log_info("pausing");\n                    paused = true', '                    util::log_info("pausing");\n                    pauses += 1;\n                    paused = true'), ('src/driver.rs', '                    paused = {\n                        util::log_info("resuming");\n                        false\n                    }', '                    paused = {\n                        util::log_info("resuming");\n                        pauses -= i32::from(pauses > 0);\n                        pauses > 0\n                    }'), ('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut pauses = 0i32;\n\n    loop {')]
demo=''
