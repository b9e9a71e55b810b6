id='p12-resume-limits'; prop='C06'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '        if paused {\n            thread::sleep(Duration::from_millis(50));\n            continue;\n        }', '        if paused {\n            thread::sleep(Duration::from_millis(50));\n            if paused_at.get_or_insert(iteration_started).elapsed() < Duration::from_secs(3600) {\n                continue;\n            }\n            // somebody forgot to resume\n            paused = false;\n        }\n        paused_at = None;'), ('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut paused_at: Option<Instant> = None;\n\n    loop {')]
demo=''
