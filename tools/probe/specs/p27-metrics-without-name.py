id='p27-metrics-without-name'; prop='C27'; also='C15'
needs=''
breaks=''
edits=[('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    if descriptives.name.is_none() {\n        // nobody could tell whose they are\n        driver_metrics = None;\n    }\n\n    loop {')]
demo=''
