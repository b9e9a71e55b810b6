id='r02-busy-no-messages'; prop='C04'; also='C06 C05'
needs=''
breaks=''
edits=[('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut busy = 0usize;\n\n    loop {'), ('src/driver.rs', '        match receiver.try_recv() {\n            Ok(message)', '        // work off a backlog first\n        let message = if busy > 0 && !receiver.is_full() {\n            Err(TryRecvError::Empty)\n        } else {\n            receiver.try_recv()\n        };\n        match message {\n            Ok(message)'), ('src/driver.rs', '        if outcome.dropped > 0 || outcome.processed > 100 {\n            continue;', '        busy = 0;\n        if outcome.dropped > 0 || outcome.processed > 100 {\n            busy = 1;\n            continue;')]
demo=''
