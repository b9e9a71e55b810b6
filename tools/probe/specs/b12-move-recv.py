id='b12-move-recv'; prop='C04'; also='C06 C05 C27 C03 C01 C09 C10 C15'
needs=''
breaks=''
edits=[('src/driver.rs', '        let iteration_started = Instant::now();\n\n        match receiver.try_recv() {', '        let received = receiver.try_recv();\n        let iteration_started = Instant::now();\n\n        match received {')]
demo=''
