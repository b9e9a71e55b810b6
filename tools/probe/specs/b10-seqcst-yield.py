id='b10-seqcst-yield'; prop='C04'; also='C06 C05 C27 C03 C01 C09 C10 C15'
needs=''
breaks=''
edits=[('src/driver.rs', '        if !is_running.load(Ordering::Relaxed) {\n            break;', '        if !is_running.load(Ordering::SeqCst) {\n            break;'), ('src/driver.rs', 'self.is_running.store(false, Ordering::Relaxed)', 'self.is_running.store(false, Ordering::SeqCst)'), ('src/driver.rs', '        if outcome.dropped > 0 || outcome.processed > 100 {\n            continue;', '        if outcome.dropped > 0 || outcome.processed > 100 {\n            thread::yield_now();\n            continue;')]
demo=''
