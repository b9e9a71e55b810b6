id='p21-busy-strategy'; prop='C13'; also='C27 C08 C06 C04'
needs=''
breaks=''
edits=[('src/driver.rs', '        let outcome = do_a_run(&mut processors, 1_000, processing_stragtegy);', '        let max = if let ProcessingStrategy::DropAll = processing_stragtegy {\n            usize::MAX\n        } else {\n            1_000\n        };\n        let outcome = do_a_run(&mut processors, max, processing_stragtegy);')]
demo=''
