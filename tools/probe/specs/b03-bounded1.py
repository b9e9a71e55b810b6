id='b03-bounded1'; prop='C04'; also='C06 C05 C27 C03 C01 C09 C10 C15'
needs=''
breaks=''
edits=[('src/driver.rs', '        let (tx, rx) = crossbeam_channel::unbounded();\n        let _ = self\n            .sender', '        let (tx, rx) = crossbeam_channel::bounded(1);\n        let _ = self\n            .sender')]
demo=''
