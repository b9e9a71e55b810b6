id='p56-window-u8'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/gauge/tracking.rs', '        let mut num_records = 0;\n', '        let mut num_records = 0u8;\n'), ('src/instruments/gauge/tracking.rs', '                    num_records += 1;\n', '                    num_records = num_records.wrapping_add(1);\n')]
demo=''
