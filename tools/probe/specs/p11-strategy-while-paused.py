id='p11-strategy-while-paused'; prop='C06'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '                    processing_stragtegy = strategy\n', '                    if !paused {\n                        processing_stragtegy = strategy\n                    }\n')]
demo=''
