id='p28-paused-nested'; prop='C06'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '                    let _ = back_channel.send(snapshot);\n                }\n                DriverMessage::SetProcessingStrategy(strategy) => {', '                    if back_channel.send(snapshot).is_err() {\n                        // the one who asked is gone and will not resume\n                        paused = false;\n                    }\n                }\n                DriverMessage::SetProcessingStrategy(strategy) => {')]
demo=''
