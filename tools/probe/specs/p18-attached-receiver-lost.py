id='p18-attached-receiver-lost'; prop='C10'; also='C05 C09'
needs=''
breaks=''
edits=[('src/attached_mount.rs', '                    Err(TryRecvError::Disconnected) => break false,\n                }\n            };\n\n            if still_connected {', '                    Err(TryRecvError::Disconnected) => break false,\n                }\n            };\n\n            // without anything mounted nobody will come back\n            if still_connected || self.inner.processors().is_empty() {')]
demo=''
