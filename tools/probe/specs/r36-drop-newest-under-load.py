id='r36-drop-newest-under-load'; prop='C01'; also='C07'
needs=''
breaks=''
edits=[('src/lib.rs', '        } else if let Err(err) = self.sender.try_send(msg) {', '        } else if self.sender.capacity().map(|c| c > 64 && self.sender.len() >= c - 1).unwrap_or(false) {\n            util::log_warning("queue almost full")\n        } else if let Err(err) = self.sender.try_send(msg) {')]
demo=''
