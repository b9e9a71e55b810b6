id='r03-send-timeout'; prop='C07'; also='C01'
needs=''
breaks=''
edits=[('src/lib.rs', 'if let Err(err) = self.sender.send(msg) {', 'if let Err(err) = self.sender.send_timeout(msg, Duration::from_secs(60)) {')]
demo=''
