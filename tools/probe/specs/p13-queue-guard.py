id='p13-queue-guard'; prop='C01'; also='C07 C08'
needs=''
breaks=''
edits=[('src/lib.rs', '        if self.use_send {\n            if let Err', '        if self.sender.capacity().is_none() && self.sender.len() > 100_000 {\n            // nobody seems to process anything\n            return self;\n        }\n        if self.use_send {\n            if let Err')]
demo=''
