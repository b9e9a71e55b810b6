id='r35-queue-full-early'; prop='C07'; also=''
needs=''
breaks=''
edits=[('src/lib.rs', '        self.sender.is_full()', '        match self.sender.capacity() {\n            Some(cap) => self.sender.len() + cap / 128 >= cap,\n            None => false,\n        }')]
demo=''
