id='b18-min-queued'; prop='C08'; also='C01 C02 C09 C07'
needs=''
breaks=''
edits=[('src/processor.rs', '        while num_received < max {', '        let queued = self.receiver.len();\n        let max = if queued == 0 { max.min(1) } else { max.min(queued) };\n        while num_received < max {')]
demo=''
