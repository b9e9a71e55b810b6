id='p63-limit-add'; prop='C23'; also='C16'
needs=''
breaks=''
edits=[('src/processor.rs', '            let is_inactive = self.last_activity_at.elapsed() > d;\n            if self.show_activity_state {', '            let is_inactive = self.last_activity_at + d < Instant::now();\n            if self.show_activity_state {')]
demo=''
