id='p15-mount-activity'; prop='C16'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '            let is_inactive = self.last_activity_at.elapsed() > d;\n            if self.show_activity_state {', '            // what is still waiting is activity, too\n            let is_inactive = self.receiver.is_empty() && self.last_activity_at.elapsed() > d;\n            if self.show_activity_state {')]
demo=''
