id='p14-dropped-wakes'; prop='C16'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '            observations_enqueued: self.receiver.len(),\n        };\n\n        if outcome.something_happened() {', '            observations_enqueued: self.receiver.len(),\n        };\n\n        if outcome.processed > 0 {')]
demo=''
