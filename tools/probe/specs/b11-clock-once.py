id='b11-clock-once'; prop='C16'; also='C20 C22 C21'
needs=''
breaks=''
edits=[('src/instruments/panel.rs', '.elapsed() > d', '.elapsed().as_nanos() > d.as_nanos()'), ('src/instruments/histogram.rs', '            .map(|max_inactivity_duration| self.last_update.elapsed() <= max_inactivity_duration)\n            .unwrap_or(true);', '            .map_or(true, |limit| {\n                let now = Instant::now();\n                now.duration_since(self.last_update) <= limit\n            });')]
demo=''
