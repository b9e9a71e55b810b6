id='r21-cockpit-active-if-updated'; prop='C16'; also=''
needs=''
breaks=''
edits=[('src/cockpit.rs', '        instruments_updated\n    }', '        if instruments_updated == 0 {\n            self.last_activity_at = before;\n        }\n        instruments_updated\n    }'), ('src/cockpit.rs', '        self.last_activity_at = Instant::now();\n\n        let mut instruments_updated', '        let before = std::mem::replace(&mut self.last_activity_at, Instant::now());\n\n        let mut instruments_updated')]
demo=''
