id='p04-fraction-lost'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/fundamentals/buckets.rs', '        self.current_time += Duration::from_secs(d);\n        let d = d as usize;', '        self.current_time = if d as usize >= self.buckets.len() {\n            now\n        } else {\n            self.current_time + Duration::from_secs(d)\n        };\n        let d = d as usize;')]
demo=''
