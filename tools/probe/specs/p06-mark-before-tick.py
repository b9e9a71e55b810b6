id='p06-mark-before-tick'; prop='C19'; also=''
needs=''
breaks=''
edits=[('src/instruments/fundamentals/metrics_meter.rs', '        let mut s = self.data.lock().unwrap();\n        self.tick_inner(&mut s);\n\n        s.count = s.count.saturating_add(n);\n\n        for i in 0..WINDOW.len() {\n            s.ewma[i].update(n as usize);\n        }', '        let mut s = self.data.lock().unwrap();\n\n        s.count = s.count.saturating_add(n);\n\n        for i in 0..WINDOW.len() {\n            s.ewma[i].update(n as usize);\n        }\n        self.tick_inner(&mut s);')]
demo=''
