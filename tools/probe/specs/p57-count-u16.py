id='p57-count-u16'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/gauge/tracking.rs', '        self.sum += i128::from(v);\n        self.count += 1;', '        self.sum += i128::from(v);\n        self.count = u64::from((self.count as u16).wrapping_add(1));')]
demo=''
