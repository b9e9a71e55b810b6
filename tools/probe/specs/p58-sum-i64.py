id='p58-sum-i64'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/gauge/tracking.rs', '    pub sum: i128,', '    pub sum: i64,'), ('src/instruments/gauge/tracking.rs', '        self.sum += i128::from(v);', '        self.sum = self.sum.saturating_add(v);'), ('src/instruments/gauge/tracking.rs', '                    total_sum += sum;', '                    total_sum += i128::from(*sum);')]
demo=''
