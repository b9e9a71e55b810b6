id='p07-timer-not-prolonged'; prop='C21'; also='C27'
needs=''
breaks=''
edits=[('src/instruments/switches/staircase_timer.rs', '        self.stay_on = Some((Instant::now(), self.switch_off_after));\n        1', '        if !matches!(self.stay_on, Some((at, d)) if at.elapsed() <= d) {\n            self.stay_on = Some((Instant::now(), self.switch_off_after));\n        }\n        1')]
demo=''
