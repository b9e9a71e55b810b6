id='p24-inactivity-only-busy'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '        self.inactivity_alarm.update(&Update::Observation(now));', '        if outcome.something_happened() || outcome.observations_enqueued == 0 {\n            self.inactivity_alarm.update(&Update::Observation(now));\n        }')]
demo=''
