id='r10-first-drop-only'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '            self.dropped_observations_alarm\n                .update(&Update::Observation(now));', '            if outcome.processed == 0 || outcome.dropped > 1 {\n                self.dropped_observations_alarm\n                    .update(&Update::Observation(now));\n            }')]
demo=''
