id='p23-alarm-on-first'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '            self.dropped_observations_alarm\n                .update(&Update::Observation(now));', '            self.dropped_observations_alarm.update(&Update::Observations(\n                outcome.dropped as u64,\n                collection_started,\n            ));')]
demo=''
