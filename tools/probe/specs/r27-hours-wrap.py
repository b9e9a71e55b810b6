id='r27-hours-wrap'; prop='C22'; also=''
needs=''
breaks=''
edits=[('src/instruments/other_instruments/last_occurrence_tracker.rs', '            .map(|last| (Instant::now() - last).as_secs())', '            .map(|last| u64::from((Instant::now() - last).as_millis() as u32) / 1_000)')]
demo=''
