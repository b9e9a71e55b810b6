id='p37-rounded-seconds'; prop='C22'; also=''
needs=''
breaks=''
edits=[('src/instruments/other_instruments/last_occurrence_tracker.rs', '            .map(|last| (Instant::now() - last).as_secs())', '            .map(|last| (Instant::now() - last).as_secs_f64().round() as u64)')]
demo=''
