S=[]
def s(id,prop,*edits,also=''):
    open(f'/tmp/prb/s/{id}.py','w').write(f"id={id!r}; prop={prop!r}; also={also!r}\nneeds=''\nbreaks=''\nedits={list(edits)!r}\ndemo=''\n")
D='src/driver.rs'
# snapshots served from a cache for a moment
s('r01-cached-snapshot','C03',
 (D,'''    let mut paused = false;

    loop {''','''    let mut paused = false;
    let mut cached: Option<(Instant, bool, Snapshot)> = None;

    loop {'''),
 (D,'''                DriverMessage::GetSnapshotSync(mut snapshot, back_channel, descriptive) => {
                    put_values_into_snapshot(
                        &mut snapshot,
                        &processors,
                        &snapshooters,
                        driver_metrics.as_mut(),
                        &descriptives,
                        descriptive,
                    );
                    let _ = back_channel.send(snapshot);''','''                DriverMessage::GetSnapshotSync(mut snapshot, back_channel, descriptive) => {
                    match cached {
                        Some((at, d, ref s))
                            if d == descriptive && at.elapsed() < Duration::from_millis(5) =>
                        {
                            snapshot = s.clone()
                        }
                        _ => {
                            put_values_into_snapshot(
                                &mut snapshot,
                                &processors,
                                &snapshooters,
                                driver_metrics.as_mut(),
                                &descriptives,
                                descriptive,
                            );
                            cached = Some((Instant::now(), descriptive, snapshot.clone()));
                        }
                    }
                    let _ = back_channel.send(snapshot);'''),also='C27')
# polled values kept for a second
s('r02-busy-no-messages','C04',
 (D,'''    let mut paused = false;

    loop {''','''    let mut paused = false;
    let mut busy = 0usize;

    loop {'''),
 (D,'''        match receiver.try_recv() {
            Ok(message)''','''        // work off a backlog first
        let message = if busy > 0 && !receiver.is_full() {
            Err(TryRecvError::Empty)
        } else {
            receiver.try_recv()
        };
        match message {
            Ok(message)'''),
 (D,'''        if outcome.dropped > 0 || outcome.processed > 100 {
            continue;''','''        busy = 0;
        if outcome.dropped > 0 || outcome.processed > 100 {
            busy = 1;
            continue;'''),also='C06 C05')
s('r03-send-timeout','C07',
 ('src/lib.rs','if let Err(err) = self.sender.send(msg) {','if let Err(err) = self.sender.send_timeout(msg, Duration::from_secs(60)) {'),also='C01')
s('r04-metrics-after-continue','C27',
 (D,'''        if let Some(ref mut driver_metrics) = driver_metrics {
            driver_metrics.update_post_collection(&outcome, run_started);
        }

        if outcome.dropped > 0 || outcome.processed > 100 {
            continue;
        }
''','''        if outcome.processed >= 10_000 {
            continue;
        }

        if let Some(ref mut driver_metrics) = driver_metrics {
            driver_metrics.update_post_collection(&outcome, run_started);
        }

        if outcome.dropped > 0 || outcome.processed > 100 {
            continue;
        }
'''))
s('r05-additions-on-resume','C06',
 (D,'''    let mut paused = false;

    loop {''','''    let mut paused = false;
    let mut waiting = Vec::new();

    loop {'''),
 (D,'''                DriverMessage::AddProcessor(processor) => processors.push(processor),''','''                DriverMessage::AddProcessor(processor) => {
                    if paused {
                        waiting.push(processor)
                    } else {
                        processors.push(processor)
                    }
                }'''),
 (D,'''                        util::log_info("resuming");
                        false''','''                        util::log_info("resuming");
                        processors.append(&mut waiting);
                        false'''),also='C03')
s('r06-strategy-when-idle','C06',
 (D,'''                    processing_stragtegy = strategy
                }''','''                    next_strategy = Some(strategy)
                }'''),
 (D,'''    let mut paused = false;

    loop {''','''    let mut paused = false;
    let mut next_strategy = None;

    loop {'''),
 (D,'''        let finished = Instant::now();
        let elapsed''','''        // change it between two rounds of work
        if let Some(strategy) = next_strategy.take() {
            processing_stragtegy = strategy;
        }

        let finished = Instant::now();
        let elapsed'''),also='C13')
s('r07-pause-twice-resume-twice','C06',
 (D,'''                    util::log_info("pausing");
                    paused = true''','''                    util::log_info("pausing");
                    pauses += 1;
                    paused = true'''),
 (D,'''                    paused = {
                        util::log_info("resuming");
                        false
                    }''','''                    paused = {
                        util::log_info("resuming");
                        pauses -= i32::from(pauses > 0);
                        pauses > 0
                    }'''),
 (D,'''    let mut paused = false;

    loop {''','''    let mut paused = false;
    let mut pauses = 0i32;

    loop {'''))
s('r08-nested-async','C03',
 (D,'''        if let Ok(snapshot) = self.snapshot(descriptive) {
            snapshot
                .items
                .into_iter()
                .for_each(|(k, v)| into.push(k, v));
        }''','''        if let Ok(snapshot) = self.snapshot(descriptive) {
            for (k, v) in snapshot.items {
                if into.items.iter().all(|(n, _)| *n != k) {
                    into.push(k, v)
                }
            }
        }'''),also='C15')
s('r09-gone-request-counts','C27',
 (D,'''                DriverMessage::GetSnapshotAsync(mut snapshot, back_channel, descriptive) => {
                    put_values''','''                DriverMessage::GetSnapshotAsync(..) if paused && !is_running.load(Ordering::SeqCst) => {}
                DriverMessage::GetSnapshotAsync(mut snapshot, back_channel, descriptive) => {
                    put_values'''))
s('r10-first-drop-only','C27',
 (D,'''            self.dropped_observations_alarm
                .update(&Update::Observation(now));''','''            if outcome.processed == 0 || outcome.dropped > 1 {
                self.dropped_observations_alarm
                    .update(&Update::Observation(now));
            }'''))
P='src/processor.rs'
s('r11-outcome-max','C08',
 (P,'''        self.instruments_updated += other.instruments_updated;''','''        self.instruments_updated = self
            .instruments_updated
            .saturating_add(other.instruments_updated)
            .min(1 << 32);'''))
s('r12-deltas-of-zero','C13',
 ('src/observation.rs','''ObservedValue::ChangedBy(_)''','''ObservedValue::ChangedBy(1..=i64::MAX)'''))
s('r13-future-dropped','C13',
 (P,'''                if observation.timestamp() >= *drop_if_older_than {''','''                // clocks that are ahead by hours cannot be trusted
                if observation.timestamp() >= *drop_if_older_than
                    && observation.timestamp() < *drop_if_older_than + Duration::from_secs(86_400)
                {'''),also='C23')
A='src/attached_mount.rs'
s('r14-batch-reversed','C10',
 (A,'''            let still_connected = loop {
                match the_receiver.try_recv() {
                    Ok(ScopedMountMessage::Processor(p)) => {
                        self.inner.add_processor_dyn(p);
                    }''','''            let mut arrived = Vec::new();
            let still_connected = loop {
                match the_receiver.try_recv() {
                    Ok(ScopedMountMessage::Processor(p)) => {
                        arrived.push(p);
                    }'''),
 (A,'''            if still_connected {''','''            while let Some(p) = arrived.pop() {
                self.inner.add_processor_dyn(p);
            }

            if still_connected {'''))
s('r20-ignore-case','C14',('src/cockpit.rs','''                .any(|p| p.name().map(|n| n == name).unwrap_or(false))''','''                .any(|p| p.name().map(|n| n.eq_ignore_ascii_case(name)).unwrap_or(false))'''))
s('r21-cockpit-active-if-updated','C16',('src/cockpit.rs','''        instruments_updated
    }''','''        if instruments_updated == 0 {
            self.last_activity_at = before;
        }
        instruments_updated
    }'''),('src/cockpit.rs','''        self.last_activity_at = Instant::now();

        let mut instruments_updated''','''        let before = std::mem::replace(&mut self.last_activity_at, Instant::now());

        let mut instruments_updated'''))
s('r27-hours-wrap','C22',('src/instruments/other_instruments/last_occurrence_tracker.rs','''            .map(|last| (Instant::now() - last).as_secs())''','''            .map(|last| u64::from((Instant::now() - last).as_millis() as u32) / 1_000)'''))
s('r28-depth-limit','C24',('src/snapshot.rs','''            ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),''','''            ItemKind::Snapshot(ref snapshot) => {
                let mut depth = 0;
                let mut at = snapshot;
                while let Some((_, ItemKind::Snapshot(s))) = at.items.first() {
                    depth += 1;
                    at = s;
                }
                if depth > 60 {
                    return JsonValue::Null;
                }
                snapshot.to_json_value(config)
            }'''))
s('r29-long-text','C24',('src/snapshot.rs','''            ItemKind::Text(ref v) => v.clone().into(),''','''            ItemKind::Text(ref v) => v.chars().take(4_096).collect::<String>().into(),'''))
s('r30-many-items','C25',('src/snapshot.rs','''                .find(|&&(ref name, _)| name == path[0].as_ref())''','''                .take(1 << 12)
                .find(|&&(ref name, _)| name == path[0].as_ref())'''))
s('r33-bounded-max','C07',(P,'''            channel::bounded(bound)''','''            channel::bounded(bound.min(4_096))'''),also='C01')
s('r34-bounded-zero','C07',(P,'''            channel::bounded(bound)''','''            channel::bounded(bound.max(1))'''),also='')
s('r35-queue-full-early','C07',('src/lib.rs','''        self.sender.is_full()''','''        match self.sender.capacity() {
            Some(cap) => self.sender.len() + cap / 128 >= cap,
            None => false,
        }'''))
s('r36-drop-newest-under-load','C01',('src/lib.rs','''        } else if let Err(err) = self.sender.try_send(msg) {''','''        } else if self.sender.capacity().map(|c| c > 64 && self.sender.len() >= c - 1).unwrap_or(false) {
            util::log_warning("queue almost full")
        } else if let Err(err) = self.sender.try_send(msg) {'''),also='C07')
s('r37-panel-limit-children','C16',('src/instruments/panel.rs','''        if !self.label_filter.accepts(observation.label()) {
            return 0;
        }

        self.last_update = Instant::now();
''','''        if !self.label_filter.accepts(observation.label()) {
            return 0;
        }

        if self.panels.len() < 3 {
            self.last_update = Instant::now();
        }
'''))
s('r38-default-strategy','C13',(P,'''            max_age: Duration::from_secs(30),''','''            max_age: Duration::from_secs(60),'''))
s('r39-long-names','C15',('src/instruments/counter.rs','''into.items.push((self.name.clone(), self.count.into()));''','''into.items
            .push((self.name.chars().take(255).collect(), self.count.into()));'''))
s('r40-descr-empty','C15',('src/util.rs','''    if let Some(title) = what.title() {
        let label''','''    if let Some(title) = what.title().filter(|t| !t.is_empty()) {
        let label'''))
# not changing anything that is specified
s('b16-decider-per-message','C13',(P,'''        let decider = strategy.decider();
        while''','''        while'''),(P,'''                    if decider.should_be_processed(&obs) {''','''                    if strategy.decider().should_be_processed(&obs) {'''),also='C06 C23 C08')
s('b17-snapshot-timeout','C04',(D,'''        rx.recv().map_err(|_err| GetSnapshotError)''','''        rx.recv_timeout(Duration::from_secs(3_600))
            .map_err(|_err| GetSnapshotError)'''),also='C03 C05 C06')
s('b18-min-queued','C08',(P,'''        while num_received < max {''','''        let queued = self.receiver.len();
        let max = if queued == 0 { max.min(1) } else { max.min(queued) };
        while num_received < max {'''),also='C01 C02 C09 C07')
