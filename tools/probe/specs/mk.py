import os
def w(id,prop,edits,needs='',breaks='',also='',demo=''):
    open(f'/tmp/prb/s/{id}.py','w').write(f'id={id!r}; prop={prop!r}; also={also!r}\nneeds={needs!r}\nbreaks={breaks!r}\nedits={edits!r}\ndemo={demo!r}\n')
G='src/instruments/gauge/mod.rs'
w('p01-unchanged-not-tracked','C18',[(G,'''                if let Some(ref buckets) = self.tracking {
                    match buckets.try_borrow_mut() {
                        Ok(mut borrowed) => borrowed.current_mut().update(next_value),
                        Err(_err) => crate::util::log_error("borrow mut in gauge::set failed!"),
                    }
                }
                next_value
            } else {''','''                if next_value != value {
                    if let Some(ref buckets) = self.tracking {
                        match buckets.try_borrow_mut() {
                            Ok(mut borrowed) => borrowed.current_mut().update(next_value),
                            Err(_err) => {
                                crate::util::log_error("borrow mut in gauge::set failed!")
                            }
                        }
                    }
                }
                next_value
            } else {''')])
w('p02-display-unit-drops-window','C18',[(G,'''    pub fn set_display_time_unit(&mut self, display_time_unit: TimeUnit) {
''','''    pub fn set_display_time_unit(&mut self, display_time_unit: TimeUnit) {
        // what was recorded in another unit cannot be compared
        if let Some(ref buckets) = self.tracking {
            let n = buckets.borrow().len();
            self.tracking = Some(RefCell::new(SecondsBuckets::new(n)));
        }
''')])
w('p03-long-pause-idx','C18',[('src/instruments/fundamentals/buckets.rs','''        if d >= self.buckets.len() {
            self.current_idx = 0;
            self.buckets
                .iter_mut()
                .for_each(|bucket| *bucket = T::default());
            return;
        }
    }''','''        if d >= self.buckets.len() {
            self.current_idx = 0;
            self.buckets
                .iter_mut()
                .skip(1)
                .for_each(|bucket| *bucket = T::default());
            return;
        }
    }''')])
w('p04-fraction-lost','C18',[('src/instruments/fundamentals/buckets.rs','''        self.current_time += Duration::from_secs(d);
        let d = d as usize;''','''        self.current_time = if d as usize >= self.buckets.len() {
            now
        } else {
            self.current_time + Duration::from_secs(d)
        };
        let d = d as usize;''')])
w('p05-ticks-capped','C19',[('src/instruments/fundamentals/metrics_meter.rs','''        while s.next_tick <= now {
            for ewma in &mut s.ewma {
                ewma.tick();
            }
            s.next_tick += Duration::from_secs(TICK_RATE_SECS);
        }''','''        let mut ticks = 0;
        while s.next_tick <= now {
            // after such a long time nothing is left that could decay
            if ticks < 720 {
                for ewma in &mut s.ewma {
                    ewma.tick();
                }
            }
            ticks += 1;
            s.next_tick += Duration::from_secs(TICK_RATE_SECS);
        }''')])
w('p06-mark-before-tick','C19',[('src/instruments/fundamentals/metrics_meter.rs','''        let mut s = self.data.lock().unwrap();
        self.tick_inner(&mut s);

        s.count = s.count.saturating_add(n);

        for i in 0..WINDOW.len() {
            s.ewma[i].update(n as usize);
        }''','''        let mut s = self.data.lock().unwrap();

        s.count = s.count.saturating_add(n);

        for i in 0..WINDOW.len() {
            s.ewma[i].update(n as usize);
        }
        self.tick_inner(&mut s);''')])
S='src/instruments/switches/staircase_timer.rs'
w('p07-timer-not-prolonged','C21',[(S,'''        self.stay_on = Some((Instant::now(), self.switch_off_after));
        1''','''        if !matches!(self.stay_on, Some((at, d)) if at.elapsed() <= d) {
            self.stay_on = Some((Instant::now(), self.switch_off_after));
        }
        1''')],also='C27')
P='src/processor.rs'
w('p08-config-first','C02',[(P,'''                Ok(TelemetryMessage::AddHandler(h)) => {
                    self.handlers.push(h);
                    processed += 1;
                }''','''                Ok(TelemetryMessage::AddHandler(h)) => {
                    new_handlers.push(h);
                    processed += 1;
                }'''),(P,'''        let decider = strategy.decider();
        while num_received < max {''','''        let decider = strategy.decider();
        let mut new_handlers = Vec::new();
        while num_received < max {'''),(P,'''            num_received += 1;
        }

        let outcome''','''            num_received += 1;
        }
        self.handlers.extend(new_handlers);

        let outcome''')])
w('p09-remove-prefix','C14',[('src/cockpit.rs','''        self.panels
            .retain(|p| p.get_name().map(|n| n != name.as_ref()).unwrap_or(true))''','''        let name = name.as_ref();
        self.panels.retain(|p| {
            p.get_name()
                .map(|n| n.trim_end() != name.trim_end())
                .unwrap_or(true)
        })''')])
w('p10-readd-cockpit-replaces','C14',[(P,'''                Ok(TelemetryMessage::AddCockpit(c)) => {
                    self.add_cockpit(c);''','''                Ok(TelemetryMessage::AddCockpit(c)) => {
                    if let Some(name) = c.get_name() {
                        // the new one takes over
                        let name = name.to_string();
                        self.remove_cockpit(name);
                    }
                    self.add_cockpit(c);''')])
w('p11-strategy-while-paused','C06',[('src/driver.rs','''                    processing_stragtegy = strategy
''','''                    if !paused {
                        processing_stragtegy = strategy
                    }
''')])
w('p12-resume-limits','C06',[('src/driver.rs','''        if paused {
            thread::sleep(Duration::from_millis(50));
            continue;
        }''','''        if paused {
            thread::sleep(Duration::from_millis(50));
            if paused_at.get_or_insert(iteration_started).elapsed() < Duration::from_secs(3600) {
                continue;
            }
            // somebody forgot to resume
            paused = false;
        }
        paused_at = None;'''),('src/driver.rs','''    let mut paused = false;

    loop {''','''    let mut paused = false;
    let mut paused_at: Option<Instant> = None;

    loop {''')])
w('p13-queue-guard','C01',[('src/lib.rs','''impl<L> TransmitsTelemetryData<L> for TelemetryTransmitter<L>''','''impl<L> TransmitsTelemetryData<L> for TelemetryTransmitter<L>'''),('src/lib.rs','''        if self.use_send {''','''        if self.sender.capacity().is_none() && self.sender.len() > 100_000 {
            // nobody seems to process anything
            return self;
        }
        if self.use_send {''')],also='C07 C08')
w('p14-dropped-wakes','C16',[(P,'''        if outcome.something_happened() {
            self.last_activity_at = Instant::now();''','''        if outcome.processed > 0 {
            self.last_activity_at = Instant::now();''')])
w('p15-mount-activity','C16',[(P,'''    fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        util::put_default_descriptives(self, into, descriptive);

        if let Some(d) = self.max_inactivity_duration {
            let is_inactive = self.last_activity_at.elapsed() > d;
            if self.show_activity_state {
                into.items
                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
                into.items
                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
            }
            if is_inactive {
                return;
            }
        };

        self.cockpits''','''    fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        util::put_default_descriptives(self, into, descriptive);

        if let Some(d) = self.max_inactivity_duration {
            // what is still waiting is activity, too
            let is_inactive = self.receiver.is_empty() && self.last_activity_at.elapsed() > d;
            if self.show_activity_state {
                into.items
                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
                into.items
                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
            }
            if is_inactive {
                return;
            }
        };

        self.cockpits''')])
