exec(open('/tmp/prb/s/mk.py').read().split("G='src")[0])
G='src/instruments/gauge/mod.rs'; P='src/processor.rs'; D='src/driver.rs'; L='src/lib.rs'; CK='src/cockpit.rs'; PN='src/instruments/panel.rs'; AM='src/attached_mount.rs'
w('p02-display-unit-drops-window','C18',[(G,'''    pub fn set_display_time_unit(&mut self, display_time_unit: TimeUnit) {
''','''    pub fn set_display_time_unit(&mut self, display_time_unit: TimeUnit) {
        // what was recorded in another unit cannot be compared
        if let Some(ref buckets) = self.tracking {
            let n = buckets.borrow().len();
            self.tracking = Some(RefCell::new(SecondsBuckets::new(n)));
        }
''')])
w('p09-remove-prefix','C14',[(CK,'''            .retain(|p| p.name().map(|n| n != name.as_ref()).unwrap_or(true))''','''            .retain(|p| {
                p.name()
                    .map(|n| n.trim_end() != name.as_ref().trim_end())
                    .unwrap_or(true)
            })''')])
w('p13-queue-guard','C01',[(L,'''        if self.use_send {
            if let Err''','''        if self.sender.capacity().is_none() && self.sender.len() > 100_000 {
            // nobody seems to process anything
            return self;
        }
        if self.use_send {
            if let Err''')],also='C07 C08')
w('p14-dropped-wakes','C16',[(P,'''            observations_enqueued: self.receiver.len(),
        };

        if outcome.something_happened() {''','''            observations_enqueued: self.receiver.len(),
        };

        if outcome.processed > 0 {''')])
w('p15-mount-activity','C16',[(P,'''            let is_inactive = self.last_activity_at.elapsed() > d;
            if self.show_activity_state {''','''            // what is still waiting is activity, too
            let is_inactive = self.receiver.is_empty() && self.last_activity_at.elapsed() > d;
            if self.show_activity_state {''')])
w('p16-nested-inner-limit','C16',[(P,'''        for processor in self.processors.iter_mut() {
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome.something_happened() {''','''        for processor in self.processors.iter_mut() {
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome.instruments_updated > 0 || outcome.dropped > 0 {''')])
w('p17-attached-limit-per-run','C10',[(AM,'''            let still_connected = loop {
                match the_receiver.try_recv() {''','''            let mut added = 0;
            let still_connected = loop {
                added += 1;
                if added > 64 {
                    // keep the collection responsive
                    break true;
                }
                match the_receiver.try_recv() {''')],also='C03')
w('p18-attached-receiver-lost','C10',[(AM,'''                    Err(TryRecvError::Disconnected) => break false,
                }
            };

            if still_connected {''','''                    Err(TryRecvError::Disconnected) => break false,
                }
            };

            // without anything mounted nobody will come back
            if still_connected || self.inner.processors().is_empty() {''')],also='C05 C09')
w('p19-snapshot-early-drain','C10',[(AM,'''        self.inner.process(max, strategy)
    }
}''','''        if max == 0 {
            return ProcessingOutcome::default();
        }
        self.inner.process(max, strategy)
    }
}''')],also='C08')
w('p20-remove-panel-frees-unnamed','C14',[(P,'''                        .find(|c| c.get_name() == Some(&cockpit_name))
                    {
                        cockpit.remove_panel(panel_name);''','''                        .rfind(|c| c.get_name().unwrap_or("") == cockpit_name)
                    {
                        cockpit.remove_panel(panel_name);''')])
w('p21-busy-strategy','C13',[(D,'''        let outcome = do_a_run(&mut processors, 1_000, processing_stragtegy);''','''        let max = if let ProcessingStrategy::DropAll = processing_stragtegy {
            usize::MAX
        } else {
            1_000
        };
        let outcome = do_a_run(&mut processors, max, processing_stragtegy);''')],also='C27 C08 C06 C04')
w('p22-fair-share','C08',[(P,'''        for processor in self.processors.iter_mut() {
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome''','''        for processor in self.processors.iter_mut() {
            // a single one must not take all the time
            let max = if outcome.processed >= max {
                (max / 2).max(1)
            } else {
                max
            };
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome''')])
w('p23-alarm-on-first','C27',[(D,'''            self.dropped_observations_alarm
                .update(&Update::Observation(now));''','''            self.dropped_observations_alarm.update(&Update::Observations(
                outcome.dropped as u64,
                collection_started,
            ));''')])
w('p24-inactivity-only-busy','C27',[(D,'''        self.inactivity_alarm.update(&Update::Observation(now));''','''        if outcome.something_happened() || outcome.observations_enqueued == 0 {
            self.inactivity_alarm.update(&Update::Observation(now));
        }''')])
w('p25-ratio-whole','C27',[(D,'''        let per_mille = (ratio * 1_000f64) as u64;''','''        let per_mille = ((ratio * 100f64).round() * 10f64) as u64;''')])
w('p26-snapshot-time-after','C27',[(D,'''        driver_metrics.update_post_snapshot(started);
        driver_metrics.put_snapshot(into, descriptive);''','''        driver_metrics.put_snapshot(into, descriptive);
        driver_metrics.update_post_snapshot(started);''')])
w('p27-metrics-without-name','C27',[(D,'''    let mut paused = false;

    loop {''','''    let mut paused = false;
    if descriptives.name.is_none() {
        // nobody could tell whose they are
        driver_metrics = None;
    }

    loop {''')],also='C15')
w('p28-paused-nested','C06',[(D,'''                    let _ = back_channel.send(snapshot);
                }
                DriverMessage::SetProcessingStrategy(strategy) => {''','''                    if back_channel.send(snapshot).is_err() {
                        // the one who asked is gone and will not resume
                        paused = false;
                    }
                }
                DriverMessage::SetProcessingStrategy(strategy) => {''')])
w('p29-add-processor-runs','C06',[(D,'''                DriverMessage::AddProcessor(processor) => processors.push(processor),''','''                DriverMessage::AddProcessor(mut processor) => {
                    // so that it does not start with a backlog
                    processor.process(1_000, processing_stragtegy);
                    processors.push(processor)
                }''')],also='C27 C13')
w('p30-gone-processors','C09',[(P,'''        for processor in self.processors.iter_mut() {
            outcome.combine_with(&processor.process(max, strategy));
        }

        if outcome''','''        for processor in self.processors.iter_mut() {
            let o = processor.process(max, strategy);
            outcome.combine_with(&o);
            if o.processed == max {
                // come back soon instead of working on what is less urgent
                break;
            }
        }

        if outcome''')],also='C08 C01')
