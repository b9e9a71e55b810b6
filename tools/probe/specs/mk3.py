exec(open('/tmp/prb/s/mk.py').read().split("G='src")[0])
G='src/instruments/gauge/mod.rs'; P='src/processor.rs'; D='src/driver.rs'; L='src/lib.rs'; CK='src/cockpit.rs'; PN='src/instruments/panel.rs'; AM='src/attached_mount.rs'; OB='src/observation.rs'; SN='src/snapshot.rs'; LF='src/instruments/label_filter.rs'; TR='src/instruments/gauge/tracking.rs'; IM='src/instruments/mod.rs'; DI='src/instruments/other_instruments/display.rs'; LO='src/instruments/other_instruments/last_occurrence_tracker.rs'; H='src/instruments/histogram.rs'
w('p31-round-half','C26',[(OB,'''                let v = v.round();
                if v >= std::i64::MIN as f64''','''                let v = (v.abs() + 0.5).floor() * v.signum();
                if v >= std::i64::MIN as f64''')])
w('p32-millis-wrap','C26',[(OB,'''                let millis =
                    d.0.as_secs()
                        .saturating_mul(1_000)
                        .saturating_add(d.0.subsec_nanos() as u64 / 1_000_000);''','''                let millis = d.0.as_millis() as u64;''')],also='C23 C28')
w('p33-trim-path','C25',[(SN,'''path.split(separator).filter(|x| !x.is_empty()).collect();''','''path
            .split(separator)
            .map(|x| x.trim_start())
            .filter(|x| !x.is_empty())
            .collect();''')])
w('p37-rounded-seconds','C22',[(LO,'''            .map(|last| (Instant::now() - last).as_secs())''','''            .map(|last| (Instant::now() - last).as_secs_f64().round() as u64)''')])
w('p39-many-limit','C12',[(LF,'''                many.push(label);
                LabelFilterInternal::Many(many)''','''                // nobody can have that many, they must be the same
                if many.len() < 1_000 || !many[1_000 - 6..].contains(&label) {
                    if many.len() == 4_096 {
                        many.remove(0);
                    }
                    many.push(label);
                }
                LabelFilterInternal::Many(many)''')])
w('p40-count-one','C11',[(IM,'''            } => BorrowedLabelAndUpdate(label, Update::Observations(*count, *timestamp)),''','''            } if *count == 1 => BorrowedLabelAndUpdate(label, Update::Observation(*timestamp)),
            Observation::Observed {
                label,
                count,
                timestamp,
                ..
            } => BorrowedLabelAndUpdate(label, Update::Observations(*count, *timestamp)),''')])
w('p41-measured-from','C28',[(L,'''            self.observed_duration(label, now - from, now);
        }''','''            self.observed_duration(label, now - from, from);
        }''')],also='C13')
w('p42-equal-instant','C28',[(L,'''        if from <= now {
            self.observed_duration(label, now - from, now);
        }''','''        if from < now {
            self.observed_duration(label, now - from, now);
        }''')])
w('p56-window-u8','C18',[(TR,'''        let mut num_records = 0;
''','''        let mut num_records = 0u8;
'''),(TR,'''                    num_records += 1;
''','''                    num_records = num_records.wrapping_add(1);
''')])
w('p57-count-u16','C18',[(TR,'''        self.sum += i128::from(v);
        self.count += 1;''','''        self.sum += i128::from(v);
        self.count = u64::from((self.count as u16).wrapping_add(1));''')])
w('p58-sum-i64','C18',[(TR,'''    pub sum: i128,''','''    pub sum: i64,'''),(TR,'''        self.sum += i128::from(v);''','''        self.sum = self.sum.saturating_add(v);'''),(TR,'''                    total_sum += sum;''','''                    total_sum += i128::from(*sum);''')])
w('p63-limit-add','C23',[(P,'''            let is_inactive = self.last_activity_at.elapsed() > d;
            if self.show_activity_state {''','''            let is_inactive = self.last_activity_at + d < Instant::now();
            if self.show_activity_state {''')],also='C16')
w('p64-panel-limit-add','C23',[(PN,'''.elapsed() > d''','''.checked_add(d).expect("limit") < Instant::now()''')],also='C16')
w('p65-float-display','C24',[(SN,'''            ItemKind::Float(v) => v.into(),
            ItemKind::UInt''','''            ItemKind::Float(v) if v.abs() < 1e-12 => 0.into(),
            ItemKind::Float(v) => v.into(),
            ItemKind::UInt''')])
w('p66-u64-as-float','C24',[(SN,'''            ItemKind::UInt(v) => v.into(),
            // ''','''            ItemKind::UInt(v) => (v as f64).into(),
            // ''')])
w('p67-histogram-reset-value','C22',[(DI,'''            if displayed_since.elapsed() <= stay_on_for {
                self.value.clone()
            } else {
                self.reset_value.clone()
            }''','''            if displayed_since.elapsed() <= stay_on_for {
                self.value.clone()
            } else {
                self.reset_value.clone().or_else(|| match self.value {
                    // nothing was observed
                    Some(crate::snapshot::ItemKind::Boolean(_)) => Some(false.into()),
                    _ => None,
                })
            }''')])
w('p68-histo-clamp','C20',[(H,'''                if let Some(v) = v.convert_to_i64() {
                    self.inner_histogram.update(v);''','''                if let Some(v) = v.convert_to_i64() {
                    // statistics are made of floating point numbers
                    self.inner_histogram
                        .update(v.max(-(1 << 53)).min(1 << 53));''')])
w('p69-title-only-top','C15',[('src/util.rs','''        let description_not_already_there = into
            .items
            .iter()
            .find(|&&(ref n, _)| n == description_field_label)
            .is_none();''','''        let description_not_already_there = into
            .items
            .iter()
            .find(|&&(ref n, _)| n == description_field_label || n == title_field_label)
            .map(|(n, _)| n == title_field_label && what.title().is_some())
            .unwrap_or(true);''')])
w('p70-handlers-stop','C11',[(P,'''                        self.handlers
                            .iter_mut()
                            .for_each(|h| instruments_updated += h.handle_observation(&obs));''','''                        for h in self.handlers.iter_mut() {
                            instruments_updated += h.handle_observation(&obs);
                            if instruments_updated >= 100_000 {
                                // enough for one collection
                                break;
                            }
                        }''')],also='C01 C08')
