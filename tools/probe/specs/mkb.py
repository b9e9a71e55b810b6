import re
G=open('/repo/src/instruments/gauge/mod.rs').read()
print(re.findall(r'.*borrow_mut.*',G))
i=G.index('    pub fn set(&mut self, observed'); j=G.index('impl Instrument for Gauge'); MG=[('src/instruments/gauge/mod.rs',G[i:j],G[i:j].replace('try_borrow_mut','try_lock'))]
def w(id, prop, edits):
    open(f'/tmp/prb/s/{id}.py','w').write(f"id={id!r}; prop={prop.split()[0]!r}; also={' '.join(prop.split()[1:])!r}\nneeds=''\nbreaks=''\nedits={edits!r}\ndemo=''\n")
DRV='C04 C06 C05 C27 C03 C01 C09 C10 C15'
w('b01-park', DRV, [('src/driver.rs','            thread::sleep(Duration::from_millis(10) - elapsed);','            thread::park_timeout(Duration::from_millis(10) - elapsed);')])
w('b02-weak', DRV, [
 ('src/driver.rs','    let is_running: Arc<AtomicBool>,' ,'') ] if False else [
 ('src/driver.rs','struct DropGuard {\n    pub is_running: Arc<AtomicBool>,\n}\n\nimpl Drop for DropGuard {\n    fn drop(&mut self) {\n        self.is_running.store(false, Ordering::Relaxed);\n    }\n}\n','struct DropGuard {\n    is_running: AtomicBool,\n}\n'),
 ('src/driver.rs','        let is_running = Arc::new(AtomicBool::new(true));\n','        let drop_guard = Arc::new(DropGuard {\n            is_running: AtomicBool::new(true),\n        });\n        let is_running = Arc::downgrade(&drop_guard);\n'),
 ('src/driver.rs','            drop_guard: Arc::new(DropGuard {\n                is_running: is_running.clone(),\n            }),\n','            drop_guard,\n'),
 ('src/driver.rs','    is_running: Arc<AtomicBool>,\n    processing_strategy: ProcessingStrategy,\n    driver_metrics: Option<DriverMetrics>,\n    receiver: CrossbeamReceiver<DriverMessage>,\n) {\n    let builder','    is_running: std::sync::Weak<DropGuard>,\n    processing_strategy: ProcessingStrategy,\n    driver_metrics: Option<DriverMetrics>,\n    receiver: CrossbeamReceiver<DriverMessage>,\n) {\n    let builder'),
 ('src/driver.rs','    is_running: &AtomicBool,\n','    is_running: &std::sync::Weak<DropGuard>,\n'),
 ('src/driver.rs','        if !is_running.load(Ordering::Relaxed) {\n            break;\n        }','        match is_running.upgrade() {\n            Some(guard) if guard.is_running.load(Ordering::Relaxed) => {}\n            _ => break,\n        }'),
])
w('b03-bounded1', DRV, [('src/driver.rs','        let (tx, rx) = crossbeam_channel::unbounded();\n        let _ = self\n            .sender','        let (tx, rx) = crossbeam_channel::bounded(1);\n        let _ = self\n            .sender')])
w('b04-handle-fn', 'C08 C13 C07 C01 C02', [
 ('src/processor.rs','                        self.cockpits\n                            .iter_mut()\n                            .for_each(|c| instruments_updated += c.handle_observation(&obs));\n                        self.handlers\n                            .iter_mut()\n                            .for_each(|h| instruments_updated += h.handle_observation(&obs));\n','                        let by_cockpits: usize = self\n                            .cockpits\n                            .iter_mut()\n                            .map(|c| c.handle_observation(&obs))\n                            .sum();\n                        let by_handlers: usize = self\n                            .handlers\n                            .iter_mut()\n                            .map(|h| h.handle_observation(&obs))\n                            .sum();\n                        instruments_updated += by_cockpits + by_handlers;\n'),
 ('src/processor.rs','        while num_received < max {\n            match self','        loop {\n            if num_received >= max {\n                break;\n            }\n            match self')])
w('b05-mutex-gauge', 'C18 C17 C15 C23 C27', [
 ('src/instruments/gauge/mod.rs','use std::cell::RefCell;','use std::sync::Mutex;'),
 ('src/instruments/gauge/mod.rs','Option<RefCell<SecondsBuckets<Bucket>>>','Option<Mutex<SecondsBuckets<Bucket>>>'),
 ('src/instruments/gauge/mod.rs','Some(RefCell::new(SecondsBuckets::new(for_seconds)))','Some(Mutex::new(SecondsBuckets::new(for_seconds)))'),
]+MG)
w('b06-buckets-offset', 'C18 C27', [('src/instruments/fundamentals/buckets.rs','        if d == 1 {\n            self.current_idx = self.idx(self.current_idx + 1);\n            self.buckets[self.current_idx] = T::default();\n            return;\n        }\n\n        if d < self.buckets.len() {\n            for _ in 0..d {\n                self.current_idx = self.idx(self.current_idx + 1);\n                self.buckets[self.current_idx] = T::default();\n            }\n            return;\n        }\n\n        if d >= self.buckets.len() {\n            self.current_idx = 0;\n            self.buckets\n                .iter_mut()\n                .for_each(|bucket| *bucket = T::default());\n            return;\n        }','        let steps = std::cmp::min(d, self.buckets.len());\n        for _ in 0..steps {\n            self.current_idx = self.idx(self.current_idx + 1);\n            self.buckets[self.current_idx] = T::default();\n        }')])
w('b07-json-insert', 'C24 C15', [('src/snapshot.rs','        self.items\n            .iter()\n            .for_each(|&(ref k, ref v)| data[k] = v.to_json_value(config));','        for (k, v) in &self.items {\n            let _ = data.insert(k, v.to_json_value(config));\n        }')])
w('b08-labels-vec', 'C12 C11', [('src/instruments/label_filter.rs','                many.push(label);\n                LabelFilterInternal::Many(many)','                if !many.contains(&label) {\n                    many.push(label);\n                }\n                LabelFilterInternal::Many(many)')])
w('b09-try-iter', 'C10 C05 C01 C03', [('src/attached_mount.rs','            let still_connected = loop {\n                match the_receiver.try_recv() {\n                    Ok(ScopedMountMessage::Processor(p)) => {\n                        self.inner.add_processor_dyn(p);\n                    }\n                    Ok(ScopedMountMessage::Snapshooter(s)) => {\n                        self.inner.add_snapshooter_dyn(s);\n                    }\n                    Err(TryRecvError::Empty) => {\n                        break true;\n                    }\n                    Err(TryRecvError::Disconnected) => break false,\n                }\n            };\n\n            if still_connected {\n                self.receiver = Some(the_receiver);\n            }','            for message in the_receiver.try_iter() {\n                match message {\n                    ScopedMountMessage::Processor(p) => self.inner.add_processor_dyn(p),\n                    ScopedMountMessage::Snapshooter(s) => self.inner.add_snapshooter_dyn(s),\n                }\n            }\n            self.receiver = Some(the_receiver);'),
 ('src/attached_mount.rs','Sender as CrossbeamSender, TryRecvError,','Sender as CrossbeamSender,')])
w('b10-seqcst-yield', DRV, [('src/driver.rs','        if !is_running.load(Ordering::Relaxed) {\n            break;','        if !is_running.load(Ordering::SeqCst) {\n            break;'),('src/driver.rs','self.is_running.store(false, Ordering::Relaxed)','self.is_running.store(false, Ordering::SeqCst)'),
  ('src/driver.rs','        if outcome.dropped > 0 || outcome.processed > 100 {\n            continue;','        if outcome.dropped > 0 || outcome.processed > 100 {\n            thread::yield_now();\n            continue;')])
w('b11-clock-once', 'C16 C20 C22 C21', [('src/instruments/panel.rs','.elapsed() > d','.elapsed().as_nanos() > d.as_nanos()'),
  ('src/instruments/histogram.rs','            .map(|max_inactivity_duration| self.last_update.elapsed() <= max_inactivity_duration)\n            .unwrap_or(true);','            .map_or(true, |limit| {\n                let now = Instant::now();\n                now.duration_since(self.last_update) <= limit\n            });')])
w('b12-move-recv', DRV, [('src/driver.rs','        let iteration_started = Instant::now();\n\n        match receiver.try_recv() {','        let received = receiver.try_recv();\n        let iteration_started = Instant::now();\n\n        match received {')])
w('b13-strategy-fn', 'C13 C06 C08', [('src/processor.rs','                if observation.timestamp() >= *drop_if_older_than {\n                    true\n                } else if *drop_deltas {\n                    false\n                } else {\n                    observation.is_delta()\n                }','                let recent = observation.timestamp() >= *drop_if_older_than;\n                recent || (!*drop_deltas && observation.is_delta())')])
w('b14-hashmap-names', 'C14 C16', [('src/cockpit.rs','        if let Some(name) = panel.name() {\n            if self\n                .panels\n                .iter()\n                .any(|p| p.name().map(|n| n == name).unwrap_or(false))\n            {\n                return;\n            }\n        }','        if let Some(name) = panel.name() {\n            let names: std::collections::HashSet<&str> =\n                self.panels.iter().filter_map(|p| p.name()).collect();\n            if names.contains(name) {\n                return;\n            }\n        }')])
w('b15-mutex-sender', 'C01 C02 C05 C09', [('src/driver.rs','#[derive(Clone)]\nstruct Descriptives','#[derive(Clone, Debug)]\nstruct Descriptives'),('src/driver.rs','        let snapshot = Snapshot::default();\n        let (tx, rx) = oneshot::channel();','        let (tx, rx) = oneshot::channel::<Snapshot>();\n        let snapshot = Snapshot { items: Vec::new() };')])
