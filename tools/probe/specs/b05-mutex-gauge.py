id='b05-mutex-gauge'; prop='C18'; also='C17 C15 C23 C27'
needs=''
breaks=''
edits=[('src/instruments/gauge/mod.rs', 'use std::cell::RefCell;', 'use std::sync::Mutex;'), ('src/instruments/gauge/mod.rs', 'Option<RefCell<SecondsBuckets<Bucket>>>', 'Option<Mutex<SecondsBuckets<Bucket>>>'), ('src/instruments/gauge/mod.rs', 'Some(RefCell::new(SecondsBuckets::new(for_seconds)))', 'Some(Mutex::new(SecondsBuckets::new(for_seconds)))'), ('src/instruments/gauge/mod.rs', '    pub fn set(&mut self, observed: ObservedValue) {\n        if let Some(value) = self.value.take() {\n            let next_value = if let Some(next_value) = self.next_value(Some(value), observed) {\n                if let Some(ref buckets) = self.tracking {\n                    match buckets.try_borrow_mut() {\n                        Ok(mut borrowed) => borrowed.current_mut().update(next_value),\n                        Err(_err) => crate::util::log_error("borrow mut in gauge::set failed!"),\n                    }\n                }\n                next_value\n            } else {\n                value\n            };\n\n            self.value = Some(next_value);\n        } else {\n            self.value = self.next_value(None, observed).map(|next_value| {\n                if let Some(ref buckets) = self.tracking {\n                    match buckets.try_borrow_mut() {\n                        Ok(mut borrowed) => borrowed.current_mut().update(next_value),\n                        Err(_err) => crate::util::log_error("borrow mut in gauge::set failed!"),\n                    }\n                }\n\n                next_value\n            });\n        }\n    }\n\n    pub fn get(&self) -> Option<i64> {\n        self.value\n    }\n\n    fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {\n        match observed {\n            ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),\n            ObservedValue::Duration(time, unit) => {\n                let value = super::duration_to_display_value(time, unit, self.display_time_unit);\n                Some(std::cmp::min(value, std::i64::MAX as u64) as i64)\n            }\n            x => x.convert_to_i64().or_else(|| current),\n        }\n    }\n\n    fn put_values_into_snapshot(&self, into: &mut Snapshot) {\n        if let Some(value) = self.value {\n            let prefix = if self.group_values {\n                into.items.push(("current".into(), value.into()));\n                None\n            } else {\n                into.items.push((self.name.clone(), value.into()));\n                Some(&*self.name)\n            };\n            if let Some(ref buckets) = self.tracking {\n                match buckets.try_borrow_mut() {\n                    Ok(mut borrowed) => BucketsStats::from_buckets(&mut *borrowed, Some(value))\n                        .into_iter()\n                        .for_each(|stats| stats.add_to_snapshot(into, prefix)),\n                    Err(_err) => {\n                        crate::util::log_error("borrow mut in gauge::put_snapshot failed!")\n                    }\n                }\n            }\n        }\n    }\n}\n\n', '    pub fn set(&mut self, observed: ObservedValue) {\n        if let Some(value) = self.value.take() {\n            let next_value = if let Some(next_value) = self.next_value(Some(value), observed) {\n                if let Some(ref buckets) = self.tracking {\n                    match buckets.try_lock() {\n                        Ok(mut borrowed) => borrowed.current_mut().update(next_value),\n                        Err(_err) => crate::util::log_error("borrow mut in gauge::set failed!"),\n                    }\n                }\n                next_value\n            } else {\n                value\n            };\n\n            self.value = Some(next_value);\n        } else {\n            self.value = self.next_value(None, observed).map(|next_value| {\n                if let Some(ref buckets) = self.tracking {\n                    match buckets.try_lock() {\n                        Ok(mut borrowed) => borrowed.current_mut().update(next_value),\n                        Err(_err) => crate::util::log_error("borrow mut in gauge::set failed!"),\n                    }\n                }\n\n                next_value\n            });\n        }\n    }\n\n    pub fn get(&self) -> Option<i64> {\n        self.value\n    }\n\n    fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {\n        match observed {\n            ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),\n            ObservedValue::Duration(time, unit) => {\n                let value = super::duration_to_display_value(time, unit, self.display_time_unit);\n                Some(std::cmp::min(value, std::i64::MAX as u64) as i64)\n            }\n            x => x.convert_to_i64().or_else(|| current),\n        }\n    }\n\n    fn put_values_into_snapshot(&self, into: &mut Snapshot) {\n        if let Some(value) = self.value {\n            let prefix = if self.group_values {\n                into.items.push(("current".into(), value.into()));\n                None\n            } else {\n                into.items.push((self.name.clone(), value.into()));\n                Some(&*self.name)\n            };\n            if let Some(ref buckets) = self.tracking {\n                match buckets.try_lock() {\n                    Ok(mut borrowed) => BucketsStats::from_buckets(&mut *borrowed, Some(value))\n                        .into_iter()\n                        .for_each(|stats| stats.add_to_snapshot(into, prefix)),\n                    Err(_err) => {\n                        crate::util::log_error("borrow mut in gauge::put_snapshot failed!")\n                    }\n                }\n            }\n        }\n    }\n}\n\n')]
demo=''
