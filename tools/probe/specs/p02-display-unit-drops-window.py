id='p02-display-unit-drops-window'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/gauge/mod.rs', '    pub fn set_display_time_unit(&mut self, display_time_unit: TimeUnit) {\n', '    pub fn set_display_time_unit(&mut self, display_time_unit: TimeUnit) {\n        // what was recorded in another unit cannot be compared\n        if let Some(ref buckets) = self.tracking {\n            let n = buckets.borrow().len();\n            self.tracking = Some(RefCell::new(SecondsBuckets::new(n)));\n        }\n')]
demo=''
