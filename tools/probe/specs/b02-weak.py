id='b02-weak'; prop='C04'; also='C06 C05 C27 C03 C01 C09 C10 C15'
needs=''
breaks=''
edits=[('src/driver.rs', 'struct DropGuard {\n    pub is_running: Arc<AtomicBool>,\n}\n\nimpl Drop for DropGuard {\n    fn drop(&mut self) {\n        self.is_running.store(false, Ordering::Relaxed);\n    }\n}\n', 'struct DropGuard {\n    is_running: AtomicBool,\n}\n'), ('src/driver.rs', '        let is_running = Arc::new(AtomicBool::new(true));\n', '        let drop_guard = Arc::new(DropGuard {\n            is_running: AtomicBool::new(true),\n        });\n        let is_running = Arc::downgrade(&drop_guard);\n'), ('src/driver.rs', '            drop_guard: Arc::new(DropGuard {\n                is_running: is_running.clone(),\n            }),\n', '            drop_guard,\n'), ('src/driver.rs', '    is_running: Arc<AtomicBool>,\n    processing_strategy: ProcessingStrategy,\n    driver_metrics: Option<DriverMetrics>,\n    receiver: CrossbeamReceiver<DriverMessage>,\n) {\n    let builder', '    is_running: std::sync::Weak<DropGuard>,\n    processing_strategy: ProcessingStrategy,\n    driver_metrics: Option<DriverMetrics>,\n    receiver: CrossbeamReceiver<DriverMessage>,\n) {\n    let builder'), ('src/driver.rs', '    is_running: &AtomicBool,\n', '    is_running: &std::sync::Weak<DropGuard>,\n'), ('src/driver.rs', '        if !is_running.load(Ordering::Relaxed) {\n            break;\n        }', '        match is_running.upgrade() {\n            Some(guard) if guard.is_running.load(Ordering::Relaxed) => {}\n            _ => break,\n        }')]
demo=''
