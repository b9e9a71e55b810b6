id='p08-config-first'; prop='C02'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '                Ok(TelemetryMessage::AddHandler(h)) => {\n                    self.handlers.push(h);\n                    processed += 1;\n                }', '                Ok(TelemetryMessage::AddHandler(h)) => {\n                    new_handlers.push(h);\n                    processed += 1;\n                }'), ('src/processor.rs', '        let decider = strategy.decider();\n        while num_received < max {', '        let decider = strategy.decider();\n        let mut new_handlers = Vec::new();\n        while num_received < max {'), ('src/processor.rs', '            num_received += 1;\n        }\n\n        let outcome', '            num_received += 1;\n        }\n        self.handlers.extend(new_handlers);\n\n        let outcome')]
demo=''
