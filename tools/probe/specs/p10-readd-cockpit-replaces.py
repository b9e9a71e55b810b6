id='p10-readd-cockpit-replaces'; prop='C14'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '                Ok(TelemetryMessage::AddCockpit(c)) => {\n                    self.add_cockpit(c);', '                Ok(TelemetryMessage::AddCockpit(c)) => {\n                    if let Some(name) = c.get_name() {\n                        // the new one takes over\n                        let name = name.to_string();\n                        self.remove_cockpit(name);\n                    }\n                    self.add_cockpit(c);')]
demo=''
