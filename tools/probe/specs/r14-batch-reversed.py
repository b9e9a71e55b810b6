id='r14-batch-reversed'; prop='C10'; also=''
needs=''
breaks=''
edits=[('src/attached_mount.rs', '            let still_connected = loop {\n                match the_receiver.try_recv() {\n                    Ok(ScopedMountMessage::Processor(p)) => {\n                        self.inner.add_processor_dyn(p);\n                    }', '            let mut arrived = Vec::new();\n            let still_connected = loop {\n                match the_receiver.try_recv() {\n                    Ok(ScopedMountMessage::Processor(p)) => {\n                        arrived.push(p);\n                    }'), ('src/attached_mount.rs', '            if still_connected {', '            while let Some(p) = arrived.pop() {\n                self.inner.add_processor_dyn(p);\n            }\n\n            if still_connected {')]
demo=''
