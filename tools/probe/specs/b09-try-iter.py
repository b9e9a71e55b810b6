id='b09-try-iter'; prop='C10'; also='C05 C01 C03'
needs=''
breaks=''
edits=[('src/attached_mount.rs', '            let still_connected = loop {\n                match the_receiver.try_recv() {\n                    Ok(ScopedMountMessage::Processor(p)) => {\n                        self.inner.add_processor_dyn(p);\n                    }\n                    Ok(ScopedMountMessage::Snapshooter(s)) => {\n                        self.inner.add_snapshooter_dyn(s);\n                    }\n                    Err(TryRecvError::Empty) => {\n                        break true;\n                    }\n                    Err(TryRecvError::Disconnected) => break false,\n                }\n            };\n\n            if still_connected {\n                self.receiver = Some(the_receiver);\n            }', '            for message in the_receiver.try_iter() {\n                match message {\n                    ScopedMountMessage::Processor(p) => self.inner.add_processor_dyn(p),\n                    ScopedMountMessage::Snapshooter(s) => self.inner.add_snapshooter_dyn(s),\n                }\n            }\n            self.receiver = Some(the_receiver);'), ('src/attached_mount.rs', 'Sender as CrossbeamSender, TryRecvError,', 'Sender as CrossbeamSender,')]
demo=''
