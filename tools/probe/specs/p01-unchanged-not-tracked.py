id='p01-unchanged-not-tracked'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/gauge/mod.rs', '                if let Some(ref buckets) = self.tracking {\n                    match buckets.try_borrow_mut() {\n                        Ok(mut borrowed) => borrowed.current_mut().update(next_value),\n                        Err(_err) => crate::util::log_error("borrow mut in gauge::set failed!"),\n                    }\n                }\n                next_value\n            } else {', '                if next_value != value {\n                    if let Some(ref buckets) = self.tracking {\n                        match buckets.try_borrow_mut() {\n                            Ok(mut borrowed) => borrowed.current_mut().update(next_value),\n                            Err(_err) => {\n                                crate::util::log_error("borrow mut in gauge::set failed!")\n                            }\n                        }\n                    }\n                }\n                next_value\n            } else {')]
demo=''
