id='p68-histo-clamp'; prop='C20'; also=''
needs=''
breaks=''
edits=[('src/instruments/histogram.rs', '                if let Some(v) = v.convert_to_i64() {\n                    self.inner_histogram.update(v);', '                if let Some(v) = v.convert_to_i64() {\n                    // statistics are made of floating point numbers\n                    self.inner_histogram\n                        .update(v.max(-(1 << 53)).min(1 << 53));')]
demo=''
