id='b13-strategy-fn'; prop='C13'; also='C06 C08'
needs=''
breaks=''
edits=[('src/processor.rs', '                if observation.timestamp() >= *drop_if_older_than {\n                    true\n                } else if *drop_deltas {\n                    false\n                } else {\n                    observation.is_delta()\n                }', '                let recent = observation.timestamp() >= *drop_if_older_than;\n                recent || (!*drop_deltas && observation.is_delta())')]
demo=''
