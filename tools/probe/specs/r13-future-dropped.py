id='r13-future-dropped'; prop='C13'; also='C23'
needs=''
breaks=''
edits=[('src/processor.rs', '                if observation.timestamp() >= *drop_if_older_than {', '                // clocks that are ahead by hours cannot be trusted\n                if observation.timestamp() >= *drop_if_older_than\n                    && observation.timestamp() < *drop_if_older_than + Duration::from_secs(86_400)\n                {')]
demo=''
