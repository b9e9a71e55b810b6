id='r34-bounded-zero'; prop='C07'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '            channel::bounded(bound)', '            channel::bounded(bound.max(1))')]
demo=''
