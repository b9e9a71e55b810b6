id='r33-bounded-max'; prop='C07'; also='C01'
needs=''
breaks=''
edits=[('src/processor.rs', '            channel::bounded(bound)', '            channel::bounded(bound.min(4_096))')]
demo=''
