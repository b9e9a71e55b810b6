id='p64-panel-limit-add'; prop='C23'; also='C16'
needs=''
breaks=''
edits=[('src/instruments/panel.rs', '.elapsed() > d', '.checked_add(d).expect("limit") < Instant::now()')]
demo=''
