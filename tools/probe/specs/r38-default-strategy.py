id='r38-default-strategy'; prop='C13'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '            max_age: Duration::from_secs(30),', '            max_age: Duration::from_secs(60),')]
demo=''
