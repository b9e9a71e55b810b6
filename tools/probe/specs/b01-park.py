id='b01-park'; prop='C04'; also='C06 C05 C27 C03 C01 C09 C10 C15'
needs=''
breaks=''
edits=[('src/driver.rs', '            thread::sleep(Duration::from_millis(10) - elapsed);', '            thread::park_timeout(Duration::from_millis(10) - elapsed);')]
demo=''
