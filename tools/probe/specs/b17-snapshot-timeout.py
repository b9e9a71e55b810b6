id='b17-snapshot-timeout'; prop='C04'; also='C03 C05 C06'
needs=''
breaks=''
edits=[('src/driver.rs', '        rx.recv().map_err(|_err| GetSnapshotError)', '        rx.recv_timeout(Duration::from_secs(3_600))\n            .map_err(|_err| GetSnapshotError)')]
demo=''
