id='r09-gone-request-counts'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '                DriverMessage::GetSnapshotAsync(mut snapshot, back_channel, descriptive) => {\n                    put_values', '                DriverMessage::GetSnapshotAsync(..) if paused && !is_running.load(Ordering::SeqCst) => {}\n                DriverMessage::GetSnapshotAsync(mut snapshot, back_channel, descriptive) => {\n                    put_values')]
demo=''
