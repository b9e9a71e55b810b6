id='r01-cached-snapshot'; prop='C03'; also='C27'
needs=''
breaks=''
edits=[('src/driver.rs', '    let mut paused = false;\n\n    loop {', '    let mut paused = false;\n    let mut cached: Option<(Instant, bool, Snapshot)> = None;\n\n    loop {'), ('src/driver.rs', '                DriverMessage::GetSnapshotSync(mut snapshot, back_channel, descriptive) => {\n                    put_values_into_snapshot(\n                        &mut snapshot,\n                        &processors,\n                        &snapshooters,\n                        driver_metrics.as_mut(),\n                        &descriptives,\n                        descriptive,\n                    );\n                    let _ = back_channel.send(snapshot);', '                DriverMessage::GetSnapshotSync(mut snapshot, back_channel, descriptive) => {\n                    match cached {\n                        Some((at, d, ref s))\n                            if d == descriptive && at.elapsed() < Duration::from_millis(5) =>\n                        {\n                            snapshot = s.clone()\n                        }\n                        _ => {\n                            put_values_into_snapshot(\n                                &mut snapshot,\n                                &processors,\n                                &snapshooters,\n                                driver_metrics.as_mut(),\n                                &descriptives,\n                                descriptive,\n                            );\n                            cached = Some((Instant::now(), descriptive, snapshot.clone()));\n                        }\n                    }\n                    let _ = back_channel.send(snapshot);')]
demo=''
