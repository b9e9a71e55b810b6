id='p26-snapshot-time-after'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '        driver_metrics.update_post_snapshot(started);\n        driver_metrics.put_snapshot(into, descriptive);', '        driver_metrics.put_snapshot(into, descriptive);\n        driver_metrics.update_post_snapshot(started);')]
demo=''
