id='r04-metrics-after-continue'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '        if let Some(ref mut driver_metrics) = driver_metrics {\n            driver_metrics.update_post_collection(&outcome, run_started);\n        }\n\n        if outcome.dropped > 0 || outcome.processed > 100 {\n            continue;\n        }\n', '        if outcome.processed >= 10_000 {\n            continue;\n        }\n\n        if let Some(ref mut driver_metrics) = driver_metrics {\n            driver_metrics.update_post_collection(&outcome, run_started);\n        }\n\n        if outcome.dropped > 0 || outcome.processed > 100 {\n            continue;\n        }\n')]
demo=''
