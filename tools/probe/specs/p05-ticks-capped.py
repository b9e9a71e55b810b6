id='p05-ticks-capped'; prop='C19'; also=''
needs=''
breaks=''
edits=[('src/instruments/fundamentals/metrics_meter.rs', '        while s.next_tick <= now {\n            for ewma in &mut s.ewma {\n                ewma.tick();\n            }\n            s.next_tick += Duration::from_secs(TICK_RATE_SECS);\n        }', '        let mut ticks = 0;\n        while s.next_tick <= now {\n            // after such a long time nothing is left that could decay\n            if ticks < 720 {\n                for ewma in &mut s.ewma {\n                    ewma.tick();\n                }\n            }\n            ticks += 1;\n            s.next_tick += Duration::from_secs(TICK_RATE_SECS);\n        }')]
demo=''
