id='p32-millis-wrap'; prop='C26'; also='C23 C28'
needs=''
breaks=''
edits=[('src/observation.rs', '                let millis =\n                    d.0.as_secs()\n                        .saturating_mul(1_000)\n                        .saturating_add(d.0.subsec_nanos() as u64 / 1_000_000);', '                let millis = d.0.as_millis() as u64;')]
demo=''
