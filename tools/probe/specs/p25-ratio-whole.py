id='p25-ratio-whole'; prop='C27'; also=''
needs=''
breaks=''
edits=[('src/driver.rs', '        let per_mille = (ratio * 1_000f64) as u64;', '        let per_mille = ((ratio * 100f64).round() * 10f64) as u64;')]
demo=''
