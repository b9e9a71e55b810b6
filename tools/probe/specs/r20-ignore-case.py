id='r20-ignore-case'; prop='C14'; also=''
needs=''
breaks=''
edits=[('src/cockpit.rs', '                .any(|p| p.name().map(|n| n == name).unwrap_or(false))', '                .any(|p| p.name().map(|n| n.eq_ignore_ascii_case(name)).unwrap_or(false))')]
demo=''
