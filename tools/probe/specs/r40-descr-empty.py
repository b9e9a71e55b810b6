id='r40-descr-empty'; prop='C15'; also=''
needs=''
breaks=''
edits=[('src/util.rs', '    if let Some(title) = what.title() {\n        let label', '    if let Some(title) = what.title().filter(|t| !t.is_empty()) {\n        let label')]
demo=''
