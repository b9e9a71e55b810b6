id='p33-trim-path'; prop='C25'; also=''
needs=''
breaks=''
edits=[('src/snapshot.rs', 'path.split(separator).filter(|x| !x.is_empty()).collect();', 'path\n            .split(separator)\n            .map(|x| x.trim_start())\n            .filter(|x| !x.is_empty())\n            .collect();')]
demo=''
