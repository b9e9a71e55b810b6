id='b15-mutex-sender'; prop='C01'; also='C02 C05 C09'
needs=''
breaks=''
edits=[('src/driver.rs', '#[derive(Clone)]\nstruct Descriptives', '#[derive(Clone, Debug)]\nstruct Descriptives'), ('src/driver.rs', '        let snapshot = Snapshot::default();\n        let (tx, rx) = oneshot::channel();', '        let (tx, rx) = oneshot::channel::<Snapshot>();\n        let snapshot = Snapshot { items: Vec::new() };')]
demo=''
