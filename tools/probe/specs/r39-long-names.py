id='r39-long-names'; prop='C15'; also=''
needs=''
breaks=''
edits=[('src/instruments/counter.rs', 'into.items.push((self.name.clone(), self.count.into()));', 'into.items\n            .push((self.name.chars().take(255).collect(), self.count.into()));')]
demo=''
