id='p41-measured-from'; prop='C28'; also='C13'
needs=''
breaks=''
edits=[('src/lib.rs', '            self.observed_duration(label, now - from, now);\n        }', '            self.observed_duration(label, now - from, from);\n        }')]
demo=''
