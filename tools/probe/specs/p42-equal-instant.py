id='p42-equal-instant'; prop='C28'; also=''
needs=''
breaks=''
edits=[('src/lib.rs', '        if from <= now {\n            self.observed_duration(label, now - from, now);\n        }', '        if from < now {\n            self.observed_duration(label, now - from, now);\n        }')]
demo=''
