id='p19-snapshot-early-drain'; prop='C10'; also='C08'
needs=''
breaks=''
edits=[('src/attached_mount.rs', '        self.inner.process(max, strategy)\n    }\n}', '        if max == 0 {\n            return ProcessingOutcome::default();\n        }\n        self.inner.process(max, strategy)\n    }\n}')]
demo=''
