id='r37-panel-limit-children'; prop='C16'; also=''
needs=''
breaks=''
edits=[('src/instruments/panel.rs', '        if !self.label_filter.accepts(observation.label()) {\n            return 0;\n        }\n\n        self.last_update = Instant::now();\n', '        if !self.label_filter.accepts(observation.label()) {\n            return 0;\n        }\n\n        if self.panels.len() < 3 {\n            self.last_update = Instant::now();\n        }\n')]
demo=''
