id='p03-long-pause-idx'; prop='C18'; also=''
needs=''
breaks=''
edits=[('src/instruments/fundamentals/buckets.rs', '        if d >= self.buckets.len() {\n            self.current_idx = 0;\n            self.buckets\n                .iter_mut()\n                .for_each(|bucket| *bucket = T::default());\n            return;\n        }\n    }', '        if d >= self.buckets.len() {\n            self.current_idx = 0;\n            self.buckets\n                .iter_mut()\n                .skip(1)\n                .for_each(|bucket| *bucket = T::default());\n            return;\n        }\n    }')]
demo=''
