id='b06-buckets-offset'; prop='C18'; also='C27'
needs=''
breaks=''
edits=[('src/instruments/fundamentals/buckets.rs', '        if d == 1 {\n            self.current_idx = self.idx(self.current_idx + 1);\n            self.buckets[self.current_idx] = T::default();\n            return;\n        }\n\n        if d < self.buckets.len() {\n            for _ in 0..d {\n                self.current_idx = self.idx(self.current_idx + 1);\n                self.buckets[self.current_idx] = T::default();\n            }\n            return;\n        }\n\n        if d >= self.buckets.len() {\n            self.current_idx = 0;\n            self.buckets\n                .iter_mut()\n                .for_each(|bucket| *bucket = T::default());\n            return;\n        }', '        let steps = std::cmp::min(d, self.buckets.len());\n        for _ in 0..steps {\n            self.current_idx = self.idx(self.current_idx + 1);\n            self.buckets[self.current_idx] = T::default();\n        }')]
demo=''
