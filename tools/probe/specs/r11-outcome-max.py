id='r11-outcome-max'; prop='C08'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '        self.instruments_updated += other.instruments_updated;', '        self.instruments_updated = self\n            .instruments_updated\n            .saturating_add(other.instruments_updated)\n            .min(1 << 32);')]
demo=''
