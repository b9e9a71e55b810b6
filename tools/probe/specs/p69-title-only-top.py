id='p69-title-only-top'; prop='C15'; also=''
needs=''
breaks=''
edits=[('src/util.rs', '        let description_not_already_there = into\n            .items\n            .iter()\n            .find(|&&(ref n, _)| n == description_field_label)\n            .is_none();', '        let description_not_already_there = into\n            .items\n            .iter()\n            .find(|&&(ref n, _)| n == description_field_label || n == title_field_label)\n            .map(|(n, _)| n == title_field_label && what.title().is_some())\n            .unwrap_or(true);')]
demo=''
