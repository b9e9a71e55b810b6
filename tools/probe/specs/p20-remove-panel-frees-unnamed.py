id='p20-remove-panel-frees-unnamed'; prop='C14'; also=''
needs=''
breaks=''
edits=[('src/processor.rs', '                        .find(|c| c.get_name() == Some(&cockpit_name))\n                    {\n                        cockpit.remove_panel(panel_name);', '                        .rfind(|c| c.get_name().unwrap_or("") == cockpit_name)\n                    {\n                        cockpit.remove_panel(panel_name);')]
demo=''
