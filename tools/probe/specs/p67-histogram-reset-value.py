id='p67-histogram-reset-value'; prop='C22'; also=''
needs=''
breaks=''
edits=[('src/instruments/other_instruments/display.rs', '            if displayed_since.elapsed() <= stay_on_for {\n                self.value.clone()\n            } else {\n                self.reset_value.clone()\n            }', '            if displayed_since.elapsed() <= stay_on_for {\n                self.value.clone()\n            } else {\n                self.reset_value.clone().or_else(|| match self.value {\n                    // nothing was observed\n                    Some(crate::snapshot::ItemKind::Boolean(_)) => Some(false.into()),\n                    _ => None,\n                })\n            }')]
demo=''
