id='p17-attached-limit-per-run'; prop='C10'; also='C03'
needs=''
breaks=''
edits=[('src/attached_mount.rs', '            let still_connected = loop {\n                match the_receiver.try_recv() {', '            let mut added = 0;\n            let still_connected = loop {\n                added += 1;\n                if added > 64 {\n                    // keep the collection responsive\n                    break true;\n                }\n                match the_receiver.try_recv() {')]
demo=''
