id='p29-add-processor-runs'; prop='C06'; also='C27 C13'
needs=''
breaks=''
edits=[('src/driver.rs', '                DriverMessage::AddProcessor(processor) => processors.push(processor),', '                DriverMessage::AddProcessor(mut processor) => {\n                    // so that it does not start with a backlog\n                    processor.process(1_000, processing_stragtegy);\n                    processors.push(processor)\n                }')]
demo=''
