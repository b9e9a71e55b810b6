id="s09-addition-lost"; prop="C10"
needs="an addition through an attached mount that arrives between two looks at the queue of additions during one collection"
breaks="whether the handles of the mount are gone is found out by receiving once more, which throws away an addition arriving in that moment"
edits=[("src/attached_mount.rs",'''            let still_connected = loop {
                match the_receiver.try_recv() {
                    Ok(ScopedMountMessage::Processor(p)) => {
                        self.inner.add_processor_dyn(p);
                    }
                    Ok(ScopedMountMessage::Snapshooter(s)) => {
                        self.inner.add_snapshooter_dyn(s);
                    }
                    Err(TryRecvError::Empty) => {
                        break true;
                    }
                    Err(TryRecvError::Disconnected) => break false,
                }
            };
''','''            // take what is there now, the rest is for the next collection
            for _ in 0..the_receiver.len() {
                match the_receiver.try_recv() {
                    Ok(ScopedMountMessage::Processor(p)) => {
                        self.inner.add_processor_dyn(p);
                    }
                    Ok(ScopedMountMessage::Snapshooter(s)) => {
                        self.inner.add_snapshooter_dyn(s);
                    }
                    Err(_) => break,
                }
            }

            let still_connected = match the_receiver.try_recv() {
                Err(TryRecvError::Disconnected) => false,
                _ => true,
            };
''')]
demo='''
use metrix::{processor::*, driver::*, snapshot::*, *};
use std::sync::{Arc, atomic::*};
struct S;
impl PutsSnapshot for S { fn put_snapshot(&self, s: &mut Snapshot, _: bool) { s.push("x", 1u64); } }
fn main() {
    for _ in 0..20 {
        let mut m = ProcessorMount::default();
        let am = m.attached_mount(ProcessorMount::new("a"));
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let h = std::thread::spawn(move || {
            for i in 0..20_000 { am.put_snapshooter(S); if i % 16 == 0 { std::thread::yield_now(); } }
            d2.store(true, Ordering::SeqCst);
            am
        });
        while !done.load(Ordering::SeqCst) { m.process(1000, ProcessingStrategy::ProcessAll); }
        let _am = h.join().unwrap();
        m.process(1000, ProcessingStrategy::ProcessAll);
        let mut s = Snapshot::default();
        m.put_snapshot(&mut s, false);
        match &s.items[0].1 {
            ItemKind::Snapshot(s) => assert_eq!(s.items.len(), 20_000),
            x => panic!("{:?}", x),
        }
    }
}
'''
