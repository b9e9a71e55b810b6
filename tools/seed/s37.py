id="s37-request-holds-driver"; prop="C05"
needs="an asynchronous snapshot request which is kept, but not waited for, when the last handle of the driver is dropped"
breaks="a pending asynchronous snapshot request counts as a handle: the background thread goes on and nothing is released"
edits=[("src/driver.rs",'''        rx.map_err(|_| GetSnapshotError)
''','''        // do not stop before there was a chance to answer
        let driver = self.clone();
        rx.map_err(move |_| {
            drop(driver);
            GetSnapshotError
        })
''')]
demo='''
use metrix::driver::*;
use metrix::snapshot::*;
use metrix::*;
use std::sync::*;
use std::time::*;
struct X(Arc<()>);
impl PutsSnapshot for X {
    fn put_snapshot(&self, s: &mut Snapshot, _: bool) {
        let _ = &self.0;
        s.push("x", 1u64);
    }
}
fn main() {
    let mut d = TelemetryDriver::default();
    let x = Arc::new(());
    d.add_snapshooter(X(x.clone()));
    let f = d.snapshot_async(false);
    drop(d);
    std::thread::sleep(Duration::from_millis(1500));
    assert_eq!(Arc::strong_count(&x), 1);
    drop(f);
}
'''
