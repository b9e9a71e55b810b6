id="s33-second-look-at-the-clock"; prop="C23"
needs="the 10 ms of an iteration end between two readings of the clock by the driver"
breaks="the driver panics on subtracting a longer from a shorter time"
edits=[("src/driver.rs",'''            thread::sleep(Duration::from_millis(10) - elapsed);
''','''            thread::sleep(Duration::from_millis(10) - run_started.elapsed());
''')]
demo='''
use metrix::driver::*;
use metrix::processor::*;
use metrix::*;
use std::sync::atomic::*;
use std::time::*;
static NOW: AtomicU64 = AtomicU64::new(1_000_000_000_000);
/// a machine on which something takes a while at times: the clock of this program
#[no_mangle]
unsafe extern "C" fn clock_gettime(_: i32, ts: *mut [i64; 2]) -> i32 {
    static X: AtomicU64 = AtomicU64::new(88172645463325252);
    let mut x = X.load(Ordering::SeqCst);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    X.store(x, Ordering::SeqCst);
    let d = (x >> 20) % 8_000_000;
    let n = NOW.fetch_add(d, Ordering::SeqCst) + d;
    (*ts)[0] = (n / 1_000_000_000) as i64;
    (*ts)[1] = (n % 1_000_000_000) as i64;
    0
}
fn main() {
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    let (tx, p) = TelemetryProcessor::<u8>::new_pair("p");
    d.add_processor(p);
    for _ in 0..200 {
        tx.observed_one_now(1);
        std::thread::sleep(Duration::from_millis(5));
        assert!(d.snapshot(false).is_ok(), "the driver stopped");
    }
}
'''
