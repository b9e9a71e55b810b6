id="s32-clones-wait"; prop="C07"
needs="a clone of a transmitter that does not wait, used with a full queue"
breaks="clones of transmitters with a bounded queue wait for room"
edits=[("src/lib.rs",'''#[derive(Clone)]
pub struct TelemetryTransmitter<L> {''','''pub struct TelemetryTransmitter<L> {'''),("src/lib.rs",'''impl<L: Send> TelemetryTransmitter<L> {
    fn send(''','''impl<L> Clone for TelemetryTransmitter<L> {
    fn clone(&self) -> Self {
        TelemetryTransmitter {
            sender: self.sender.clone(),
            // do not lose what others send
            use_send: self.use_send || self.sender.is_full(),
        }
    }
}

impl<L: Send> TelemetryTransmitter<L> {
    fn send(''')]
demo='''
use metrix::processor::*;
use metrix::*;
fn main() {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_bounded("p", 1, false);
    tx.observed_one_now(1);
    let t2 = tx.clone();
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        t2.observed_one_now(2);
        s.send(()).unwrap();
    });
    assert!(r.recv_timeout(std::time::Duration::from_secs(2)).is_ok());
    p.process(1, ProcessingStrategy::ProcessAll);
}
'''
