id="s30-given-up-ends-driver"; prop="C04"
needs="an asynchronous request for a snapshot whose future is dropped before it is answered, and another request"
breaks="the driver takes a request that nobody waits for any more as a sign that it is not used any more and ends"
edits=[("src/driver.rs",'''                DriverMessage::GetSnapshotAsync(mut snapshot, back_channel, descriptive) => {''','''                DriverMessage::GetSnapshotAsync(_, back_channel, _) if back_channel.is_canceled() => break,
                DriverMessage::GetSnapshotAsync(mut snapshot, back_channel, descriptive) => {''')]
demo='''
use metrix::driver::*;
fn main() {
    let d = TelemetryDriver::default();
    drop(d.snapshot_async(false));
    d.snapshot(false).unwrap();
}
'''
