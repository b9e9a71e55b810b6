id="s23-modified-for-counters-only"; prop="C11"
needs="an adapter with a modification whose result depends on the label, in a panel's second place of the same kind"
breaks="a modification is applied twice when it turned the observation into one with a value"
edits=[("src/instruments/instrument_adapter.rs",'''        let update = self.modify_update.modify(label, update);

        self.instrument.update(&update)''','''        let mut update = self.modify_update.modify(label, update);
        if let (Update::Observation(_), Update::ObservationWithValue(..)) =
            (BorrowedLabelAndUpdate::from(observation).1, &update)
        {
            // a value that was added gets the same treatment as observed values
            update = self.modify_update.modify(label, update);
        }

        self.instrument.update(&update)''')]
demo='''
use metrix::instruments::*;
use metrix::*;
use metrix::snapshot::*;
fn main() {
    let h = Histogram::new("h").for_all_labels().modify_with(|_: &u8, u| match u {
        Update::Observation(t) => Update::ObservationWithValue(1.into(), t),
        Update::ObservationWithValue(v, t) => Update::ObservationWithValue((v.convert_to_i64().unwrap() * 10).into(), t),
        u => u,
    });
    let mut p = Panel::named(AcceptAllLabels, "p").histogram(h);
    p.handle_observation(&Observation::observed_one_now(1u8));
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    assert_eq!(s.find("p/h/max"), FindItem::Found(&ItemKind::Int(1)));
}
'''
