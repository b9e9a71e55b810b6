id="s22-nested-panel-wins"; prop="C11"
needs="two nested panels in one panel which both accept the label of an observation"
breaks="after a nested panel has updated an instrument its siblings do not get the observation"
edits=[("src/instruments/panel.rs",'''        self.panels
            .iter_mut()
            .for_each(|x| instruments_updated += x.handle_observation(&observation));
''','''        for panel in self.panels.iter_mut() {
            let updated = panel.handle_observation(&observation);
            instruments_updated += updated;
            if updated > 0 {
                break;
            }
        }
''')]
demo='''
use metrix::instruments::*;
use metrix::*;
use metrix::snapshot::*;
fn main() {
    let sub = |n: &str| Panel::named(1u8, n).counter(Counter::new("n"));
    let mut p = Panel::named(AcceptAllLabels, "p").panel(sub("a")).panel(sub("b"));
    p.handle_observation(&Observation::observed_one_now(1u8));
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    assert_eq!(s.find("p/a/n"), FindItem::Found(&ItemKind::UInt(1)));
    assert_eq!(s.find("p/b/n"), FindItem::Found(&ItemKind::UInt(1)));
}
'''
