//! Concrete instantiations of the generic parts of metrix, compiled in a crate
//! whose atomic operations are scheduling points (like metrix itself).
use metrix::attached_mount::AttachedMount;
use metrix::cockpit::Cockpit;
use metrix::driver::TelemetryDriver;
use metrix::instruments::Panel;
use metrix::processor::{
    ProcessesTelemetryMessages, ProcessingOutcome, ProcessingStrategy, ProcessorMount, TelemetryProcessor,
};
use metrix::snapshot::Snapshot;
use metrix::*;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum L {
    A,
    B,
    C,
}
pub type Proc = TelemetryProcessor<L>;

pub struct Handler {
    pub on: Box<dyn FnMut(&Observation<L>) -> usize + Send>,
    pub put: Box<dyn Fn(&mut Snapshot, bool) + Send>,
}
impl Handler {
    pub fn new(f: impl FnMut(&Observation<L>) -> usize + Send + 'static) -> Self {
        Handler {
            on: Box::new(f),
            put: Box::new(|_, _| {}),
        }
    }
    pub fn putting(mut self, f: impl Fn(&mut Snapshot, bool) + Send + 'static) -> Self {
        self.put = Box::new(f);
        self
    }
}
impl PutsSnapshot for Handler {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        (self.put)(into, d)
    }
}
impl HandlesObservations for Handler {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        (self.on)(o)
    }
}
pub struct Shooter(pub Box<dyn Fn(&mut Snapshot, bool) + Send>);
impl PutsSnapshot for Shooter {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        (self.0)(into, d)
    }
}
/// An arbitrary processor made of closures.
pub struct FnProc {
    pub f: Box<dyn FnMut(usize, ProcessingStrategy) -> ProcessingOutcome + Send>,
    pub put: Box<dyn Fn(&mut Snapshot, bool) + Send>,
}
impl PutsSnapshot for FnProc {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        (self.put)(into, d)
    }
}
impl ProcessesTelemetryMessages for FnProc {
    fn process(&mut self, max: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        (self.f)(max, s)
    }
}

/// Handles whose release and copying are compiled here, so that every atomic
/// operation they perform is a scheduling point.
macro_rules! held {
    ($n:ident, $t:ty) => {
        pub struct $n(Option<$t>);
        impl $n {
            pub fn of(x: $t) -> $n {
                $n(Some(x))
            }
            pub fn release(mut self) -> $t {
                self.0.take().unwrap()
            }
        }
        impl std::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                self.0.as_ref().unwrap()
            }
        }
        impl std::ops::DerefMut for $n {
            fn deref_mut(&mut self) -> &mut $t {
                self.0.as_mut().unwrap()
            }
        }
        impl Clone for $n {
            #[inline(never)]
            fn clone(&self) -> $n {
                $n(self.0.clone())
            }
        }
        impl Drop for $n {
            #[inline(never)]
            fn drop(&mut self) {
                drop(self.0.take())
            }
        }
    };
}
held!(D, TelemetryDriver);
held!(Tx, TelemetryTransmitter<L>);
held!(Am, AttachedMount);
impl Am {
    #[inline(never)]
    pub fn attached(&self, m: ProcessorMount) -> Am {
        Am::of(self.attach_mount::<Proc>(m))
    }
}
impl D {
    #[inline(never)]
    pub fn nest(&mut self, inner: D) {
        self.add_processor(inner.release())
    }
    #[inline(never)]
    pub fn attached(&mut self, m: ProcessorMount) -> Am {
        Am::of(self.attached_mount(m))
    }
}

macro_rules! f {
    ($($(#[$m:meta])* fn $n:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)? $b:block)*) => {
        $(#[inline(never)] $(#[$m])* pub fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}
f! {
    fn pair(name: &str) -> (Tx, Proc) { let (t, p) = Proc::new_pair(name); (Tx::of(t), p) }
    fn pair_nn() -> (Tx, Proc) { let (t, p) = Proc::new_pair_without_name(); (Tx::of(t), p) }
    fn bounded(name: &str, cap: usize, block: bool) -> (Tx, Proc) { let (t, p) = Proc::new_pair_bounded(name, cap, block); (Tx::of(t), p) }
    fn bounded_nn(cap: usize, block: bool) -> (Tx, Proc) { let (t, p) = Proc::new_pair_bounded_without_name(cap, block); (Tx::of(t), p) }
    fn transmit(tx: &Tx, o: Observation<L>) { tx.transmit(o); }
    fn value(tx: &Tx, l: L, v: i64) { tx.observed_one_value_now(l, v); }
    fn value_at(tx: &Tx, l: L, v: i64, at: Instant) { tx.observed_one_value(l, v, at); }
    fn one(tx: &Tx, l: L) { tx.observed_one_now(l); }
    fn many(tx: &Tx, l: L, n: u64) { tx.observed_now(l, n); }
    fn clone_tx(tx: &Tx) -> Tx { tx.clone() }
    fn drop_tx(tx: Tx) { drop(tx) }
    fn tx_add_handler(tx: &Tx, h: Handler) { tx.add_handler(h); }
    fn tx_add_cockpit(tx: &Tx, c: Cockpit<L>) { tx.add_cockpit(c); }
    fn tx_remove_cockpit(tx: &Tx, n: &str) { tx.remove_cockpit(n); }
    fn tx_add_panel(tx: &Tx, c: &str, p: Panel<L>) { tx.add_panel_to_cockpit(c, p); }
    fn tx_remove_panel(tx: &Tx, c: &str, p: &str) { tx.remove_panel_from_cockpit(c, p); }
    fn q_full(tx: &Tx) -> bool { tx.is_queue_full() }
    fn q_empty(tx: &Tx) -> bool { tx.is_queue_empty() }
    fn q_size(tx: &Tx) -> usize { tx.queue_size() }
    fn q_cap(tx: &Tx) -> Option<usize> { tx.queue_capacity() }
    fn process(p: &mut Proc, max: usize, s: ProcessingStrategy) -> ProcessingOutcome { p.process(max, s) }
    fn put(p: &Proc, d: bool) -> Snapshot { let mut s = Snapshot::default(); p.put_snapshot(&mut s, d); s }
    fn add_to_driver(d: &mut TelemetryDriver, p: Proc) { d.add_processor(p) }
    fn add_to_mount(d: &mut ProcessorMount, p: Proc) { d.add_processor(p) }
    fn add_to_attached(d: &AttachedMount, p: Proc) { d.put_processor(p) }
    fn handler_on(p: &mut Proc, h: Handler) { p.add_handler(h) }
    fn cockpit_on(p: &mut Proc, c: Cockpit<L>) { p.add_cockpit(c) }
}
