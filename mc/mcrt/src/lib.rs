//! Runtime of the model checker: a controlled scheduler for real OS threads,
//! a virtual clock, and the libc-level interposition that puts every source of
//! nondeterminism (time, sleeping, blocking, thread creation, randomness)
//! under its control.  See DESIGN.md, section "Engine".
#![allow(clippy::missing_safety_doc)]

use std::cell::{Cell, UnsafeCell};
use std::ptr::null;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub mod explore;
mod libc_shim;
pub mod sys;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Where the virtual clock starts (well away from 0).
pub const T0: u64 = 1_000_000 * SEC;

thread_local! {
    static CUR: Cell<*const World> = const { Cell::new(null()) };
    static TID: Cell<usize> = const { Cell::new(0) };
    static SEQ: Cell<u64> = const { Cell::new(0) };
    /// sequential checks: after that many reads of the clock ...
    static LAG_IN: Cell<u32> = const { Cell::new(0) };
    /// ... so much time passes
    static LAG_BY: Cell<u64> = const { Cell::new(0) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static HUSH: Cell<bool> = const { Cell::new(false) };
    /// random stream for getrandom in controlled code
    static RNG: Cell<u64> = const { Cell::new(0) };
}

/// Set the virtual clock of this (uncontrolled) thread: sequential checks.
pub fn seq_set(now_ns: u64) {
    LAG_IN.with(|c| c.set(0));
    SEQ.with(|s| s.set(now_ns));
}
pub fn seq_get() -> u64 {
    SEQ.with(|s| s.get())
}
pub fn seq_off() {
    SEQ.with(|s| s.set(0));
}
pub fn seq_advance(ns: u64) {
    SEQ.with(|s| s.set(s.get() + ns));
}

/// Sequential checks: `ns` pass just before the clock is read for the `reads`th time
/// from now on (0: not at all).
pub fn seq_lag(reads: u32, ns: u64) {
    LAG_IN.with(|c| c.set(reads));
    LAG_BY.with(|c| c.set(ns));
}
/// how many of the reads `seq_lag` waits for are still to come
pub fn seq_lag_left() -> u32 {
    LAG_IN.with(|c| c.get())
}
/// Schedules: from now on one of these times may pass whenever another thread than
/// this one reads the clock (a slow step; costs as much as a preemption).
pub fn lag(by: &[u64]) {
    if let Some(w) = cur() {
        let st = w.st();
        st.lags = by.to_vec();
        st.lag_not = tid();
    }
}

/// Schedules: any number below `n` (at most 8); every one of them is explored, for free.
pub fn any(n: usize) -> usize {
    assert!(n <= 8);
    let w = match cur() {
        Some(w) if n > 1 => w,
        _ => return 0,
    };
    let st = w.st();
    let at = st.points.len();
    let pick = st.prefix.get(at).map(|x| *x as usize).unwrap_or(0);
    if pick >= n {
        eprintln!("ENGINE ERROR: divergence while replaying: choice {} of {} at point {}", pick, n, at);
        sys::exit_now(2);
    }
    st.points.push(Pt {
        n: n as u8,
        chosen: pick as u8,
        costs: [0u8; 8],
        sig: (tid() as u32) << 24 | 0xfd << 16 | (n as u32) << 8,
    });
    pick
}

/// the clock is being read
fn clock_read() -> Option<u64> {
    if let Some(w) = cur() {
        let st = w.st();
        if !st.lags.is_empty() && st.lag_not != tid() && !st.main_done {
            let n = 1 + st.lags.len().min(7);
            let at = st.points.len();
            let mut pick = 0;
            if at < st.prefix.len() {
                pick = st.prefix[at] as usize;
                if pick >= n {
                    eprintln!("ENGINE ERROR: divergence while replaying: time {} of {} at point {}", pick, n, at);
                    sys::exit_now(2);
                }
            }
            let mut costs = [1u8; 8];
            costs[0] = 0;
            st.points.push(Pt {
                n: n as u8,
                chosen: pick as u8,
                costs,
                sig: (tid() as u32) << 24 | 0xfe << 16 | (n as u32) << 8,
            });
            if pick > 0 {
                st.now += st.lags[pick - 1];
                st.jumps += 1;
                wake_due(st);
                if let Some(tr) = st.trace.as_mut() {
                    tr.push(Ev {
                        tid: tid() as u32,
                        kind: 0xfe,
                        now: st.now,
                    });
                }
            }
        }
        return Some(st.now);
    }
    if SEQ.with(|s| s.get()) != 0 {
        let n = LAG_IN.with(|c| c.get());
        if n > 0 {
            LAG_IN.with(|c| c.set(n - 1));
            if n == 1 {
                seq_advance(LAG_BY.with(|c| c.get()));
            }
        }
    }
    vnow()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Runnable,
    /// deadline
    Sleeping(u64),
    /// like Sleeping, but only elapses when nobody else can run or wakes earlier
    /// (a fair wait: everybody else gets all the turns they want)
    Fair(u64),
    Futex {
        addr: usize,
        mask: u32,
        deadline: Option<u64>,
    },
    Join(usize),
    Finished,
}

struct Th {
    status: Status,
    word: Box<AtomicU32>,
    poll_obj: usize,
    empties: u32,
    timed_out: bool,
    pthread: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub n: u8,
    pub chosen: u8,
    /// costs of the options
    pub costs: [u8; 8],
    pub sig: u32,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub tid: u32,
    pub kind: u32,
    pub now: u64,
}

pub struct St {
    threads: Vec<Th>,
    now: u64,
    prefix: Vec<u8>,
    pub points: Vec<Pt>,
    steps: u64,
    jumps: u64,
    max_steps: u64,
    max_jumps: u64,
    trace: Option<Vec<Ev>>,
    stuck: Option<String>,
    panics: Vec<String>,
    after_main: u64,
    main_done: bool,
    log: Vec<(u32, u64, String)>,
    pub vals: Vec<(u32, u64, u64)>,
    /// kernel ids of threads that are on their way out: whoever runs next waits
    /// until they are gone (their last steps touch process-global locks)
    exiting: Vec<i64>,
    lags: Vec<u64>,
    lag_not: usize,
}

pub struct World {
    st: UnsafeCell<St>,
    done: AtomicU32,
}
unsafe impl Sync for World {}
unsafe impl Send for World {}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    /// all threads ended
    Clean,
    /// body done, but other threads kept running past the horizon
    Leaked,
    /// every unfinished thread blocked for ever
    Deadlock(String),
    /// step or time horizon passed before the body ended
    Horizon(String),
}

pub struct Outcome {
    pub end: End,
    pub points: Vec<Pt>,
    pub panics: Vec<String>,
    pub steps: u64,
    pub trace: Vec<Ev>,
    pub log: Vec<(u32, u64, String)>,
}

impl World {
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut St {
        unsafe { &mut *self.st.get() }
    }
}

fn wait_word(w: &AtomicU32) {
    loop {
        if w.load(Ordering::Acquire) == 1 {
            w.store(0, Ordering::Relaxed);
            return;
        }
        sys::futex_wait(w as *const _ as *const u32, 0);
    }
}
fn post_word(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    sys::futex_wake(w as *const _ as *const u32, 1);
}

/// Panics inside of controlled threads are recorded, not printed.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if let Some(w) = cur() {
            w.st().panics.push(format!("t{}: {}", tid(), info));
        } else if !HUSH.with(|q| q.get()) {
            old(info)
        }
    }));
}
/// Suppress panic messages of this thread (sequential checks that expect panics)
pub fn quiet_panics(on: bool) {
    HUSH.with(|q| q.set(on));
}

fn cur() -> Option<&'static World> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
pub fn controlled() -> bool {
    cur().is_some()
}

/// virtual now (ns) if controlled or in sequential virtual time
pub fn vnow() -> Option<u64> {
    if let Some(w) = cur() {
        return Some(w.st().now);
    }
    let s = SEQ.with(|s| s.get());
    if s != 0 {
        Some(s)
    } else {
        None
    }
}
/// Advance the virtual clock from a controlled thread without a scheduling point.
pub fn advance(ns: u64) {
    if let Some(w) = cur() {
        w.st().now += ns;
        wake_due(w.st());
    } else {
        seq_advance(ns)
    }
}

/// Append to the execution's log (only the running thread may; no point).
pub fn log(s: impl Into<String>) {
    if let Some(w) = cur() {
        let st = w.st();
        let now = st.now;
        st.log.push((tid() as u32, now, s.into()));
    }
}
/// cheap numeric log
pub fn val(kind: u32, a: u64, b: u64) {
    if let Some(w) = cur() {
        w.st().vals.push((kind, a, b));
    }
}
pub fn vals() -> Vec<(u32, u64, u64)> {
    cur().map(|w| w.st().vals.clone()).unwrap_or_default()
}
pub fn panics() -> Vec<String> {
    cur().map(|w| w.st().panics.clone()).unwrap_or_default()
}

fn wake_due(st: &mut St) {
    let now = st.now;
    for t in st.threads.iter_mut() {
        match t.status {
            Status::Sleeping(d) if d <= now => t.status = Status::Runnable,
            Status::Futex {
                deadline: Some(d), ..
            } if d <= now => {
                t.status = Status::Runnable;
                t.timed_out = true;
            }
            _ => {}
        }
    }
}

fn reap(w: &World) {
    let st = w.st();
    while let Some(t) = st.exiting.pop() {
        sys::wait_gone(t);
    }
}

fn describe(st: &St) -> String {
    let mut s = String::new();
    for (i, t) in st.threads.iter().enumerate() {
        s.push_str(&format!("t{}:{} ", i, match t.status {
            Status::Runnable => "runnable".to_string(),
            Status::Sleeping(d) => format!("sleeping until +{}ns", d - T0),
            Status::Fair(d) => format!("waiting until +{}ns", d - T0),
            Status::Futex { deadline, .. } => format!("blocked{}", if deadline.is_some() { " (timeout)" } else { "" }),
            Status::Join(j) => format!("joining t{}", j),
            Status::Finished => "finished".to_string(),
        }));
    }
    s
}

/// Chooses the next thread. `me_ok`: the current thread could go on.
/// None: nobody can run.
fn choose(w: &World, me: usize, kind: u32) -> Option<usize> {
    let st = w.st();
    st.steps += 1;
    let me_ok = st.threads[me].status == Status::Runnable;
    let mut opts: [(usize, u64, u8); 8] = [(0, 0, 0); 8];
    let mut n = 0usize;
    let nt = st.threads.len();
    if me_ok {
        opts[n] = (me, 0, 0);
        n += 1;
    }
    let c = if me_ok { 1 } else { 0 };
    for k in 1..nt {
        let i = (me + k) % nt;
        if st.threads[i].status == Status::Runnable && n < 8 {
            opts[n] = (i, 0, c);
            n += 1;
        }
    }
    let any = n > 0;
    // sleepers: letting time pass up to their deadline
    let first = n;
    for i in 0..nt {
        let d = match st.threads[i].status {
            Status::Sleeping(d) => d,
            Status::Futex {
                deadline: Some(d), ..
            } => d,
            _ => continue,
        };
        if n < 8 {
            opts[n] = (i, d, 1);
            n += 1;
        }
    }
    opts[first..n].sort_by_key(|o| (o.1, o.0));
    if !any {
        // a fair wait ends only if nothing else can happen before
        for i in 0..nt {
            if let Status::Fair(d) = st.threads[i].status {
                if n == 0 || opts[..n].iter().all(|o| o.1 > d) {
                    opts[0] = (i, d, 0);
                    n = 1;
                }
            }
        }
    }
    if !any && n > 0 {
        let min = opts[0].1;
        for o in opts[..n].iter_mut() {
            o.2 = if o.1 == min { 0 } else { 1 };
        }
    }
    if n == 0 {
        return None;
    }
    let mut pick = 0usize;
    if n > 1 {
        let at = st.points.len();
        if at < st.prefix.len() {
            pick = st.prefix[at] as usize;
            if pick >= n {
                eprintln!("ENGINE ERROR: divergence while replaying: option {} of {} at point {}", pick, n, at);
                sys::exit_now(2);
            }
        }
        let mut costs = [0u8; 8];
        for i in 0..n {
            costs[i] = opts[i].2;
        }
        let sig = (me as u32) << 24 | (kind & 0xff) << 16 | (n as u32) << 8 | opts[n - 1].0 as u32;
        st.points.push(Pt {
            n: n as u8,
            chosen: pick as u8,
            costs,
            sig,
        });
    }
    let (t, d, _) = opts[pick];
    if st.threads[t].status != Status::Runnable {
        if let Status::Fair(_) = st.threads[t].status {
            st.threads[t].status = Status::Runnable;
        }
        st.now = st.now.max(d);
        st.jumps += 1;
        wake_due(st);
    }
    if let Some(tr) = st.trace.as_mut() {
        tr.push(Ev {
            tid: t as u32,
            kind,
            now: st.now,
        });
    }
    if st.main_done {
        st.after_main += 1;
    }
    Some(t)
}

/// Park this thread for ever (an abandoned execution).
fn park_forever() -> ! {
    CUR.with(|c| c.set(null()));
    let w = AtomicU32::new(0);
    loop {
        sys::futex_wait(&w as *const _ as *const u32, 0);
    }
}

fn horizon(w: &World) -> Option<String> {
    let st = w.st();
    if st.steps > st.max_steps || st.jumps > st.max_jumps {
        Some(format!("steps={} time jumps={} {}", st.steps, st.jumps, describe(st)))
    } else if st.main_done && st.after_main > (st.max_steps / 16).max(600) {
        Some("after body".to_string())
    } else {
        None
    }
}

fn give_up(w: &World, why: String) {
    let st = w.st();
    if st.stuck.is_none() {
        st.stuck = Some(why);
    }
    post_word(&w.done);
}

/// The running thread passes control according to the schedule; returns when it
/// is scheduled again.
fn reschedule(w: &World, me: usize, kind: u32) {
    if let Some(h) = horizon(w) {
        give_up(w, format!("H{}", h));
        park_forever();
    }
    match choose(w, me, kind) {
        Some(t) if t == me => {}
        Some(t) => {
            let my = &*w.st().threads[me].word as *const AtomicU32;
            let other = &*w.st().threads[t].word as *const AtomicU32;
            unsafe {
                post_word(&*other);
                wait_word(&*my);
            }
            reap(w);
        }
        None => {
            give_up(w, format!("D{}", describe(w.st())));
            park_forever();
        }
    }
}

/// the current thread has ended
fn finish_thread(w: &'static World, me: usize) {
    let st = w.st();
    st.threads[me].status = Status::Finished;
    for t in st.threads.iter_mut() {
        if t.status == Status::Join(me) {
            t.status = Status::Runnable;
        }
    }
    CUR.with(|c| c.set(null()));
    st.exiting.push(sys::gettid());
    if me == 0 {
        st.main_done = true;
    }
    if st.threads.iter().all(|t| t.status == Status::Finished) {
        post_word(&w.done);
        return;
    }
    if let Some(h) = horizon(w) {
        give_up(w, format!("H{}", h));
        return;
    }
    match choose(w, me, 30) {
        Some(t) => post_word(&st.threads[t].word),
        None => give_up(w, format!("D{}", describe(st))),
    }
}

/// A scheduling point of the running thread.
#[inline]
pub fn point(kind: u32) {
    if let Some(w) = cur() {
        if QUIET.with(|q| q.get()) != 0 {
            return;
        }
        let me = tid();
        let st = w.st();
        st.threads[me].poll_obj = 0;
        reschedule(w, me, kind);
    }
}

/// Run `f` without scheduling points (set-up code of a harness).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}

pub fn sleep_ns(ns: u64) {
    if let Some(w) = cur() {
        let me = tid();
        let st = w.st();
        st.threads[me].poll_obj = 0;
        st.threads[me].status = Status::Sleeping(st.now.saturating_add(ns));
        reschedule(w, me, 20);
    } else {
        seq_advance(ns)
    }
}

/// Let `ns` of virtual time pass under fair scheduling of everybody else.
pub fn fair_wait(ns: u64) {
    if let Some(w) = cur() {
        let me = tid();
        let st = w.st();
        st.threads[me].poll_obj = 0;
        st.threads[me].status = Status::Fair(st.now.saturating_add(ns));
        reschedule(w, me, 24);
    } else {
        seq_advance(ns)
    }
}

// ---- called from the instrumented crossbeam-channel ----
#[no_mangle]
pub extern "C" fn mc_point(kind: u32, _obj: usize) {
    point(kind)
}
/// the real channel operation runs without inner scheduling points
#[no_mangle]
pub extern "C" fn mc_enter() {
    QUIET.with(|q| q.set(q.get() + 1));
}
#[no_mangle]
pub extern "C" fn mc_exit() {
    QUIET.with(|q| q.set(q.get() - 1));
}
#[no_mangle]
pub extern "C" fn mc_poll_point(obj: usize) {
    if let Some(w) = cur() {
        if QUIET.with(|q| q.get()) != 0 {
            return;
        }
        let me = tid();
        let th = &mut w.st().threads[me];
        // A third and later poll in an uninterrupted row of empty polls of one
        // channel is not a point: see DESIGN.md.
        if th.poll_obj == obj && th.empties >= 2 {
            return;
        }
        reschedule(w, me, 4);
    }
}
#[no_mangle]
pub extern "C" fn mc_poll_result(obj: usize, empty: bool) {
    if let Some(w) = cur() {
        let th = &mut w.st().threads[tid()];
        if !empty {
            th.poll_obj = 0;
            th.empties = 0;
        } else if th.poll_obj == obj {
            th.empties += 1;
        } else {
            th.poll_obj = obj;
            th.empties = 1;
        }
    }
}

macro_rules! tsan {
    ($load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $cas:ident $cas_weak:ident $casval:ident $t:ty, $a:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _m: i32) -> $t {
            point(10);
            (*(p as *const $a)).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _m: i32) {
            point(11);
            (*(p as *const $a)).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _m: i32) -> $t {
            point(12);
            (*(p as *const $a)).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _m: i32) -> $t {
            point(13);
            (*(p as *const $a)).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _m: i32) -> $t {
            point(13);
            (*(p as *const $a)).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _m: i32) -> $t {
            point(13);
            (*(p as *const $a)).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _m: i32) -> $t {
            point(13);
            (*(p as *const $a)).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _m: i32) -> $t {
            point(13);
            (*(p as *const $a)).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, e: *mut $t, v: $t, _m: i32, _n: i32) -> i32 {
            point(14);
            match (*(p as *const $a)).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *e = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas_weak(p: *mut $t, e: *mut $t, v: $t, m: i32, n: i32) -> i32 {
            $cas(p, e, v, m, n)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casval(p: *mut $t, e: $t, v: $t, _m: i32, _n: i32) -> $t {
            point(14);
            match (*(p as *const $a)).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU64, AtomicU8};
tsan!(__tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val u8, AtomicU8);
tsan!(__tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val u16, AtomicU16);
tsan!(__tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val u32, AtomicU32);
tsan!(__tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val u64, AtomicU64);
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const ()) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_m: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_m: i32) {}

/// the machine code references these symbols only from instrumented crates
pub fn keep() -> usize {
    __tsan_atomic8_load as *const () as usize
        ^ __tsan_func_entry as *const () as usize
        ^ mc_point as *const () as usize
        ^ mc_poll_point as *const () as usize
        ^ mc_poll_result as *const () as usize
        ^ mc_enter as *const () as usize
        ^ mc_exit as *const () as usize
}

pub struct Limits {
    pub max_steps: u64,
    pub max_jumps: u64,
}
impl Default for Limits {
    fn default() -> Self {
        Limits {
            max_steps: 6_000,
            max_jumps: 700,
        }
    }
}

pub static ABANDONED: AtomicUsize = AtomicUsize::new(0);

/// One execution of `body` under the schedule `prefix` (then default choices).
/// `body`'s value is None if it did not finish.
pub fn execute<R: Send + 'static>(
    prefix: Vec<u8>,
    lim: &Limits,
    trace: bool,
    body: impl FnOnce() -> R + Send + 'static,
) -> (Outcome, Option<R>) {
    let w = Arc::new(World {
        st: UnsafeCell::new(St {
            threads: vec![Th {
                status: Status::Runnable,
                word: Box::new(AtomicU32::new(0)),
                poll_obj: 0,
                empties: 0,
                timed_out: false,
                pthread: 0,
            }],
            now: T0,
            prefix,
            points: Vec::with_capacity(256),
            steps: 0,
            jumps: 0,
            max_steps: lim.max_steps,
            max_jumps: lim.max_jumps,
            trace: if trace { Some(Vec::new()) } else { None },
            stuck: None,
            panics: Vec::new(),
            after_main: 0,
            main_done: false,
            log: Vec::new(),
            vals: Vec::new(),
            exiting: Vec::new(),
            lags: Vec::new(),
            lag_not: 0,
        }),
        done: AtomicU32::new(0),
    });
    let slot: Arc<Mutex<Option<R>>> = Arc::new(Mutex::new(None));
    let w2 = w.clone();
    let slot2 = slot.clone();
    let jh = std::thread::Builder::new()
        .name("body".into())
        .stack_size(512 * 1024)
        .spawn(move || {
            let wp: &'static World = unsafe { &*(&*w2 as *const World) };
            let _ = std::thread::current(); // create the handle before control starts
            CUR.with(|c| c.set(wp));
            TID.with(|t| t.set(0));
            RNG.with(|t| t.set(1));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
            CUR.with(|c| c.set(null()));
            if let Ok(r) = r {
                *slot2.lock().unwrap() = Some(r);
            }
            drop(slot2);
            CUR.with(|c| c.set(wp));
            finish_thread(wp, 0);
            drop(w2);
        })
        .expect("spawn body");
    wait_word(&w.done);
    reap(&w);
    let st = w.st();
    let clean = st.stuck.is_none();
    let main_done = st.main_done;
    let end = match st.stuck.take() {
        None => End::Clean,
        Some(s) => {
            if main_done {
                End::Leaked
            } else if let Some(x) = s.strip_prefix('D') {
                End::Deadlock(x.to_string())
            } else {
                End::Horizon(s[1..].to_string())
            }
        }
    };
    if clean || main_done {
        let _ = jh.join();
    }
    let out = Outcome {
        end,
        points: std::mem::take(&mut st.points),
        panics: std::mem::take(&mut st.panics),
        steps: st.steps,
        trace: st.trace.take().unwrap_or_default(),
        log: std::mem::take(&mut st.log),
    };
    if !clean {
        ABANDONED.fetch_add(1, Ordering::Relaxed);
        std::mem::forget(w.clone());
    }
    let r = slot.lock().unwrap().take();
    (out, r)
}
