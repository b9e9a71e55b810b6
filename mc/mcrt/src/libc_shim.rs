//! Interposed libc entry points. The executable's definitions take precedence
//! over libc's for all references from std and from every crate linked in.
use super::*;
use std::os::raw::{c_int, c_long, c_void};

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}

extern "C" {
    fn dlsym(h: *mut c_void, name: *const u8) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}
unsafe fn next(name: &'static [u8], slot: &AtomicUsize) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = dlsym(usize::MAX as *mut c_void, name.as_ptr()) as usize; // RTLD_NEXT
    if p == 0 {
        sys::exit_now(3);
    }
    slot.store(p, Ordering::Relaxed);
    p
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut Ts) -> c_int {
    if let Some(n) = clock_read() {
        (*ts).s = (n / SEC) as i64;
        (*ts).n = (n % SEC) as i64;
        return 0;
    }
    let r = sys::raw6(228, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    0
}

#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> c_int {
    if cur().is_some() || SEQ.with(|s| s.get()) != 0 {
        sleep_ns(((*req).s as u64).saturating_mul(SEC).saturating_add((*req).n as u64));
        return 0;
    }
    let r = sys::raw6(35, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    0
}

#[no_mangle]
unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const Ts, rem: *mut Ts) -> c_int {
    if let Some(now) = vnow() {
        let t = ((*req).s as u64).saturating_mul(SEC).saturating_add((*req).n as u64);
        if flags & 1 != 0 {
            sleep_ns(t.saturating_sub(now));
        } else {
            sleep_ns(t);
        }
        return 0;
    }
    -sys::raw6(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int
}

#[no_mangle]
unsafe extern "C" fn sched_yield() -> c_int {
    if cur().is_some() {
        sleep_ns(1000);
        return 0;
    }
    sys::raw6(24, 0, 0, 0, 0, 0, 0);
    0
}

fn fill(p: *mut u8, n: usize) {
    RNG.with(|r| {
        let mut x = r.get();
        for i in 0..n {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            unsafe { *p.add(i) = (x >> 33) as u8 };
        }
        r.set(x);
    })
}

#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if vnow().is_some() {
        fill(p, n);
        return n as isize;
    }
    let r = sys::raw6(318, p as i64, n as i64, flags as i64, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r as isize
}

#[no_mangle]
unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == 202 {
        if let Some(w) = cur() {
            return futex(w, a as usize, b as i32, c as u32, d as *const Ts, f as u32);
        }
    }
    if n == 318 && vnow().is_some() {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let r = sys::raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r
}

unsafe fn futex(w: &'static World, addr: usize, op: i32, val: u32, ts: *const Ts, val3: u32) -> c_long {
    let cmd = op & 0x7f;
    let me = tid();
    match cmd {
        0 | 9 => {
            // FUTEX_WAIT / FUTEX_WAIT_BITSET
            let word = &*(addr as *const AtomicU32);
            if word.load(Ordering::SeqCst) != val {
                *__errno_location() = 11;
                return -1;
            }
            let st = w.st();
            let deadline = if ts.is_null() {
                None
            } else {
                let t = ((*ts).s as u64).saturating_mul(SEC).saturating_add((*ts).n as u64);
                Some(if cmd == 9 { t } else { st.now.saturating_add(t) })
            };
            st.threads[me].poll_obj = 0;
            st.threads[me].timed_out = false;
            st.threads[me].status = Status::Futex {
                addr,
                mask: if cmd == 9 { val3 } else { !0 },
                deadline,
            };
            reschedule(w, me, 21);
            let st = w.st();
            if st.threads[me].timed_out {
                st.threads[me].timed_out = false;
                *__errno_location() = 110;
                return -1;
            }
            0
        }
        1 | 10 => {
            let mask = if cmd == 10 { val3 } else { !0 };
            let mut n = 0;
            for t in w.st().threads.iter_mut() {
                if n as u64 >= val as i32 as i64 as u64 {
                    break;
                }
                if let Status::Futex { addr: a, mask: m, .. } = t.status {
                    if a == addr && m & mask != 0 {
                        t.status = Status::Runnable;
                        n += 1;
                    }
                }
            }
            n
        }
        _ => {
            eprintln!("ENGINE ERROR: unsupported futex op {}", op);
            sys::exit_now(2)
        }
    }
}

type StartFn = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    world: &'static World,
    tid: usize,
    start: StartFn,
    arg: *mut c_void,
    // the word's (stable, boxed) address: the child must not touch the thread
    // table before it is scheduled
    word: *const AtomicU32,
}
unsafe extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = Box::from_raw(p as *mut Tramp);
    wait_word(&*t.word);
    CUR.with(|c| c.set(t.world));
    TID.with(|c| c.set(t.tid));
    reap(t.world);
    RNG.with(|r| r.set(t.tid as u64 + 1));
    let r = (t.start)(t.arg);
    finish_thread(t.world, t.tid);
    r
}

static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
unsafe extern "C" fn pthread_create(
    th: *mut usize,
    attr: *const c_void,
    start: StartFn,
    arg: *mut c_void,
) -> c_int {
    let real: unsafe extern "C" fn(*mut usize, *const c_void, StartFn, *mut c_void) -> c_int =
        std::mem::transmute(next(b"pthread_create\0", &REAL_CREATE));
    let w = match cur() {
        None => return real(th, attr, start, arg),
        Some(w) => w,
    };
    let id = w.st().threads.len();
    // the vector may move, but the words are boxed; only the running thread touches it
    w.st().threads.push(Th {
        status: Status::Runnable,
        word: Box::new(AtomicU32::new(0)),
        poll_obj: 0,
        empties: 0,
        timed_out: false,
        pthread: 0,
    });
    let word = &*w.st().threads[id].word as *const AtomicU32;
    let t = Box::into_raw(Box::new(Tramp {
        world: w,
        tid: id,
        start,
        arg,
        word,
    }));
    let r = real(th, attr, tramp, t as *mut c_void);
    if r != 0 {
        w.st().threads.pop();
        drop(Box::from_raw(t));
        return r;
    }
    w.st().threads[id].pthread = *th;
    point(22);
    0
}

#[no_mangle]
unsafe extern "C" fn pthread_join(th: usize, ret: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(usize, *mut *mut c_void) -> c_int =
        std::mem::transmute(next(b"pthread_join\0", &REAL_JOIN));
    if let Some(w) = cur() {
        let me = tid();
        let st = w.st();
        if let Some(i) = st
            .threads
            .iter()
            .rposition(|t| t.pthread == th)
        {
            st.threads[me].poll_obj = 0;
            if st.threads[i].status != Status::Finished {
                st.threads[me].status = Status::Join(i);
            }
            reschedule(w, me, 23);
        }
    }
    real(th, ret)
}
