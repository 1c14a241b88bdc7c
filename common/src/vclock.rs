//! Virtual time. The binary's own `clock_gettime` and `epoll_wait` shadow libc's, so that
//! `Utc::now()`, `Instant::now()`, tokio timers and cron all run on one virtual clock that jumps
//! forward whenever the (single-threaded) runtime has nothing left to do.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

const MONO_BASE: u64 = 1_000_000_000_000_000; // ns; far above any real uptime
static ENABLED: AtomicBool = AtomicBool::new(false);
static MONO: AtomicU64 = AtomicU64::new(MONO_BASE);
static REAL_OFF: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
/// When non-zero, the number of real milliseconds to wait for other threads before time jumps.
static PATIENCE_MS: AtomicU64 = AtomicU64::new(0);
static PARKS: AtomicU64 = AtomicU64::new(0);
/// Work pending in other (real) threads: time must not jump while non-zero.
static BUSY: AtomicI64 = AtomicI64::new(0);

const TICK: u64 = 1_000;
const READ_BUDGET: u64 = 3_000_000;

fn tick() -> u64 {
    let reads = READS.fetch_add(1, Relaxed);
    // A task spinning on the clock must not stall virtual time for ever.
    let step = if reads > READ_BUDGET { 1_000_000 } else { TICK };
    MONO.fetch_add(step, Relaxed) + step
}

/// Start of a case: the virtual wall clock is set to `epoch_ns` (ns since 1970) and the
/// monotonic clock moves on to the next whole second.
pub fn reset(epoch_ns: i64) {
    ENABLED.store(true, SeqCst);
    READS.store(0, Relaxed);
    PATIENCE_MS.store(0, Relaxed);
    BUSY.store(0, Relaxed);
    let m = (MONO.load(SeqCst) / 1_000_000_000 + 2) * 1_000_000_000;
    MONO.store(m, SeqCst);
    REAL_OFF.store(epoch_ns - m as i64, SeqCst);
}

pub fn set_patience_ms(ms: u64) {
    PATIENCE_MS.store(ms, Relaxed);
}
pub fn busy(delta: i64) {
    BUSY.fetch_add(delta, SeqCst);
}
/// Current virtual wall clock without advancing it.
pub fn now_ns() -> i64 {
    MONO.load(SeqCst) as i64 + REAL_OFF.load(SeqCst)
}
/// Moves the clock forward.
pub fn advance(ns: u64) {
    MONO.fetch_add(ns, SeqCst);
}
pub fn spinning() -> bool {
    READS.load(Relaxed) > READ_BUDGET
}

/// Real time, for budgets only.
pub fn real_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
pub fn real_sleep_ms(ms: u64) {
    let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe { libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>()) };
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ENABLED.load(Relaxed) {
        match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                let v = tick() as i64 + REAL_OFF.load(Relaxed);
                unsafe {
                    (*ts).tv_sec = v.div_euclid(1_000_000_000);
                    (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
                }
                return 0;
            }
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_BOOTTIME => {
                let v = tick();
                unsafe {
                    (*ts).tv_sec = (v / 1_000_000_000) as i64;
                    (*ts).tv_nsec = (v % 1_000_000_000) as i64;
                }
                return 0;
            }
            _ => {}
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

unsafe fn raw_epoll_wait(
    epfd: libc::c_int,
    events: *mut libc::epoll_event,
    max: libc::c_int,
    timeout: libc::c_int,
) -> libc::c_int {
    unsafe {
        libc::syscall(
            libc::SYS_epoll_pwait,
            epfd,
            events,
            max,
            timeout,
            std::ptr::null::<libc::sigset_t>(),
            8usize,
        ) as libc::c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_wait(
    epfd: libc::c_int,
    events: *mut libc::epoll_event,
    max: libc::c_int,
    timeout: libc::c_int,
) -> libc::c_int {
    unsafe {
        if !ENABLED.load(Relaxed) || timeout == 0 {
            return raw_epoll_wait(epfd, events, max, timeout);
        }
        PARKS.fetch_add(1, Relaxed);
        let n = raw_epoll_wait(epfd, events, max, 0);
        if n != 0 {
            return n;
        }
        // Let other threads finish what they are doing before time moves.
        let mut since = 0;
        while BUSY.load(SeqCst) > 0 {
            let n = raw_epoll_wait(epfd, events, max, 1);
            if n != 0 {
                return n;
            }
            // Give up (for good, in this case) if nothing happens for a long time.
            let now = real_ms();
            if since == 0 {
                since = now;
            } else if now - since > 15_000 {
                BUSY.store(i64::MIN / 2, SeqCst);
            }
        }
        let patience = PATIENCE_MS.load(Relaxed);
        if patience > 0 {
            let n = raw_epoll_wait(epfd, events, max, patience as libc::c_int);
            if n != 0 {
                return n;
            }
        }
        if timeout > 0 {
            MONO.fetch_add(timeout as u64 * 1_000_000, SeqCst);
            return 0;
        }
        raw_epoll_wait(epfd, events, max, 1000)
    }
}

// ---- deterministic randomness for the code under test (rand, HashMap keys) ----
static RNG: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);
static RNG_ON: AtomicBool = AtomicBool::new(false);
pub fn seed_random(seed: u64) {
    RNG.store(seed ^ 0x9E3779B97F4A7C15, SeqCst);
    RNG_ON.store(true, SeqCst);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    unsafe {
        if !RNG_ON.load(Relaxed) {
            return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
        }
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for b in out.iter_mut() {
            let mut z = RNG.fetch_add(0x9E3779B97F4A7C15, SeqCst).wrapping_add(0x9E3779B97F4A7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *b = (z ^ (z >> 31)) as u8;
        }
        len as libc::ssize_t
    }
}
