//! Ownership of the process environment: the wall clock and the system entropy source.
//!
//! `own_environment!()` in a harness binary defines `clock_gettime` and `syscall`, which take
//! precedence over libc's, so every reading of the wall clock and every draw of system entropy by
//! code in the process (std, getrandom) is answered from a per-thread script when one is set.
//! Everything else is forwarded to the kernel untouched.
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Entropy {
    /// All zero bytes, forever.
    Zero,
    /// These bytes first, then a pseudo-random stream derived from the seed.
    Script { head: Vec<u8>, seed: u64 },
    /// The n-th request fails with EIO from the n-th draw on (0 = always).
    Fail { after: u32 },
}

#[derive(Default)]
pub struct Env {
    /// Successive readings of the wall clock (seconds, nanoseconds); the last one repeats.
    pub clock: Option<Vec<(i64, i64)>>,
    pub clock_reads: usize,
    pub entropy: Option<Entropy>,
    pub entropy_pos: usize,
    pub entropy_calls: u32,
    pub entropy_bytes: usize,
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
}

/// Installs a script on this thread, replacing any previous one.
pub fn set(clock: Option<Vec<(i64, i64)>>, entropy: Option<Entropy>) {
    ENV.with(|e| *e.borrow_mut() = Env { clock, entropy, ..Env::default() });
}
pub fn set_clock(clock: Vec<(i64, i64)>) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        e.clock = Some(clock);
        e.clock_reads = 0;
    });
}
pub fn clear() {
    set(None, None)
}
/// (clock readings, entropy draws, entropy bytes) since `set`.
pub fn usage() -> (usize, u32, usize) {
    ENV.with(|e| {
        let e = e.borrow();
        (e.clock_reads, e.entropy_calls, e.entropy_bytes)
    })
}

pub fn stream(seed: u64, i: usize) -> u8 {
    let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15u64.wrapping_mul(1 + (i as u64) / 8));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^= z >> 31;
    (z >> (8 * (i % 8))) as u8
}

/// Answers a draw of `len` bytes, or `None` if this thread has no script.
///
/// # Safety
/// `buf` must be valid for `len` bytes.
pub unsafe fn entropy(buf: *mut u8, len: usize) -> Option<isize> {
    ENV.try_with(|e| {
        let mut e = e.try_borrow_mut().ok()?;
        let src = e.entropy.clone()?;
        e.entropy_calls += 1;
        e.entropy_bytes += len;
        let out = std::slice::from_raw_parts_mut(buf, len);
        match src {
            Entropy::Zero => out.fill(0),
            Entropy::Script { head, seed } => {
                for (i, o) in out.iter_mut().enumerate() {
                    let p = e.entropy_pos + i;
                    *o = if p < head.len() { head[p] } else { stream(seed, p - head.len()) };
                }
                e.entropy_pos += len;
            }
            Entropy::Fail { after } => {
                if e.entropy_calls > after {
                    return Some(-5);
                }
                for (i, o) in out.iter_mut().enumerate() {
                    *o = stream(7, e.entropy_pos + i);
                }
                e.entropy_pos += len;
            }
        }
        Some(len as isize)
    })
    .ok()
    .flatten()
}

pub fn wall_clock() -> Option<(i64, i64)> {
    ENV.try_with(|e| {
        let mut e = e.try_borrow_mut().ok()?;
        let n = e.clock_reads;
        let c = e.clock.as_ref()?;
        let r = c[n.min(c.len() - 1)];
        e.clock_reads += 1;
        Some(r)
    })
    .ok()
    .flatten()
}

/// # Safety
/// As the system call itself.
#[cfg(target_arch = "x86_64")]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

extern "C" {
    pub fn __errno_location() -> *mut i32;
}

#[macro_export]
macro_rules! own_environment {
    () => {
        #[no_mangle]
        pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
            if id == 0 {
                if let Some((s, n)) = $crate::env::wall_clock() {
                    *ts = [s, n];
                    return 0;
                }
            }
            let r = $crate::env::raw(228, id as i64, ts as i64, 0, 0, 0, 0);
            if r < 0 {
                *$crate::env::__errno_location() = -r as i32;
                return -1;
            }
            0
        }
        #[no_mangle]
        pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            let mut r = None;
            if n == 318 {
                r = $crate::env::entropy(a as *mut u8, b as usize).map(|x| x as i64);
            }
            let r = match r {
                Some(r) => r,
                None => $crate::env::raw(n, a, b, c, d, e, f),
            };
            if r < 0 {
                *$crate::env::__errno_location() = -r as i32;
                return -1;
            }
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
            syscall(318, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
        }
    };
}
