//! Other surroundings for a compilation: what it would learn from the
//! environment, the clocks, the process and the file system is made up while
//! `within` runs (on the same thread). The functions here stand in for those
//! of the C library that the standard library calls. They are only there in the
//! check of C21.

use std::cell::Cell;
#[cfg(all(target_os = "linux", rescan_check = "C21"))]
use std::ffi::{c_char, c_int, c_long};
use std::ffi::CStr;

thread_local! {
    /// What to make up, and the number of answers so far; 0 is the truth.
    static STATE: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

struct Restore((u64, u64));

impl Drop for Restore {
    fn drop(&mut self) {
        let _ = STATE.try_with(|s| s.set(self.0));
    }
}

/// Runs it in surroundings number `seed`; those with number 0 are real.
/// Returns how often it looked at them, too.
pub fn within<T>(seed: u64, f: impl FnOnce() -> T) -> (T, u64) {
    let _restore = Restore(STATE.with(|s| s.replace((seed, 0))));
    let r = f();
    (r, STATE.with(Cell::get).1)
}

/// A number for the next answer.
fn next() -> Option<(u64, u64)> {
    STATE
        .try_with(|s| {
            let (seed, n) = s.get();
            if seed == 0 {
                return None;
            }
            s.set((seed, n + 1));
            Some((seed, n))
        })
        .ok()
        .flatten()
}

fn mix(seed: u64, what: u64) -> u64 {
    crate::engine::mix(seed ^ what.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

const VALUES: [&CStr; 14] = [
    c"1", c"0", c"", c"true", c"false", c"yes", c"no", c"on", c"off", c"2", c"16", c"1000", c"debug", c"/",
];

#[cfg(all(target_os = "linux", rescan_check = "C21"))]
mod stand_ins {
    use super::{c_char, c_int, c_long, mix, next, CStr, VALUES};

    extern "C" {
        static environ: *const *const c_char;
        fn syscall(number: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
        fn memfd_create(name: *const c_char, flags: u32) -> c_int;
        fn write(fd: c_int, data: *const u8, len: usize) -> isize;
        fn lseek(fd: c_int, offset: i64, whence: c_int) -> i64;
    }

    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let name = CStr::from_ptr(name).to_bytes();
        if !name.starts_with(b"RUST_") {
            if let Some((seed, _)) = next() {
                // The same name always has the same value.
                let h = name.iter().fold(seed, |h, &c| mix(h, u64::from(c)));
                return match h % 16 {
                    k @ 0..=13 => VALUES[k as usize].as_ptr().cast_mut(),
                    _ => std::ptr::null_mut(),
                };
            }
        }
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let entry = CStr::from_ptr(*p).to_bytes();
            if entry.len() > name.len() && entry.starts_with(name) && entry[name.len()] == b'=' {
                return (*p).add(name.len() + 1).cast_mut();
            }
            p = p.add(1);
        }
        std::ptr::null_mut()
    }

    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }

    #[cfg(target_arch = "x86_64")]
    mod number {
        pub const CLOCK_GETTIME: super::c_long = 228;
        pub const GETPID: super::c_long = 39;
        pub const OPENAT: super::c_long = 257;
        pub const SCHED_GETAFFINITY: super::c_long = 204;
    }
    #[cfg(target_arch = "aarch64")]
    mod number {
        pub const CLOCK_GETTIME: super::c_long = 113;
        pub const GETPID: super::c_long = 172;
        pub const OPENAT: super::c_long = 56;
        pub const SCHED_GETAFFINITY: super::c_long = 123;
    }

    #[no_mangle]
    unsafe extern "C" fn clock_gettime(clock: c_int, out: *mut Timespec) -> c_int {
        let Some((seed, n)) = next() else {
            return syscall(number::CLOCK_GETTIME, c_long::from(clock), out) as c_int;
        };
        const START: [u64; 8] =
            [0, 59, 86_399, 951_782_400, 1_709_164_800, 1 << 31, 4_102_444_799, 1_000_000_000];
        const STEP: [u64; 6] = [0, 1, 1_000_000, 1_000_000_000, 60_000_000_000, 86_400_000_000_000];
        let h = mix(seed, 1);
        let start = match h % 12 {
            k @ 0..=7 => START[k as usize],
            _ => (h >> 8) % (1 << 33),
        };
        let step = STEP[(h >> 48) as usize % 6];
        let ns = n * step + (h >> 20) % 1_000_000_000;
        *out = Timespec {
            sec: (start + ns / 1_000_000_000) as i64,
            nsec: (ns % 1_000_000_000) as i64,
        };
        0
    }

    #[no_mangle]
    unsafe extern "C" fn getpid() -> c_int {
        match next() {
            None => syscall(number::GETPID) as c_int,
            Some((seed, _)) => 1 + (mix(seed, 2) % 4_000_000) as c_int,
        }
    }

    #[no_mangle]
    unsafe extern "C" fn sched_getaffinity(pid: c_int, len: usize, out: *mut u8) -> c_int {
        if let Some((seed, _)) = next() {
            std::ptr::write_bytes(out, 0, len);
            let n = (1 + mix(seed, 3) as usize % 200).min(len * 8);
            for k in 0..n {
                *out.add(k / 8) |= 1 << (k % 8);
            }
            return 0;
        }
        let r = syscall(number::SCHED_GETAFFINITY, c_long::from(pid), len, out);
        if r < 0 {
            return -1;
        }
        std::ptr::write_bytes(out.add(r as usize), 0, len - r as usize);
        0
    }

    #[no_mangle]
    unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
        const AT_FDCWD: c_long = -100;
        let Some((seed, _)) = next() else {
            return syscall(number::OPENAT, AT_FDCWD, path, c_long::from(flags), mode as c_long) as c_int;
        };
        // There is no such file, or one with something in it.
        let h = mix(seed, 4);
        if h % 3 == 0 {
            const ENOENT: c_int = 2;
            *__errno_location() = ENOENT;
            return -1;
        }
        const CLOEXEC: u32 = 1;
        let fd = memfd_create(c"file".as_ptr(), CLOEXEC);
        if fd >= 0 {
            let text = VALUES[(h >> 8) as usize % VALUES.len()].to_bytes();
            write(fd, text.as_ptr(), text.len());
            lseek(fd, 0, 0);
        }
        fd
    }
}

/// Whether the stand-ins are in use.
pub fn works() -> bool {
    let asked = |f: &dyn Fn()| within(1, f).1 > 0;
    asked(&|| drop(std::env::var_os("HOME")))
        && asked(&|| drop(std::time::SystemTime::now()))
        && asked(&|| drop(std::time::Instant::now()))
        && asked(&|| drop(std::process::id()))
        && asked(&|| drop(std::fs::read("/nonexistent")))
}
