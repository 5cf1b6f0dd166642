//! The interface between the harnesses and the symbolic executor.
//! Under `--features native` the same harnesses run concretely on a recorded model.
#[cfg(not(feature = "native"))]
mod ffi {
    extern "C" {
        pub fn sym_u8(t: u32) -> u8;
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_in(p: *const u8, n: usize) -> u8;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_assert_eq(p: *const u8, pn: usize, q: *const u8, qn: usize, c: *const u8, cn: usize);
        pub fn sym_observe(p: *const u8, n: usize);
        pub fn sym_finding(p: *const u8, n: usize);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_concrete(p: *const u8, n: usize);
        pub fn sym_file(p: *const u8, n: usize);
        pub fn sym_size(n: u64);
        pub fn sym_failed() -> bool;
        pub fn sym_done() -> !;
        pub fn sym_restart();
        pub fn sym_out(which: u32, p: *mut u8, cap: usize) -> usize;
    }
}
#[cfg(feature = "native")]
pub mod ffi {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec {
        pub model: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u8>,
        pub viol: Vec<String>,
        pub find: Vec<String>,
        pub verbose: bool,
        /// the only file there is, and how much of it has been read
        pub file: Option<(Vec<u8>, usize)>,
        /// what the system says about its size
        pub size: u64,
        pub failed: bool,
        /// standard output no longer works, and may hold on to what it could not print
        pub stuck: bool,
        /// the harness is running: its files and outputs are the recorded ones
        pub active: bool,
        /// standard output, the output file
        pub outs: [Option<Vec<u8>>; 2],
    }
    /// what `exit` does once the harness has had its say
    pub static DONE: std::sync::Mutex<Option<fn()>> = std::sync::Mutex::new(None);
    pub unsafe fn sym_done() -> ! {
        let f = DONE.lock().unwrap().take();
        if let Some(f) = f {
            f();
        }
        leave(0)
    }
    pub fn apart<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> {
        extern "C" {
            fn pipe(p: *mut i32) -> i32;
            fn fork() -> i32;
            fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
        }
        let mut p = [0i32; 2];
        unsafe {
            assert!(pipe(p.as_mut_ptr()) == 0);
            let c = fork();
            assert!(c >= 0);
            if c == 0 {
                let r = f();
                let mut k = 0;
                while k < r.len() {
                    let n = raw(1, p[1] as usize, r.as_ptr() as usize + k, r.len() - k, 0);
                    if n <= 0 {
                        leave(1);
                    }
                    k += n as usize;
                }
                leave(0);
            }
            raw(3, p[1] as usize, 0, 0, 0);
            let mut r = vec![];
            let mut b = [0u8; 4096];
            loop {
                let n = raw(0, p[0] as usize, b.as_mut_ptr() as usize, b.len(), 0);
                if n <= 0 {
                    break;
                }
                r.extend_from_slice(&b[..n as usize]);
            }
            raw(3, p[0] as usize, 0, 0, 0);
            let mut s = 0;
            waitpid(c, &mut s, 0);
            if s != 0 {
                panic!("the other process failed");
            }
            r
        }
    }
    pub fn leave(code: i32) -> ! {
        unsafe { raw(231, code as usize, 0, 0, 0) };
        loop {}
    }
    /// past any buffer
    pub fn print(s: &str) {
        unsafe { raw(1, 1, s.as_ptr() as usize, s.len(), 0) };
    }
    pub fn active() -> bool {
        REC.with(|r| r.borrow().active)
    }
    pub unsafe fn sym_out(which: u32, p: *mut u8, cap: usize) -> usize {
        REC.with(|r| match &r.borrow().outs[which as usize] {
            None => usize::MAX,
            Some(d) => {
                std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len().min(cap));
                d.len()
            }
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        let on = REC.try_with(|r| r.try_borrow().map_or(false, |r| r.active)).unwrap_or(false);
        if !on || (fd != 1 && fd != 78) {
            if on && fd == 2 {
                return n as isize;
            }
            return raw(1, fd as usize, buf as usize, n, 0);
        }
        let mut take = n;
        if n > 0 {
            match next() {
                1 => take = 1,
                2 => take = n / 2,
                3 => take = n - 1,
                4 => {
                    *__errno_location() = 4;
                    return -1;
                }
                5 => {
                    *__errno_location() = 28;
                    REC.with(|r| {
                        r.borrow_mut().obs.push(0xEF);
                        r.borrow_mut().failed = true;
                        r.borrow_mut().stuck |= fd == 1;
                    });
                    return -1;
                }
                _ => {}
            }
        }
        REC.with(|r| r.borrow_mut().outs[if fd == 1 { 0 } else { 1 }].get_or_insert(vec![]).extend(s(buf, take)));
        take as isize
    }
    pub unsafe fn sym_failed() -> bool {
        REC.with(|r| r.borrow().failed)
    }
    pub unsafe fn sym_file(p: *const u8, n: usize) {
        REC.with(|r| r.borrow_mut().file = Some((s(p, n).to_vec(), 0)));
        sym_size(n as u64)
    }
    pub unsafe fn sym_size(n: u64) {
        REC.with(|r| r.borrow_mut().size = n)
    }
    fn is_file(fd: i32) -> bool {
        fd == 77 && REC.try_with(|r| r.try_borrow().map_or(false, |r| r.file.is_some())).unwrap_or(false)
    }
    unsafe fn put_stat(p: *mut u8) {
        std::ptr::write_bytes(p, 0, 144);
        (p.add(24) as *mut u32).write_unaligned(0o100644);
        (p.add(48) as *mut u64).write_unaligned(REC.with(|r| r.borrow().size));
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstat64(fd: i32, p: *mut u8) -> i32 {
        if is_file(fd) {
            put_stat(p);
            return 0;
        }
        raw(5, fd as usize, p as usize, 0, 0) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn stat64(path: *const u8, p: *mut u8) -> i32 {
        if !on() {
            return raw(4, path as usize, p as usize, 0, 0) as i32;
        }
        if std::ffi::CStr::from_ptr(path as *const _).to_bytes() == super::FILE.as_bytes() && REC.with(|r| r.borrow().file.is_some()) {
            put_stat(p);
            return 0;
        }
        *__errno_location() = 2;
        -1
    }
    #[no_mangle]
    pub unsafe extern "C" fn lstat64(path: *const u8, p: *mut u8) -> i32 {
        stat64(path, p)
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, p: *mut u8) -> i32 {
        if !on() {
            let r: isize;
            std::arch::asm!("syscall", inlateout("rax") 332isize => r, in("rdi") dir as isize, in("rsi") path, in("rdx") flags as usize, in("r10") mask as usize, in("r8") p, out("rcx") _, out("r11") _);
            if r >= 0 {
                return r as i32;
            }
            *__errno_location() = -r as i32;
            return -1;
        }
        let name = std::ffi::CStr::from_ptr(path as *const _).to_bytes();
        if (name.is_empty() && is_file(dir)) || (name == super::FILE.as_bytes() && REC.with(|r| r.borrow().file.is_some())) {
            std::ptr::write_bytes(p, 0, 256);
            (p as *mut u32).write_unaligned(0x7ff);
            (p.add(28) as *mut u16).write_unaligned(0o100644);
            (p.add(40) as *mut u64).write_unaligned(REC.with(|r| r.borrow().size));
            return 0;
        }
        *__errno_location() = if name.is_empty() { 9 } else { 2 };
        -1
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        if !is_file(fd) {
            if on() && fd == 0 {
                *__errno_location() = 29;
                return -1;
            }
            return raw(8, fd as usize, off as usize, whence as usize, 0) as i64;
        }
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let size = r.size;
            let f = r.file.as_mut().unwrap();
            let to = off.wrapping_add([0, f.1 as i64, size as i64][(whence as usize).min(2)]);
            f.1 = (to as usize).min(f.0.len());
            to
        })
    }
    /// the first part that is not empty
    unsafe fn part(v: *const [usize; 2], n: i32) -> [usize; 2] {
        for k in 0..n as usize {
            let e = *v.add(k);
            if e[1] != 0 || k == n as usize - 1 {
                return e;
            }
        }
        [1, 0]
    }
    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: i32, v: *const [usize; 2], n: i32) -> isize {
        if !on() {
            return raw(19, fd as usize, v as usize, n as usize, 0);
        }
        let [p, l] = part(v, n);
        if n == 0 { 0 } else { read(fd, p as *mut u8, l) }
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
        if !on() {
            return raw(20, fd as usize, v as usize, n as usize, 0);
        }
        let [p, l] = part(v, n);
        if n == 0 { 0 } else { write(fd, p as *const u8, l) }
    }
    fn on() -> bool {
        REC.try_with(|r| r.try_borrow().map_or(false, |r| r.active)).unwrap_or(false)
    }
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe fn raw(nr: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
        let r: isize;
        std::arch::asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, out("rcx") _, out("r11") _);
        if r < 0 {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
    /// reads of the file follow the recorded schedule: everything, less, interrupted, or an error
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, cap: usize) -> isize {
        if fd != 77 && !(fd == 0 && active()) {
            return raw(0, fd as usize, buf as usize, cap, 0);
        }
        let (data, pos) = REC.with(|r| r.borrow().file.clone().unwrap());
        let max = (data.len() - pos).min(cap);
        let v = next() as usize;
        let n = match max {
            0 => 3,
            _ if data.len() > 200 => 7,
            _ => max + 2,
        };
        if v == n - 1 {
            *__errno_location() = 5;
            REC.with(|r| {
                r.borrow_mut().obs.push(0xEE);
                r.borrow_mut().failed = true;
            });
            return -1;
        }
        if v == n - 2 && max > 0 {
            *__errno_location() = 4;
            return -1;
        }
        let take = if max == 0 {
            0
        } else if v == 0 {
            max
        } else if data.len() > 200 {
            [1, max / 2, max - 1, 4096][v - 1].clamp(1, max)
        } else {
            v
        };
        std::ptr::copy_nonoverlapping(data[pos..].as_ptr(), buf, take);
        REC.with(|r| r.borrow_mut().file.as_mut().unwrap().1 += take);
        take as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
        let mut n = 0;
        while *path.add(n) != 0 {
            n += 1;
        }
        if active() {
            if s(path, n) == super::OUT.as_bytes() && flags & 3 != 0 {
                if next() == 1 {
                    *__errno_location() = 13;
                    REC.with(|r| r.borrow_mut().failed = true);
                    return -1;
                }
                REC.with(|r| {
                    let o = &mut r.borrow_mut().outs[1];
                    if o.is_none() {
                        *o = Some(b"OLD".to_vec());
                    }
                    if flags & 0o1000 != 0 {
                        *o = Some(vec![]);
                    }
                });
                return 78;
            }
            if s(path, n) == super::FILE.as_bytes() && REC.with(|r| r.borrow().file.is_some()) {
                // something to be the descriptor of
                let m = raw(319, b"sample\0".as_ptr() as usize, 0, 0, 0) as usize;
                raw(33, m, 77, 0, 0);
                raw(3, m, 0, 0, 0);
                return 77;
            }
            *__errno_location() = 2;
            return -1;
        }
        raw(257, -100isize as usize, path as usize, flags as usize, mode as usize) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd == 77 || fd == 78 {
            return 0;
        }
        raw(3, fd as usize, 0, 0, 0) as i32
    }
    thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec::default()); }
    fn next() -> u8 {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let v = r.model.get(r.pos).copied().unwrap_or(0);
            r.pos += 1;
            v
        })
    }
    fn s<'a>(p: *const u8, n: usize) -> &'a [u8] {
        unsafe { std::slice::from_raw_parts(p, n) }
    }
    pub unsafe fn sym_u8(_: u32) -> u8 {
        next()
    }
    pub unsafe fn sym_choice(_: u32) -> u32 {
        next() as u32
    }
    pub unsafe fn sym_in(_: *const u8, _: usize) -> u8 {
        next()
    }
    pub struct Assumed;
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            std::panic::panic_any(Assumed)
        }
    }
    pub unsafe fn sym_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            REC.with(|r| r.borrow_mut().viol.push(String::from_utf8_lossy(s(p, n)).into()))
        }
    }
    pub unsafe fn sym_assert_eq(p: *const u8, pn: usize, q: *const u8, qn: usize, c: *const u8, cn: usize) {
        if s(p, pn) != s(q, qn) {
            REC.with(|r| {
                if r.borrow().verbose {
                    println!("LEFT  {:?}\nRIGHT {:?}", String::from_utf8_lossy(s(p, pn)), String::from_utf8_lossy(s(q, qn)));
                }
            });
            sym_assert(false, c, cn)
        }
    }
    pub unsafe fn sym_observe(p: *const u8, n: usize) {
        REC.with(|r| r.borrow_mut().obs.extend_from_slice(s(p, n)))
    }
    pub unsafe fn sym_finding(p: *const u8, n: usize) {
        REC.with(|r| r.borrow_mut().find.push(String::from_utf8_lossy(s(p, n)).into()))
    }
    pub unsafe fn sym_reach(_: *const u8, _: usize) {}
    pub unsafe fn sym_concrete(_: *const u8, _: usize) {}
}

/// the name of the only file there is
pub const FILE: &str = "sample.json";
/// its contents; reads of it may be split, interrupted or fail at any point
pub fn file(b: &[u8]) {
    unsafe { ffi::sym_file(b.as_ptr(), b.len()) }
}
/// what the system says about its size, which nobody can rely on: it may be a pipe, or may grow
pub fn size(n: usize) {
    unsafe { ffi::sym_size(n as u64) }
}
/// has a read failed?
pub fn failed() -> bool {
    unsafe { ffi::sym_failed() }
}
/// the name of the only file that can be written; it held "OLD"
pub const OUT: &str = "out.txt";
/// what is in standard output (0), in the output file (1); None: never opened, nothing written
pub fn output(which: u32) -> Option<Vec<u8>> {
    let mut b = vec![0u8; 1 << 18];
    let n = unsafe { ffi::sym_out(which, b.as_mut_ptr(), b.len()) };
    if n == usize::MAX {
        return None;
    }
    b.truncate(n);
    Some(b)
}
/// the run is over
pub fn done() -> ! {
    unsafe { ffi::sym_done() }
}
/// any byte
pub fn byte() -> u8 {
    unsafe { ffi::sym_u8(0) }
}
/// any value below n (one path per value)
/// what `f` gives in a process of its own, in which nothing was done before
#[cfg(not(feature = "native"))]
pub fn apart<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> {
    unsafe { ffi::sym_restart() };
    let r = f();
    unsafe { ffi::sym_restart() };
    r
}
#[cfg(feature = "native")]
pub fn apart<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> {
    ffi::apart(f)
}
pub fn choice(n: u32) -> usize {
    unsafe { ffi::sym_choice(n) as usize }
}
pub fn flag() -> bool {
    choice(2) == 1
}
/// any byte of a fixed set, left symbolic
pub fn any_of(set: &[u8]) -> u8 {
    unsafe { ffi::sym_in(set.as_ptr(), set.len()) }
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
pub fn check(c: bool, code: &str) {
    unsafe { ffi::sym_assert(c, code.as_ptr(), code.len()) }
}
pub fn fail(code: &str) {
    check(false, code)
}
pub fn check_eq(a: &[u8], b: &[u8], code: &str) {
    unsafe { ffi::sym_assert_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), code.as_ptr(), code.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { ffi::sym_observe(b.as_ptr(), b.len()) }
}
/// a listed known finding was reached
pub fn finding(code: &str) {
    unsafe { ffi::sym_finding(code.as_ptr(), code.len()) }
}
/// vacuity witness
pub fn reach(code: &str) {
    unsafe { ffi::sym_reach(code.as_ptr(), code.len()) }
}
/// fork until every byte is concrete
pub fn concrete(b: &[u8]) {
    unsafe { ffi::sym_concrete(b.as_ptr(), b.len()) }
}
