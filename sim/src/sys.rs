//! Processes and shared memory.

use crate::rt::{Dec, DecBuf, VBuf, DEC_CAP};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub const TEXT_CAP: usize = 8 << 20;

#[repr(C)]
pub struct Shared {
    pub vb: VBuf,
    pub seed: u64,
    pub runs: u64,
    /// Operations refused in the last trial: unregistered component, conflicting borrow.
    pub refused: u64,
    pub text_len: u64,
    pub db: DecBuf,
    pub text: [u8; TEXT_CAP],
}

pub fn shared() -> &'static mut Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        let s = &mut *(p as *mut Shared);
        s.db.cap = DEC_CAP as u64;
        s
    }
}

pub enum Exit {
    Code(i32),
    Signal(i32),
}

/// Runs `f` in a child process and waits for it.
pub fn in_child(f: impl FnOnce()) -> Exit {
    unsafe {
        let p = fork();
        if p == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            f();
            _exit(0);
        }
        assert!(p > 0, "fork");
        let mut st = 0;
        while waitpid(p, &mut st, 0) != p {}
        if st & 0x7f == 0 {
            Exit::Code(st >> 8 & 0xff)
        } else {
            Exit::Signal(st & 0x7f)
        }
    }
}

/// Ends this process.
pub fn leave(c: i32) -> ! {
    unsafe { _exit(c) }
}

pub fn set_alarm(s: u32) {
    unsafe {
        alarm(s);
    }
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

pub fn decs(s: &Shared) -> Vec<Dec> {
    s.db.d[..s.db.n as usize].to_vec()
}
