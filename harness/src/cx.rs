//! What a case reports: its concrete input and whether it was a non-trivial one.
use crate::rng::{hash, mix};

pub struct Cx {
    pub desc: String,
    pub key: u64,
    pub nontrivial: bool,
    /// Set by cases whose memory balance is not checked.
    pub no_leak_check: bool,
}

impl Cx {
    pub fn new() -> Cx {
        Cx { desc: String::new(), key: 0, nontrivial: false, no_leak_check: false }
    }
    /// Record the input, before the code under test sees it.
    pub fn input(&mut self, s: String, nontrivial: bool) {
        self.key = mix(self.key ^ hash(s.as_bytes()));
        self.nontrivial |= nontrivial;
        if self.desc.is_empty() {
            self.desc = s;
        } else {
            self.desc.push_str("; ");
            self.desc.push_str(&s);
        }
    }
}

pub type Out = Result<(), String>;

pub fn check(ok: bool, msg: impl FnOnce() -> String) -> Out {
    if ok { Ok(()) } else { Err(msg()) }
}

/// Text placed right before an inaccessible page, so that a read past its end crashes.
pub struct Guard {
    base: *mut u8,
    size: usize,
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

impl Guard {
    pub fn new() -> Guard {
        let size = 1 << 17;
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS
            let base = mmap(std::ptr::null_mut(), size + 8192, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            mprotect(base, 4096, 0);
            mprotect(base.add(4096 + size), 4096, 0);
            Guard { base, size }
        }
    }
    pub fn place<'a>(&'a self, s: &'a str) -> &'a str {
        if s.len() > self.size {
            return s;
        }
        unsafe {
            let p = self.base.add(4096 + self.size - s.len());
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len()))
        }
    }
}

thread_local! {
    pub static GUARD: Guard = Guard::new();
}
