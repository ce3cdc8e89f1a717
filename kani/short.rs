
#[cfg(kani)]
mod kani_short {
    use super::*;

    /// Every ASCII text that fits: stored, copied, read.
    #[kani::proof]
    #[kani::unwind(36)]
    fn short_keeps_its_text() {
        let mut buf: [u8; MAX_LEN] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= MAX_LEN);
        let i: usize = kani::any();
        kani::assume(i < n);
        let want = buf[i];
        let s = unsafe { Short::from_slice(str::from_utf8_unchecked(&buf[..n])) };
        // the source goes
        buf[i] = !want;
        let t = s;
        assert!(t.as_str().len() == n && t.as_str().as_bytes()[i] == want);
    }

    #[kani::proof]
    #[kani::unwind(36)]
    fn short_of_nothing() {
        let s = unsafe { Short::from_slice("") };
        assert!(s.as_str().len() == 0);
    }
}
