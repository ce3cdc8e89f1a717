
#[cfg(kani)]
mod kani_object {
    use super::*;

    const N: usize = KEY_BUF_LEN + 2;

    fn any_text(buf: &[u8; N]) -> &[u8] {
        let n: usize = kani::any();
        kani::assume(n <= N);
        &buf[..n]
    }

    fn reads(k: &Key, text: &[u8]) {
        let b = k.as_bytes();
        assert!(b.len() == text.len());
        let i: usize = kani::any();
        if i < text.len() {
            assert!(b[i] == text[i]);
        }
    }

    /// Every key of up to KEY_BUF_LEN + 2 bytes: attached, moved, cloned, dropped in both orders.
    #[kani::proof]
    #[kani::unwind(36)]
    fn life_of_a_key() {
        let bytes: [u8; N] = kani::any();
        let text = any_text(&bytes);
        let hash: u64 = kani::any();
        let mut k = Box::new(Key::new(hash, text.len()));
        k.attach(text);
        reads(&k, text);
        let mut m = Box::new(*k);
        m.fix_ptr();
        reads(&m, text);
        let mut c = Box::new((*m).clone());
        c.fix_ptr();
        assert!(c.hash == hash);
        if kani::any() {
            drop(m);
            reads(&c, text);
        } else {
            drop(c);
            reads(&m, text);
        }
    }

    /// Two entries put into a store of the given room: in place, or with a move of the first.
    fn store(room: usize, a: usize, b: usize) {
        let x: [u8; N] = kani::any();
        let y: [u8; N] = kani::any();
        let (x, y) = (&x[..a], &y[..b]);
        let mut o = Object { store: Vec::with_capacity(room) };
        let i = o.add_node(x, JsonValue::Null, 1);
        let j = o.add_node(y, JsonValue::Null, 2);
        assert!(i == 0 && j == 1 && o.store.len() == 2);
        reads(&o.store[0].key, x);
        reads(&o.store[1].key, y);
        assert!(o.store[0].key.hash == 1 && o.store[1].key.hash == 2);
        mem::forget(o);
    }

    #[kani::proof]
    #[kani::unwind(36)]
    fn store_moves() {
        store(1, KEY_BUF_LEN, KEY_BUF_LEN + 1);
    }

    #[kani::proof]
    #[kani::unwind(36)]
    fn store_has_room() {
        store(2, KEY_BUF_LEN + 1, KEY_BUF_LEN);
    }

    #[kani::proof]
    #[kani::unwind(36)]
    fn store_moves_a_long_key() {
        store(1, KEY_BUF_LEN + 1, 1);
    }
}
