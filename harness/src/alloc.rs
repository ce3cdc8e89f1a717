//! A global allocator that makes memory errors visible: freed memory is
//! poisoned, reallocation always moves, red zones catch writes past the end,
//! sizes are checked on free, and live bytes are counted per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const ZONE: usize = 32;
const LIVE: u64 = 0xA110_C8ED_0000_0001;
const DEAD: u64 = 0xDEAD_0000_0000_0002;
const FILL: u8 = 0xA5;
const POISON: u8 = 0xDD;

pub struct Tracking;

thread_local! {
    static BALANCE: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<i64> = const { Cell::new(0) };
    /// First memory error seen by the thread: 0 none, 1 red zone damaged, 2 wrong size on free, 3 double or wild free.
    static ERROR: Cell<u64> = const { Cell::new(0) };
}

pub fn live() -> (i64, i64) {
    (BALANCE.with(|b| b.get()), COUNT.with(|b| b.get()))
}

pub fn error() -> Option<&'static str> {
    match ERROR.with(|e| e.get()) {
        0 => None,
        1 => Some("memory outside an allocation was overwritten"),
        2 => Some("an allocation was freed with a different size than it was made with"),
        _ => Some("memory was freed twice, or was never allocated"),
    }
}

fn fail(code: u64) {
    let _ = ERROR.try_with(|e| if e.get() == 0 { e.set(code) });
}

// layout: [head: size, state, pad.. ZONE bytes or align][user][ZONE red zone]
fn head(align: usize) -> usize {
    if align > ZONE { align } else { ZONE }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(l.align());
        let full = match Layout::from_size_align(h + l.size() + ZONE, std::cmp::max(l.align(), 16)) {
            Ok(f) => f,
            Err(_) => return std::ptr::null_mut(),
        };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let u = p.add(h);
        std::ptr::write_bytes(p, FILL, h);
        (u.sub(16) as *mut u64).write(LIVE);
        (u.sub(8) as *mut u64).write(l.size() as u64);
        std::ptr::write_bytes(u, 0xCB, l.size());
        std::ptr::write_bytes(u.add(l.size()), FILL, ZONE);
        let _ = BALANCE.try_with(|b| b.set(b.get() + l.size() as i64));
        let _ = COUNT.try_with(|b| b.set(b.get() + 1));
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = head(l.align());
        let state = (u.sub(16) as *mut u64).read();
        let size = (u.sub(8) as *mut u64).read();
        if state != LIVE {
            fail(3);
            return;
        }
        if size != l.size() as u64 {
            fail(2);
            return;
        }
        for i in 0..ZONE {
            if *u.add(l.size() + i) != FILL {
                fail(1);
                break;
            }
        }
        for i in 0..(h - 16) {
            if *u.sub(h).add(i) != FILL {
                fail(1);
                break;
            }
        }
        (u.sub(16) as *mut u64).write(DEAD);
        std::ptr::write_bytes(u, POISON, l.size());
        let _ = BALANCE.try_with(|b| b.set(b.get() - l.size() as i64));
        let _ = COUNT.try_with(|b| b.set(b.get() - 1));
        let full = Layout::from_size_align_unchecked(h + l.size() + ZONE, std::cmp::max(l.align(), 16));
        // keep small blocks for a while, so that a stale pointer reads poison
        if full.size() <= 4096 && quarantine(u.sub(h), full) {
            return;
        }
        System.dealloc(u.sub(h), full);
    }

    unsafe fn realloc(&self, u: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(u, n, std::cmp::min(l.size(), new));
            self.dealloc(u, l);
        }
        n
    }
}

const SLOTS: usize = 64;
thread_local! {
    static RING: Cell<[(usize, usize, usize); SLOTS]> = const { Cell::new([(0, 0, 0); SLOTS]) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
}

unsafe fn quarantine(p: *mut u8, full: Layout) -> bool {
    RING.try_with(|ring| {
        let i = NEXT.try_with(|n| {
            let i = n.get();
            n.set((i + 1) % SLOTS);
            i
        });
        let i = match i {
            Ok(i) => i,
            Err(_) => return false,
        };
        let slots = ring.as_ptr() as *mut (usize, usize, usize);
        let old = *slots.add(i);
        *slots.add(i) = (p as usize, full.size(), full.align());
        if old.0 != 0 {
            System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
        }
        true
    }).unwrap_or(false)
}
