//! A checking allocator: every block carries its layout and guard words; releases are checked against them,
//! released blocks are poisoned and held in a short quarantine. Per-thread counters give leak accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct CheckAlloc;

const LIVE_MAGIC: u64 = 0x11fe_b10c_11fe_b10c;
const FREE_MAGIC: u64 = 0xdead_b10c_dead_b10c;
const GUARD: u64 = 0xfeed_face_cafe_beef;
const QN: usize = 64;
const FILL: usize = 2048;
pub const RUNAWAY: i64 = 768 << 20;

#[repr(C)]
struct Hdr {
    size: usize,
    align: usize,
    /// Not counted: memory of the harness itself.
    exempt: u64,
    magic: u64,
}
struct Q {
    p: [*mut u8; QN],
    i: usize,
}
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static EXEMPT: Cell<u64> = const { Cell::new(0) };
    static BASE: Cell<i64> = const { Cell::new(i64::MAX / 2) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static ERR: Cell<Option<&'static str>> = const { Cell::new(None) };
    static CHECKED: Cell<bool> = const { Cell::new(false) };
    static QUAR: UnsafeCell<Q> = const { UnsafeCell::new(Q { p: [std::ptr::null_mut(); QN], i: 0 }) };
}
fn err(m: &'static str) {
    let _ = ERR.try_with(|e| {
        if e.get().is_none() {
            e.set(Some(m))
        }
    });
}
fn off(align: usize) -> usize {
    let a = align.max(16);
    (std::mem::size_of::<Hdr>() + a - 1) / a * a
}
fn outer(size: usize, align: usize) -> Option<Layout> {
    Layout::from_size_align(off(align).checked_add(size)?.checked_add(8)?, align.max(16)).ok()
}
unsafe fn real_free(p: *mut u8, check_poison: bool) {
    let h = p.sub(std::mem::size_of::<Hdr>()) as *mut Hdr;
    let (size, align) = ((*h).size, (*h).align);
    if check_poison {
        if (*h).magic != FREE_MAGIC {
            err("write into a released block (header)");
            return;
        }
        for i in 0..size.min(FILL) {
            if *p.add(i) != 0xDD {
                err("write into a released block");
                break;
            }
        }
    }
    System.dealloc(p.sub(off(align)), outer(size, align).unwrap())
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if cfg!(miri) {
            return System.alloc(l);
        }
        if l.size() == 0 {
            err("allocation of zero bytes requested");
        }
        let Some(o) = outer(l.size(), l.align()) else { return std::ptr::null_mut() };
        let exempt = EXEMPT.try_with(|c| c.get()).unwrap_or(0);
        if exempt == 0 {
            let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
            let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        }
        let over = BYTES
            .try_with(|c| {
                c.set(c.get() + l.size() as i64);
                c.get() - BASE.with(|b| b.get()) > RUNAWAY
            })
            .unwrap_or(false);
        if over {
            extern "C" {
                fn write(fd: i32, p: *const u8, n: usize) -> isize;
                fn abort() -> !;
            }
            let m = b"RUNAWAY ALLOCATION in one execution\n";
            write(2, m.as_ptr(), m.len());
            abort();
        }
        let b = System.alloc(o);
        if b.is_null() {
            return b;
        }
        let p = b.add(off(l.align()));
        let h = p.sub(std::mem::size_of::<Hdr>()) as *mut Hdr;
        h.write(Hdr { size: l.size(), align: l.align(), exempt, magic: LIVE_MAGIC });
        std::ptr::write_bytes(p, 0xA5, l.size().min(FILL));
        (p.add(l.size()) as *mut u64).write_unaligned(GUARD);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if cfg!(miri) {
            return System.dealloc(p, l);
        }
        let h = p.sub(std::mem::size_of::<Hdr>()) as *mut Hdr;
        match (*h).magic {
            LIVE_MAGIC => {}
            FREE_MAGIC => return err("block released twice"),
            _ => return err("release of something that is not a live block, or its header was overwritten"),
        }
        let (size, align) = ((*h).size, (*h).align);
        if size != l.size() || align != l.align() {
            err("block released with a different layout than it was allocated with");
        }
        if (p.add(size) as *const u64).read_unaligned() != GUARD {
            err("write past the end of a block");
        }
        if (*h).exempt == 0 {
            let _ = FREES.try_with(|c| c.set(c.get() + 1));
            let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        }
        let _ = BYTES.try_with(|c| c.set(c.get() - size as i64));
        std::ptr::write_bytes(p, 0xDD, size.min(FILL));
        (*h).magic = FREE_MAGIC;
        let old = CHECKED
            .try_with(|c| c.get())
            .unwrap_or(false)
            .then(|| {
                QUAR.try_with(|q| {
                    let q = &mut *q.get();
                    q.i = (q.i + 1) % QN;
                    std::mem::replace(&mut q.p[q.i], p)
                })
                .ok()
            })
            .flatten();
        match old {
            None => real_free(p, false),
            Some(o) if o.is_null() => {}
            Some(o) => real_free(o, true),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if cfg!(miri) {
            return System.realloc(p, l, new);
        }
        let Ok(nl) = Layout::from_size_align(new, l.align()) else { return std::ptr::null_mut() };
        let h = p.sub(std::mem::size_of::<Hdr>()) as *mut Hdr;
        let was = EXEMPT.try_with(|c| c.replace(((*h).magic == LIVE_MAGIC && (*h).exempt != 0) as u64)).unwrap_or(0);
        let n = self.alloc(nl);
        let _ = EXEMPT.try_with(|c| c.set(was));
        if !n.is_null() {
            let real = if (*h).magic == LIVE_MAGIC { (*h).size } else { 0 };
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new).min(real));
            self.dealloc(p, l);
        }
        n
    }
}

/// Start of an execution on this thread.
pub fn begin() {
    if cfg!(miri) {
        return;
    }
    ERR.with(|e| e.set(None));
    BASE.with(|b| b.set(BYTES.with(|x| x.get())));
    CHECKED.with(|c| c.set(true));
}
/// End of an execution: flush the quarantine, return the first memory error seen.
pub fn end() -> Option<&'static str> {
    if cfg!(miri) {
        return None;
    }
    CHECKED.with(|c| c.set(false));
    QUAR.with(|q| unsafe {
        let q = &mut *q.get();
        for p in q.p.iter_mut() {
            let p = std::mem::replace(p, std::ptr::null_mut());
            if !p.is_null() {
                real_free(p, true)
            }
        }
    });
    BASE.with(|b| b.set(i64::MAX / 2));
    ERR.with(|e| e.take())
}
/// Runs `f` without counting what it allocates.
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    struct Back(u64);
    impl Drop for Back {
        fn drop(&mut self) {
            let _ = EXEMPT.try_with(|c| c.set(self.0));
        }
    }
    let _b = Back(EXEMPT.try_with(|c| c.replace(1)).unwrap_or(0));
    f()
}
/// Live blocks of this thread (0 under Miri, which has its own leak check).
pub fn live() -> i64 {
    if cfg!(miri) {
        0
    } else {
        BLOCKS.with(|c| c.get())
    }
}
pub fn allocs() -> u64 {
    if cfg!(miri) {
        0
    } else {
        ALLOCS.with(|c| c.get())
    }
}
pub fn frees() -> u64 {
    if cfg!(miri) {
        0
    } else {
        FREES.with(|c| c.get())
    }
}
