//! C11: every history of operations on the small vector against a plain vector, for every inline capacity and
//! several kinds of elements, under an allocator that checks layouts and bounds (and under Miri).
use mc::*;
use parcom_internals::ShortVec;
use std::cell::{Cell, RefCell};

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static DROPS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}
fn fresh() -> u32 {
    let n = NEXT.get();
    NEXT.set(n + 1);
    n
}
fn dropped(id: u32) {
    TOTAL.set(TOTAL.get() + 1);
    DROPS.with(|d| {
        let (mut d, i) = (d.borrow_mut(), id as usize);
        if d.len() <= i {
            alloc::exempt(|| d.resize(i + 1, 0));
        }
        d[i] = d[i].saturating_add(1)
    })
}
trait Elem: 'static {
    const COUNTED: bool = true;
    /// Live blocks an element owns.
    const OWNS: i64 = 0;
    fn make(id: u32) -> Self;
    /// What can be told of the value (0 when nothing).
    fn id(&self) -> u32;
}
impl Elem for u8 {
    const COUNTED: bool = false;
    fn make(id: u32) -> Self {
        id as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Elem for () {
    const COUNTED: bool = false;
    fn make(_: u32) {}
    fn id(&self) -> u32 {
        0
    }
}
struct Owned(Box<u32>);
impl Elem for Owned {
    const OWNS: i64 = 1;
    fn make(id: u32) -> Self {
        Owned(Box::new(id))
    }
    fn id(&self) -> u32 {
        *self.0
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        dropped(*self.0)
    }
}
#[repr(align(64))]
struct Wide(u32);
impl Elem for Wide {
    fn make(id: u32) -> Self {
        Wide(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        dropped(self.0)
    }
}
#[repr(align(32))]
struct Zero;
impl Elem for Zero {
    fn make(_: u32) -> Self {
        Zero
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Drop for Zero {
    fn drop(&mut self) {
        dropped(0)
    }
}
/// An element of three bytes (no power of two, no padding).
struct Odd([u8; 3]);
impl Elem for Odd {
    fn make(id: u32) -> Self {
        Odd([id as u8, !(id as u8), 7])
    }
    fn id(&self) -> u32 {
        assert!(self.0[0] == !self.0[1] && self.0[2] == 7, "torn element");
        self.0[0] as u32
    }
}
impl Drop for Odd {
    fn drop(&mut self) {
        dropped(self.0[0] as u32)
    }
}

struct Model {
    items: Vec<u32>,
    made: Vec<u32>,
    gone: Vec<u32>,
    /// Largest number of elements ever held or reserved.
    asked: usize,
}
fn ident<T: Elem>(id: u32) -> u32 {
    if std::mem::size_of::<T>() == 0 {
        0
    } else if std::mem::size_of::<T>() < 4 {
        id & 0xff
    } else {
        id
    }
}
fn drops_ok<T: Elem>(m: &Model) -> R {
    if !T::COUNTED {
        return Ok(());
    }
    DROPS.with(|d| {
        let d = d.borrow();
        if std::mem::size_of::<T>() == 0 {
            check_eq!(TOTAL.get(), m.gone.len(), "drops", "number of zero-sized elements dropped");
        } else {
            for &i in &m.made {
                check_eq!(d.get(i as usize).copied().unwrap_or(0), m.gone.contains(&i) as u8, "drops", "drops of element {i}");
            }
        }
        Ok(())
    })
}
fn agree<T: Elem, const N: usize>(v: &mut ShortVec<T, N>, m: &Model) -> R {
    let s: Vec<u32> = v.as_slice().iter().map(|x| x.id()).collect();
    let want: Vec<u32> = m.items.iter().map(|&i| ident::<T>(i)).collect();
    check_eq!(s, want, "contents", "contents");
    let s: Vec<u32> = v.as_slice_mut().iter().map(|x| x.id()).collect();
    check_eq!(s, want, "contents", "contents through as_slice_mut");
    check_eq!(v.is_empty(), want.is_empty(), "contents", "is_empty");
    check_eq!(v.as_ptr() as usize % std::mem::align_of::<T>(), 0, "align", "misalignment of the elements");
    if !want.is_empty() {
        check_eq!(v.as_ptr(), v.as_slice().as_ptr(), "contents", "as_ptr");
    }
    drops_ok::<T>(m)
}
fn heap_ok<T: Elem, const N: usize>(blocks: i64, m: &Model) -> R {
    if m.asked <= N || std::mem::size_of::<T>() == 0 {
        check_eq!(blocks, 0, "heap", "heap blocks of a vector that never needed more than its {N} inline elements (needed {})", m.asked);
    } else if !cfg!(miri) {
        check_eq!(blocks, 1, "heap", "heap blocks of a vector that needed {} elements with {N} inline", m.asked);
    }
    Ok(())
}
fn start<T: Elem, const N: usize>(how: usize) -> (ShortVec<T, N>, usize) {
    match how {
        0 => (ShortVec::new(), 0),
        1 => (ShortVec::default(), 0),
        k => {
            let c = [0, 1, N, N + 1, N + 3][k - 2];
            (ShortVec::with_capacity(c), c)
        }
    }
}
fn history<T: Elem, const N: usize>(depth: usize, kinds: &[usize], starts: usize) -> R {
    NEXT.set(1);
    TOTAL.set(0);
    DROPS.with(|d| d.borrow_mut().clear());
    let mut m = Model { items: Vec::with_capacity(64), made: Vec::with_capacity(64), gone: Vec::with_capacity(64), asked: 0 };
    let how = if starts == 1 { 0 } else { choose(starts) };
    let mut held = alloc::live();
    let (mut v, asked) = start::<T, N>(how);
    held = alloc::live() - held;
    m.asked = asked;
    logln!("start {how} (capacity {asked}), inline capacity {N}");
    heap_ok::<T, N>(held, &m)?;
    for _ in 0..depth {
        let op = pick(kinds);
        match op {
            0 => {
                let id = fresh();
                let e = T::make(id);
                m.made.push(id);
                m.items.push(id);
                let (a, b) = (alloc::allocs(), alloc::live());
                v.push(e);
                held += alloc::live() - b;
                if m.items.len() <= m.asked.max(N) {
                    check_eq!(alloc::allocs() - a, 0, "heap", "allocations by pushing element {} of {} reserved", m.items.len(), m.asked.max(N));
                }
                m.asked = m.asked.max(m.items.len());
                logln!("push {id}");
            }
            1 => {
                let b = alloc::live();
                let got = v.pop();
                held += alloc::live() - b;
                let want = m.items.pop();
                check_eq!(got.as_ref().map(|x| x.id()), want.map(ident::<T>), "contents", "popped");
                if let Some(w) = want {
                    drops_ok::<T>(&m)?;
                    m.gone.push(w);
                }
                drop(got);
                logln!("pop -> {want:?}");
            }
            2 => {
                // overwrite the first and swap the ends
                let s = v.as_slice_mut();
                let n = s.len();
                if n > 0 {
                    let id = fresh();
                    m.made.push(id);
                    m.gone.push(m.items[0]);
                    s[0] = T::make(id);
                    s.swap(0, n - 1);
                    m.items[0] = id;
                    m.items.swap(0, n - 1);
                }
                logln!("overwrite and swap");
            }
            k => {
                let c = [0, N, N + 1, N + 2, 2 * N + 3, m.items.len() + 1][(k - 3) / 2];
                let (a, free) = (alloc::allocs(), m.asked.max(N) >= c);
                let b = alloc::live();
                if k % 2 == 1 {
                    v.reserve(c)
                } else {
                    v.reserve_exact(c)
                }
                held += alloc::live() - b;
                if free {
                    check_eq!(alloc::allocs() - a, 0, "heap", "allocations by reserving {c} of {}", m.asked.max(N));
                }
                m.asked = m.asked.max(c);
                logln!("{} {c}", if k % 2 == 1 { "reserve" } else { "reserve_exact" });
            }
        }
        agree(&mut v, &m)?;
        state(&(&m.items.len(), m.asked, N, std::any::type_name::<T>()));
        heap_ok::<T, N>(held, &m)?;
    }
    outcome(&(m.items.len(), m.asked.min(64)));
    let gone = m.items.clone();
    // the vector may be moved before it is dropped
    let moved = std::hint::black_box(Box::new(v));
    let b = alloc::live();
    drop(moved);
    let freed = b - alloc::live();
    m.gone.extend(gone);
    drops_ok::<T>(&m)?;
    if !cfg!(miri) {
        // its buffer, the elements' own blocks, and the box it was moved into
        let boxed = (std::mem::size_of::<ShortVec<T, N>>() > 0) as i64;
        check_eq!(freed, held + T::OWNS * m.items.len() as i64 + boxed, "leak", "blocks released by dropping the vector");
    }
    Ok(())
}
/// `n` pushes, some pops, some more pushes, with a look at the contents now and then.
fn growth<T: Elem, const N: usize>(n: usize) -> R {
    NEXT.set(1);
    TOTAL.set(0);
    let how = choose(3);
    let pops = [0, 1, n / 2, n][choose(4)].min(n);
    let reserve = choose(4);
    logln!("start {how}, {n} pushes, reserve {reserve}, {pops} pops, {n} pushes, inline capacity {N}");
    let live = alloc::live();
    {
        let mut v: ShortVec<T, N> = match how {
            0 => ShortVec::new(),
            1 => ShortVec::with_capacity(n),
            _ => ShortVec::with_capacity(n / 2),
        };
        let mut want: Vec<u32> = Vec::with_capacity(2 * n);
        let look = |v: &ShortVec<T, N>, want: &[u32]| -> R {
            check_eq!(v.as_slice().len(), want.len(), "contents", "length");
            for (i, (e, w)) in v.as_slice().iter().zip(want).enumerate() {
                check_eq!(e.id(), ident::<T>(*w), "contents", "element {i} of {}", want.len());
            }
            Ok(())
        };
        for round in 0..2 {
            for i in 0..n {
                let id = fresh();
                let a = alloc::allocs();
                let e = T::make(id);
                let own = alloc::allocs() - a;
                v.push(e);
                if how == 1 && round == 0 {
                    check_eq!(alloc::allocs() - a, own, "heap", "allocations by pushing element {i} of {n} reserved");
                }
                want.push(id);
                if (i + 1).is_power_of_two() || i.is_power_of_two() {
                    look(&v, &want)?;
                }
            }
            look(&v, &want)?;
            if round == 0 {
                match reserve {
                    0 => {}
                    1 => v.reserve(n + 1),
                    2 => v.reserve_exact(n + 1),
                    _ => v.reserve(2 * n + N),
                }
                look(&v, &want)?;
                for i in 0..pops {
                    let g = v.pop();
                    check_eq!(g.as_ref().map(|x| x.id()), want.pop().map(ident::<T>), "contents", "popped as number {i}");
                }
                look(&v, &want)?;
                if T::COUNTED {
                    check_eq!(TOTAL.get(), pops, "drops", "elements dropped");
                }
            }
        }
        state(&(n, how, pops, reserve, N, std::any::type_name::<T>()));
    }
    if T::COUNTED {
        check_eq!(TOTAL.get(), 2 * n, "drops", "elements dropped in all");
    }
    if !cfg!(miri) {
        check_eq!(alloc::live(), live, "leak", "blocks left");
    }
    Ok(())
}
/// Reservations at the ends of the range of sizes: what a vector has to accept it accepts, and what no memory can
/// hold it refuses without harm.
fn extreme<T: Elem, const N: usize>(depth: usize) -> R {
    NEXT.set(1);
    TOTAL.set(0);
    DROPS.with(|d| d.borrow_mut().clear());
    const MAX: usize = isize::MAX as usize;
    let size = std::mem::size_of::<T>();
    let sizes = [0, 1, N + 1, 1 << 31, (1 << 32) + 1, MAX / 2, MAX / 2 + 1, MAX / 2 + 2, MAX - 1, MAX, MAX + 1, usize::MAX / 2 + 2, usize::MAX];
    // what can be held is accepted; what is too large for any allocation is refused; nothing in between is tried
    let fits = |c: usize| c <= N + 1 || (size == 0 && c <= MAX);
    let tried = |c: usize| fits(c) || size == 0 || c.checked_mul(size).is_none_or(|b| b > MAX);
    let sizes: Vec<usize> = sizes.into_iter().filter(|&c| tried(c)).collect();
    let mut m = Model { items: Vec::with_capacity(16), made: Vec::with_capacity(16), gone: Vec::with_capacity(16), asked: 0 };
    let outer = alloc::live();
    let c = pick(&sizes);
    logln!("with_capacity {c}, inline capacity {N}");
    let v = catch(|| ShortVec::<T, N>::with_capacity(c));
    let mut v = match v {
        Ok(v) => v,
        Err(e) => {
            check!(!fits(c), "refused", "with_capacity({c}) was refused: {e}");
            ShortVec::new()
        }
    };
    for _ in 0..depth {
        let op = choose(3 + 2 * sizes.len());
        match op {
            0 | 1 => {
                // one and five
                for _ in 0..[1, 5][op] {
                    let id = fresh();
                    m.made.push(id);
                    m.items.push(id);
                    v.push(T::make(id));
                }
                logln!("push, now {}", m.items.len());
            }
            2 => {
                let want = m.items.pop();
                let got = v.pop();
                check_eq!(got.as_ref().map(|x| x.id()), want.map(ident::<T>), "contents", "popped");
                m.gone.extend(want);
                logln!("pop");
            }
            k => {
                let (c, exact) = (sizes[(k - 3) / 2], k % 2 == 0);
                logln!("{} {c}", if exact { "reserve_exact" } else { "reserve" });
                if let Err(e) = catch(|| if exact { v.reserve_exact(c) } else { v.reserve(c) }) {
                    check!(!fits(c), "refused", "a reservation of {c} was refused: {e}");
                }
            }
        }
        agree(&mut v, &m)?;
        state(&(&m.items.len(), op, N, std::any::type_name::<T>()));
    }
    outcome(&m.items.len());
    drop(v);
    let gone = m.items.clone();
    m.gone.extend(gone);
    drops_ok::<T>(&m)?;
    if !cfg!(miri) {
        check_eq!(alloc::live() - outer, 0, "leak", "blocks left by the vector");
    }
    Ok(())
}
struct Fuse(u32, bool);
impl Drop for Fuse {
    fn drop(&mut self) {
        dropped(self.0);
        if self.1 {
            panic!("drop of element {}", self.0)
        }
    }
}
/// One element's drop panics, as the vector is dropped: every other element and the memory go all the same.
fn exploding<const N: usize>(most: usize) -> R {
    DROPS.with(|d| d.borrow_mut().clear());
    let n = 1 + choose(most);
    let (bad, pops, room) = (choose(n), choose(2), choose(3));
    logln!("{n} elements, the drop of number {bad} panics, {pops} popped first, room {room}, inline capacity {N}");
    let live = alloc::live();
    let mut v: ShortVec<Fuse, N> = match room {
        0 => ShortVec::new(),
        1 => ShortVec::with_capacity(n),
        _ => ShortVec::with_capacity(2 * n + N),
    };
    for i in 0..n + pops {
        v.push(Fuse(i as u32, i == bad));
    }
    for _ in 0..pops {
        drop(v.pop());
    }
    let r = catch(|| drop(v));
    check!(r.is_err(), "drops", "the panic of the element's drop was lost");
    drop(r);
    DROPS.with(|d| {
        for i in 0..n + pops {
            check_eq!(d.borrow().get(i).copied().unwrap_or(0), 1, "drops", "drops of element {i}");
        }
        Ok(())
    })?;
    state(&(n, bad, pops, room, N));
    if !cfg!(miri) {
        check_eq!(alloc::live(), live, "leak", "blocks left");
    }
    Ok(())
}
fn jobs_of<T: Elem, const N: usize>(v: &mut Vec<Job>, t: Tier, name: &str) {
    let all: Vec<usize> = (0..15).collect();
    let some = [0, 1, 2, 5, 6, 11, 12];
    let (d_all, d_some, d_pp) = (t.pick(1, 4, 5), t.pick(2, 6, 7), t.pick(4, 12, 17));
    v.push(job(format!("{name} inline {N}, every operation"), 0, move || history::<T, N>(d_all, &all, 7)));
    v.push(job(format!("{name} inline {N}, main operations"), 0, move || history::<T, N>(d_some, &some, 1)));
    v.push(job(format!("{name} inline {N}, push and pop"), 0, move || history::<T, N>(d_pp, &[0, 1], 1)));
    let d_ext = t.pick(1, 3, 4);
    v.push(job(format!("{name} inline {N}, extreme reservations"), 0, move || extreme::<T, N>(d_ext)));
    let n = t.pick(4, 200, 200);
    v.push(job(format!("{name} inline {N}, growth"), 0, move || history::<T, N>(choose(n + 1), &[0], 7)));
    let ns = sizes_u16(t.pick(1, 40, 300), t.pick(1, 4097, 65537));
    v.push(job(format!("{name} inline {N}, large"), 0, move || growth::<T, N>(pick(&ns))));
}
fn caps<T: Elem>(v: &mut Vec<Job>, t: Tier, name: &str) {
    jobs_of::<T, 0>(v, t, name);
    jobs_of::<T, 1>(v, t, name);
    jobs_of::<T, 2>(v, t, name);
    if t != Tier::Miri {
        jobs_of::<T, 3>(v, t, name);
        jobs_of::<T, 4>(v, t, name);
        let d = t.pick(2, 12, 14);
        for (n, f) in [(8, growth::<T, 8> as fn(usize) -> R), (33, growth::<T, 33>), (256, growth::<T, 256>)] {
            let ns = sizes_u16(t.pick(1, 40, 300), t.pick(1, 4097, 16385));
            v.push(job(format!("{name} inline {n}, large"), 0, move || f(pick(&ns))));
        }
        v.push(job(format!("{name} inline 8, push and pop"), 0, move || history::<T, 8>(d, &[0, 1], 1)));
    }
}
fn main() {
    mc::main(|t| {
        let mut v = vec![];
        caps::<Owned>(&mut v, t, "owning");
        caps::<Zero>(&mut v, t, "zero-sized counted");
        let most = t.pick(5, 40, 100);
        v.push(job("a drop that panics, inline 0", 0, move || exploding::<0>(most)));
        v.push(job("a drop that panics, inline 2", 0, move || exploding::<2>(most)));
        v.push(job("a drop that panics, inline 8", 0, move || exploding::<8>(most)));
        caps::<Wide>(&mut v, t, "over-aligned");
        if t == Tier::Miri {
            return v;
        }
        caps::<Odd>(&mut v, t, "three bytes");
        caps::<u8>(&mut v, t, "byte");
        caps::<()>(&mut v, t, "unit");
        v
    })
}
