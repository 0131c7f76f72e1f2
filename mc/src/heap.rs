//! A memory manager that watches every block, and elements that watch their destructors.
use core::alloc::Layout;
use nanvm_lib::mem::block_header::BlockHeader;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

// ------------------------------------------------------------------ blocks

#[derive(Clone, Copy)]
struct Block {
    user: usize,
    raw: *mut u8,
    raw_layout: Layout,
    layout: Layout,
    live: bool,
}
thread_local! {
    static BLOCKS: RefCell<Vec<Block>> = const { RefCell::new(vec![]) };
    static ERRORS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static FAIL_ALLOC: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// The bytes around a block.
const ZONE: u8 = 0xFD;
/// The bytes of a block before it is written and after it is released. As a boxed value they are a
/// reference to an address that does not exist.
const POISON: u8 = 0xFF;
const PAD: usize = 64;

pub fn error(s: String) {
    ERRORS.with(|e| {
        let mut e = e.borrow_mut();
        if e.len() < 8 {
            e.push(s)
        }
    })
}
/// The `n`-th allocation from now on (0: the next one) panics.
pub fn fail_alloc(n: usize) {
    FAIL_ALLOC.with(|f| f.set(n))
}
unsafe fn track_alloc(layout: Layout) -> *mut u8 {
    FAIL_ALLOC.with(|f| {
        let n = f.get();
        if n == 0 {
            f.set(usize::MAX);
            panic!("no memory");
        }
        if n != usize::MAX {
            f.set(n - 1);
        }
    });
    if !layout.align().is_power_of_two() {
        error(format!("alignment {}", layout.align()));
    }
    let (raw, raw_layout, user);
    if cfg!(miri) {
        raw_layout = Layout::from_size_align(layout.size().max(1), layout.align()).unwrap();
        raw = std::alloc::alloc(raw_layout);
        user = raw;
    } else {
        let pad = PAD.max(layout.align());
        raw_layout = Layout::from_size_align(pad + layout.size() + PAD, layout.align()).unwrap();
        raw = std::alloc::alloc(raw_layout);
        assert!(!raw.is_null());
        user = raw.add(pad);
        raw.write_bytes(ZONE, raw_layout.size());
        user.write_bytes(POISON, layout.size());
    }
    BLOCKS.with(|b| b.borrow_mut().push(Block { user: user as usize, raw, raw_layout, layout, live: true }));
    user
}
fn zones(b: &Block) -> bool {
    if cfg!(miri) {
        return true;
    }
    let all = unsafe { std::slice::from_raw_parts(b.raw, b.raw_layout.size()) };
    let at = b.user - b.raw as usize;
    all[..at].iter().chain(&all[at + b.layout.size()..]).all(|x| *x == ZONE)
}
unsafe fn track_dealloc(p: *mut u8, layout: Layout) {
    BLOCKS.with(|v| {
        let mut v = v.borrow_mut();
        // an interpreter may use an address again
        let at = v.iter().position(|b| b.live && b.user == p as usize).or_else(|| v.iter().position(|b| b.user == p as usize));
        let Some(b) = at.map(|i| &mut v[i]) else {
            error("release of an address that was never allocated".into());
            return;
        };
        if !b.live {
            error("second release of a block".into());
            return;
        }
        if b.layout != layout {
            error(format!("allocated with {:?}, released with {layout:?}", b.layout));
        }
        if !zones(b) {
            error("bytes around a block were written".into());
        }
        b.live = false;
        if cfg!(miri) {
            std::alloc::dealloc(b.raw, b.raw_layout);
        } else {
            p.write_bytes(POISON, b.layout.size());
        }
    })
}
/// Live blocks: address and layout.
pub fn live() -> Vec<(usize, Layout)> {
    BLOCKS.with(|v| v.borrow().iter().filter(|b| b.live).map(|b| (b.user, b.layout)).collect())
}
pub fn is_live(user: usize) -> bool {
    BLOCKS.with(|v| v.borrow().iter().any(|b| b.live && b.user == user))
}
/// The live block that has this address inside.
pub fn block_of(p: usize) -> Option<(usize, Layout)> {
    BLOCKS.with(|v| v.borrow().iter().filter(|b| b.live).find(|b| b.user <= p && p <= b.user + b.layout.size()).map(|b| (b.user, b.layout)))
}
/// Checks every block, forgets them, and returns the number of blocks that were still live.
pub fn finish() -> usize {
    fail_alloc(usize::MAX);
    BLOCKS.with(|v| {
        let v = std::mem::take(&mut *v.borrow_mut());
        for b in &v {
            if !zones(b) {
                error("bytes around a block were written".into());
            }
            if !b.live && !cfg!(miri) && !unsafe { std::slice::from_raw_parts(b.user as *const u8, b.layout.size()) }.iter().all(|x| *x == POISON) {
                error("a released block was written".into());
            }
            if b.live || !cfg!(miri) {
                unsafe { std::alloc::dealloc(b.raw, b.raw_layout) };
            }
        }
        v.iter().filter(|b| b.live).count()
    })
}
/// The errors since the last call.
pub fn errors() -> Vec<String> {
    ERRORS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}

/// The watching manager with the block header `H`.
pub struct Track<H>(PhantomData<H>);
impl<H> Track<H> {
    pub const fn new() -> Self {
        Self(PhantomData)
    }
}
impl<H> Default for Track<H> {
    fn default() -> Self {
        Self::new()
    }
}
impl<H> Clone for Track<H> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<H> Copy for Track<H> {}
impl<H> std::fmt::Debug for Track<H> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Track")
    }
}
impl<H: BlockHeader> Dealloc for Track<H> {
    type BlockHeader = H;
    unsafe fn dealloc(p: *mut u8, layout: Layout) {
        track_dealloc(p, layout)
    }
}
impl<H: BlockHeader> Manager for Track<H> {
    type Dealloc = Self;
    unsafe fn alloc(self, layout: Layout) -> *mut u8 {
        track_alloc(layout)
    }
}

// ------------------------------------------------------------------ elements

thread_local! {
    static MADE: RefCell<Vec<u16>> = const { RefCell::new(vec![]) };
    static DROPPED: RefCell<Vec<u16>> = const { RefCell::new(vec![]) };
    static PANIC_DROP: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// The `n`-th destructor of an element from now on (0: the next one) panics.
pub fn panic_drop(n: usize) {
    PANIC_DROP.with(|p| p.set(n))
}
/// The elements made and dropped since the last call, in order.
pub fn elements() -> (Vec<u16>, Vec<u16>) {
    panic_drop(usize::MAX);
    (MADE.with(|v| std::mem::take(&mut *v.borrow_mut())), DROPPED.with(|v| std::mem::take(&mut *v.borrow_mut())))
}
fn made(k: u16) {
    MADE.with(|v| v.borrow_mut().push(k));
}
fn dropped(k: u16) {
    DROPPED.with(|v| v.borrow_mut().push(k));
    PANIC_DROP.with(|p| {
        let n = p.get();
        if n == 0 {
            p.set(usize::MAX);
            if !std::thread::panicking() {
                panic!("destructor");
            }
        } else if n != usize::MAX {
            p.set(n - 1);
        }
    });
}
fn byte(k: u16, j: usize, size: usize) -> u8 {
    match j {
        0 => k as u8,
        1 => (k >> 8) as u8 ^ 0x55,
        _ => (k as usize * 31 + j * 7 + size) as u8 ^ 0x3a,
    }
}
fn read(b: &[u8]) -> u16 {
    let k = match b {
        [] => 0,
        [a] => *a as u16,
        [a, c, ..] => *a as u16 | (((*c ^ 0x55) as u16) << 8),
    };
    if b.iter().enumerate().any(|(j, x)| *x != byte(k, j, b.len())) {
        error(format!("an element has the bytes {b:?}"));
    }
    k
}
/// An element that knows whether its bytes are intact, and records its destructor.
pub trait Elem: Sized + 'static {
    /// Element number `k`; only the low byte is kept by an element of one byte, nothing by an empty
    /// one.
    fn make(k: u16) -> Self;
    fn bytes(&self) -> &[u8];
    fn is(&self, k: u16) -> bool {
        let b = self.bytes();
        b.iter().enumerate().all(|(j, x)| *x == byte(k, j, b.len()))
    }
    /// What is kept of the number `k`.
    fn kept(k: u16) -> u16;
}
macro_rules! elem {
    ($name:ident, $align:literal) => {
        #[repr(C, align($align))]
        pub struct $name<const S: usize>([u8; S]);
        impl<const S: usize> Elem for $name<S> {
            fn make(k: u16) -> Self {
                made(Self::kept(k));
                let mut b = [0; S];
                for (j, x) in b.iter_mut().enumerate() {
                    *x = byte(Self::kept(k), j, S);
                }
                Self(b)
            }
            fn bytes(&self) -> &[u8] {
                &self.0
            }
            fn kept(k: u16) -> u16 {
                match S {
                    0 => 0,
                    1 => k & 0xff,
                    _ => k,
                }
            }
        }
        impl<const S: usize> Drop for $name<S> {
            fn drop(&mut self) {
                dropped(read(&self.0));
                if self as *const _ as usize % $align != 0 {
                    error("a misaligned element".into());
                }
            }
        }
    };
}
elem!(E1, 1);
elem!(E2, 2);
elem!(E4, 4);
elem!(E8, 8);
elem!(E16, 16);
elem!(E64, 64);

/// Compares what was made with what was dropped: `Some(reason)` if an element was dropped twice or
/// was never made, or (if `all`) was not dropped.
pub fn balance(made: &[u16], dropped: &[u16], all: bool) -> Option<String> {
    let mut count = std::collections::BTreeMap::<u16, i64>::new();
    for k in made {
        *count.entry(*k).or_default() += 1;
    }
    for k in dropped {
        *count.entry(*k).or_default() -= 1;
    }
    for (k, n) in count {
        if n < 0 {
            return Some(format!("element {k} is destroyed {} times too often", -n));
        }
        if all && n > 0 {
            return Some(format!("element {k} is not destroyed"));
        }
    }
    None
}
