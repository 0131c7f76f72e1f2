//! Boxed values (C12), the life of heap objects (C13), blocks (C14), panics in code of the caller
//! (C27).
use core::alloc::Layout;
use mc::engine::*;
use mc::heap::{self, balance, block_of, elements, errors, fail_alloc, finish, panic_drop, Elem, Track, E1, E16, E2, E4, E64, E8};
use mc::history::{drive, ops, sequences, transitions, Addresses, Bytes, Op as HOp, Watch};
use mc::value::{build, canon, canon_any, Val};
use mc::vio::Vio;
use nanvm_lib::common::ref_mut::RefMut;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::any_cast::AnyCast;
use nanvm_lib::js::js_array::{new_array, JsArray, JsArrayRef};
use nanvm_lib::js::js_bigint::{new_bigint, JsBigint, JsBigintRef, Sign};
use nanvm_lib::js::js_object::{new_object, JsObject, JsObjectRef};
use nanvm_lib::js::js_string::{new_string, JsString, JsStringRef};
use nanvm_lib::js::new::New;
use nanvm_lib::js::null::Null;
use nanvm_lib::js::type_::Type;
use nanvm_lib::js::visitor::{to_visitor, Visitor};
use nanvm_lib::mem::flexible_array::header::FlexibleArrayHeader;
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use nanvm_lib::mem::ref_::Ref;
use nanvm_lib::parser::parser::{parse, Context};
use nanvm_lib::parser::shared::ModuleCache;
use nanvm_lib::serializer::to_djs::WriteDjs;
use nanvm_lib::serializer::to_json::WriteJson;
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::process::{Command, Stdio};
use std::sync::atomic::AtomicIsize;
use std::sync::Arc;

// ------------------------------------------------------------------ the global allocator, watched

#[cfg(not(miri))]
mod global {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::{Cell, UnsafeCell};

    const N: usize = 4096;
    pub struct Table {
        n: usize,
        v: [(usize, Layout); N],
    }
    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static BAD: Cell<Option<(Layout, Layout)>> = const { Cell::new(None) };
        static FULL: Cell<bool> = const { Cell::new(false) };
        static TABLE: UnsafeCell<Table> = const { UnsafeCell::new(Table { n: 0, v: [(0, Layout::new::<u8>()); N] }) };
    }
    pub struct Watched;
    unsafe impl GlobalAlloc for Watched {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if ON.try_with(|o| o.get()) == Ok(true) && !p.is_null() {
                p.write_bytes(0xFF, l.size());
                TABLE.with(|t| {
                    let t = &mut *t.get();
                    if t.n < N {
                        t.v[t.n] = (p as usize, l);
                        t.n += 1;
                    } else {
                        FULL.with(|f| f.set(true));
                    }
                });
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if ON.try_with(|o| o.get()) == Ok(true) {
                TABLE.with(|t| {
                    let t = &mut *t.get();
                    if let Some(i) = (0..t.n).rev().find(|i| t.v[*i].0 == p as usize) {
                        if t.v[i].1 != l {
                            BAD.with(|b| b.set(Some((t.v[i].1, l))));
                        }
                        p.write_bytes(0xFF, t.v[i].1.size());
                        t.n -= 1;
                        t.v[i] = t.v[t.n];
                    }
                });
            }
            System.dealloc(p, l)
        }
    }
    /// Runs `f`; an error if a block is released with a layout that it was not allocated with, or is
    /// never released.
    pub fn watched<T>(f: impl FnOnce() -> T) -> (T, Option<String>) {
        TABLE.with(|t| unsafe { (*t.get()).n = 0 });
        BAD.with(|b| b.set(None));
        FULL.with(|f| f.set(false));
        ON.with(|o| o.set(true));
        let r = f();
        ON.with(|o| o.set(false));
        let e = BAD.with(|b| b.get()).map(|(a, b)| format!("allocated with {a:?}, released with {b:?}"));
        (r, e)
    }
    /// Blocks that were allocated while watched, and are still live.
    pub fn left() -> Vec<(usize, Layout)> {
        TABLE.with(|t| unsafe {
            let t = &*t.get();
            t.v[..t.n].to_vec()
        })
    }
    pub fn block(p: usize) -> Option<(usize, Layout)> {
        TABLE.with(|t| unsafe {
            let t = &*t.get();
            t.v[..t.n].iter().find(|b| b.0 <= p && p <= b.0 + b.1.size()).copied()
        })
    }
}
#[cfg(not(miri))]
#[global_allocator]
static ALLOC: global::Watched = global::Watched;
#[cfg(miri)]
mod global {
    use std::alloc::Layout;
    pub fn watched<T>(f: impl FnOnce() -> T) -> (T, Option<String>) {
        (f(), None)
    }
    pub fn left() -> Vec<(usize, Layout)> {
        vec![]
    }
    pub fn block(_: usize) -> Option<(usize, Layout)> {
        None
    }
}

/// The managers of a case: both watching ones, local, global.
#[cfg(not(miri))]
const MANAGERS: [usize; 4] = [0, 1, 2, 3];
#[cfg(miri)]
const MANAGERS: [usize; 2] = [0, 2];
type TC = Track<Cell<isize>>;
type TA = Track<AtomicIsize>;
const TC: TC = Track::new();
const TA: TA = Track::new();

/// Runs `f` with a local manager; reports bytes or objects that are left.
fn with_local(r: &mut Rec, what: &str, f: impl FnOnce(&mut Rec, &'static Local)) {
    let raw = Box::into_raw(Box::<Local>::default());
    let l: &'static Local = unsafe { &*raw };
    f(r, l);
    let n = l.size();
    if n == 0 {
        drop(unsafe { Box::from_raw(raw) });
    } else if !r.failed() {
        r.fail("", format!("{what}: {n} bytes are left in the local manager"));
    }
}
/// The number of live objects of a local manager, as far as it shows it.
fn counter(l: &Local) -> Option<isize> {
    let s = format!("{l:?}");
    let at = s.find("counter")?;
    let s = s[at..].trim_start_matches(|c: char| c != '-' && !c.is_ascii_digit());
    s[..s.find(|c: char| c != '-' && !c.is_ascii_digit())?].parse().ok()
}

// ------------------------------------------------------------------ C12

fn denied<T: AnyCast<Global>>(a: &Any<Global>) -> bool {
    if a.is::<T>() {
        return false;
    }
    match a.clone().try_move::<T>() {
        Ok(x) => {
            std::mem::forget(x);
            false
        }
        Err(()) => true,
    }
}
/// For each type (number, null, bool, string, bigint, array, object): is the value denied?
fn denials(a: &Any<Global>) -> [bool; 7] {
    [
        denied::<f64>(a),
        denied::<Null>(a),
        denied::<bool>(a),
        denied::<JsStringRef<Global>>(a) && a.try_ref::<JsString>().is_err(),
        denied::<JsBigintRef<Global>>(a) && a.try_ref::<JsBigint>().is_err(),
        denied::<JsArrayRef<Global>>(a) && a.try_ref::<JsArray<Global>>().is_err(),
        denied::<JsObjectRef<Global>>(a) && a.try_ref::<JsObject<Global>>().is_err(),
    ]
}
fn only(i: usize) -> [bool; 7] {
    let mut v = [true; 7];
    v[i] = false;
    v
}
fn number_case(r: &mut Rec, bits: u64) {
    let x = f64::from_bits(bits);
    let same = |y: f64| if x.is_nan() { y.is_nan() } else { y.to_bits() == bits };
    let a: Any<Global> = Any::move_from(x);
    r.traces += 1;
    r.transitions += 9;
    r.check(a.get_type() == Type::Number, || format!("{bits:x} has the type {:?}", a.get_type()));
    r.check(!a.is_ref(), || format!("{bits:x} is taken for a reference"));
    if r.failed() {
        // a clone would touch an address that is not one
        std::mem::forget(a);
        return;
    }
    r.check(denials(&a) == only(0), || format!("{bits:x} is denied as {:?}", denials(&a)));
    let b = a.clone();
    r.check(a == b, || format!("{bits:x} differs from its clone"));
    let mut seen = 0;
    let _ = a.for_each(|_, _| {
        seen += 1;
        Ok::<(), ()>(())
    });
    r.check(seen == 0, || format!("{bits:x} has children"));
    match to_visitor(b) {
        Visitor::Number(y) => r.check(same(y), || format!("{bits:x} is visited as {:x}", y.to_bits())),
        _ => r.check(false, || format!("{bits:x} is not visited as a number")),
    };
    match a.try_move::<f64>() {
        Ok(y) => r.check(same(y), || format!("{bits:x} comes back as {:x}", y.to_bits())),
        Err(()) => r.check(false, || format!("{bits:x} does not come back")),
    };
    r.outcome(&(x.is_nan(), x.is_infinite(), x == 0.0, x.is_sign_negative(), x.is_subnormal()));
    r.nontrivial += (bits >> 51 == 0x1fff) as u64;
}
fn lows(t: Tier) -> Vec<u64> {
    let m = (1u64 << 48) - 1;
    let mut v = vec![0, 1, m, m - 1, 1 << 47, 1 << 32, (1 << 32) - 1, 0x5555_5555_5555, 0xAAAA_AAAA_AAAA, 0x1234_5678_9ABC, 0x8000_0000_0001, 0x7fff_ffff_ffff];
    for i in 0..48 {
        v.extend([1 << i, m ^ (1 << i)]);
        for j in 0..i {
            if t == Tier::Thorough {
                v.extend([1 << i | 1 << j, m ^ (1 << i | 1 << j)]);
            }
        }
    }
    v
}
/// The index of a type in `denials`.
fn index(t: &Type) -> usize {
    match t {
        Type::Number => 0,
        Type::Null => 1,
        Type::Bool => 2,
        Type::String => 3,
        Type::Bigint => 4,
        Type::Array => 5,
        Type::Object => 6,
    }
}
/// Values of every type: the value, its type, and its identity.
fn values() -> Vec<(Any<Global>, usize, u64)> {
    let mut v: Vec<(Any<Global>, usize, u64)> = vec![];
    let nums = [
        0u64, 1 << 63, 1, 0x3ff0 << 48, 0xbff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48, 0xffff << 48, 0xfffc << 48, u64::MAX, 0x7fff_ffff_ffff_ffff, 0xfff7_ffff_ffff_ffff, 0xfff0_0000_0000_0001, 0x7ff0_0000_0000_0001,
        0xfffa << 48, 0xfffe << 48, 0xfffd_0000_0000_0008, 2, 3, 0x000f_ffff_ffff_ffff, 0x0010 << 48,
    ];
    for b in nums {
        let x = f64::from_bits(b);
        v.push((Any::move_from(x), 0, if x.is_nan() { f64::NAN.to_bits() } else { b }));
    }
    v.push((Any::move_from(Null()), 1, 0));
    v.push((Any::move_from(Null()), 1, 0));
    for b in [false, true, false, true] {
        v.push((Any::move_from(b), 2, b as u64));
    }
    let mut id = 0;
    for n in 0..3u16 {
        for _ in 0..2 {
            let s = GLOBAL.new_js_string((0..n).map(|i| i + 65));
            let b: Any<Global> = new_bigint(GLOBAL, if n == 1 { Sign::Negative } else { Sign::Positive }, vec![7u64; n as usize]).to_ref().move_to_any();
            let a = GLOBAL.new_js_array(vec![s.clone(); n as usize]);
            let o = GLOBAL.new_js_object((0..n).map(|_| (s.clone().try_move::<JsStringRef<Global>>().unwrap(), b.clone())).collect::<Vec<_>>());
            for (x, t) in [(s, 3), (b, 4), (a, 5), (o, 6)] {
                id += 1;
                v.push((x.clone(), t, id));
                v.push((x, t, id));
            }
        }
    }
    v
}
fn pairs_case(r: &mut Rec, i: u64) {
    let v = values();
    let (a, t, id) = &v[i as usize];
    let h = |x: &Any<Global>| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    };
    r.check(index(&a.get_type()) == *t, || format!("value {i} has the type {:?}", a.get_type()));
    r.check(a.is_ref() == (*t > 2), || format!("value {i} is a reference: {}", a.is_ref()));
    r.check(denials(a) == only(*t), || format!("value {i} is denied as {:?}", denials(a)));
    match *t {
        1 => r.check(a.clone().try_move::<Null>().is_ok(), || "null does not come back".into()),
        2 => r.check(a.clone().try_move::<bool>() == Ok(*id != 0), || format!("bool {id} comes back as another")),
        _ => true,
    };
    match (to_visitor(a.clone()), *t) {
        (Visitor::Null, 1) | (Visitor::Number(_), 0) | (Visitor::String(_), 3) | (Visitor::Bigint(_), 4) | (Visitor::Array(_), 5) | (Visitor::Object(_), 6) => {}
        (Visitor::Bool(b), 2) if b == (*id != 0) => {}
        _ => r.fail("", format!("value {i} of type {t} is visited as another type")),
    }
    for (j, (b, t2, id2)) in v.iter().enumerate() {
        r.traces += 1;
        r.transitions += 2;
        let w = (t, id) == (t2, id2);
        r.check((a == b) == w, || format!("values {i} and {j} are equal: {}", a == b));
        r.check(!w || h(a) == h(b), || format!("values {i} and {j} are equal and hash differently"));
        r.outcome(&(t, t2, w));
    }
}
/// A boxed reference to an address that is never used.
fn address_case(r: &mut Rec, p: u64) {
    macro_rules! go {
        ($t:ty, $k:expr) => {{
        let t = $k;
        let x: Ref<$t, Global> = unsafe { Ref::from_internal(p as usize as *const _) };
        let a: Any<Global> = Any::move_from(x);
        r.traces += 1;
        r.transitions += 5;
        r.check(a.is_ref() && a.get_type() == t, || format!("a reference to {p:x} of type {t:?} has the type {:?}", a.get_type()));
        let is = [a.is::<f64>(), a.is::<Null>(), a.is::<bool>(), a.is::<JsStringRef<Global>>(), a.is::<JsBigintRef<Global>>(), a.is::<JsArrayRef<Global>>(), a.is::<JsObjectRef<Global>>()];
        let mut w = [false; 7];
        w[index(&t)] = true;
        r.check(is == w, || format!("a reference to {p:x} of type {t:?} is of the types {is:?}"));
        let q = a.try_ref::<$t>().map(|b| b as *const _ as usize as u64);
        r.check(q == Ok(p), || format!("a reference to {p:x} becomes {q:x?}"));
        if is == w {
            let back: Ref<$t, Global> = a.try_move().unwrap();
            let q = unsafe { back.internal() } as usize as u64;
            std::mem::forget(back);
            r.check(q == p, || format!("a reference to {p:x} comes back as {q:x}"));
        } else {
            std::mem::forget(a);
        }
        }};
    }
    go!(JsString, Type::String);
    go!(JsBigint, Type::Bigint);
    go!(JsArray<Global>, Type::Array);
    go!(JsObject<Global>, Type::Object);
    r.outcome(&(p >> 44));
    r.nontrivial += 1;
}
fn addresses(t: Tier) -> Vec<u64> {
    let m = (1u64 << 48) - 16;
    let mut v = vec![m];
    for i in 4..48 {
        for j in 4..=i {
            for k in 4..=t.pick(4, j) {
                let p = 1 << i | 1 << j | 1 << k;
                v.extend([p, m ^ p]);
            }
        }
    }
    v.extend((1..t.pick(4096, 65536)).map(|x| x << 4));
    v.extend((1..t.pick(4096, 65536)).map(|x| (x << 32 | 0x1230) & m));
    v.retain(|p| *p != 0);
    v
}
fn c12(t: Tier) -> Vec<Space> {
    let l = lows(t);
    let bits: Vec<u64> = (0..64).flat_map(|i| (0..64).map(move |j| (1u64 << i | 1 << j, i, j))).flat_map(|(b, i, j)| (0..64).step_by(t.pick(64, 1)).flat_map(move |k| [b | 1 << k, !(b | 1 << k), b ^ (((1u64 << i) - 1) ^ ((1 << j) - 1))])).collect();
    let bits = Arc::new(bits);
    let b2 = bits.clone();
    let a = Arc::new(addresses(t));
    let a2 = a.clone();
    let n = values().len() as u64;
    // the fields of 16 bits, each in full beside each upper one
    let at = t.pick(vec![], vec![0u64, 16, 32]);
    let na = at.len() as u64;
    vec![
        Space::new("every value of two fields of 16 bits", na << 16, move |i, r| (0..1 << 16).for_each(|x: u64| number_case(r, i / na << 48 | x << at[(i % na) as usize])), |i| format!("case {i}")),
        Space::new("every upper half of a double", 1 << 16, move |i, r| l.iter().for_each(|x| number_case(r, i << 48 | x)), |i| format!("{i:04x}...")),
        Space::new("doubles with few bits set or clear", bits.len() as u64, move |i, r| number_case(r, bits[i as usize]), move |i| format!("{:x}", b2[i as usize])),
        Space::new("pairs of values", n, |i, r| pairs_case(r, i), |i| format!("value {i}")),
        Space::new("addresses", a.len() as u64, move |i, r| address_case(r, a[i as usize]), move |i| format!("{:x}", a2[i as usize])),
    ]
}

// ------------------------------------------------------------------ C13

struct Nothing;
impl<M: Manager> Watch<M> for Nothing {
    fn live(&self, _: &HashMap<usize, usize>, _: &mc::history::Model) -> Result<(), String> {
        Ok(())
    }
}
fn history_case(r: &mut Rec, regs: usize, h: &[HOp], every: bool) {
    drive(r, TC, &Addresses, regs, h, every);
    if r.failed() {
        return;
    }
    if !cfg!(miri) {
        drive(r, TA, &Addresses, regs, h, every);
    }
    if r.failed() {
        return;
    }
    with_local(r, &format!("{h:?}"), |r, l| drive(r, l, &Bytes(|| l.size()), regs, h, every));
    if r.failed() {
        return;
    }
    if cfg!(miri) {
        return;
    }
    let ((), e) = global::watched(|| {
        // what the explorer itself keeps has to be given back before the end
        let mut r2 = Rec::new();
        drive(&mut r2, GLOBAL, &Nothing, regs, h, every);
        if r2.failed() {
            r.absorb(r2);
        }
    });
    let left = global::left();
    if let Some(e) = e {
        r.fail("", format!("{h:?} with the global manager: {e}"));
    }
    if !r.failed() {
        r.check(left.is_empty(), || format!("{h:?} with the global manager: {} blocks are never released", left.len()));
    }
}
fn history_space(name: &str, regs: usize, h: Vec<Vec<HOp>>, every: bool) -> Space {
    let h = Arc::new(h);
    let h2 = h.clone();
    Space::new(name, h.len() as u64, move |i, r| history_case(r, regs, &h[i as usize], every), move |i| format!("{:?}", h2[i as usize]))
}
/// `n` references to one object; a mutable view exists exactly if all others are gone.
fn many_case<M: Manager>(r: &mut Rec, m: M, n: usize, live: impl Fn() -> bool, order: usize)
where
    M::Dealloc: 'static,
{
    let s: JsStringRef<M::Dealloc> = new_string(m, [1u16, 2, 3]).to_ref();
    let mut v: Vec<Option<Any<M::Dealloc>>> = (0..n).map(|_| Some(s.clone().move_to_any())).collect();
    let mut s = Some(s);
    r.traces += 1;
    for k in 0..=n {
        r.transitions += 1;
        if let Some(x) = s.take() {
            s = match x.try_to_mut_ref() {
                Ok(y) => {
                    r.check(k == n, || format!("mutable although {} others exist", n - k));
                    Some(y.to_ref())
                }
                Err(x) => {
                    r.check(k < n, || "not mutable although alone".to_string());
                    Some(x)
                }
            };
        }
        r.check(live(), || format!("released although {} references exist", n - k + 1));
        if r.failed() {
            return;
        }
        if k < n {
            let i = match order {
                0 => k,
                1 => n - 1 - k,
                _ => (k * 7919) % n,
            };
            let i = (i..n).chain(0..i).find(|i| v[*i].is_some()).unwrap();
            let x = v[i].take().unwrap();
            match order {
                2 => drop(x.try_move::<JsArrayRef<M::Dealloc>>()),
                _ => drop(x),
            }
        }
    }
    drop(s);
    r.check(!live(), || "not released".into());
    r.nontrivial += 1;
}
fn many(r: &mut Rec, n: usize) {
    for order in 0..3 {
        many_case(r, TC, n, || !heap::live().is_empty(), order);
        many_case(r, TA, n, || !heap::live().is_empty(), order);
        finish();
        for e in errors() {
            r.fail("", e);
        }
        with_local(r, "many", |r, l| many_case(r, l, n, || l.size() > 0, order));
    }
}
/// More references than a counter of 8, 16 or 32 bits holds.
fn overflow_case(r: &mut Rec, n: u64) {
    fn go<M: Manager>(r: &mut Rec, m: M, n: u64) {
        let s: JsStringRef<M::Dealloc> = new_string(m, [1u16]).to_ref();
        for _ in 0..n {
            std::mem::forget(std::hint::black_box(s.clone()));
        }
        r.traces += 1;
        r.transitions += n;
        // clones and drops do not release it, and nobody gets a mutable view
        for _ in 0..3 {
            drop(s.clone());
        }
        let Err(s) = s.try_to_mut_ref() else { return r.fail("", format!("mutable although {n} others exist")) };
        r.check(s.items() == [1], || "the contents changed".into());
        drop(s);
        r.check(heap::live().len() == 1, || format!("released although {n} references exist"));
        finish();
        for e in errors() {
            r.fail("", e);
        }
    }
    go(r, TC, n);
    go(r, TA, n);
    r.nontrivial += 1;
}
/// A chain or a ladder of containers, with references to some of them.
fn chain_case(r: &mut Rec, shape: u64, n: usize, keep: usize) {
    fn go<M: Manager>(m: M, shape: u64, n: usize, keep: usize, live: &dyn Fn() -> usize) -> Result<(), String>
    where
        M::Dealloc: 'static,
    {
        let mut a: Any<M::Dealloc> = m.new_js_string([7u16]);
        let mut kept = None;
        let mut alive = 1;
        for i in 0..n {
            a = match shape {
                0 => m.new_js_array([a]),
                1 => m.new_js_array([a.clone(), a]),
                2 => {
                    alive += 1;
                    let k: JsStringRef<M::Dealloc> = new_string(m, [i as u16]).to_ref();
                    m.new_js_object([(k, a)])
                }
                _ => {
                    alive += 1;
                    let k: JsStringRef<M::Dealloc> = new_string(m, [i as u16]).to_ref();
                    m.new_js_object([(k.clone(), a.clone()), (k, a)])
                }
            };
            alive += 1;
            if live() != alive {
                return Err(format!("{} blocks after {i} levels, expected {alive}", live()));
            }
            if i + 1 == keep {
                kept = Some(a.clone());
            }
        }
        drop(a);
        let left = if kept.is_some() { 1 + keep * if shape < 2 { 1 } else { 2 } } else { 0 };
        if live() != left {
            return Err(format!("{} blocks after the end of the chain, expected {left}", live()));
        }
        drop(kept);
        if live() != 0 {
            return Err(format!("{} blocks in the end", live()));
        }
        Ok(())
    }
    r.traces += 1;
    r.transitions += n as u64;
    for res in [go(TC, shape, n, keep, &|| heap::live().len()), go(TA, shape, n, keep, &|| heap::live().len())] {
        finish();
        if let Err(e) = res {
            r.fail("", e);
        }
        for e in errors() {
            r.fail("", e);
        }
    }
}
fn c13(t: Tier) -> Vec<Space> {
    let sizes: Vec<usize> = t.pick((0..40).chain([127, 128, 129, 255, 256, 257, 1000]).collect(), (0..300).chain([511, 512, 1000, 3000]).collect());
    let s2 = sizes.clone();
    let depths: Vec<usize> = t.pick(vec![1, 2, 3, 5, 10, 50, 300], vec![1, 2, 3, 4, 5, 6, 10, 20, 50, 100, 300, 1000, 3000]);
    let nd = depths.len() as u64;
    let d2 = depths.clone();
    let over: Vec<u64> = t.pick(vec![126, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 24], vec![126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32]);
    let o2 = over.clone();
    let mut v = vec![
        history_space("every operation in every state of two registers", 2, transitions(2, 5, t.pick(9, 12)).0, false),
        history_space("every operation in every state of three registers", 3, transitions(3, t.pick(4, 5), t.pick(7, 9)).0, false),
        history_space("every history of two registers", 2, sequences(2, t.pick(5, 6)), true),
        history_space("every history of three registers", 3, sequences(3, t.pick(4, 5)), true),
        Space::new("many references", sizes.len() as u64, move |i, r| many(r, sizes[i as usize]), move |i| format!("{} references", s2[i as usize])).hang(60),
        Space::new("more references than a small counter holds", over.len() as u64, move |i, r| overflow_case(r, over[i as usize]), move |i| format!("{} references", o2[i as usize])).hang(300),
        Space::new(
            "chains and ladders",
            4 * nd * 3,
            move |i, r| {
                let n = depths[(i / 12) as usize];
                chain_case(r, i % 4, n, [0, 1, n / 2][(i / 4 % 3) as usize])
            },
            move |i| format!("shape {} of {} levels, {}", i % 4, d2[(i / 12) as usize], ["none kept", "the first kept", "the middle kept"][(i / 4 % 3) as usize]),
        )
        .hang(60),
    ];
    v.extend(miri_space("C13"));
    v
}

// ------------------------------------------------------------------ C14

/// Headers with a length.
trait Hdr: FlexibleArrayHeader + 'static {
    const MAX: usize;
    const DROPS: bool = false;
    fn of(n: usize) -> Self;
    fn intact(&self, n: usize) -> bool;
}
impl Hdr for usize {
    const MAX: usize = usize::MAX;
    fn of(n: usize) -> Self {
        n
    }
    fn intact(&self, n: usize) -> bool {
        *self == n
    }
}
macro_rules! hdr {
    ($name:ident, $t:ty, $rest:expr, $align:literal, $max:expr) => {
        #[repr(C, align($align))]
        struct $name($t, [u8; $rest]);
        impl FlexibleArrayHeader for $name {
            fn len(&self) -> usize {
                self.0 as usize
            }
        }
        impl Hdr for $name {
            const MAX: usize = $max;
            fn of(n: usize) -> Self {
                Self(n as $t, [0x6b; $rest])
            }
            fn intact(&self, n: usize) -> bool {
                self.0 as usize == n && self.1 == [0x6b; $rest]
            }
        }
    };
}
hdr!(H1, u8, 0, 1, 255);
hdr!(H3, u8, 2, 1, 255);
hdr!(H6, u16, 4, 2, 65535);
hdr!(H24, u64, 16, 8, usize::MAX);
hdr!(H32, u16, 5, 32, 65535);
/// A header with a destructor.
struct Hd(usize, E4<4>);
const HD: u16 = 60_000;
impl FlexibleArrayHeader for Hd {
    fn len(&self) -> usize {
        self.0
    }
}
impl Drop for Hd {
    /// A header that was destroyed has no length any more.
    fn drop(&mut self) {
        self.0 = 0;
    }
}
impl Hdr for Hd {
    const MAX: usize = usize::MAX;
    const DROPS: bool = true;
    fn of(n: usize) -> Self {
        Hd(n, E4::make(HD))
    }
    fn intact(&self, n: usize) -> bool {
        self.0 == n && Elem::is(&self.1, HD)
    }
}
/// Elements without a destructor.
macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Plain for $t {
            fn of(k: u16) -> Self {
                (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) as $t
            }
        }
    )*};
}
trait Plain: PartialEq + 'static {
    fn of(k: u16) -> Self;
}
plain!(u8, u16, u32, u64, i128);
trait Item: 'static {
    const DROPS: bool;
    fn of(k: u16) -> Self;
    fn is(&self, k: u16) -> bool;
}
struct P<T>(T);
impl<T: Plain> Item for P<T> {
    const DROPS: bool = false;
    fn of(k: u16) -> Self {
        P(T::of(k))
    }
    fn is(&self, k: u16) -> bool {
        self.0 == T::of(k)
    }
}
macro_rules! item {
    ($($t:ident),*) => {$(
        impl<const S: usize> Item for $t<S> {
            const DROPS: bool = true;
            fn of(k: u16) -> Self {
                Self::make(k)
            }
            fn is(&self, k: u16) -> bool {
                Elem::is(self, k)
            }
        }
    )*};
}
item!(E1, E2, E4, E8, E16, E64);

/// The block at an address, whoever allocated it.
fn any_block(p: usize) -> Option<(usize, Layout)> {
    block_of(p).or_else(|| global::block(p))
}
/// `[p, p + size)` is inside of one block (`at`), aligned.
fn inside(r: &mut Rec, what: &str, p: usize, size: usize, align: usize, at: Option<usize>) -> Option<usize> {
    r.check(p % align == 0, || format!("{what} at an address that is {} mod {align}", p % align));
    let b = any_block(p)?;
    r.check(p >= b.0 && p + size <= b.0 + b.1.size(), || format!("{what} is at {} with {size} bytes in a block of {}", p - b.0, b.1.size()));
    if let Some(a) = at {
        r.check(a == b.0, || format!("{what} is in another block"));
    }
    Some(b.0)
}
/// What a manager shows of its live objects.
trait Shows {
    fn count(&self) -> Option<isize>;
    fn bytes(&self) -> Option<usize>;
}
impl Shows for TC {
    fn count(&self) -> Option<isize> {
        Some(heap::live().len() as isize)
    }
    fn bytes(&self) -> Option<usize> {
        None
    }
}
impl Shows for TA {
    fn count(&self) -> Option<isize> {
        Some(heap::live().len() as isize)
    }
    fn bytes(&self) -> Option<usize> {
        None
    }
}
impl Shows for Global {
    fn count(&self) -> Option<isize> {
        None
    }
    fn bytes(&self) -> Option<usize> {
        None
    }
}
impl Shows for &'static Local {
    fn count(&self) -> Option<isize> {
        counter(self)
    }
    fn bytes(&self) -> Option<usize> {
        Some(self.size())
    }
}
fn shows<M: Shows>(r: &mut Rec, m: &M, n: isize, bytes: usize) {
    let c = m.count();
    r.check(c.map_or(true, |c| c == n), || format!("{c:?} objects are counted, expected {n}"));
    if let Some(b) = m.bytes() {
        r.check(if n == 0 { b == 0 } else { b >= bytes }, || format!("{b} bytes are counted for {n} objects of {bytes}"));
    }
}
fn block_case<M: Manager + Shows, H: Hdr, I: Item>(r: &mut Rec, m: M, n: usize) {
    if n > H::MAX {
        return;
    }
    let size = std::mem::size_of::<I>();
    elements();
    r.traces += 1;
    r.transitions += 6;
    {
        let mut b = m.new(H::of(n).constructor((0..n).map(|k| I::of(k as u16))));
        let pay = std::mem::size_of::<H>() + n * size;
        let look = |r: &mut Rec, h: &H, items: &[I], base: usize, first: u16| {
            r.check(h.intact(n), || "the header changed".into());
            r.check(h.len() == n && h.is_empty() == (n == 0), || format!("the header says {} items, empty: {}, expected {n}", h.len(), h.is_empty()));
            r.check(items.len() == n, || format!("{} items, expected {n}", items.len()));
            let (hp, ip) = (h as *const H as usize, items.as_ptr() as usize);
            let at = inside(r, "the header", hp, std::mem::size_of::<H>(), std::mem::align_of::<H>(), None);
            inside(r, "the items", ip, n * size, std::mem::align_of::<I>(), if n * size > 0 { at } else { None });
            r.check(ip >= hp + std::mem::size_of::<H>(), || "the items overlap the header".into());
            // the counter is in front of the header
            r.check(base % std::mem::align_of::<<M::Dealloc as Dealloc>::BlockHeader>() == 0 && base + std::mem::size_of::<<M::Dealloc as Dealloc>::BlockHeader>() <= hp, || format!("the counter at {base:x} overlaps the header at {hp:x}"));
            for (k, x) in items.iter().enumerate() {
                if !x.is(first.wrapping_add(k as u16)) {
                    r.fail("", format!("item {k} is not what it was made as"));
                    break;
                }
            }
            if let Some(at) = at {
                let l = any_block(at).unwrap().1;
                r.check(l.size() >= pay, || format!("{l:?} for {pay} bytes"));
            }
        };
        let hp = &b.header as *const H as usize;
        look(r, &b.header, b.items(), hp - std::mem::size_of::<<M::Dealloc as Dealloc>::BlockHeader>(), 0);
        shows(r, &m, 1, pay);
        // an object more does not disturb it
        {
            let c = m.new(H::of(n.min(2)).constructor((0..n.min(2)).map(|k| I::of(1000 + k as u16))));
            shows(r, &m, 2, pay);
            r.check(c.items().iter().enumerate().all(|(k, x)| x.is(1000 + k as u16)), || "the second object is not what it was made as".into());
            drop(c.to_ref());
        }
        shows(r, &m, 1, pay);
        if n > 0 {
            b.items_mut()[n - 1] = I::of((n - 1) as u16);
            b.items_mut()[0] = I::of(0);
        }
        let s = b.to_ref();
        let t = s.clone();
        look(r, &t.header, t.items(), unsafe { t.internal() } as usize, 0);
        drop(s);
        shows(r, &m, 1, pay);
        match t.try_to_mut_ref() {
            Ok(mut x) => {
                for (k, e) in x.items_mut().iter_mut().enumerate() {
                    *e = I::of(500u16.wrapping_add(k as u16));
                }
                let s = x.to_ref();
                look(r, &s.header, s.items(), unsafe { s.internal() } as usize, 500);
                drop(s);
            }
            Err(_) => r.fail("", "no mutable view although alone"),
        }
    }
    shows(r, &m, 0, 0);
    let (made, dropped) = elements();
    if let Some(e) = balance(&made, &dropped, true) {
        r.fail("", e);
    }
    let want = if I::DROPS { 2 * n + n.min(2) + if n > 0 { 2 } else { 0 } } else { 0 } + if H::DROPS { 2 } else { 0 };
    r.check(dropped.len() == want, || format!("{} destructors ran, expected {want}", dropped.len()));
    // items of the last object are destroyed in order
    r.outcome(&(size, n, want));
    r.state(&(std::mem::size_of::<H>(), std::mem::align_of::<H>(), size, std::mem::align_of::<I>(), n));
    r.nontrivial += (n > 0) as u64;
}
/// An announced length that is not the length of the iterator.
fn announced_case<M: Manager + Shows, H: Hdr, I: Item>(r: &mut Rec, m: M, announced: usize, n: usize) {
    if announced > H::MAX {
        return;
    }
    elements();
    let made_by = Cell::new(0);
    r.traces += 1;
    r.transitions += 2;
    let res = guarded(|| {
        m.new(H::of(announced).constructor((0..n).map(|k| {
            made_by.set(made_by.get() + 1);
            I::of(k as u16)
        })))
        .to_ref()
    });
    match res {
        Ok(s) => {
            r.check(announced <= n, || format!("an object of {announced} items is made of {n}"));
            r.check(s.items().len() == announced && s.header.intact(announced), || format!("{} items, expected {announced}", s.items().len()));
            r.check(announced > n || s.items().iter().enumerate().all(|(k, x)| x.is(k as u16)), || "items are not what they were made as".into());
            drop(s);
            shows(r, &m, 0, 0);
            let (made, dropped) = elements();
            if let Some(e) = balance(&made, &dropped, true) {
                r.fail("", e);
            }
        }
        Err(p) => {
            r.check(announced > n, || format!("panic: {p}"));
            // nothing that was never made is destroyed
            let (made, dropped) = elements();
            if let Some(e) = balance(&made, &dropped, false) {
                r.fail("", e);
            }
        }
    }
    r.outcome(&(announced, n));
    r.nontrivial += (announced != n) as u64;
}
/// One object of a fixed size.
fn fixed_case<M: Manager + Shows, I: Item>(r: &mut Rec, m: M, k: u16) {
    elements();
    r.traces += 1;
    r.transitions += 4;
    {
        let mut a = m.fixed_new(I::of(k));
        r.check(a.0.is(k), || "the object is not what it was made as".into());
        let p = &a.0 as *const I as usize;
        inside(r, "the object", p, std::mem::size_of::<I>(), std::mem::align_of::<I>(), None);
        shows(r, &m, 1, std::mem::size_of::<I>());
        a.0 = I::of(k + 1);
        let s = a.to_ref();
        let t = s.clone();
        r.check(s == t && t.0.is(k + 1), || "the object is not what it was made as".into());
        drop(s);
        shows(r, &m, 1, std::mem::size_of::<I>());
        r.check(t.0.is(k + 1), || "the object changed".into());
        match t.try_to_mut_ref() {
            Ok(mut x) => {
                x.0 = I::of(k + 2);
                if k % 2 == 0 {
                    drop(x.to_ref());
                }
            }
            Err(_) => r.fail("", "no mutable view although alone"),
        }
    }
    shows(r, &m, 0, 0);
    let (made, dropped) = elements();
    if let Some(e) = balance(&made, &dropped, true) {
        r.fail("", e);
    }
    r.check(dropped.len() == if I::DROPS { 3 } else { 0 }, || format!("{} destructors ran", dropped.len()));
    r.outcome(&(std::mem::size_of::<I>(), k));
}
/// Runs one case with every manager, and checks its blocks.
fn managers(r: &mut Rec, leaks: bool, f: &dyn Fn(&mut Rec, usize, Option<&'static Local>)) {
    for m in MANAGERS {
        let mut r2 = Rec::with_room();
        let ((), e) = global::watched(|| {
            if m == 2 {
                let raw = Box::into_raw(Box::<Local>::default());
                f(&mut r2, m, Some(unsafe { &*raw }));
                if !leaks || unsafe { &*raw }.size() == 0 {
                    drop(unsafe { Box::from_raw(raw) });
                }
            } else {
                f(&mut r2, m, None);
            }
        });
        let global = if m == 3 { global::left().len() } else { 0 };
        r.absorb(r2);
        let left = finish() + global;
        for x in errors().into_iter().chain(e) {
            r.fail("", format!("manager {m}: {x}"));
        }
        if !leaks && !r.failed() {
            r.check(left == 0, || format!("manager {m}: {left} blocks are never released"));
        }
    }
}
type Case = (String, Box<dyn Fn(&mut Rec, usize, usize, usize) + Send + Sync>);
macro_rules! per_manager {
    ($f:ident, [$($g:ty),*], $r:ident, $leaks:expr, ($($a:expr),*)) => {
        managers($r, $leaks, &|r, m, l| match m {
            0 => $f::<TC, $($g),*>(r, TC, $($a),*),
            1 => $f::<TA, $($g),*>(r, TA, $($a),*),
            2 => $f::<&'static Local, $($g),*>(r, l.unwrap(), $($a),*),
            _ => $f::<Global, $($g),*>(r, GLOBAL, $($a),*),
        })
    };
}
macro_rules! table {
    ([$($h:ty),*], $e:tt) => {{
        let mut v: Vec<Case> = vec![];
        $(table!(@h v, $h, $e);)*
        v
    }};
    (@h $v:ident, $h:ty, [$($e:ty),*]) => {
        $($v.push((format!("{} before {}", stringify!($h), stringify!($e)), Box::new(|r: &mut Rec, what: usize, a: usize, n: usize| match what {
            0 => per_manager!(block_case, [$h, $e], r, false, (n)),
            _ => per_manager!(announced_case, [$h, $e], r, true, (a, n)),
        })));)*
    };
}
fn cases() -> Vec<Case> {
    let mut v = table!([usize], [E1<0>, E1<1>, E1<3>, E1<24>, E2<2>, E2<6>, E4<0>, E4<4>, E4<12>, E8<8>, E8<40>, E16<0>, E16<16>, E16<48>, E64<0>, E64<64>, P<u8>, P<u16>, P<i128>]);
    v.extend(table!([H1, H3, H6, H24, H32, Hd], [E1<1>, E2<6>, E4<0>, E4<12>, E16<16>, E64<64>, P<u64>]));
    v
}
fn fixed_cases() -> Vec<Case> {
    macro_rules! fixed {
        ($($e:ty),*) => {vec![$((stringify!($e).to_string(), Box::new(|r: &mut Rec, _: usize, _: usize, n: usize| per_manager!(fixed_case, [$e], r, false, (n as u16))) as Box<dyn Fn(&mut Rec, usize, usize, usize) + Send + Sync>)),*]};
    }
    fixed!(E1<0>, E1<1>, E1<3>, E1<24>, E2<2>, E2<6>, E4<0>, E4<4>, E4<12>, E8<8>, E8<40>, E16<0>, E16<16>, E16<48>, E64<0>, E64<64>, P<u8>, P<u16>, P<i128>)
}
/// Strings, bigints, arrays and objects: the constructors of the library.
fn js_case(r: &mut Rec, n: usize) {
    fn go<M: Manager + Shows>(r: &mut Rec, m: M, n: usize)
    where
        M::Dealloc: 'static,
    {
        let s = new_string(m, (0..n).map(|k| k as u16 ^ 0xD800)).to_ref();
        let b = new_bigint(m, if n % 2 == 0 { Sign::Negative } else { Sign::Positive }, (0..n).map(|k| k as u64 + (1 << 63))).to_ref();
        let a = new_array(m, (0..n).map(|k| if k % 2 == 0 { s.clone().move_to_any() } else { Any::move_from(k as f64) })).to_ref();
        let o = new_object(m, (0..n).map(|k| (s.clone(), if k % 3 == 0 { b.clone().move_to_any() } else { a.clone().move_to_any() }))).to_ref();
        shows(r, &m, 4, 34 * n);
        for (p, size, what) in [
            (s.items().as_ptr() as usize, 2 * n, "a string"),
            (b.items().as_ptr() as usize, 8 * n, "a bigint"),
            (a.items().as_ptr() as usize, 8 * n, "an array"),
            (o.items().as_ptr() as usize, 16 * n, "an object"),
        ] {
            inside(r, what, p, size, 2, None);
        }
        r.check(s.items().iter().enumerate().all(|(k, x)| *x == k as u16 ^ 0xD800), || "units of a string changed".into());
        r.check(b.items().iter().enumerate().all(|(k, x)| *x == k as u64 + (1 << 63)) && b.items().len() == n, || "digits of a bigint changed".into());
        let neg = n % 2 == 0 && n > 0;
        for (e, what) in [(s.header.is_empty(), "string"), (b.header.is_empty(), "bigint"), (a.header.is_empty(), "array"), (o.header.is_empty(), "object")] {
            r.check(e == (n == 0), || format!("{what} of length {n}: is_empty {e}"));
        }
        r.check((b.header_len() < 0) == neg && b.header_len().unsigned_abs() == n, || format!("bigint of length {} has {}", n, b.header_len()));
        for (k, x) in a.items().iter().enumerate() {
            let ok = if k % 2 == 0 { *x == s.clone().move_to_any() } else { x.clone().try_move::<f64>() == Ok(k as f64) };
            r.check(ok, || format!("item {k} of an array changed"));
        }
        for (k, (x, y)) in o.items().iter().enumerate() {
            let ok = *x == s && *y == if k % 3 == 0 { b.clone().move_to_any() } else { a.clone().move_to_any() };
            r.check(ok, || format!("property {k} of an object changed"));
        }
        drop((s, b));
        drop(a);
        shows(r, &m, if n == 0 { 1 } else if n == 1 { 3 } else { 4 }, 0);
        drop(o);
        shows(r, &m, 0, 0);
    }
    r.traces += 1;
    r.transitions += 6;
    per_manager!(go, [], r, false, (n));
    r.outcome(&n);
    r.nontrivial += (n > 0) as u64;
}
/// Lengths that no memory holds, each in a process of its own: refused, never a wild access.
fn huge() -> Space {
    let lens: Vec<(usize, u32)> = (0..6).flat_map(|t| [48u32, 52, 58, 59, 60, 61, 62, 63, 64].map(|b| (t, b))).collect();
    let l2 = lens.clone();
    Space::new(
        "announced lengths that no memory holds",
        lens.len() as u64,
        move |i, r| {
            let (t, b) = lens[i as usize];
            let exe = std::env::var_os("HUGE_BIN").unwrap_or_else(|| std::env::current_exe().unwrap().with_file_name("huge").into());
            let st = Command::new(exe).args([&t.to_string(), &b.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
            use std::os::unix::process::ExitStatusExt;
            r.traces += 1;
            r.transitions += 1;
            r.nontrivial += 1;
            r.outcome(&format!("{st}"));
            // 0: refused with a panic; an abort: no memory
            r.check(st.success() || st.signal() == Some(libc::SIGABRT), || format!("{st}"));
        },
        move |i| format!("kind {} with 2^{} bytes", l2[i as usize].0, l2[i as usize].1),
    )
    .hang(60)
}
fn c14(t: Tier) -> Vec<Space> {
    let lens: Vec<usize> = {
        let big = (7..=16).flat_map(|k| (1usize << k) - 2..=(1 << k) + 2);
        t.pick(0..67, 0..130).chain(big).chain([1000, 1001, 60_000, 60_001]).collect()
    };
    let c = Arc::new(cases());
    let (c1, c2, c3) = (c.clone(), c.clone(), c.clone());
    let nl = lens.len() as u64;
    let l2 = lens.clone();
    let js: Vec<usize> = t.pick((0..150).chain([254, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 32_767, 32_768, 65_535, 65_536, 65_537]).collect(), (0..2000).chain([4095, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 200_000]).collect());
    let j2 = js.clone();
    let k = t.pick(6, 12) as u64;
    let f = Arc::new(fixed_cases());
    let f2 = f.clone();
    let mut v = vec![
        Space::new(
            "every header, element and length",
            c.len() as u64 * nl,
            move |i, r| c1[(i / nl) as usize].1(r, 0, 0, lens[(i % nl) as usize]),
            move |i| format!("{} items, {}", l2[(i % nl) as usize], c2[(i / nl) as usize].0),
        ),
        Space::new(
            "announced and given lengths",
            c.len() as u64 * k * k,
            move |i, r| c3[(i / k / k) as usize].1(r, 1, (i / k % k) as usize, (i % k) as usize),
            move |i| format!("{} items announced, {} given, {}", i / k % k, i % k, c[(i / k / k) as usize].0),
        ),
        Space::new("objects of a fixed size", 4 * f.len() as u64, move |i, r| f[(i / 4) as usize].1(r, 0, 0, (i % 4) as usize), move |i| f2[(i / 4) as usize].0.clone()),
        Space::new("strings, bigints, arrays and objects", js.len() as u64, move |i, r| js_case(r, js[i as usize]), move |i| format!("{} items", j2[i as usize])).hang(60),
        huge(),
    ];
    v.extend(miri_space("C14"));
    v
}

// ------------------------------------------------------------------ C27

/// Other objects, that a panic must not touch.
struct Others<M: Manager> {
    a: Any<M::Dealloc>,
    s: JsStringRef<M::Dealloc>,
    e: Ref<nanvm_lib::mem::flexible_array::FlexibleArray<E8<16>, usize>, M::Dealloc>,
}
impl<M: Manager> Others<M>
where
    M::Dealloc: 'static,
{
    fn new(m: M) -> Self {
        let s = new_string(m, [5u16, 6]).to_ref();
        let a = m.new_js_array([s.clone().move_to_any(), Any::move_from(4.0), Any::move_from(true)]);
        let e = m.new(3usize.constructor((0..3).map(|k| E8::<16>::make(900 + k)))).to_ref();
        Others { a, s, e }
    }
    /// Intact, and released in the end.
    fn end(self, r: &mut Rec, live: &dyn Fn() -> Option<usize>, involved: usize) {
        r.check(self.s.items() == [5, 6], || "another string changed".into());
        r.check(self.e.items().iter().enumerate().all(|(k, x)| Elem::is(x, 900 + k as u16)), || "another object changed".into());
        let a = self.a.try_ref::<JsArray<M::Dealloc>>().unwrap().object();
        r.check(a.items().len() == 3 && a.items()[0] == self.s.clone().move_to_any() && a.items()[1].clone().try_move() == Ok(4.0) && a.items()[2].clone().try_move() == Ok(true), || "another array changed".into());
        match self.e.try_to_mut_ref() {
            Ok(e) => drop(e.to_ref()),
            Err(_) => r.fail("", "another object has a reference too many"),
        }
        drop(self.a);
        match self.s.try_to_mut_ref() {
            Ok(e) => drop(e),
            Err(_) => r.fail("", "another string has a reference too many"),
        }
        if let Some(n) = live() {
            r.check(n <= involved, || format!("{n} objects are alive, at most {involved} are involved"));
        }
    }
}
fn at_most_once(r: &mut Rec) -> (usize, usize) {
    let (made, dropped) = elements();
    if let Some(e) = balance(&made, &dropped, false) {
        r.fail("", e);
    }
    (made.len(), dropped.len())
}
/// The items come from an iterator that panics at item `k` of `n`.
fn iterator_case<M: Manager, H: Hdr, I: Item>(r: &mut Rec, m: M, n: usize, k: usize) {
    if n > H::MAX {
        return;
    }
    elements();
    r.traces += 1;
    r.transitions += k as u64 + 1;
    let res = guarded(|| {
        drop(m.new(H::of(n).constructor((0..n).map(|i| {
            if i == k {
                panic!("iterator");
            }
            I::of(i as u16)
        }))))
    });
    r.check(res.is_err() == (k < n), || format!("{res:?}"));
    at_most_once(r);
    r.outcome(&(n, k));
    r.nontrivial += 1;
}
/// The same with other objects around, and references to them as items.
fn refs_case<M: Manager>(r: &mut Rec, m: M, n: usize, k: usize, kind: usize, live: &dyn Fn() -> Option<usize>)
where
    M::Dealloc: 'static,
{
    elements();
    r.traces += 1;
    r.transitions += k as u64 + 1;
    let o = Others::new(m);
    let x = m.new_js_string([1u16, 2, 3]);
    let mut made = 0;
    let mut item = |i: usize| {
        if i == k {
            panic!("iterator");
        }
        made += 1;
        x.clone()
    };
    let key: JsStringRef<M::Dealloc> = x.clone().try_move().unwrap();
    let res = guarded(|| match kind {
        0 => drop(new_array(m, (0..n).map(&mut item))),
        1 => drop(new_object(m, (0..n).map(|i| (key.clone(), item(i))))),
        2 => drop(new_string(m, (0..n).map(|i| {
            item(i);
            i as u16
        }))),
        3 => drop(new_bigint(m, Sign::Negative, (0..n).map(|i| {
            item(i);
            i as u64
        }))),
        4 => drop(m.new_js_array((0..n).map(|i| m.new_js_array([item(i)])))),
        _ => drop(m.new_js_array(Panicky(k % 2 == 0).map(|_| x.clone()))),
    });
    r.check(res.is_err() == (kind == 5 || k < n), || format!("{res:?}"));
    drop(key);
    // the item is intact, whoever refers to it
    r.check(x.try_ref::<JsString>().unwrap().object().items() == [1, 2, 3], || "the item changed".into());
    let x: JsStringRef<M::Dealloc> = x.try_move().unwrap();
    drop(x);
    o.end(r, live, 1 + 1 + n);
    at_most_once(r);
    r.outcome(&(n, k, kind));
    r.nontrivial += 1;
}
/// An iterator that panics when it is asked for its length, or when it is turned into one.
struct Panicky(bool);
impl Iterator for Panicky {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        Some(1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        panic!("size hint {}", self.0)
    }
}
impl ExactSizeIterator for Panicky {
    fn len(&self) -> usize {
        if self.0 {
            panic!("len");
        }
        self.size_hint().0
    }
}
/// A graph of elements of which one destructor panics. Shapes: how the elements are held.
fn drop_case<M: Manager>(r: &mut Rec, m: M, n: usize, k: usize, shape: usize, live: &dyn Fn() -> Option<usize>)
where
    M::Dealloc: 'static,
{
    elements();
    r.traces += 1;
    r.transitions += 2;
    let o = Others::new(m);
    let flex = |first: usize, n: usize| m.new(n.constructor((first..first + n).map(|i| E8::<16>::make(i as u16))));
    let mut kept: Option<Ref<_, M::Dealloc>> = None;
    let res = match shape {
        0 => {
            let x = flex(0, n);
            panic_drop(k);
            guarded(|| drop(x))
        }
        1 => {
            let x = flex(0, n).to_ref();
            let y = x.clone();
            panic_drop(k);
            guarded(|| {
                drop(x);
                drop(y)
            })
        }
        2 => {
            // the last but one reference: nothing is destroyed
            let x = flex(0, n).to_ref();
            kept = Some(x.clone());
            panic_drop(k);
            guarded(|| drop(x)).map(|()| panic_drop(usize::MAX))
        }
        3 => {
            // an array of references
            let x = m.new(n.constructor((0..n).map(|i| flex(10 * i, 2).to_ref()))).to_ref();
            panic_drop(k);
            guarded(|| drop(x))
        }
        4 => {
            // shared items
            let s = flex(0, 2).to_ref();
            let x = m.new(n.constructor((0..n).map(|_| s.clone()))).to_ref();
            panic_drop(k);
            let a = guarded(|| drop(s));
            let b = guarded(|| drop(x));
            a.and(b)
        }
        5 => {
            let x = m.new(Hd::of(n).constructor((0..n).map(|i| E8::<16>::make(i as u16))));
            panic_drop(k);
            guarded(|| drop(x.to_ref()))
        }
        6 => {
            let x = m.fixed_new((E8::<16>::make(0), E4::<4>::make(1), [E1::<3>::make(2), E1::<3>::make(3)]));
            panic_drop(k);
            guarded(|| drop(x.to_ref()))
        }
        7 => {
            // items of a mutable view are replaced
            let mut x = flex(0, n);
            panic_drop(k);
            let res = guarded(|| {
                for i in 0..n {
                    x.items_mut()[i] = E8::make(100 + i as u16);
                }
            });
            // the panic came while an old item was destroyed: what is there now is destroyed later
            panic_drop(usize::MAX);
            r.check(x.items().iter().enumerate().all(|(i, e)| Elem::is(e, i as u16) || Elem::is(e, 100 + i as u16)), || "an item is not what it was made as".into());
            drop(x);
            res
        }
        _ => {
            // the iterator owns elements that it destroys
            let res;
            {
                let v: Vec<E8<16>> = (0..n).map(|i| E8::make(i as u16)).collect();
                panic_drop(k);
                res = guarded(|| drop(m.flexible_array_new(v.into_iter().map(|e| E8::<16>::make(200 + e.bytes()[0] as u16)))));
            }
            res
        }
    };
    panic_drop(usize::MAX);
    r.outcome(&(shape, n, k, res.is_err()));
    r.nontrivial += res.is_err() as u64;
    if let Some(x) = kept {
        r.check(x.items().iter().enumerate().all(|(i, e)| Elem::is(e, i as u16)), || "an object with a reference changed".into());
        r.check(x.items().len() == n, || "an object with a reference changed its length".into());
        drop(x);
    }
    o.end(r, live, n + 2);
    let (made, dropped) = elements();
    if let Some(e) = balance(&made, &dropped, res.is_ok()) {
        r.fail("", e);
    }
}
/// The allocator panics at allocation `k`.
fn alloc_case<M: Manager>(r: &mut Rec, m: M, k: usize, kind: usize)
where
    M::Dealloc: 'static,
{
    elements();
    let live = || Some(heap::live().len());
    r.traces += 1;
    r.transitions += 2;
    let o = Others::new(m);
    let x = m.new_js_string([1u16, 2, 3]);
    let before = heap::live().len();
    fail_alloc(k);
    let res = guarded(|| match kind {
        0 => {
            // every item was made before
            let v = vec![x.clone(), m.new_js_array([x.clone()]), m.new_js_array([x.clone(), x.clone()])];
            drop(m.new_js_array(v));
        }
        1 => {
            let key = x.clone().try_move::<JsStringRef<M::Dealloc>>().unwrap();
            let v = vec![(key.clone(), m.new_js_array([x.clone()])), (key, x.clone())];
            drop(m.new_js_object(v));
        }
        2 => {
            let v: Vec<E8<16>> = (0..3).map(E8::make).collect();
            let a = m.flexible_array_new(v).to_ref();
            let b = m.fixed_new((a.clone(), E4::<4>::make(7)));
            drop(m.fixed_new((b, a, E8::<16>::make(8))));
        }
        _ => {
            let a: Any<M::Dealloc> = new_bigint(m, Sign::Positive, [1u64, 2]).to_ref().move_to_any();
            let b = m.new_js_array([a.clone(), x.clone()]);
            let c = b.clone();
            let d = m.new_js_array([a, b, c]);
            drop(m.new_js_array([d.clone(), d]));
        }
    });
    fail_alloc(usize::MAX);
    r.outcome(&(kind, k, res.is_err()));
    r.nontrivial += res.is_err() as u64;
    // no object was half made: everything is released
    r.check(heap::live().len() == before, || format!("{} objects are alive, expected {before}", heap::live().len()));
    drop(x);
    o.end(r, &live, 0);
    let (made, dropped) = elements();
    if let Some(e) = balance(&made, &dropped, true) {
        r.fail("", e);
    }
}
/// A closure that traverses a value panics at child `k`.
fn traverse_case<M: Manager>(r: &mut Rec, m: M, n: usize, k: usize, object: bool, live: &dyn Fn() -> Option<usize>)
where
    M::Dealloc: 'static,
{
    elements();
    r.traces += 1;
    r.transitions += k as u64 + 1;
    let o = Others::new(m);
    let s = new_string(m, [9u16]).to_ref();
    let x = if object { m.new_js_object((0..n).map(|_| (s.clone(), s.clone().move_to_any())).collect::<Vec<_>>()) } else { m.new_js_array((0..n).map(|_| s.clone().move_to_any())) };
    let mut kept = vec![];
    let mut i = 0;
    let res = guarded(|| {
        let _ = x.for_each(|key, v| {
            if i == k {
                panic!("closure");
            }
            i += 1;
            kept.push((key, v.clone()));
            Ok::<(), ()>(())
        });
    });
    r.check(res.is_err() == (k < n), || format!("{res:?}"));
    r.check(kept.len() == k.min(n), || format!("{} children were shown", kept.len()));
    // no reference is left over
    drop(kept);
    let alone = if object { x.try_move::<JsObjectRef<M::Dealloc>>().unwrap().try_to_mut_ref().map(drop).is_ok() } else { x.try_move::<JsArrayRef<M::Dealloc>>().unwrap().try_to_mut_ref().map(drop).is_ok() };
    r.check(alone, || "a reference to the container is left over".into());
    r.check(s.try_to_mut_ref().is_ok(), || "a reference to a child is left over".into());
    o.end(r, live, 0);
    r.outcome(&(n, k, object));
    r.nontrivial += 1;
}
/// A writer that panics at write `k`.
struct PanicWriter(usize, String);
impl std::fmt::Write for PanicWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 {
            panic!("writer");
        }
        self.0 -= 1;
        self.1 += s;
        Ok(())
    }
}
fn written() -> Vec<Val> {
    let s = Val::arr(vec![Val::str("s"), Val::Num(1.5)]);
    vec![
        Val::arr(vec![Val::Null, Val::Bool(true), Val::Num(-0.0), Val::str("a\n\"\u{1}"), Val::big(-(1 << 70)), Val::arr(vec![])]),
        Val::obj(vec![("a", s.clone()), ("b", Val::obj(vec![])), ("c", Val::arr(vec![s.clone(), s.clone()]))]),
        Val::arr(vec![s.clone(), Val::obj(vec![("x", s)])]),
    ]
}
fn write_case<M: Manager>(r: &mut Rec, m: M, v: &Val, k: usize, how: usize, live: &dyn Fn() -> Option<usize>)
where
    M::Dealloc: 'static,
{
    elements();
    r.traces += 1;
    r.transitions += k as u64 + 1;
    let o = Others::new(m);
    let x = build(m, v);
    let before = live();
    let res = guarded(|| {
        let mut w = PanicWriter(k, String::new());
        let _ = match how {
            0 => w.write_json(x.clone()),
            1 => w.write_djs(x.clone(), true),
            _ => w.write_djs(x.clone(), false),
        };
        w.1
    });
    r.check(before == live(), || format!("{:?} objects, expected {before:?}", live()));
    r.check(canon_any(&x, true) == canon(v, true), || "the value changed".into());
    r.outcome(&(k, how, res.is_err()));
    r.nontrivial += res.is_err() as u64;
    drop(x);
    o.end(r, live, 0);
}
/// An operation of the file system panics while modules are parsed.
fn parse_case<M: Manager + 'static>(r: &mut Rec, m: M, k: usize, live: &dyn Fn() -> Option<usize>) -> bool
where
    M::Dealloc: 'static,
{
    elements();
    r.traces += 1;
    r.transitions += k as u64 + 1;
    let small: &[(&str, &[u8])] = &[("a", b"const x=[\"s\"]\nimport b from \"b\"\n[x,b,x]"), ("b", b"module.exports=[1n]")];
    let io = Vio::new(
        &[],
        if cfg!(miri) { small } else { &[
            ("a", b"const x=[1,\"s\",{k:[]}]\nimport b from \"b\"\nimport c from \"d/c\"\nconst y=[x,b,c,x];export default {x:x,y:y,z:[y,{a:b}]}"),
            ("b", b"module.exports=[\"t\",12345678901234567890n,require(\"d/c\")]"),
            ("d/c", b"import e from \"e\"\nconst q=[e,e];export default [q,q,{e:e}]"),
            ("d/e", b"{\"a\":[1,2,3],\"b\":\"text\"}"),
        ] },
    );
    io.st.borrow_mut().panic = Some(k);
    let o = Others::new(m);
    let before = live();
    let mut cache = ModuleCache::default();
    let res = guarded(|| {
        let mut c = Context::new(m, &io, "a".into(), &mut cache);
        parse(&mut c).map(|x| drop(x.any)).map_err(|e| e.to_string())
    });
    let fired = io.st.borrow().fired;
    r.check(fired == res.is_err(), || format!("{res:?}"));
    if !fired {
        r.check(res == Ok(Ok(())), || format!("{res:?}"));
    }
    // values of finished modules are in the cache, nothing else is left
    drop(cache);
    r.check(before == live(), || format!("{:?} objects, expected {before:?}", live()));
    o.end(r, live, 0);
    r.outcome(&(k, fired));
    r.nontrivial += fired as u64;
    fired
}
/// Runs a case with every manager that shows its live objects.
fn shown(r: &mut Rec, f: &dyn Fn(&mut Rec, usize, &'static Local, &dyn Fn() -> Option<usize>)) {
    for m in MANAGERS {
        let raw = Box::into_raw(Box::<Local>::default());
        let l: &'static Local = unsafe { &*raw };
        let mut r2 = Rec::with_room();
        let ((), e) = global::watched(|| {
            match m {
                0 | 1 => f(&mut r2, m, l, &|| Some(heap::live().len())),
                2 => f(&mut r2, m, l, &|| counter(l).map(|n| n as usize)),
                _ => f(&mut r2, m, l, &|| None),
            }
        });
        r.absorb(r2);
        if l.size() == 0 {
            drop(unsafe { Box::from_raw(raw) });
        }
        finish();
        for x in errors().into_iter().chain(e) {
            r.fail("", format!("manager {m}: {x}"));
        }
        if r.failed() {
            return;
        }
    }
}
macro_rules! shown {
    ($f:ident, $r:ident, ($($a:expr),*)) => {
        shown($r, &|r, m, l, live| match m {
            0 => $f(r, TC, $($a),*, live),
            1 => $f(r, TA, $($a),*, live),
            2 => $f(r, l, $($a),*, live),
            _ => $f(r, GLOBAL, $($a),*, live),
        })
    };
}
/// `RefMut::modify` with a closure that panics or not, in a process of its own.
const MODIFY: usize = 12;
fn modify_child(kind: usize) -> ! {
    let panics = kind >= MODIFY / 2;
    elements();
    let mut f = |e: E8<16>| {
        if panics {
            panic!("closure");
        }
        let k = e.bytes()[0] as u16;
        drop(e);
        E8::<16>::make(50 + k)
    };
    let res = match kind % (MODIFY / 2) {
        0 => {
            let mut x = E8::<16>::make(1);
            let res = guarded(|| x.modify(&mut f));
            let ok = Elem::is(&x, 51);
            drop(x);
            res.map(|()| ok)
        }
        1 => {
            let mut x = TC.new(3usize.constructor((0..3).map(E8::<16>::make)));
            let res = guarded(|| x.items_mut()[1].modify(&mut f));
            let ok = Elem::is(&x.items()[0], 0) && Elem::is(&x.items()[1], 51) && Elem::is(&x.items()[2], 2);
            drop(x);
            res.map(|()| ok)
        }
        2 => {
            let mut x = TC.fixed_new(E8::<16>::make(1));
            let res = guarded(|| x.0.modify(&mut f));
            let ok = Elem::is(&x.0, 51);
            drop(x.to_ref());
            res.map(|()| ok)
        }
        3 => {
            let mut x = vec![E8::<16>::make(1), E8::make(2)];
            let res = guarded(|| x.modify(|v| v.into_iter().map(&mut f).collect()));
            let ok = x.len() == 2 && Elem::is(&x[0], 51) && Elem::is(&x[1], 52);
            drop(x);
            res.map(|()| ok)
        }
        4 => {
            let s = new_string(TC, [1u16]).to_ref();
            let mut x: Any<TC> = TC.new_js_array([s.clone().move_to_any()]);
            let res = guarded(|| {
                x.modify(|a| {
                    if panics {
                        panic!("closure");
                    }
                    TC.new_js_array([a])
                })
            });
            let ok = x.get_type() == Type::Array && x.try_ref::<JsArray<TC>>().unwrap().object().items().len() == 1;
            drop(x);
            let alone = s.try_to_mut_ref().is_ok();
            res.map(|()| ok && alone)
        }
        _ => {
            let mut x = Box::new(E8::<16>::make(1));
            let res = guarded(|| x.modify(|b| Box::new(f(*b))));
            let ok = Elem::is(&*x, 51);
            drop(x);
            res.map(|()| ok)
        }
    };
    let (made, dropped) = elements();
    let left = finish();
    let bad = errors().len() + balance(&made, &dropped, !panics).is_some() as usize;
    std::process::exit(match res {
        _ if bad > 0 => 5,
        Ok(true) if !panics && left == 0 => 0,
        Err(_) if panics => 0,
        _ => 6,
    })
}
fn modify_space() -> Space {
    Space::new(
        "a closure that modifies a value",
        MODIFY as u64,
        |i, r| {
            let st = Command::new(std::env::current_exe().unwrap()).args(["modify", &i.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
            use std::os::unix::process::ExitStatusExt;
            let panics = i as usize >= MODIFY / 2;
            r.traces += 1;
            r.transitions += 1;
            r.nontrivial += panics as u64;
            r.outcome(&format!("{st}"));
            // the process may end instead of going on with a value that is gone
            r.check(st.success() || (panics && st.signal() == Some(libc::SIGABRT)), || match st.code() {
                Some(5) => "a value is destroyed twice, or was never made".into(),
                _ => format!("{st}"),
            });
        },
        |i| format!("kind {i}"),
    )
    .hang(60)
}
fn panic_cases() -> Vec<Case> {
    macro_rules! t {
        ([$($h:ty),*], $e:tt) => {{
            let mut v: Vec<Case> = vec![];
            $(t!(@h v, $h, $e);)*
            v
        }};
        (@h $v:ident, $h:ty, [$($e:ty),*]) => {
            $($v.push((format!("{} before {}", stringify!($h), stringify!($e)), Box::new(|r: &mut Rec, _: usize, n: usize, k: usize| per_manager!(iterator_case, [$h, $e], r, true, (n, k)))));)*
        };
    }
    t!([usize, H3, Hd], [E1<0>, E1<3>, E8<40>, E64<64>, P<u64>])
}
fn c27_spaces(t: usize) -> Vec<Space> {
    // t: 0 under Miri, 1 quick, 2 thorough, 3 thorough under Miri
    let n = [3, 6, 12, 6][t];
    let c = Arc::new(panic_cases());
    let c2 = c.clone();
    let w = Arc::new(written().len() as u64);
    let writes = [5, 60, 60, 30][t];
    let nm = [3, 6, 9, 3][t] as u64;
    // (elements, the one that panics): all short ones, and the long ones outside of the interpreter
    let long: &[usize] = match t {
        1 => &[31, 32, 33, 64, 65, 100, 129, 257],
        2 => &[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513],
        _ => &[],
    };
    let pairs = |n: usize, long: &[usize], m: usize, more: usize| -> Arc<Vec<(usize, usize)>> {
        let mut v: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..m * n + more).map(move |k| (i, k))).collect();
        v.extend(long.iter().flat_map(|i| (0..m * i + more).map(move |k| (*i, k))));
        Arc::new(v)
    };
    let (nk, dk) = (pairs(n, long, 1, 1), pairs(n, long, 2, 2));
    let (nk2, nk3, nk4) = (nk.clone(), nk.clone(), nk.clone());
    let (tk, tk2, dk2) = (nk.clone(), nk.clone(), dk.clone());
    let (l, dl) = (nk.len() as u64, dk.len() as u64);
    let nk1 = nk.clone();
    vec![
        Space::new("an iterator panics", c.len() as u64 * l, move |i, r| c[(i / l) as usize].1(r, 0, nk[(i % l) as usize].0, nk[(i % l) as usize].1), move |i| format!("item {} of {}, {}", nk2[(i % l) as usize].1, nk2[(i % l) as usize].0, c2[(i / l) as usize].0)),
        Space::new("an iterator of references panics", 6 * l, move |i, r| shown!(refs_case, r, (nk1[(i % l) as usize].0, nk1[(i % l) as usize].1, (i / l) as usize)), move |i| format!("item {} of {}, kind {}", nk3[(i % l) as usize].1, nk4[(i % l) as usize].0, i / l)),
        Space::new("a destructor panics", 9 * dl, move |i, r| shown!(drop_case, r, (dk[(i % dl) as usize].0, dk[(i % dl) as usize].1, (i / dl) as usize)), move |i| format!("destructor {} of {} elements, shape {}", dk2[(i % dl) as usize].1, dk2[(i % dl) as usize].0, i / dl)),
        Space::new(
            "the allocator panics",
            4 * 8,
            move |i, r| {
                alloc_case(r, TC, (i % 8) as usize, (i / 8) as usize);
                finish();
                alloc_case(r, TA, (i % 8) as usize, (i / 8) as usize);
                finish();
                for e in errors() {
                    r.fail("", e);
                }
            },
            |i| format!("allocation {}, kind {}", i % 8, i / 8),
        ),
        Space::new("a closure over the children panics", 2 * l, move |i, r| shown!(traverse_case, r, (tk[(i % l) as usize].0, tk[(i % l) as usize].1, i / l == 1)), move |i| format!("child {} of {}", tk2[(i % l) as usize].1, tk2[(i % l) as usize].0)),
        Space::new(
            "a writer panics",
            *w * 3 * writes,
            move |i, r| {
                let v = &written()[(i / 3 / writes) as usize];
                shown!(write_case, r, (v, (i % writes) as usize, (i / writes % 3) as usize))
            },
            move |i| format!("write {} of value {} as {}", i % writes, i / 3 / writes, i / writes % 3),
        ),
        Space::new(
            "an operation of the file system panics",
            if t % 3 == 0 { 12 } else { nm * 10 },
            |i, r| {
                shown(r, &|r, m, l, live| {
                    match m {
                        0 => parse_case(r, TC, i as usize, live),
                        1 => parse_case(r, TA, i as usize, live),
                        2 => parse_case(r, l, i as usize, live),
                        _ => parse_case(r, GLOBAL, i as usize, live),
                    };
                })
            },
            |i| format!("operation {i}"),
        ),
    ]
}
fn c27(t: Tier) -> Vec<Space> {
    let mut v = c27_spaces(t.pick(1, 2));
    v.push(modify_space());
    v.extend(miri_space("C27"));
    v
}

// ------------------------------------------------------------------ under Miri

/// The spaces that are small enough for the interpreter.
fn miri_spaces(id: &str, t: Tier) -> Vec<Space> {
    match id {
        "C13" => vec![
            given_histories(),
            Space::new("many references", 6, |i, r| many(r, i as usize), |i| format!("{i} references")),
            Space::new("chains", 24, |i, r| chain_case(r, i % 4, 4, [0, 1, 2][(i / 4 % 3) as usize]), |i| format!("chain {i}")),
        ],
        "C14" => {
            let c = Arc::new(cases());
            let c2 = c.clone();
            let n = c.len() as u64;
            let lens: u64 = t.pick(3, 5);
            let f = Arc::new(fixed_cases());
            vec![
                Space::new("blocks", n * lens, move |i, r| c[(i % n) as usize].1(r, 0, 0, (i / n) as usize), |i| format!("case {i}")),
                Space::new("announced", n * 9, move |i, r| c2[(i % n) as usize].1(r, 1, (i / n / 3) as usize, (i / n % 3) as usize), |i| format!("case {i}")),
                Space::new("fixed", f.len() as u64 * 2, move |i, r| f[(i / 2) as usize].1(r, 0, 0, (i % 2) as usize), |i| format!("case {i}")),
                Space::new("values", 5, |i, r| js_case(r, i as usize), |i| format!("{i} items")),
            ]
        }
        _ => c27_spaces(t.pick(0, 3)),
    }
}
/// The histories that run under Miri; they are chosen outside, and given as text.
fn miri_histories() -> Vec<(usize, Vec<HOp>)> {
    let t = tier();
    let mut v: Vec<(usize, Vec<HOp>)> = vec![];
    v.extend(transitions(2, 4, t.pick(4, 6)).0.into_iter().map(|h| (2, h)));
    v.extend(transitions(3, 4, t.pick(2, 4)).0.into_iter().map(|h| (3, h)));
    v.extend(sequences(2, t.pick(2, 3)).into_iter().map(|h| (2, h)));
    v
}
fn given_histories() -> Space {
    let mut v: Vec<(usize, Vec<HOp>)> = vec![];
    for l in std::io::stdin().lines() {
        let n: Vec<usize> = l.unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let all = ops(n[0]);
        v.push((n[0], n[1..].iter().map(|i| all[*i]).collect()));
    }
    let v = Arc::new(v);
    let v2 = v.clone();
    // every slice gets all that it was given
    Space::new("histories", v.len() as u64 * SHARDS, move |i, r| history_case(r, v[(i / SHARDS) as usize].0, &v[(i / SHARDS) as usize].1, false), move |i| format!("{:?}", v2[(i / SHARDS) as usize].1))
}
fn tier() -> Tier {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
const SHARDS: u64 = 16;
fn miri_space(id: &'static str) -> Option<Space> {
    let cmd = std::env::var("MIRI_CMD").ok()?;
    Some(
        Space::new(
            "small spaces under the Miri interpreter",
            SHARDS,
            move |i, r| {
                let mut c = Command::new(&cmd).args(["miri", id, &i.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
            let mut text = String::new();
            if id == "C13" {
                for (k, (regs, h)) in miri_histories().iter().enumerate() {
                    if k as u64 % SHARDS == i {
                        let all = ops(*regs);
                        text += &format!("{regs}");
                        for op in h {
                            text += &format!(" {}", all.iter().position(|x| x == op).unwrap());
                        }
                        text += "\n";
                    }
                }
            }
            use std::io::Write;
            c.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
            let o = c.wait_with_output().unwrap();
                let out = String::from_utf8_lossy(&o.stdout);
                let n: u64 = out.lines().filter_map(|l| l.strip_prefix("explored ")).filter_map(|l| l.parse::<u64>().ok()).sum();
                r.traces += n;
                r.transitions += n;
                r.outcome(&o.status.success());
                r.nontrivial += n;
                if !o.status.success() {
                    let e = String::from_utf8_lossy(&o.stderr);
                    let e: Vec<&str> = e.lines().filter(|l| l.contains("error") || l.contains("FAIL")).take(5).collect();
                    r.fail("", format!("{} {} {}", o.status, out.lines().filter(|l| l.contains("FAIL")).take(3).collect::<Vec<_>>().join("; "), e.join("; ")));
                } else {
                    r.check(n > 0, || "no case ran".into());
                }
            },
            |i| format!("slice {i}"),
        )
        .hang(800),
    )
}
fn miri_child(id: &str, k: u64) -> ! {
    let mut n = 0u64;
    for s in miri_spaces(id, tier()) {
        let mut i = k;
        while i < s.size {
            let mut r = Rec::new();
            s.case(i, &mut r);
            n += 1;
            if r.failed() {
                for f in r.messages() {
                    println!("FAIL {} {}: {f}", s.name, s.describe(i));
                }
                std::process::exit(1);
            }
            i += SHARDS;
        }
    }
    println!("explored {n}");
    std::process::exit(0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("modify") => {
            install_panic_hook();
            modify_child(a[2].parse().unwrap())
        }
        Some("miri") => {
            install_panic_hook();
            if a.len() > 3 {
                miri_child(&a[2], a[3].parse().unwrap())
            }
            return;
        }
        _ => {}
    }
    mc::engine::main(&[
        Check {
            id: "C12",
            level: "model_checking",
            rule: "every value of the spaces: its type, the denial of every other type, what comes back, and equality and hash of every pair; references to addresses of 48 bits that are never used",
            assumptions: &["addresses are multiples of 16 below 2^48"],
            spaces: c12,
        },
        Check {
            id: "C13",
            level: "model_checking",
            rule: "every operation in every reachable state of the model, and every history, replayed on the real heap with four managers: contents, identity, liveness of every block and uniqueness as in the model; everything is released in the end",
            assumptions: &["states are merged up to names of objects and order of registers (histories up to the listed depth are not merged)", "references stay on one thread"],
            spaces: c13,
        },
        Check {
            id: "C14",
            level: "model_checking",
            rule: "every header, element type and length of the spaces with four managers: position, alignment and contents of every item, layout of every release, destructors, counts",
            assumptions: &["four managers, two block headers"],
            spaces: c14,
        },
        Check {
            id: "C27",
            level: "model_checking",
            rule: "every step at which code of the caller can panic, in every shape of the spaces: no element destroyed twice or never made, other objects intact and released",
            assumptions: &["one panic per run"],
            spaces: c27,
        },
    ])
}
