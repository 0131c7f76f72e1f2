//! Histories of references: a model of registers and heap objects, and the real heap next to it.
use crate::engine::Rec;
use crate::heap;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::any_cast::AnyCast;
use nanvm_lib::js::js_array::{new_array, JsArray, JsArrayMutRef, JsArrayRef};
use nanvm_lib::js::js_bigint::{new_bigint, JsBigint, JsBigintMutRef, JsBigintRef, Sign};
use nanvm_lib::js::js_object::{new_object, JsObject, JsObjectMutRef, JsObjectRef};
use nanvm_lib::js::js_string::{new_string, JsString, JsStringMutRef, JsStringRef};
use nanvm_lib::js::null::Null;
use nanvm_lib::js::type_::Type;
use nanvm_lib::js::visitor::{to_visitor, Visitor};
use nanvm_lib::mem::block::Block;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use nanvm_lib::mem::object::Object;
use nanvm_lib::mem::ref_::Ref;
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ model

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Str,
    Big,
    Arr,
    Obj,
}
pub const KINDS: [Kind; 4] = [Kind::Str, Kind::Big, Kind::Arr, Kind::Obj];
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Mv {
    Num(u8),
    Ref(usize),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ob {
    pub kind: Kind,
    /// Elements of an array; key, value, key, value ... of an object.
    pub items: Vec<Mv>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Reg {
    Empty,
    Any(Mv),
    Typed(usize),
    Mut(usize),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Model {
    pub regs: Vec<Reg>,
    pub obs: BTreeMap<usize, Ob>,
    next: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    New(usize, Kind),
    Num(usize),
    /// A new array with a clone of a register, or with two registers moved in.
    Arr1(usize, usize),
    Arr2(usize, usize, usize),
    /// A new object with a key and a value moved in.
    Obj1(usize, usize, usize),
    Clone(usize, usize),
    Drop(usize),
    ToAny(usize),
    ToTyped(usize),
    /// Asks a boxed value for a type that it does not have: 0..3 the kinds, 4 number, 5 null, 6
    /// bool.
    Wrong(usize, usize),
    ToMut(usize),
    Freeze(usize),
    /// A clone of item `i`.
    Get(usize, usize, usize),
    /// Item `i` of a mutable container becomes a register, moved.
    Set(usize, usize, usize),
    /// Item `i` of a mutable container is moved out, a number takes its place.
    Take(usize, usize, usize),
    Visit(usize),
    /// A clone of the last item that `for_each` shows.
    Each(usize, usize),
}
impl Model {
    pub fn new(regs: usize) -> Model {
        Model { regs: vec![Reg::Empty; regs], ..Default::default() }
    }
    pub fn count(&self, id: usize) -> usize {
        let r = self.regs.iter().filter(|r| matches!(r, Reg::Any(Mv::Ref(x)) | Reg::Typed(x) | Reg::Mut(x) if *x == id)).count();
        r + self.obs.values().flat_map(|o| &o.items).filter(|v| **v == Mv::Ref(id)).count()
    }
    fn collect(&mut self) {
        loop {
            let dead: Vec<usize> = self.obs.keys().copied().filter(|i| self.count(*i) == 0).collect();
            if dead.is_empty() {
                return;
            }
            for d in dead {
                self.obs.remove(&d);
            }
        }
    }
    fn new_ob(&mut self, kind: Kind, items: Vec<Mv>) -> usize {
        let id = self.next;
        self.next += 1;
        self.obs.insert(id, Ob { kind, items });
        id
    }
    /// The value of a register that can be boxed.
    fn boxed(&self, a: usize) -> Option<Mv> {
        match self.regs[a] {
            Reg::Any(v) => Some(v),
            Reg::Typed(i) => Some(Mv::Ref(i)),
            _ => None,
        }
    }
    /// The container in a register.
    fn container(&self, a: usize) -> Option<usize> {
        match self.regs[a] {
            Reg::Any(Mv::Ref(i)) | Reg::Typed(i) | Reg::Mut(i) => Some(i),
            _ => None,
        }
    }
    fn free(&self, d: usize) -> bool {
        self.regs[d] == Reg::Empty
    }
    /// The model after the operation, `None` if it does not apply.
    pub fn step(&self, op: Op) -> Option<Model> {
        let mut m = self.clone();
        match op {
            Op::New(d, k) => {
                if !self.free(d) {
                    return None;
                }
                let id = m.new_ob(k, vec![]);
                m.regs[d] = Reg::Mut(id);
            }
            Op::Num(d) => {
                if !self.free(d) {
                    return None;
                }
                m.regs[d] = Reg::Any(Mv::Num(1));
            }
            Op::Arr1(d, a) => {
                if !self.free(d) {
                    return None;
                }
                let v = self.boxed(a)?;
                let id = m.new_ob(Kind::Arr, vec![v]);
                m.regs[d] = Reg::Mut(id);
            }
            Op::Arr2(d, a, b) => {
                if a == b || !(self.free(d) || d == a) {
                    return None;
                }
                let v = vec![self.boxed(a)?, self.boxed(b)?];
                m.regs[a] = Reg::Empty;
                m.regs[b] = Reg::Empty;
                let id = m.new_ob(Kind::Arr, v);
                m.regs[d] = Reg::Mut(id);
            }
            Op::Obj1(d, a, b) => {
                if a == b || !(self.free(d) || d == a) {
                    return None;
                }
                let Reg::Typed(k) = self.regs[a] else { return None };
                if self.obs[&k].kind != Kind::Str {
                    return None;
                }
                let v = vec![Mv::Ref(k), self.boxed(b)?];
                m.regs[a] = Reg::Empty;
                m.regs[b] = Reg::Empty;
                let id = m.new_ob(Kind::Obj, v);
                m.regs[d] = Reg::Mut(id);
            }
            Op::Clone(d, a) => {
                if !self.free(d) || matches!(self.regs[a], Reg::Empty | Reg::Mut(_)) {
                    return None;
                }
                m.regs[d] = self.regs[a];
            }
            Op::Drop(a) => {
                if self.free(a) {
                    return None;
                }
                m.regs[a] = Reg::Empty;
            }
            Op::ToAny(a) => {
                let Reg::Typed(i) = self.regs[a] else { return None };
                m.regs[a] = Reg::Any(Mv::Ref(i));
            }
            Op::ToTyped(a) => {
                let Reg::Any(Mv::Ref(i)) = self.regs[a] else { return None };
                m.regs[a] = Reg::Typed(i);
            }
            Op::Wrong(a, t) => {
                let Reg::Any(v) = self.regs[a] else { return None };
                let own = match v {
                    Mv::Num(_) => 4,
                    Mv::Ref(i) => self.obs[&i].kind as usize,
                };
                if own == t {
                    return None;
                }
                m.regs[a] = Reg::Empty;
            }
            Op::ToMut(a) => {
                let Reg::Typed(i) = self.regs[a] else { return None };
                if self.count(i) == 1 {
                    m.regs[a] = Reg::Mut(i);
                }
            }
            Op::Freeze(a) => {
                let Reg::Mut(i) = self.regs[a] else { return None };
                m.regs[a] = Reg::Typed(i);
            }
            Op::Get(d, a, i) => {
                if !self.free(d) {
                    return None;
                }
                let o = &self.obs[&self.container(a)?];
                let v = *o.items.get(i)?;
                m.regs[d] = Reg::Any(v);
            }
            Op::Set(a, i, b) => {
                let Reg::Mut(id) = self.regs[a] else { return None };
                let o = &self.obs[&id];
                if i >= o.items.len() || a == b {
                    return None;
                }
                let v = self.boxed(b)?;
                if o.kind == Kind::Obj && i % 2 == 0 {
                    // a key: a string only
                    let Reg::Typed(k) = self.regs[b] else { return None };
                    if self.obs[&k].kind != Kind::Str {
                        return None;
                    }
                }
                m.obs.get_mut(&id).unwrap().items[i] = v;
                m.regs[b] = Reg::Empty;
            }
            Op::Take(a, i, d) => {
                let Reg::Mut(id) = self.regs[a] else { return None };
                let o = &self.obs[&id];
                if i >= o.items.len() || !self.free(d) || (o.kind == Kind::Obj && i % 2 == 0) {
                    return None;
                }
                m.regs[d] = Reg::Any(o.items[i]);
                m.obs.get_mut(&id).unwrap().items[i] = Mv::Num(2);
            }
            Op::Visit(a) => {
                let Reg::Any(v) = self.regs[a] else { return None };
                m.regs[a] = match v {
                    Mv::Num(_) => Reg::Any(v),
                    Mv::Ref(i) => Reg::Typed(i),
                };
            }
            Op::Each(d, a) => {
                if !self.free(d) {
                    return None;
                }
                let Reg::Any(Mv::Ref(i)) = self.regs[a] else { return None };
                m.regs[d] = Reg::Any(*self.obs[&i].items.last()?);
            }
        }
        m.collect();
        Some(m)
    }
    /// The state up to the names of objects and the order of registers.
    pub fn canon(&self) -> Vec<u8> {
        let n = self.regs.len();
        let mut best: Option<Vec<u8>> = None;
        let mut perm: Vec<usize> = (0..n).collect();
        loop {
            let c = self.encode(&perm);
            if best.as_ref().map_or(true, |b| c < *b) {
                best = Some(c);
            }
            // next permutation
            let Some(i) = (1..n).rev().find(|i| perm[*i - 1] < perm[*i]) else { return best.unwrap() };
            let j = (i..n).rev().find(|j| perm[*j] > perm[i - 1]).unwrap();
            perm.swap(i - 1, j);
            perm[i..].reverse();
        }
    }
    fn encode(&self, perm: &[usize]) -> Vec<u8> {
        let mut names = HashMap::new();
        let mut order = vec![];
        let mut out = vec![];
        let mut name = |i: usize, order: &mut Vec<usize>| -> u8 {
            *names.entry(i).or_insert_with(|| {
                order.push(i);
                order.len() as u8 - 1
            })
        };
        for p in perm {
            match self.regs[*p] {
                Reg::Empty => out.push(0),
                Reg::Any(Mv::Num(x)) => out.extend([1, x]),
                Reg::Any(Mv::Ref(i)) => out.extend([2, name(i, &mut order)]),
                Reg::Typed(i) => out.extend([3, name(i, &mut order)]),
                Reg::Mut(i) => out.extend([4, name(i, &mut order)]),
            }
        }
        let mut k = 0;
        while k < order.len() {
            let o = &self.obs[&order[k]];
            out.extend([10 + o.kind as u8, o.items.len() as u8]);
            for v in &o.items {
                match v {
                    Mv::Num(x) => out.extend([1, *x]),
                    Mv::Ref(i) => out.extend([2, name(*i, &mut order)]),
                }
            }
            k += 1;
        }
        out
    }
}
pub fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for d in 0..n {
        v.extend(KINDS.map(|k| Op::New(d, k)));
        v.push(Op::Num(d));
        v.extend([Op::Drop(d), Op::ToAny(d), Op::ToTyped(d), Op::ToMut(d), Op::Freeze(d), Op::Visit(d)]);
        v.extend((0..7).map(|t| Op::Wrong(d, t)));
        for a in 0..n {
            if a == d {
                continue;
            }
            v.extend([Op::Arr1(d, a), Op::Clone(d, a), Op::Each(d, a)]);
            for i in 0..2 {
                v.extend([Op::Get(d, a, i), Op::Set(d, i, a), Op::Take(a, i, d)]);
            }
        }
        for a in 0..n {
            for b in 0..n {
                if a != b && b != d {
                    v.extend([Op::Arr2(d, a, b), Op::Obj1(d, a, b)]);
                }
            }
        }
    }
    v
}
/// All states up to `depth` operations with at most `objects` live objects, each with one shortest
/// history; returns the history of every transition out of them.
pub fn transitions(regs: usize, objects: usize, depth: usize) -> (Vec<Vec<Op>>, usize) {
    let ops = ops(regs);
    let start = Model::new(regs);
    let mut seen: HashSet<Vec<u8>> = [start.canon()].into();
    let mut front = vec![(start, vec![])];
    let mut all = vec![];
    for level in 0..depth {
        let mut next = vec![];
        for (m, h) in &front {
            for op in &ops {
                let Some(m2) = m.step(*op) else { continue };
                let mut h2: Vec<Op> = h.clone();
                h2.push(*op);
                if m2.obs.len() <= objects && level + 1 < depth && seen.insert(m2.canon()) {
                    next.push((m2, h2.clone()));
                }
                all.push(h2);
            }
        }
        front = next;
    }
    (all, seen.len())
}
/// All histories of exactly `depth` operations, without merging states.
pub fn sequences(regs: usize, depth: usize) -> Vec<Vec<Op>> {
    let ops = ops(regs);
    let mut front = vec![(Model::new(regs), vec![])];
    for _ in 0..depth {
        let mut next = vec![];
        for (m, h) in &front {
            for op in &ops {
                if let Some(m2) = m.step(*op) {
                    let mut h2: Vec<Op> = h.clone();
                    h2.push(*op);
                    next.push((m2, h2));
                }
            }
        }
        front = next;
    }
    front.into_iter().map(|x| x.1).collect()
}

// ------------------------------------------------------------------ the real heap

enum R<D: Dealloc> {
    E,
    Any(Any<D>),
    S(JsStringRef<D>),
    B(JsBigintRef<D>),
    A(JsArrayRef<D>),
    O(JsObjectRef<D>),
    Sm(JsStringMutRef<D>),
    Bm(JsBigintMutRef<D>),
    Am(JsArrayMutRef<D>),
    Om(JsObjectMutRef<D>),
}
fn addr<T: Object, D: Dealloc>(r: &Ref<T, D>) -> usize {
    unsafe { r.internal() as usize }
}
fn item<D: Dealloc>(c: &R<D>, i: usize) -> Any<D> {
    let arr = |a: &JsArray<D>| a.items()[i].clone();
    let obj = |o: &JsObject<D>| {
        let (k, v) = &o.items()[i / 2];
        if i % 2 == 0 {
            k.clone().move_to_any()
        } else {
            v.clone()
        }
    };
    match c {
        R::A(a) => arr(a),
        R::Am(a) => arr(a),
        R::O(o) => obj(o),
        R::Om(o) => obj(o),
        R::Any(x) => match x.get_type() {
            Type::Array => arr(x.try_ref::<JsArray<D>>().unwrap().object()),
            _ => obj(x.try_ref::<JsObject<D>>().unwrap().object()),
        },
        _ => panic!("no items"),
    }
}
fn boxed<D: Dealloc>(r: R<D>) -> Any<D> {
    match r {
        R::Any(x) => x,
        R::S(x) => x.move_to_any(),
        R::B(x) => x.move_to_any(),
        R::A(x) => x.move_to_any(),
        R::O(x) => x.move_to_any(),
        _ => panic!("cannot be boxed"),
    }
}
fn copy<D: Dealloc>(r: &R<D>) -> R<D> {
    match r {
        R::Any(x) => R::Any(x.clone()),
        R::S(x) => R::S(x.clone()),
        R::B(x) => R::B(x.clone()),
        R::A(x) => R::A(x.clone()),
        R::O(x) => R::O(x.clone()),
        _ => panic!("cannot be cloned"),
    }
}
/// The contents of a string or bigint object.
fn token(id: usize) -> [u16; 3] {
    [id as u16, 0xD800 + id as u16, !(id as u16)]
}
fn limbs(id: usize) -> [u64; 2] {
    [id as u64 * 0x1234_5678_9abc_def1, id as u64 + 7]
}
pub struct Real<M: Manager> {
    m: M,
    regs: Vec<R<M::Dealloc>>,
    /// The address of every object ever created.
    at: HashMap<usize, usize>,
    next: usize,
}
impl<M: Manager> Real<M>
where
    M::Dealloc: 'static,
{
    pub fn new(m: M, regs: usize) -> Self {
        Real { m, regs: (0..regs).map(|_| R::E).collect(), at: HashMap::new(), next: 0 }
    }
    fn take(&mut self, a: usize) -> R<M::Dealloc> {
        std::mem::replace(&mut self.regs[a], R::E)
    }
    fn wrong<T: AnyCast<M::Dealloc>>(x: Any<M::Dealloc>) -> Result<(), String> {
        match x.try_move::<T>() {
            Ok(t) => {
                std::mem::forget(t);
                Err("a value is handed out with a type that it does not have".into())
            }
            Err(()) => Ok(()),
        }
    }
    /// Runs the operation. `unique`: the request for a mutable view has to succeed.
    fn step(&mut self, op: Op, unique: bool) -> Result<(), String> {
        let m = self.m;
        match op {
            Op::New(d, k) => {
                let id = self.next;
                self.next += 1;
                self.regs[d] = match k {
                    Kind::Str => R::Sm(new_string(m, token(id))),
                    Kind::Big => R::Bm(new_bigint(m, if id % 2 == 0 { Sign::Positive } else { Sign::Negative }, limbs(id))),
                    Kind::Arr => R::Am(new_array(m, [])),
                    Kind::Obj => R::Om(new_object(m, [])),
                };
                self.born(d, id);
            }
            Op::Num(d) => self.regs[d] = R::Any(Any::move_from(1.0)),
            Op::Arr1(d, a) => {
                let x = boxed(copy(&self.regs[a]));
                let id = self.next;
                self.next += 1;
                self.regs[d] = R::Am(new_array(m, [x]));
                self.born(d, id);
            }
            Op::Arr2(d, a, b) => {
                let x = [boxed(self.take(a)), boxed(self.take(b))];
                let id = self.next;
                self.next += 1;
                self.regs[d] = R::Am(new_array(m, x));
                self.born(d, id);
            }
            Op::Obj1(d, a, b) => {
                let R::S(k) = self.take(a) else { return Err("not a key".into()) };
                let v = boxed(self.take(b));
                let id = self.next;
                self.next += 1;
                self.regs[d] = R::Om(new_object(m, [(k, v)]));
                self.born(d, id);
            }
            Op::Clone(d, a) => self.regs[d] = copy(&self.regs[a]),
            Op::Drop(a) => drop(self.take(a)),
            Op::ToAny(a) => self.regs[a] = R::Any(boxed(self.take(a))),
            Op::ToTyped(a) => {
                let R::Any(x) = self.take(a) else { return Err("not boxed".into()) };
                let e = |()| "a box denies its own type".to_string();
                self.regs[a] = match x.get_type() {
                    Type::String => R::S(x.try_move().map_err(e)?),
                    Type::Bigint => R::B(x.try_move().map_err(e)?),
                    Type::Array => R::A(x.try_move().map_err(e)?),
                    Type::Object => R::O(x.try_move().map_err(e)?),
                    t => return Err(format!("an object has the type {t:?}")),
                };
            }
            Op::Wrong(a, t) => {
                let R::Any(x) = self.take(a) else { return Err("not boxed".into()) };
                match t {
                    0 => Self::wrong::<JsStringRef<M::Dealloc>>(x)?,
                    1 => Self::wrong::<JsBigintRef<M::Dealloc>>(x)?,
                    2 => Self::wrong::<JsArrayRef<M::Dealloc>>(x)?,
                    3 => Self::wrong::<JsObjectRef<M::Dealloc>>(x)?,
                    4 => Self::wrong::<f64>(x)?,
                    5 => Self::wrong::<Null>(x)?,
                    _ => Self::wrong::<bool>(x)?,
                }
            }
            Op::ToMut(a) => {
                let mut ok = false;
                macro_rules! go {
                    ($x:ident, $r:ident, $m:ident) => {{
                        let before = addr(&$x);
                        match $x.try_to_mut_ref() {
                            Ok(y) => {
                                ok = true;
                                R::$m(y)
                            }
                            Err(y) => {
                                if addr(&y) != before {
                                    return Err("the reference handed back is another one".into());
                                }
                                R::$r(y)
                            }
                        }
                    }};
                }
                self.regs[a] = match self.take(a) {
                    R::S(x) => go!(x, S, Sm),
                    R::B(x) => go!(x, B, Bm),
                    R::A(x) => go!(x, A, Am),
                    R::O(x) => go!(x, O, Om),
                    _ => return Err("not a reference".into()),
                };
                if ok != unique {
                    return Err(format!("a mutable view is {} although {}", if ok { "handed out" } else { "refused" }, if unique { "there is no other reference" } else { "there are others" }));
                }
            }
            Op::Freeze(a) => {
                self.regs[a] = match self.take(a) {
                    R::Sm(x) => R::S(x.to_ref()),
                    R::Bm(x) => R::B(x.to_ref()),
                    R::Am(x) => R::A(x.to_ref()),
                    R::Om(x) => R::O(x.to_ref()),
                    _ => return Err("not mutable".into()),
                }
            }
            Op::Get(d, a, i) => self.regs[d] = R::Any(item(&self.regs[a], i)),
            Op::Set(a, i, b) => {
                let x = self.take(b);
                match (&mut self.regs[a], x) {
                    (R::Am(v), x) => v.items_mut()[i] = boxed(x),
                    (R::Om(v), R::S(x)) if i % 2 == 0 => v.items_mut()[i / 2].0 = x,
                    (R::Om(v), x) => v.items_mut()[i / 2].1 = boxed(x),
                    _ => return Err("not mutable".into()),
                }
            }
            Op::Take(a, i, d) => {
                let n = Any::move_from(2.0);
                let x = match &mut self.regs[a] {
                    R::Am(v) => std::mem::replace(&mut v.items_mut()[i], n),
                    R::Om(v) => std::mem::replace(&mut v.items_mut()[i / 2].1, n),
                    _ => return Err("not mutable".into()),
                };
                self.regs[d] = R::Any(x);
            }
            Op::Visit(a) => {
                let R::Any(x) = self.take(a) else { return Err("not boxed".into()) };
                self.regs[a] = match to_visitor(x) {
                    Visitor::Number(n) => R::Any(Any::move_from(n)),
                    Visitor::String(x) => R::S(x),
                    Visitor::Bigint(x) => R::B(x),
                    Visitor::Array(x) => R::A(x),
                    Visitor::Object(x) => R::O(x),
                    _ => return Err("visited as null or bool".into()),
                };
            }
            Op::Each(d, a) => {
                let mut last = None;
                let R::Any(x) = &self.regs[a] else { return Err("not boxed".into()) };
                x.for_each(|_, v| {
                    last = Some(v.clone());
                    Ok::<(), ()>(())
                })
                .unwrap();
                let Some(l) = last else { return Err("for_each shows nothing".into()) };
                self.regs[d] = R::Any(l);
            }
        }
        Ok(())
    }
    fn born(&mut self, d: usize, id: usize) {
        fn p<T>(t: &T) -> usize {
            t as *const T as usize
        }
        // the address of an object is after its block header
        let h = std::mem::size_of::<<M::Dealloc as Dealloc>::BlockHeader>();
        let a = match &self.regs[d] {
            R::Sm(x) => p::<JsString>(x) - h,
            R::Bm(x) => p::<JsBigint>(x) - h,
            R::Am(x) => p::<JsArray<M::Dealloc>>(x) - h,
            R::Om(x) => p::<JsObject<M::Dealloc>>(x) - h,
            _ => 0,
        };
        self.at.insert(id, a);
    }
    fn same_any(&self, x: &Any<M::Dealloc>, v: Mv, m: &Model) -> Result<(), String> {
        let t = x.get_type();
        match v {
            Mv::Num(n) => {
                if x.is_ref() || t != Type::Number || x.clone().try_move::<f64>() != Ok(n as f64) {
                    return Err(format!("a number is {t:?}"));
                }
                Ok(())
            }
            Mv::Ref(id) => {
                let want = match m.obs[&id].kind {
                    Kind::Str => Type::String,
                    Kind::Big => Type::Bigint,
                    Kind::Arr => Type::Array,
                    Kind::Obj => Type::Object,
                };
                if t != want || !x.is_ref() {
                    return Err(format!("object {id} has the type {t:?}, expected {want:?}"));
                }
                fn a<T: Object, D: Dealloc>(b: Result<&Block<T, D>, ()>) -> usize {
                    b.map_or(0, |b| b as *const _ as usize)
                }
                let ids = [a(x.try_ref::<JsString>()), a(x.try_ref::<JsBigint>()), a(x.try_ref::<JsArray<M::Dealloc>>()), a(x.try_ref::<JsObject<M::Dealloc>>())];
                for k in KINDS {
                    let w = if k == m.obs[&id].kind { self.at[&id] } else { 0 };
                    if ids[k as usize] != w {
                        return Err(format!("object {id} as {k:?} is at {:x}, expected {w:x}", ids[k as usize]));
                    }
                }
                match want {
                    Type::String => self.same_str(x.try_ref::<JsString>().unwrap().object(), id),
                    Type::Bigint => self.same_big(x.try_ref::<JsBigint>().unwrap().object(), id),
                    Type::Array => self.same_arr(x.try_ref::<JsArray<M::Dealloc>>().unwrap().object(), id, m),
                    _ => self.same_obj(x.try_ref::<JsObject<M::Dealloc>>().unwrap().object(), id, m),
                }
            }
        }
    }
    fn same_str(&self, s: &JsString, id: usize) -> Result<(), String> {
        if s.items() != token(id) {
            return Err(format!("string {id} is {:?}, expected {:?}", s.items(), token(id)));
        }
        Ok(())
    }
    fn same_big(&self, s: &JsBigint, id: usize) -> Result<(), String> {
        if s.items() != limbs(id) || s.sign() != if id % 2 == 0 { Sign::Positive } else { Sign::Negative } {
            return Err(format!("bigint {id} is {:?}, expected {:?}", s.items(), limbs(id)));
        }
        Ok(())
    }
    fn same_arr(&self, s: &JsArray<M::Dealloc>, id: usize, m: &Model) -> Result<(), String> {
        let o = &m.obs[&id];
        if s.items().len() != o.items.len() {
            return Err(format!("array {id} has {} items, expected {}", s.items().len(), o.items.len()));
        }
        for (x, v) in s.items().iter().zip(&o.items) {
            self.same_any(x, *v, m)?;
        }
        Ok(())
    }
    fn same_obj(&self, s: &JsObject<M::Dealloc>, id: usize, m: &Model) -> Result<(), String> {
        let o = &m.obs[&id];
        if 2 * s.items().len() != o.items.len() {
            return Err(format!("object {id} has {} properties, expected {}", s.items().len(), o.items.len() / 2));
        }
        for ((k, x), v) in s.items().iter().zip(o.items.chunks(2)) {
            let Mv::Ref(key) = v[0] else { unreachable!() };
            if addr(k) != self.at[&key] {
                return Err(format!("key of object {id} is another string"));
            }
            self.same_str(k, key)?;
            self.same_any(x, v[1], m)?;
        }
        Ok(())
    }
    /// Everything reachable is as in the model.
    fn same(&self, m: &Model) -> Result<(), String> {
        for (r, w) in self.regs.iter().zip(&m.regs) {
            match (r, *w) {
                (R::E, Reg::Empty) => {}
                (R::Any(x), Reg::Any(v)) => self.same_any(x, v, m)?,
                (R::S(x), Reg::Typed(i)) => self.same_str(x, i)?,
                (R::B(x), Reg::Typed(i)) => self.same_big(x, i)?,
                (R::A(x), Reg::Typed(i)) => self.same_arr(x, i, m)?,
                (R::O(x), Reg::Typed(i)) => self.same_obj(x, i, m)?,
                (R::Sm(x), Reg::Mut(i)) => self.same_str(x, i)?,
                (R::Bm(x), Reg::Mut(i)) => self.same_big(x, i)?,
                (R::Am(x), Reg::Mut(i)) => self.same_arr(x, i, m)?,
                (R::Om(x), Reg::Mut(i)) => self.same_obj(x, i, m)?,
                _ => return Err(format!("register differs from {w:?}")),
            }
        }
        // equality of boxes is identity
        for (r, v) in self.regs.iter().zip(&m.regs) {
            for (r2, v2) in self.regs.iter().zip(&m.regs) {
                if let (R::Any(x), R::Any(y)) = (r, r2) {
                    if (x == y) != (v == v2) {
                        return Err(format!("boxes of {v:?} and {v2:?} are equal: {}", x == y));
                    }
                }
            }
        }
        Ok(())
    }
}
/// How the liveness of objects is seen.
pub trait Watch<M: Manager> {
    /// The set of live objects is as in the model.
    fn live(&self, at: &HashMap<usize, usize>, m: &Model) -> Result<(), String>;
}
/// The watching manager: every address.
pub struct Addresses;
impl<M: Manager> Watch<M> for Addresses {
    fn live(&self, at: &HashMap<usize, usize>, m: &Model) -> Result<(), String> {
        for (id, a) in at {
            let (l, w) = (heap::is_live(*a), m.obs.contains_key(id));
            if cfg!(miri) && !w {
                // the interpreter uses addresses again
                continue;
            }
            if l != w {
                return Err(format!("object {id} is {}, expected {}", if l { "alive" } else { "released" }, if w { "alive" } else { "released" }));
            }
        }
        let n = heap::live().len();
        if n != m.obs.len() {
            return Err(format!("{n} blocks are alive, expected {}", m.obs.len()));
        }
        Ok(())
    }
}
/// Only a number of bytes, which has to be zero exactly if nothing is alive.
pub struct Bytes<F: Fn() -> usize>(pub F);
impl<M: Manager, F: Fn() -> usize> Watch<M> for Bytes<F> {
    fn live(&self, _: &HashMap<usize, usize>, m: &Model) -> Result<(), String> {
        let n = self.0();
        // every object has a counter and a length at least
        if (n == 0) != m.obs.is_empty() || n < 16 * m.obs.len() {
            return Err(format!("{n} bytes are allocated for {} objects", m.obs.len()));
        }
        Ok(())
    }
}
/// Drives a history through the real heap next to the model; checks after the last operation and
/// after every register was dropped (or after every operation, if `every`).
pub fn drive<M: Manager>(r: &mut Rec, m: M, w: &impl Watch<M>, regs: usize, h: &[Op], every: bool)
where
    M::Dealloc: 'static,
{
    let mut model = Model::new(regs);
    let mut real = Real::new(m, regs);
    let run = |r: &mut Rec, model: &mut Model, real: &mut Real<M>, op: Op, look: bool| -> bool {
        let unique = match (op, model.regs[match op {
            Op::ToMut(a) => a,
            _ => 0,
        }]) {
            (Op::ToMut(_), Reg::Typed(i)) => model.count(i) == 1,
            _ => false,
        };
        let next = model.step(op).expect("applies");
        r.transitions += 1;
        let mut res = real.step(op, unique);
        if look && res.is_ok() {
            res = w.live(&real.at, &next).and_then(|()| real.same(&next));
        }
        *model = next;
        if let Some(e) = heap::errors().into_iter().next() {
            res = Err(e);
        }
        match res {
            Ok(()) => true,
            Err(e) => {
                r.fail("", format!("{h:?} at {op:?}: {e}"));
                false
            }
        }
    };
    r.traces += 1;
    for (i, op) in h.iter().enumerate() {
        if !run(r, &mut model, &mut real, *op, every || i + 1 == h.len()) {
            std::mem::forget(real);
            heap::finish();
            heap::errors();
            return;
        }
    }
    if !cfg!(miri) {
        r.state(&model.canon());
    }
    r.outcome(&(model.obs.len(), model.regs.iter().filter(|r| **r != Reg::Empty).count()));
    r.nontrivial += (model.obs.len() > 1) as u64;
    // in the end everything is released
    for a in 0..regs {
        if model.regs[a] != Reg::Empty && !run(r, &mut model, &mut real, Op::Drop(a), true) {
            std::mem::forget(real);
            heap::finish();
            heap::errors();
            return;
        }
    }
    let left = heap::finish();
    for e in heap::errors() {
        r.fail("", format!("{h:?}: {e}"));
    }
    r.check(left == 0, || format!("{h:?}: {left} blocks are never released"));
}
