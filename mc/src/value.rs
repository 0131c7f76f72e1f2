//! Model values, their construction in the real heap, and the canonical text of both: containers
//! are numbered on their first visit, so two values have the same text exactly if they are the same
//! value with the same sharing.
use crate::refint::Int;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::js::js_string::{new_string, JsStringRef};
use nanvm_lib::js::new::New;
use nanvm_lib::js::null::Null;
use nanvm_lib::js::visitor::{to_visitor, Visitor};
use nanvm_lib::mem::manager::{Dealloc, Manager};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<Vec<u16>>),
    Big(Rc<Int>),
    Arr(Rc<Vec<Val>>),
    Obj(Rc<Vec<(Vec<u16>, Val)>>),
}
pub fn u16s(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
impl Val {
    pub fn str(s: &str) -> Val {
        Val::Str(Rc::new(u16s(s)))
    }
    pub fn big(v: i128) -> Val {
        Val::Big(Rc::new(Int::from_i128(v)))
    }
    pub fn arr(v: Vec<Val>) -> Val {
        Val::Arr(Rc::new(v))
    }
    pub fn obj(v: Vec<(&str, Val)>) -> Val {
        Val::Obj(Rc::new(v.into_iter().map(|(k, v)| (u16s(k), v)).collect()))
    }
    /// The address of a container.
    pub fn id(&self) -> Option<usize> {
        match self {
            Val::Arr(a) => Some(Rc::as_ptr(a) as usize),
            Val::Obj(o) => Some(Rc::as_ptr(o) as usize),
            _ => None,
        }
    }
}

fn units(out: &mut String, s: &[u16]) {
    out.push('"');
    for c in s {
        match c {
            0x20..=0x7e if *c != 0x22 && *c != 0x5c => out.push(*c as u8 as char),
            _ => write!(out, "\\{c:x};").unwrap(),
        }
    }
    out.push('"');
}
fn num(out: &mut String, n: f64) {
    if n.is_nan() {
        out.push_str("NaN")
    } else {
        write!(out, "{:?}", n).unwrap()
    }
}

struct Canon {
    sharing: bool,
    seen: HashMap<usize, usize>,
    out: String,
}
impl Canon {
    /// True if this is the first visit.
    fn enter(&mut self, id: usize) -> bool {
        if !self.sharing {
            return true;
        }
        let n = self.seen.len();
        match self.seen.get(&id) {
            Some(k) => {
                write!(self.out, "#{k}").unwrap();
                false
            }
            None => {
                self.seen.insert(id, n);
                write!(self.out, "#{n}").unwrap();
                true
            }
        }
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Null => self.out.push_str("null"),
            Val::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            Val::Num(n) => num(&mut self.out, *n),
            Val::Str(s) => units(&mut self.out, s),
            Val::Big(b) => {
                self.out.push_str(&b.to_decimal());
                self.out.push('n')
            }
            Val::Arr(a) => {
                if self.enter(Rc::as_ptr(a) as usize) {
                    self.out.push('[');
                    for v in a.iter() {
                        self.val(v);
                        self.out.push(',')
                    }
                    self.out.push(']')
                }
            }
            Val::Obj(o) => {
                if self.enter(Rc::as_ptr(o) as usize) {
                    self.out.push('{');
                    for (k, v) in o.iter() {
                        units(&mut self.out, k);
                        self.out.push(':');
                        self.val(v);
                        self.out.push(',')
                    }
                    self.out.push('}')
                }
            }
        }
    }
    fn any<D: Dealloc>(&mut self, a: &Any<D>) {
        match to_visitor(a.clone()) {
            Visitor::Null => self.out.push_str("null"),
            Visitor::Bool(b) => self.out.push_str(if b { "true" } else { "false" }),
            Visitor::Number(n) => num(&mut self.out, n),
            Visitor::String(s) => units(&mut self.out, s.items()),
            Visitor::Bigint(b) => {
                let v = Int::from_limbs(b.sign() == Sign::Negative, b.items());
                self.out.push_str(&v.to_decimal());
                self.out.push('n');
                if b.items().last() == Some(&0) {
                    self.out.push_str("<not normal>");
                }
            }
            Visitor::Array(a) => {
                if self.enter(a.items().as_ptr() as usize) {
                    self.out.push('[');
                    for v in a.items() {
                        self.any(v);
                        self.out.push(',')
                    }
                    self.out.push(']')
                }
            }
            Visitor::Object(o) => {
                if self.enter(o.items().as_ptr() as usize) {
                    self.out.push('{');
                    for (k, v) in o.items() {
                        units(&mut self.out, k.items());
                        self.out.push(':');
                        self.any(v);
                        self.out.push(',')
                    }
                    self.out.push('}')
                }
            }
        }
    }
}
/// The canonical text, with (or without) the identity of containers.
pub fn canon(v: &Val, sharing: bool) -> String {
    let mut c = Canon { sharing, seen: HashMap::new(), out: String::new() };
    c.val(v);
    c.out
}
pub fn canon_any<D: Dealloc>(a: &Any<D>, sharing: bool) -> String {
    let mut c = Canon { sharing, seen: HashMap::new(), out: String::new() };
    c.any(a);
    c.out
}

/// Builds the value in the real heap, each container once, every string and bigint anew.
pub fn build<M: Manager>(m: M, v: &Val) -> Any<M::Dealloc> {
    Builder { m, seen: HashMap::new(), leaves: None }.any(v)
}
/// The same value, in which equal strings (keys too) and equal bigints are one heap object.
pub fn build_shared<M: Manager>(m: M, v: &Val) -> Any<M::Dealloc> {
    Builder { m, seen: HashMap::new(), leaves: Some((HashMap::new(), HashMap::new())) }.any(v)
}
struct Builder<M: Manager> {
    m: M,
    seen: HashMap<usize, Any<M::Dealloc>>,
    leaves: Option<(HashMap<Vec<u16>, JsStringRef<M::Dealloc>>, HashMap<Int, Any<M::Dealloc>>)>,
}
impl<M: Manager> Builder<M> {
    fn string(&mut self, s: &[u16]) -> JsStringRef<M::Dealloc> {
        let new = || new_string(self.m, s.iter().copied()).to_ref();
        match &mut self.leaves {
            None => new(),
            Some(l) => l.0.entry(s.to_vec()).or_insert_with(new).clone(),
        }
    }
    fn big(&mut self, b: &Int) -> Any<M::Dealloc> {
        let new = || Any::move_from(new_bigint(self.m, if b.neg { Sign::Negative } else { Sign::Positive }, b.limbs()).to_ref());
        match &mut self.leaves {
            None => new(),
            Some(l) => l.1.entry(b.clone()).or_insert_with(new).clone(),
        }
    }
    fn any(&mut self, v: &Val) -> Any<M::Dealloc> {
        if let Some(a) = v.id().and_then(|i| self.seen.get(&i)) {
            return a.clone();
        }
        let a = match v {
            Val::Null => Any::move_from(Null()),
            Val::Bool(b) => Any::move_from(*b),
            Val::Num(n) => Any::move_from(*n),
            Val::Str(s) => Any::move_from(self.string(s)),
            Val::Big(b) => self.big(b),
            Val::Arr(a) => {
                let items: Vec<_> = a.iter().map(|v| self.any(v)).collect();
                self.m.new_js_array(items)
            }
            Val::Obj(o) => {
                let items: Vec<(JsStringRef<M::Dealloc>, _)> = o.iter().map(|(k, v)| (self.string(k), self.any(v))).collect();
                self.m.new_js_object(items)
            }
        };
        if let Some(i) = v.id() {
            self.seen.insert(i, a.clone());
        }
        a
    }
}
