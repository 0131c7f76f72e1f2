//! The serializers: JSON (C07), DJS (C08), round trips (C09), traversal and writers that fail (C28).
use mc::engine::*;
use mc::refint::Int;
use mc::refjson::read_json;
use mc::reflex::{lex, Tok};
use mc::refparse::{self, Kind};
use mc::value::{build, build_shared, canon, canon_any, u16s, Val};
use mc::vio::Vio;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_array::new_array;
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::js::visitor::{to_visitor, Visitor};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::mem::local::Local;
use nanvm_lib::parser::parser::{parse, Context};
use nanvm_lib::parser::shared::{DataType, ModuleCache};
use nanvm_lib::serializer::to_djs::{to_djs, WriteDjs};
use nanvm_lib::serializer::to_json::{to_json, WriteJson};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ values as data

/// A value that can be shared between threads: leaves and containers of a graph.
#[derive(Clone, Debug)]
enum Leaf {
    Null,
    Bool(bool),
    Num(f64),
    Str(Vec<u16>),
    Big(Int),
}
impl Leaf {
    fn val(&self) -> Val {
        match self {
            Leaf::Null => Val::Null,
            Leaf::Bool(b) => Val::Bool(*b),
            Leaf::Num(n) => Val::Num(*n),
            Leaf::Str(s) => Val::Str(Rc::new(s.clone())),
            Leaf::Big(b) => Val::Big(Rc::new(b.clone())),
        }
    }
}
fn s(t: &str) -> Leaf {
    Leaf::Str(u16s(t))
}
#[derive(Clone, Debug)]
enum Child {
    Leaf(Leaf),
    Node(usize),
}
/// Containers in the order of construction; the last one is the value.
#[derive(Clone, Debug)]
struct Graph(Vec<(bool, Vec<Child>)>);

/// Keys of objects; ordered as the parser orders them.
const KEYS: [&str; 4] = ["", "a", "b", "\u{e9}"];

impl Graph {
    fn val(&self) -> Val {
        let mut v: Vec<Val> = vec![];
        for (obj, cs) in &self.0 {
            let items: Vec<Val> = cs
                .iter()
                .map(|c| match c {
                    Child::Leaf(l) => l.val(),
                    Child::Node(n) => v[*n].clone(),
                })
                .collect();
            v.push(if *obj { Val::obj(items.into_iter().enumerate().map(|(i, v)| (KEYS[i], v)).collect()) } else { Val::arr(items) });
        }
        v.pop().unwrap()
    }
}
/// All graphs with `n` containers of up to `m` children.
struct Graphs {
    n: usize,
    m: usize,
    leaves: Vec<Leaf>,
}
impl Graphs {
    fn lists(&self, k: usize) -> u64 {
        words_upto(self.leaves.len() + k, self.m)
    }
    fn size(&self) -> u64 {
        (0..self.n).map(|k| 2 * self.lists(k)).product()
    }
    fn get(&self, i: u64) -> Graph {
        let radix: Vec<u64> = (0..self.n).flat_map(|k| [2, self.lists(k)]).collect();
        let d = digits(i, &radix);
        Graph(
            (0..self.n)
                .map(|k| {
                    let mut al: Vec<Child> = self.leaves.iter().cloned().map(Child::Leaf).collect();
                    al.extend((0..k).map(Child::Node));
                    (d[2 * k] == 1, word_upto(&al, self.m, d[2 * k + 1]))
                })
                .collect(),
        )
    }
}

// ------------------------------------------------------------------ C07

fn cut(t: &str) -> String {
    t.chars().take(300).collect()
}
fn json_case(r: &mut Rec, v: &Val) {
    r.traces += 1;
    r.transitions += 1;
    let want = canon(v, false);
    r.state(&want);
    match guarded(|| to_json(build(GLOBAL, v))) {
        Err(p) => r.fail("", format!("panic: {p}")),
        Ok(Err(e)) => r.fail("", format!("error {e}")),
        Ok(Ok(t)) => {
            r.outcome(&t);
            r.nontrivial += 1;
            match read_json(&t) {
                Err(e) => r.fail("", format!("not JSON ({e}): {}", cut(&t))),
                Ok(_) if guarded(|| to_json(build_shared(GLOBAL, v))) != Ok(Ok(t.clone())) => r.fail("", format!("not {} if equal strings are one object", cut(&t))),
                Ok(g) => {
                    let got = canon(&g, false);
                    r.check(got == want, || format!("{} denotes {}, expected {}", cut(&t), cut(&got), cut(&want)));
                }
            }
        }
    }
}
/// Runs `f` on each leaf alone, in an array, as a member.
fn leaf_cases(r: &mut Rec, l: &Leaf, f: &dyn Fn(&mut Rec, &Val)) {
    f(r, &l.val());
    f(r, &Val::arr(vec![l.val(), Val::Null, l.val()]));
    f(r, &Val::obj(vec![("k", l.val()), ("l", l.val())]));
    if let Leaf::Str(k) = l {
        f(r, &Val::Obj(Rc::new(vec![(k.clone(), Val::Num(1.0))])));
    }
}
type Case = fn(&mut Rec, &Val);

fn leaf_space(name: &str, n: u64, get: impl Fn(u64) -> Leaf + Send + Sync + Clone + 'static, f: Case) -> Space {
    let g = get.clone();
    Space::new(name, n, move |i, r| leaf_cases(r, &get(i), &f), move |i| format!("{:?}", g(i)).chars().take(300).collect())
}
fn graph_space(n: usize, m: usize, leaves: Vec<Leaf>, f: Case) -> Space {
    let g = Arc::new(Graphs { n, m, leaves });
    let g2 = g.clone();
    Space::new(
        &format!("graphs of {n} containers with up to {m} children of {} leaves", g.leaves.len()),
        g.size(),
        move |i, r| f(r, &g.get(i).val()),
        move |i| format!("{:?}", g2.get(i)),
    )
}
const UNITS: [u16; 34] = [
    0, 1, 8, 9, 0xa, 0xb, 0xc, 0xd, 0x1f, 0x20, 0x22, 0x27, 0x2f, 0x30, 0x41, 0x5c, 0x62, 0x6e, 0x75, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x2028,
    0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff,
];
/// The upper 16 bits in full, and `n` patterns of the rest: boundary ones, then single bits.
fn double(i: u64, n: u64) -> f64 {
    let j = (i % n) as usize;
    let f = f64::from_bits((i / n) << 48 | if j < 8 { LOW[j] } else { 1 << (j - 8) });
    if f.is_nan() {
        f64::INFINITY
    } else {
        f
    }
}
const LOW: [u64; 8] = [0, 1, 0xffff_ffff_ffff, 0x8000_0000_0000, 0x5555_5555_5555, 0xffff_ffff_fffe, 2, 0x0000_8000_0000];

fn decimal(i: u64, e0: i64) -> f64 {
    const M: [&str; 12] = ["1", "9", "1.5", "-2.5", "1.7976931348623157", "4.9", "2.2250738585072014", "-9.999999999999999", "9.007199254740993", "1.1", "-3", "12345678.9"];
    format!("{}e{}", M[(i % 12) as usize], e0 + (i / 12) as i64).parse().unwrap()
}
fn big(i: u64) -> Int {
    // around powers of 10, 2^64 and 2^32, with both signs
    let base = [Int::from_i128(10), Int::pow2(64), Int::pow2(32), Int::from_i128(10_000_000_000_000_000_000)][(i % 4) as usize].clone();
    let d = Int::from_i128(((i / 4) % 5) as i128 - 2);
    let neg = (i / 20) % 2 == 1;
    let v = base.pow((i / 40) as u32).add(&d);
    if neg {
        v.neg()
    } else {
        v
    }
}
fn limb_words(n: usize) -> (u64, impl Fn(u64) -> Int + Clone) {
    let l = [0u64, 1, 9_999_999_999_999_999_999, 10_000_000_000_000_000_000, u64::MAX, 1 << 63];
    (2 * words_upto(l.len(), n), move |i: u64| Int::from_limbs(i % 2 == 1, &word_upto(&l, n, i / 2)))
}
fn small_leaves() -> Vec<Leaf> {
    vec![Leaf::Null, Leaf::Bool(true), Leaf::Num(-0.0), s("\""), Leaf::Big(Int::from_i128(-7))]
}
/// Strings of one kind of unit each (nothing to escape, short escapes, long ones, a lone other unit at the start, in the middle or
/// at the end), of every length up to a bound and of lengths around the sizes of buffers.
fn uniform(t: Tier, top: u64, all: u64, f: Case) -> Space {
    let mut lens: Vec<usize> = (0..=all as usize).collect();
    lens.extend((1..).map(|k| 1 << k).take_while(|n| *n as u64 <= top).flat_map(|n: usize| [n - 1, n, n + 1]));
    lens.extend([100, 101, 150, 200, 201, 300, 500, 501, 1000, 1001, 2000, 5000, 10_000].into_iter().filter(|n| *n as u64 <= top.min(t.pick(5000, 10_000))));
    lens.sort();
    lens.dedup();
    const PAIRS: [(u16, u16); 8] = [(0x41, 0x41), (0x22, 0x22), (0x1f, 0x1f), (0x7f, 0x7f), (0xffff, 0xffff), (0x61, 0x5c), (0x20, 0xe9), (0x30, 0)];
    leaf_space(
        "uniform strings",
        lens.len() as u64 * 8 * 3,
        move |i| {
            let n = lens[(i / 24) as usize];
            let (base, other) = PAIRS[(i / 3 % 8) as usize];
            let mut v = vec![base; n];
            if n > 0 {
                v[[0, n / 2, n - 1][(i % 3) as usize]] = other;
            }
            Leaf::Str(v)
        },
        f,
    )
}
fn values(t: Tier, f: Case) -> Vec<Space> {
    let k = t.pick(3, 4);
    let (lw, lf) = limb_words(t.pick(6, 8));
    let e0 = t.pick(-330, -345);
    let e1 = t.pick(315, 320);
    vec![
        leaf_space("every unit", 0x10000, |i| Leaf::Str(vec![i as u16]), f),
        leaf_space("strings of boundary units", words_upto(UNITS.len(), k), move |i| Leaf::Str(word_upto(&UNITS, k, i)), f),
        leaf_space("long strings", t.pick(300, 3000), |i| Leaf::Str((0..i).map(|j| UNITS[((i + j * 7) % 28) as usize]).collect()), f),
        uniform(t, t.pick(1 << 12, 1 << 17), t.pick(140, 600), f),
        leaf_space("doubles by bit pattern", 65536 * t.pick(1, 8), move |i| Leaf::Num(double(t.pick(i * 8 + i % 8, i), 8)), f),
        leaf_space("decimals", 12 * (e1 - e0) as u64, move |i| Leaf::Num(decimal(i, e0)), f),
        leaf_space("integers", t.pick(200_000, 4_000_000), |i| Leaf::Num(if i % 2 == 0 { i as f64 } else { (1u64 << 53) as f64 - i as f64 * 0.5 }), f),
        leaf_space("bigints around powers", 40 * t.pick(22, 90), |i| Leaf::Big(big(i)), f),
        leaf_space("bigints of boundary limbs", lw, move |i| Leaf::Big(lf(i)), f),
        graph_space(1, 3, small_leaves(), f),
        graph_space(2, t.pick(2, 3), small_leaves(), f),
        graph_space(3, 2, small_leaves()[1..t.pick(3, 5)].to_vec(), f),
        graph_space(3, 3, vec![Leaf::Num(1.0)], f),
        graph_space(4, 2, vec![Leaf::Num(1.0)], f),
    ]
}
fn c07(t: Tier) -> Vec<Space> {
    let mut v = values(t, json_case);
    v.push(shapes(t, json_case));
    v.push(sharings(t, json_case));
    v.push(padded(t));
    v
}
/// Bigints that a caller made with high limbs of zero: the text denotes the integer all the same.
fn padded(t: Tier) -> Space {
    const L: [u64; 5] = [0, 1, 9_999_999_999_999_999_999, u64::MAX, 1 << 63];
    let n = t.pick(3, 5);
    let zeros = t.pick(6u64, 12);
    let get = move |i: u64| (i % 2 == 1, word_upto(&L, n, i / 2 / zeros), (i / 2 % zeros) as usize + 1);
    Space::new(
        "bigints with high limbs of zero",
        2 * zeros * words_upto(L.len(), n),
        move |i, r| {
            let (neg, limbs, zeros) = get(i);
            let v = Int::from_limbs(neg, &limbs);
            if neg && v.is_zero() {
                return;
            }
            let mut l = limbs;
            l.extend(vec![0; zeros]);
            r.traces += 1;
            r.transitions += 2;
            r.nontrivial += 1;
            let one = || -> Any<Global> { Any::move_from(new_bigint(GLOBAL, if neg { Sign::Negative } else { Sign::Positive }, l.clone()).to_ref()) };
            let want = canon(&Val::arr(vec![Val::Big(Rc::new(v.clone())), Val::Big(Rc::new(v))]), false);
            match guarded(|| to_json(Any::move_from(new_array(GLOBAL, vec![one(), one()]).to_ref()))) {
                Err(p) => r.fail("", format!("{l:x?}: panic: {p}")),
                Ok(Err(e)) => r.fail("", format!("{l:x?}: {e}")),
                Ok(Ok(text)) => match read_json(&text) {
                    Err(e) => r.fail("", format!("{l:x?}: {text} is not JSON: {e}")),
                    Ok(g) => {
                        let got = canon(&g, false);
                        r.check(got == want, || format!("{l:x?}: {text} denotes {got}, expected {want}"));
                    }
                },
            }
        },
        move |i| format!("{:x?}", get(i)),
    )
}
/// Deep, wide and laddered values.
fn shapes(t: Tier, f: Case) -> Space {
    let (mut n, deep): (Vec<usize>, _) = t.pick(((0..60).collect(), 1500usize), ((0..400).collect(), 6000));
    n.extend([85, 86, 100, 127, 128, 129, 255, 256, 257, 341, 342, 512, 1000, 1365, 1366]);
    n.extend(t.pick(vec![21845, 21846], vec![4096, 21845, 21846, 40000]));
    let n: Vec<(u64, usize)> = n.into_iter().flat_map(|n| [0, 1, 2, 3].map(|k| (k, n))).filter(|(k, n)| *k < 2 || *n <= deep).collect();
    let m = n.clone();
    Space::new(
        "wide and deep values",
        n.len() as u64,
        move |i, r| f(r, &shape(n[i as usize].0, n[i as usize].1)),
        move |i| format!("shape {} of size {}", m[i as usize].0, m[i as usize].1),
    )
    .hang(60)
}
/// Many shared containers, many references to one.
fn sharings(t: Tier, f: Case) -> Space {
    let mut n: Vec<usize> = (0..t.pick(70, 600)).collect();
    n.extend([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024]);
    n.extend(t.pick(vec![10_001], vec![4096, 10_001, 65_537]));
    let n: Vec<(u64, usize)> = n.into_iter().flat_map(|n| (0..6).map(move |k| (k, n))).chain([65_534, 65_535, 65_536, 65_537, 70_000].map(|n| (0, n))).collect();
    let m = n.clone();
    Space::new(
        "many shared containers and many references",
        n.len() as u64,
        move |i, r| f(r, &sharing(n[i as usize].0, n[i as usize].1)),
        move |i| format!("sharing {} of size {}", m[i as usize].0, m[i as usize].1),
    )
    .hang(60)
}
fn sharing(kind: u64, k: usize) -> Val {
    let c = |j: usize| if j % 2 == 0 { Val::arr(vec![Val::Num(j as f64)]) } else { Val::obj(vec![("a", Val::Num(j as f64))]) };
    let key = |j: usize| u16s(&format!("k{j:05}"));
    match kind {
        // one container, k references
        0 => {
            let x = c(k);
            Val::arr(vec![x; k])
        }
        // k containers, each twice
        1 => {
            let x: Vec<Val> = (0..k).map(c).collect();
            Val::arr(x.iter().chain(&x).cloned().collect())
        }
        2 => {
            let x: Vec<Val> = (0..k).map(c).collect();
            Val::arr(x.iter().chain(x.iter().rev()).cloned().collect())
        }
        // every second one is shared, in an object
        3 => Val::Obj(Rc::new((0..k).map(|j| (key(j), if j % 2 == 0 { c(j) } else { let x = c(j); Val::arr(vec![x.clone(), x]) })).collect())),
        // a shared empty one at every depth of a shared chain
        4 => {
            let e = [Val::arr(vec![]), Val::obj(vec![])];
            (0..k.min(1500)).fold(e[0].clone(), |v, j| Val::arr(vec![e[j % 2].clone(), v]))
        }
        // the first and the last of k
        _ => {
            let mut x: Vec<Val> = (0..k).map(c).collect();
            x.extend(x.first().cloned());
            x.extend(x.get(k.wrapping_sub(1)).cloned());
            Val::Obj(Rc::new(x.into_iter().enumerate().map(|(j, v)| (key(j), v)).collect()))
        }
    }
}
fn shape(kind: u64, k: usize) -> Val {
    match kind {
        0 => Val::arr((0..k * 3).map(|j| Val::Num(j as f64)).collect()),
        1 => Val::Obj(Rc::new((0..k * 3).map(|j| (u16s(&format!("k{:06}", j)), Val::Bool(j % 2 == 0))).collect())),
        2 => (0..k).fold(Val::Null, |v, j| if j % 2 == 0 { Val::arr(vec![v]) } else { Val::obj(vec![("a", v)]) }),
        // a few levels that are each used twice: the text doubles with each
        _ => (0..k.min(8)).fold(Val::arr(vec![]), |v, j| if j % 2 == 0 { Val::arr(vec![v.clone(), v]) } else { Val::obj(vec![("a", v.clone()), ("b", v)]) }),
    }
}

// ------------------------------------------------------------------ C08

/// How often each container is referred to, and the number of references in total.
fn degrees(v: &Val, d: &mut HashMap<usize, usize>) -> usize {
    if let Some(i) = v.id() {
        let n = d.entry(i).or_default();
        *n += 1;
        if *n > 1 {
            return 1;
        }
    }
    1 + match v {
        Val::Arr(a) => a.iter().map(|v| degrees(v, d)).sum::<usize>(),
        Val::Obj(o) => o.iter().map(|(_, v)| degrees(v, d)).sum(),
        _ => 0,
    }
}
fn leaf_text(v: &Val, seen: &mut HashSet<usize>) -> usize {
    if let Some(i) = v.id() {
        if !seen.insert(i) {
            return 0;
        }
    }
    match v {
        Val::Arr(a) => a.iter().map(|v| leaf_text(v, seen)).sum(),
        Val::Obj(o) => o.iter().map(|(k, v)| 6 * k.len() + 3 + leaf_text(v, seen)).sum(),
        Val::Str(s) => 6 * s.len() + 2,
        Val::Big(b) => b.mag.len() * 11 + 4,
        _ => 400,
    }
}
fn djs(a: Any<Global>, cjs: bool) -> Result<String, String> {
    match guarded(|| to_djs(a, cjs)) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(format!("error {e}")),
        Ok(Ok(t)) => Ok(t),
    }
}
/// Reads the text; lone surrogates are out of the reach of the reference lexer, which works on text.
fn djs_case(r: &mut Rec, v: &Val) {
    let want = canon(v, true);
    r.state(&want);
    let mut deg = HashMap::new();
    let refs = degrees(v, &mut deg);
    let shared = deg.values().filter(|n| **n > 1).count();
    if shared > 0 {
        r.nontrivial += 1;
    }
    let a = build(GLOBAL, v);
    for cjs in [false, true] {
        r.traces += 1;
        r.transitions += 3;
        let t = match djs(a.clone(), cjs) {
            Err(e) => {
                r.fail("", format!("cjs={cjs}: {e}"));
                continue;
            }
            Ok(t) => t,
        };
        r.outcome(&t);
        // again, from the same heap and from another one
        for b in [a.clone(), build(GLOBAL, v), build_shared(GLOBAL, v)] {
            match djs(b, cjs) {
                Ok(u) if u == t => {}
                u => r.fail("", format!("cjs={cjs}: once {}, then {u:?}", cut(&t))),
            }
        }
        r.check(t.is_ascii(), || format!("not ASCII: {}", cut(&t)));
        let toks = lex(&t);
        match refparse::parse(&toks, &mut |_| Err("import")) {
            Err(e) => r.fail("", format!("cjs={cjs}: {e} in {}", cut(&t))),
            Ok((k, g)) => {
                let got = canon(&g, true);
                r.check(got == want, || format!("cjs={cjs}: {} denotes {}, expected {}", cut(&t), cut(&got), cut(&want)));
                r.eq("kind", &k, &if cjs { Kind::Cjs } else { Kind::Mjs });
            }
        }
        // one definition per shared container, each name defined once
        let names: Vec<String> = toks
            .windows(2)
            .filter_map(|w| match w {
                [Tok::Id(c), Tok::Id(n)] if c == "const" => Some(n.clone()),
                _ => None,
            })
            .collect();
        let distinct: HashSet<_> = names.iter().collect();
        r.check(names.len() == shared && distinct.len() == shared, || format!("cjs={cjs}: {shared} shared containers, definitions {names:?} in {}", cut(&t)));
        // linear in the graph: containers, references (with names of up to 7 digits) and leaves
        let max = 30 + deg.len() * 30 + refs * 12 + leaf_text(v, &mut HashSet::new());
        r.check(t.len() <= max, || format!("cjs={cjs}: {} bytes for a graph of {} containers, {refs} references", t.len(), deg.len()));
    }
}
/// The reference reader works on text and cannot hold lone surrogates.
fn no_lone(v: &Val) -> bool {
    let ok = |s: &[u16]| char::decode_utf16(s.iter().copied()).all(|c| c.is_ok());
    match v {
        Val::Str(s) => ok(s),
        Val::Arr(a) => a.iter().all(no_lone),
        Val::Obj(o) => o.iter().all(|(k, v)| ok(k) && no_lone(v)),
        _ => true,
    }
}
fn djs_leaf_case(r: &mut Rec, v: &Val) {
    if no_lone(v) {
        djs_case(r, v)
    }
}
fn ladder(kind: u64, k: usize) -> Val {
    let mut v = Val::arr(vec![]);
    let mut all = vec![v.clone()];
    for j in 0..k {
        v = match kind {
            0 => Val::arr(vec![v.clone(), v]),
            1 => Val::obj(vec![("a", v.clone()), ("b", v.clone()), ("c", v)]),
            2 => Val::arr(vec![v.clone(), Val::arr(vec![v.clone()]), Val::obj(vec![("x", v)])]),
            // every container refers to all before it
            3 => Val::arr(all.iter().rev().take(12).cloned().collect()),
            _ => Val::arr(vec![all[j * 3 / 4].clone(), v.clone(), all[j / 2].clone()]),
        };
        all.push(v.clone());
    }
    v
}
fn c08(t: Tier) -> Vec<Space> {
    let mut v = values(t, djs_leaf_case);
    let one = vec![Leaf::Num(1.0)];
    v.push(graph_space(4, 2, vec![s("x"), Leaf::Null], djs_case));
    v.push(graph_space(3, 4, one.clone(), djs_case));
    if t == Tier::Thorough {
        v.push(graph_space(4, 3, one.clone(), djs_case));
        v.push(graph_space(5, 2, vec![], djs_case));
    } else {
        v.push(graph_space(4, 3, vec![], djs_case));
    }
    v.push(shapes(t, djs_case));
    v.push(sharings(t, djs_case));
    let n = t.pick(60u64, 250);
    v.push(
        Space::new("ladders: containers with exponentially many paths", 5 * n, |i, r| djs_case(r, &ladder(i % 5, (i / 5) as usize)), |i| format!("ladder {} of {} levels", i % 5, i / 5))
            .hang(60),
    );
    v
}

// ------------------------------------------------------------------ C09

fn read_back(t: &str) -> Result<(Kind, Any<Global>), String> {
    let io = Vio::new(&[], &[("f", t.as_bytes())]);
    guarded(|| {
        let mut mc = ModuleCache::default();
        let mut c = Context::new(GLOBAL, &io, "f".into(), &mut mc);
        let r = parse(&mut c).map_err(|e| e.to_string())?;
        let k = match r.data_type {
            DataType::Json => Kind::Json,
            DataType::Djs => Kind::Djs,
            DataType::Cjs => Kind::Cjs,
            DataType::Mjs => Kind::Mjs,
        };
        Ok((k, r.any))
    })
    .map_err(|p| format!("panic: {p}"))?
}
fn write(a: &Any<Global>, k: Kind) -> Result<String, String> {
    match k {
        Kind::Json => guarded(|| to_json(a.clone())).map_err(|p| format!("panic: {p}"))?.map_err(|e| e.to_string()),
        k => djs(a.clone(), k == Kind::Cjs),
    }
}
const KINDS: [Kind; 3] = [Kind::Json, Kind::Mjs, Kind::Cjs];

fn trip_case(r: &mut Rec, v: &Val) {
    let lone = !no_lone(v);
    let a = build(GLOBAL, v);
    let want = [canon(v, false), canon(v, true)];
    r.state(&want[1]);
    r.nontrivial += 1;
    for k in KINDS {
        r.traces += 1;
        r.transitions += 3;
        let t = match write(&a, k) {
            Err(e) => {
                r.fail("", format!("{k:?}: {e}"));
                continue;
            }
            Ok(t) => t,
        };
        r.outcome(&t);
        let (k2, b) = match read_back(&t) {
            Err(e) => {
                if lone && e == "UnexpectedToken" {
                    r.fail("lone surrogate: UnexpectedToken", format!("{k:?}: {e} in {}", cut(&t)));
                } else {
                    r.fail("", format!("{k:?}: {e} in {}", cut(&t)));
                }
                continue;
            }
            Ok(x) => x,
        };
        r.eq("kind", &k2, &k);
        let sharing = k != Kind::Json;
        let got = canon_any(&b, sharing);
        let w = &want[sharing as usize];
        if got != *w {
            r.fail("", format!("{k:?}: {} reads back as {}, expected {}", cut(&t), cut(&got), cut(w)));
            continue;
        }
        match write(&b, k) {
            Ok(u) if u == t => {}
            u => r.fail("", format!("{k:?}: {} is written again as {u:?}", cut(&t))),
        }
        // to every other format and back
        for m in KINDS {
            r.transitions += 3;
            let u = write(&b, m).and_then(|u| read_back(&u)).and_then(|(_, c)| write(&c, k));
            let want = if m == Kind::Json && sharing { write(&build(GLOBAL, &unshare(v)), k) } else { Ok(t.clone()) };
            if u != want {
                r.fail("", format!("{k:?} to {m:?} to {k:?}: {} becomes {u:?}", cut(&t)));
            }
        }
    }
}
/// JSON does not keep sharing.
fn unshare(v: &Val) -> Val {
    match v {
        Val::Arr(a) => Val::arr(a.iter().map(unshare).collect()),
        Val::Obj(o) => Val::Obj(Rc::new(o.iter().map(|(k, v)| (k.clone(), unshare(v))).collect())),
        v => v.clone(),
    }
}
fn c09(t: Tier) -> Vec<Space> {
    let k = t.pick(2, 3);
    let (lw, lf) = limb_words(t.pick(3, 5));
    let e0 = t.pick(-330, -345);
    let one = |r: &mut Rec, l: Leaf| trip_case(r, &Val::arr(vec![l.val()]));
    let sp = |name: &str, n: u64, get: Arc<dyn Fn(u64) -> Leaf + Send + Sync>| {
        let g = get.clone();
        Space::new(name, n, move |i, r| one(r, get(i)), move |i| format!("{:?}", g(i)).chars().take(300).collect())
    };
    let mut v = vec![
        sp("every character", 0x110000 / t.pick(16, 1), Arc::new(move |i| {
            let i = if t == Tier::Quick { if i < 0x1800 { i } else { i * 16 + i % 16 } } else { i };
            let mut b = [0; 2];
            Leaf::Str(match char::from_u32(i as u32) {
                Some(c) => c.encode_utf16(&mut b).to_vec(),
                None => vec![i as u16],
            })
        })),
        sp("strings of boundary units", words_upto(UNITS.len(), k), Arc::new(move |i| Leaf::Str(word_upto(&UNITS, k, i)))),
        sp("doubles by bit pattern", 65536 * t.pick(1, 8), Arc::new(move |i| Leaf::Num(double(t.pick(i * 8 + i % 8, i), 8)))),
        sp("decimals", 12 * 655, Arc::new(move |i| Leaf::Num(decimal(i, e0)))),
        sp("bigints around powers", 40 * t.pick(12, 90), Arc::new(|i| Leaf::Big(big(i)))),
        sp("bigints of boundary limbs", lw, Arc::new(move |i| Leaf::Big(lf(i)))),
    ];
    v.extend(keyed(t));
    v.push(graph_space(1, 3, small_leaves(), trip_case));
    v.push(graph_space(2, 2, small_leaves()[1..t.pick(4, 5)].to_vec(), trip_case));
    v.push(graph_space(3, 2, vec![Leaf::Num(1.0)], trip_case));
    v.push(graph_space(4, 2, vec![], trip_case));
    if t == Tier::Thorough {
        v.push(graph_space(3, 3, vec![Leaf::Num(1.0)], trip_case));
        v.push(graph_space(4, 2, vec![s("x")], trip_case));
    }
    v.push(shapes(t, trip_case));
    v.push(sharings(t, trip_ladder));
    let n = t.pick(25u64, 60);
    v.push(Space::new("ladders", 5 * n, |i, r| trip_ladder(r, &ladder(i % 5, (i / 5) as usize)), |i| format!("ladder {} of {} levels", i % 5, i / 5)).hang(60));
    v
}
/// Only the formats that keep sharing: the JSON text of a ladder is exponential by nature.
fn trip_ladder(r: &mut Rec, v: &Val) {
    let a = build(GLOBAL, v);
    let want = canon(v, true);
    for k in [Kind::Mjs, Kind::Cjs] {
        r.traces += 1;
        r.transitions += 3;
        r.nontrivial += 1;
        match write(&a, k).and_then(|t| Ok((read_back(&t)?, t))) {
            Err(e) => r.fail("", format!("{k:?}: {e}")),
            Ok(((_, b), t)) => {
                let got = canon_any(&b, true);
                r.check(got == want, || format!("{k:?}: {} reads back as {}", cut(&t), cut(&got)));
                match write(&b, k) {
                    Ok(u) if u == t => {}
                    u => r.fail("", format!("{k:?}: {} is written again as {u:?}", cut(&t))),
                }
            }
        }
    }
}
/// Objects with every set of keys out of a pool, in the order of the parser.
fn keyed(t: Tier) -> Vec<Space> {
    let mut pool = vec!["", "a", "aa", "b", "A", "10", "9", "\u{0}", "\"", "\\", "\u{ffff}", "\u{10000}", "__proto__", "const", "\n", "\u{2028}"];
    pool.sort();
    let n = t.pick(10u32, 16);
    let get = move |i: u64| Val::Obj(Rc::new(pool.iter().enumerate().filter(|(j, _)| i >> j & 1 == 1).map(|(j, k)| (u16s(k), Val::Num(j as f64))).collect()));
    let g2 = get.clone();
    vec![Space::new("objects with every set of keys", 1 << n, move |i, r| trip_case(r, &get(if n < 16 { i * 61 % 65536 } else { i })), move |i| canon(&g2(i), false))]
}

// ------------------------------------------------------------------ C28

/// Takes `room` bytes and `calls` calls, refuses everything after that.
struct Narrow {
    text: String,
    room: usize,
    calls: usize,
    refused: bool,
    /// Called again after it has refused.
    again: bool,
}
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.again |= self.refused;
        if self.refused || self.calls == 0 || s.len() > self.room {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.calls -= 1;
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
const MANY: usize = usize::MAX;
type A<'a> = Any<&'a Local>;
fn write_to(w: &mut Narrow, a: A, k: Kind) -> Result<bool, String> {
    guarded(|| match k {
        Kind::Json => w.write_json(a),
        k => w.write_djs(a, k == Kind::Cjs),
    })
    .map(|r| r.is_ok())
    .map_err(|p| format!("panic: {p}"))
}
/// Every place at which the writer can fail, by bytes and by calls (of a long text the first and the last ones).
fn writer_case(r: &mut Rec, v: &Val) {
    let local = Local::default();
    {
        let a = build(&local, v);
        let size = local.size();
        for k in KINDS {
            let full = match guarded(|| if k == Kind::Json { to_json(a.clone()) } else { to_djs(a.clone(), k == Kind::Cjs) }) {
                Ok(Ok(t)) => t,
                e => return r.fail("", format!("{k:?}: {e:?}")),
            };
            r.outcome(&full);
            let mut rooms: Vec<usize> = (0..=full.len()).collect();
            if full.len() > 300 {
                let end = full.len();
                rooms.retain(|n| *n < 150 || *n > end - 150 || [0, 1, 511].contains(&(n % 512)) && *n < 1 << 14 || (n + 1).is_power_of_two() || n.is_power_of_two());
            }
            let mut limits: Vec<(usize, usize)> = rooms.into_iter().map(|n| (n, MANY)).chain([(MANY, MANY)]).collect();
            limits.extend((0..150).map(|n| (MANY, n)));
            for (room, calls) in limits {
                r.transitions += 1;
                let mut w = Narrow { text: String::new(), room, calls, refused: false, again: false };
                let ok = match write_to(&mut w, a.clone(), k) {
                    Ok(ok) => ok,
                    Err(e) => {
                        r.fail("", format!("{k:?}, a writer of {room} bytes and {calls} calls: {e}"));
                        continue;
                    }
                };
                let at = || format!("{k:?}, a writer of {room} bytes and {calls} calls");
                r.check(ok != w.refused, || format!("{}: refused {}, reported success {ok}", at(), w.refused));
                r.check(!w.again, || format!("{}: it is called again after it has refused", at()));
                r.check(if ok { w.text == full } else { full.starts_with(&w.text) && w.text != full }, || format!("{}: {} of {}", at(), cut(&w.text), cut(&full)));
                r.check(local.size() == size, || format!("{}: {} bytes allocated, before {size}", at(), local.size()));
                if w.refused {
                    r.nontrivial += 1;
                } else if room == MANY && calls < MANY {
                    break;
                }
            }
            // behind a text that is already there
            let mut t = String::from("\u{e9}");
            let ok = guarded(|| if k == Kind::Json { t.write_json(a.clone()) } else { t.write_djs(a.clone(), k == Kind::Cjs) });
            r.check(ok == Ok(Ok(())) && t == format!("\u{e9}{full}"), || format!("{k:?}: behind a text {}", cut(&t)));
        }
        r.traces += 1;
        let (got, want) = (canon_any(&a, true), canon(v, true));
        r.state(&want);
        r.check(got == want, || format!("written, the value is {}, it was {}", cut(&got), cut(&want)));
    }
    r.check(local.size() == 0, || format!("{} bytes remain", local.size()));
}
/// Traverses every container of the value: all children in order, and an error of the visitor at each of them.
fn walk(r: &mut Rec, v: &Val, a: &A, seen: &mut HashSet<usize>) {
    if v.id().is_some_and(|i| !seen.insert(i)) {
        return;
    }
    let (keys, vals): (Vec<String>, Vec<&Val>) = match v {
        Val::Arr(x) => x.iter().enumerate().map(|(i, v)| (canon(&Val::Num(i as f64), false), v)).unzip(),
        Val::Obj(x) => x.iter().map(|(k, v)| (canon(&Val::Str(Rc::new(k.clone())), false), v)).unzip(),
        _ => (vec![], vec![]),
    };
    // the children as the heap has them, and the keys of an object
    let (items, key_refs): (Vec<A>, Vec<A>) = match to_visitor(a.clone()) {
        Visitor::Array(x) => (x.items().to_vec(), vec![]),
        Visitor::Object(x) => (x.items().iter().map(|x| x.1.clone()).collect(), x.items().iter().map(|x| Any::move_from(x.0.clone())).collect()),
        _ => (vec![], vec![]),
    };
    let n = keys.len();
    r.check(items.len() == n, || format!("{} children, expected {n}", items.len()));
    if items.len() != n {
        return;
    }
    let stops: Vec<usize> = if n > 80 { (0..40).chain(n - 40..=n).collect() } else { (0..=n).collect() };
    for stop in stops {
        r.transitions += 1;
        let mut got: Vec<(A, A)> = vec![];
        let res = guarded(|| {
            a.for_each(|k, x| {
                got.push((k, x.clone()));
                if got.len() == stop + 1 {
                    Err(format!("stop {stop}"))
                } else {
                    Ok(())
                }
            })
        });
        let want = if stop < n { Err(format!("stop {stop}")) } else { Ok(()) };
        r.check(res == Ok(want.clone()), || format!("a visitor that fails at {stop} of {n} children: {res:?}"));
        r.check(got.len() == n.min(stop + 1), || format!("a visitor that fails at {stop} of {n} children is called {} times", got.len()));
        for (j, (k, x)) in got.iter().enumerate().take(n) {
            if *x != items[j] || canon_any(k, false) != keys[j] || key_refs.get(j).is_some_and(|f| f != k) {
                r.fail("", format!("child {j} of {n} is visited as {} of {}, expected {}", canon_any(k, false), cut(&canon_any(x, false)), keys[j]));
            }
        }
        if want.is_err() {
            r.nontrivial += 1;
        }
    }
    for (v, a) in vals.into_iter().zip(&items) {
        walk(r, v, a, seen);
    }
}
fn walk_case(r: &mut Rec, v: &Val) {
    let local = Local::default();
    {
        let a = build(&local, v);
        let size = local.size();
        walk(r, v, &a, &mut HashSet::new());
        r.traces += 1;
        r.check(local.size() == size, || format!("{} bytes allocated, before the traversal {size}", local.size()));
        let (got, want) = (canon_any(&a, true), canon(v, true));
        r.state(&want);
        r.check(got == want, || format!("traversed, the value is {}, it was {}", cut(&got), cut(&want)));
    }
    r.check(local.size() == 0, || format!("{} bytes remain", local.size()));
}
fn both_case(r: &mut Rec, v: &Val) {
    walk_case(r, v);
    writer_case(r, v);
}
/// Every leaf in every place: all leaves of the other spaces that have a form of their own.
fn leaves() -> Vec<Leaf> {
    let mut l = vec![Leaf::Null, Leaf::Bool(false), Leaf::Num(0.5), Leaf::Num(-0.0), Leaf::Num(f64::NEG_INFINITY), Leaf::Num(1e300), s(""), s("ab"), s("\u{0}\n\"\\"), s("\u{10000}")];
    l.extend([0, 7, -7].map(|n| Leaf::Big(Int::from_i128(n))));
    l.extend([1u64, 2, 3].map(|n| Leaf::Big(Int::pow2(64 * n).neg())));
    l
}
fn c28(t: Tier) -> Vec<Space> {
    let one = vec![Leaf::Num(1.0)];
    let mut v = vec![
        leaf_space("every unit", 0x10000 / t.pick(16, 1), move |i| Leaf::Str(vec![if t == Tier::Quick && i >= 0x400 { i as u16 * 16 + i as u16 % 16 } else { i as u16 }]), both_case),
        leaf_space("bigints around powers", 40 * t.pick(8, 40), |i| Leaf::Big(big(i)), both_case),
        leaf_space("decimals", 12 * 640 / t.pick(8, 1), move |i| Leaf::Num(decimal(t.pick(i * 8 + i % 8, i), -325)), both_case),
        uniform(t, t.pick(1 << 10, 1 << 13), t.pick(20, 300), both_case),
        graph_space(1, 2, leaves(), both_case),
        graph_space(1, 3, small_leaves(), both_case),
        graph_space(2, 2, small_leaves()[1..t.pick(4, 5)].to_vec(), both_case),
        graph_space(3, 2, vec![], both_case),
        graph_space(3, 3, one.clone(), walk_case),
    ];
    if t == Tier::Thorough {
        v.push(graph_space(3, 2, one, both_case));
        v.push(graph_space(4, 2, vec![], both_case));
    }
    v.push(shapes(t, both_case));
    v.push(sharings(Tier::Quick, both_case));
    v
}

fn main() {
    mc::engine::main(&[
        Check {
            id: "C07",
            level: "model_checking",
            rule: "every value of the spaces: the JSON text is ASCII and an independent reader finds the value in it, strings by unit, doubles by bit, order of members kept",
            assumptions: &["NaN has no literal and is left out"],
            spaces: c07,
        },
        Check {
            id: "C08",
            level: "model_checking",
            rule: "every value graph of the spaces, both flavours: the reference parser finds the same graph with the same sharing, one definition per shared container, equal texts for equal graphs, length linear in the graph",
            assumptions: &["lone surrogates are left to C07 and C09", "NaN has no literal and is left out"],
            spaces: c08,
        },
        Check {
            id: "C09",
            level: "model_checking",
            rule: "every value of the spaces: written in each format, read by the parser, compared (with sharing in DJS), written again and converted through every other format",
            assumptions: &["objects have distinct keys in the order of the parser", "NaN has no literal and is left out"],
            spaces: c09,
        },
        Check {
            id: "C28",
            level: "model_checking",
            rule: "every value of the spaces: traversal shows every child once, in order, with its index or key, and returns the visitor's first error; in every format the text reaches any writer unchanged, and a writer that fails at any byte or call gets a prefix, is left alone and its error reported; value and memory as before",
            assumptions: &["of texts longer than 300 bytes and arrays longer than 80 items the first and last places of failure"],
            spaces: c28,
        },
    ])
}
