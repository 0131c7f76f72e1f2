//! Bit subsets (C23) and range maps (C24).
use mc::engine::*;
use std::sync::Arc;
use nanvm_lib::common::bit_subset64::BitSubset64;
use nanvm_lib::range_map::{from_one, from_range, merge, merge_list, Entry, RangeMap, State, Union};
use nanvm_lib::static_ref_default::StaticRefDefault;

// ------------------------------------------------------------------ C23

/// A pattern over `bits` (positions) with digits 0, 1, 2=S; `rest` is what all other bits are:
/// 0, 1 or S. Returns (tag, superposition).
fn pattern(pos: &[u32], mut digits: u64, rest: u64) -> (u64, u64) {
    let (mut tag, mut sup) = match rest {
        0 => (0, 0),
        1 => (u64::MAX, 0),
        _ => (0, u64::MAX),
    };
    for p in pos {
        let b = 1u64 << p;
        tag &= !b;
        sup &= !b;
        match digits % 3 {
            0 => {}
            1 => tag |= b,
            _ => sup |= b,
        }
        digits /= 3;
    }
    (tag, sup)
}
fn in_set(w: u64, (tag, sup): (u64, u64)) -> bool {
    (0..64).all(|i| sup >> i & 1 == 1 || w >> i & 1 == tag >> i & 1)
}
fn mk(p: (u64, u64)) -> BitSubset64 {
    BitSubset64::from_tag_and_superposition(p.0, p.1)
}
fn words(pos: &[u32], rests: &[u64]) -> Vec<u64> {
    let mut v = vec![];
    for r in rests {
        for i in 0..1u64 << pos.len() {
            let mut w = *r;
            for (k, p) in pos.iter().enumerate() {
                w = w & !(1 << p) | (i >> k & 1) << p;
            }
            v.push(w);
        }
    }
    v
}
const RESTS: [u64; 4] = [0, u64::MAX, 0x5555_5555_5555_5555, 1 << 40];

fn bits_case(r: &mut Rec, pos: &[u32], da: u64, db: u64, ra: u64, rb: u64) {
    let (pa, pb) = (pattern(pos, da, ra), pattern(pos, db, rb));
    let ws = words(pos, &RESTS);
    r.nontrivial += 1;
    r.traces += 1;
    r.state(&(pa, pb));
    let (a, b) = (mk(pa), mk(pb));
    // construction
    r.transitions += 5;
    r.check(a.tag == pa.0 && a.superposition() == pa.1 && a.mask == !pa.1 && a.union() == pa.0 | pa.1, || {
        format!("fields: tag {:x} mask {:x} superposition {:x} union {:x}", a.tag, a.mask, a.superposition(), a.union())
    });
    let same = |x: BitSubset64, t: u64, s: u64| x.tag == t && x.superposition() == s;
    r.check(same(BitSubset64::from_tag_and_mask(pa.0, !pa.1), pa.0, pa.1), || "from_tag_and_mask".into());
    r.check(same(BitSubset64::from_tag_and_union(pa.0, pa.0 | pa.1), pa.0, pa.1), || "from_tag_and_union".into());
    r.check(same(BitSubset64::from_tag(pa.0), pa.0, !pa.0), || "from_tag".into());
    if pa.0 != 0 {
        let g = guarded(|| BitSubset64::<u64>::from_tag_and_mask(pa.0, !pa.0));
        r.check(g.is_err(), || "a tag outside of the mask is accepted".into());
    }
    // membership
    for w in &ws {
        r.transitions += 1;
        r.check(a.has(*w) == in_set(*w, pa), || format!("has({w:x}) = {}", a.has(*w)));
    }
    // smallest subset with all words of both: fixed where both are fixed and equal
    let fixed = !pa.1 & !pb.1 & !(pa.0 ^ pb.0);
    let want = (pa.0 & fixed, !fixed);
    let u = guarded(|| a.or_unchecked(b));
    r.transitions += 3;
    r.check(u.as_ref().is_ok_and(|u| same(*u, want.0, want.1)), || "or_unchecked is not the smallest common superset".into());
    match guarded(|| a.or(b)) {
        Ok(u) => r.check(pa.1 == pb.1 && same(u, want.0, want.1), || "or: different superpositions joined or wrong result".into()),
        Err(_) => r.check(pa.1 != pb.1, || "or refused".into()),
    };
    // intersection
    let disjoint = !pa.1 & !pb.1 & (pa.0 ^ pb.0) != 0;
    match guarded(|| a.and(b)) {
        Ok(u) => r.check(!disjoint && same(u, pa.0 | pb.0, pa.1 & pb.1), || {
            format!("and: tag {:x} superposition {:x}", u.tag, u.superposition())
        }),
        Err(_) => r.check(disjoint, || "and of overlapping subsets refused".into()),
    };
    r.outcome(&disjoint);
    // payloads, typed
    for w in &ws {
        let v = w & pa.1;
        r.transitions += 1;
        let s = a.raw_value_to_subset_value(v);
        r.check(in_set(s, pa) && a.has(s), || format!("payload {v:x} leaves the subset"));
        r.check(s == a.typed_value_to_subset_value(v), || "typed and raw payload differ".into());
        r.check(a.subset_value_to_typed_value(s) == v, || format!("payload {v:x} becomes {:x}", a.subset_value_to_typed_value(s)));
        let p = a.cast::<*const u16>();
        r.check(p.subset_value_to_typed_value(p.typed_value_to_subset_value(v as *const u16)) as u64 == v, || "pointer payload".into());
        if in_set(*w, pa) {
            r.check(a.typed_value_to_subset_value(a.subset_value_to_typed_value(*w)) == *w, || format!("word {w:x} does not round trip"));
        }
    }
    if pa.1 & 1 == 1 {
        let p = a.cast::<bool>();
        for v in [false, true] {
            r.transitions += 1;
            r.check(p.subset_value_to_typed_value(p.typed_value_to_subset_value(v)) == v, || "bool payload".into());
        }
    }
    // split at every combination of the positions
    for m in 0..1u64 << pos.len() {
        let mut sub = 0u64;
        for (k, p) in pos.iter().enumerate() {
            sub |= (m >> k & 1) << p;
        }
        r.transitions += 1;
        let ok = sub != 0 && sub & !pa.1 == 0;
        match guarded(|| a.split(sub)) {
            Err(_) => r.check(!ok, || format!("split({sub:x}) refused")),
            Ok((x, y)) => {
                r.check(ok, || format!("split({sub:x}) of fixed bits accepted"));
                r.check(same(x, pa.0, pa.1 & !sub) && same(y, pa.0 | sub, pa.1 & !sub), || format!("split({sub:x}): wrong halves"));
                for w in &ws {
                    let (i, j, k) = (x.has(*w), y.has(*w), in_set(*w, pa));
                    r.check(!(i && j) && (k || !(i || j)), || format!("split({sub:x}): {w:x} in {i} {j}, parent {k}"));
                    if sub.is_power_of_two() {
                        r.check(k == (i || j), || format!("split({sub:x}): {w:x} of the parent in neither half"));
                    }
                }
                true
            }
        };
    }
}
fn bits_space(name: &str, pos: Vec<Vec<u32>>, rests: Vec<(u64, u64)>) -> Space {
    let w = pos[0].len() as u32;
    let k = 3u64.pow(w);
    let (np, nr) = (pos.len() as u64, rests.len() as u64);
    let dec = move |i| digits(i, &[np, nr, k, k]);
    let (p2, r2) = (pos.clone(), rests.clone());
    Space::new(
        name,
        np * nr * k * k,
        move |i, r| {
            let d = dec(i);
            let (ra, rb) = rests[d[1] as usize];
            bits_case(r, &pos[d[0] as usize], d[2], d[3], ra, rb)
        },
        move |i| {
            let d = dec(i);
            let (ra, rb) = r2[d[1] as usize];
            let p = &p2[d[0] as usize];
            let (a, b) = (pattern(p, d[2], ra), pattern(p, d[3], rb));
            format!("tag {:x} superposition {:x} , tag {:x} superposition {:x}, bits {p:?}", a.0, a.1, b.0, b.1)
        },
    )
}
fn c23(t: Tier) -> Vec<Space> {
    let all: Vec<(u64, u64)> = (0..9).map(|i| (i / 3, i % 3)).collect();
    let mut pairs = vec![];
    for i in 0..64 {
        for j in i + 1..64 {
            pairs.push(vec![i, j]);
        }
    }
    let win = |w: u32, s: usize| (0..=64 - w).step_by(s).map(|b| (b..b + w).collect::<Vec<u32>>()).collect::<Vec<_>>();
    vec![
        bits_space("every bit", (0..64).map(|i| vec![i]).collect(), all.clone()),
        bits_space("windows of three bits", win(3, t.pick(3, 1)), t.pick(vec![(0, 0), (1, 2), (2, 2)], all.clone())),
        bits_space("windows of four bits", win(4, t.pick(20, 2)), t.pick(vec![(0, 0), (2, 2)], vec![(0, 0), (1, 1), (2, 2), (0, 2)])),
        bits_space("every pair of bits", pairs, t.pick(vec![(0, 0), (2, 2)], all)),
    ]
}

// ------------------------------------------------------------------ C24

/// Values that combine by set union.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Set(u8);
impl Union for Set {
    fn union(self, o: Self) -> Self {
        Set(self.0 | o.0)
    }
}
impl StaticRefDefault for Set {
    const STATIC_REF_DEFAULT: &'static Self = &Set(0);
}
/// A map as a list of (bound, value); decoded from one digit per key: 0 = no bound here.
fn list(keys: &[i32], vals: u64, mut i: u64) -> Vec<(i32, u8)> {
    let mut v = vec![];
    for k in keys {
        let d = i % (vals + 1);
        i /= vals + 1;
        if d > 0 {
            v.push((*k, (d - 1) as u8));
        }
    }
    v
}
fn answer(l: &[(i32, u8)], k: i32) -> u8 {
    l.iter().find(|(b, _)| k <= *b).map_or(0, |e| e.1)
}
fn set_map(l: &[(i32, u8)]) -> RangeMap<i32, Set> {
    RangeMap { list: l.iter().map(|(key, v)| Entry { key: *key, value: Set(*v) }).collect() }
}
fn state_map(l: &[(i32, u8)]) -> RangeMap<i32, State<u8>> {
    RangeMap { list: l.iter().map(|(key, v)| Entry { key: *key, value: State { value: (*v > 0).then_some(*v) } }).collect() }
}
fn points(keys: &[i32]) -> Vec<i32> {
    let mut p = vec![i32::MIN, i32::MAX];
    for k in keys {
        p.extend([k - 1, *k, k + 1]);
    }
    p
}
fn increasing<T>(m: &RangeMap<i32, T>) -> bool {
    m.list.windows(2).all(|w| w[0].key < w[1].key)
}
fn pair_case(r: &mut Rec, keys: &[i32], a: &[(i32, u8)], b: &[(i32, u8)]) {
    r.traces += 1;
    r.nontrivial += (!a.is_empty() && !b.is_empty()) as u64;
    let m = match guarded(|| merge(set_map(a), set_map(b))) {
        Err(p) => return r.fail("", format!("merge: panic: {p}")),
        Ok(m) => m,
    };
    r.check(increasing(&m), || "merge: bounds not increasing".into());
    let mut st = vec![];
    for p in points(keys) {
        r.transitions += 1;
        let w = answer(a, p) | answer(b, p);
        let g = guarded(|| m.get(p).0);
        r.check(g.as_ref() == Ok(&w), || format!("merge: at {p} got {g:?}, expected {w}"));
        st.push(w);
    }
    r.state(&st);
    // states: equal or one-sided values combine, different ones are refused
    let conflict = a.iter().chain(b).map(|e| e.0).any(|p| {
        let (x, y) = (answer(a, p), answer(b, p));
        x != 0 && y != 0 && x != y
    });
    r.outcome(&conflict);
    match guarded(|| merge(state_map(a), state_map(b))) {
        Err(p) => {
            r.check(conflict && p.contains("state values should be the same"), || format!("merge of states: panic {p}"));
        }
        Ok(m) => {
            r.check(!conflict, || "conflicting states merged".into());
            for p in points(keys) {
                r.transitions += 1;
                let w = answer(a, p).max(answer(b, p));
                let g = guarded(|| m.get(p).value.unwrap_or(0));
                r.check(g.as_ref() == Ok(&w), || format!("merge of states: at {p} got {g:?}, expected {w}"));
            }
        }
    }
}
fn triple_case(r: &mut Rec, keys: &[i32], l: [&[(i32, u8)]; 3]) {
    r.traces += 1;
    r.nontrivial += 1;
    let ms = guarded(|| {
        let m = |i: usize| set_map(l[i]);
        vec![
            merge(merge(m(0), m(1)), m(2)),
            merge(m(0), merge(m(1), m(2))),
            merge(m(2), merge(m(1), m(0))),
            merge_list(vec![m(0), m(1), m(2)]),
            merge_list(vec![m(1), m(2), m(0)]),
        ]
    });
    let ms = match ms {
        Err(p) => return r.fail("", format!("panic: {p}")),
        Ok(m) => m,
    };
    for p in points(keys) {
        let w = l.iter().fold(0, |x, m| x | answer(m, p));
        for (i, m) in ms.iter().enumerate() {
            r.transitions += 1;
            r.check(m.get(p).0 == w, || format!("grouping {i}: at {p} got {}, expected {w}", m.get(p).0));
        }
    }
}
/// Two long maps, with bounds at multiples of the steps; equal neighbours occur.
fn long_case(r: &mut Rec, n: i32, m: i32, s: i32, u: i32) {
    r.traces += 1;
    r.nontrivial += 1;
    let mk = |n: i32, s: i32, at: i32| (0..n).map(|k| (at + k * s, ((k * k + k / 3) % 4) as u8)).collect::<Vec<_>>();
    let (a, b) = (mk(n, s, 0), mk(m, u, 2));
    let g = match guarded(|| merge(set_map(&a), set_map(&b))) {
        Err(p) => return r.fail("", format!("panic: {p}")),
        Ok(g) => g,
    };
    for p in -2..(n * s).max(m * u + 2) + 3 {
        r.transitions += 1;
        let w = answer(&a, p) | answer(&b, p);
        let v = guarded(|| g.get(p).0);
        r.check(v == Ok(w), || format!("at {p} got {v:?}, expected {w}"));
    }
    r.check(g.list.windows(2).all(|w| w[0].key < w[1].key), || "bounds not increasing".into());
    r.state(&g.list.len());
}
fn one_case(r: &mut Rec, c: char) {
    r.traces += 1;
    r.nontrivial += 1;
    let m = match guarded(|| from_one(c, 7u8)) {
        Err(p) => return r.fail("", format!("from_one: panic: {p}")),
        Ok(m) => m,
    };
    char_map(r, "from_one", &m, c, c);
    match guarded(|| from_range(c..=c, 7u8)) {
        Err(p) => r.fail("", format!("from_range: panic: {p}")),
        Ok(m) => char_map(r, "from_range", &m, c, c),
    }
}
fn prev(c: char) -> Option<char> {
    (0..c as u32).rev().find_map(char::from_u32)
}
fn next(c: char) -> Option<char> {
    (c as u32 + 1..0x110000).find_map(char::from_u32)
}
fn char_map(r: &mut Rec, name: &str, m: &RangeMap<char, State<u8>>, a: char, b: char) {
    let mut ps = vec!['\0', '\u{1}', char::MAX, '\u{d7ff}', '\u{e000}', a, b];
    ps.extend([prev(a), prev(b), next(a), next(b)].into_iter().flatten());
    for p in ps {
        r.transitions += 1;
        let w = (a <= p && p <= b).then_some(7);
        let g = guarded(|| m.get(p).value);
        r.check(g == Ok(w), || format!("{name}({a:?}..={b:?}): at {p:?} got {g:?}, expected {w:?}"));
    }
    r.check(m.list.windows(2).all(|w| w[0].key < w[1].key), || format!("{name}: bounds not increasing"));
    r.state(&(a, b));
}
fn c24(t: Tier) -> Vec<Space> {
    const K: [i32; 6] = [-7, -2, 0, 5, 6, 20];
    let (kp, vp) = t.pick((&K[..4], 3u64), (&K[..5], 3));
    let np = (vp + 1).pow(kp.len() as u32);
    let (kt, vt) = t.pick((&K[1..4], 3u64), (&K[1..5], 3));
    let nt = (vt + 1).pow(kt.len() as u32);
    let ch: Vec<char> = ['\0', '\u{1}', '\u{2}', '\t', '0', '9', 'a', 'z', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}'].to_vec();
    let nc = ch.len() as u64;
    let ch2 = ch.clone();
    let mut lens: Vec<i32> = (0..t.pick(70, 300)).collect();
    for b in t.pick(7..=14, 7..=17) {
        lens.extend((1 << b) - 2..=(1 << b) + 2);
    }
    lens.extend(t.pick(vec![1000, 65535, 65536, 65537], vec![1000, 10_000, 100_000]));
    let lens = Arc::new(lens);
    let lens2 = lens.clone();
    let (lm, st) = t.pick((24u64, 3u64), (70, 4));
    vec![
        Space::new(
            "lookup in maps of every length",
            lens.len() as u64,
            move |i, r| {
                let i: i32 = lens[i as usize];
                r.traces += 1;
                r.nontrivial += 1;
                let m = RangeMap { list: (0..i).map(|k| Entry { key: k * 3, value: Set((k % 5) as u8) }).collect() };
                for p in -3..i * 3 + 3 {
                    r.transitions += 1;
                    let b = if p < 0 { 0 } else { (p + 2) / 3 };
                    let w = if b < i { (b % 5) as u8 } else { 0 };
                    let g = guarded(|| m.get(p).0);
                    r.check(g.as_ref() == Ok(&w), || format!("get({p}) got {g:?}, expected {w}"));
                }
            },
            move |i| format!("{} entries", lens2[i as usize]),
        ),
        Space::new(
            "merge of long maps of every two lengths and steps",
            lm * lm * st * st,
            move |i, r| {
                let d = digits(i, &[lm, lm, st, st]);
                long_case(r, d[0] as i32, d[1] as i32, d[2] as i32 + 1, d[3] as i32 + 1)
            },
            move |i| format!("{:?} (lengths, steps - 1)", digits(i, &[lm, lm, st, st])),
        ),
        Space::new(
            "merge of maps of hundreds of entries",
            64 * 9,
            move |i, r| {
                const N: [i32; 8] = [0, 1, 127, 128, 129, 255, 256, 1000];
                let d = digits(i, &[8, 8, 3, 3]);
                long_case(r, N[d[0] as usize], N[d[1] as usize], d[2] as i32 + 1, d[3] as i32 + 1)
            },
            move |i| format!("{:?} (number of the length, steps - 1)", digits(i, &[8, 8, 3, 3])),
        ),
        Space::new(
            "pairs of maps",
            np * np,
            move |i, r| pair_case(r, kp, &list(kp, vp, i / np), &list(kp, vp, i % np)),
            move |i| format!("{:?} + {:?}", list(kp, vp, i / np), list(kp, vp, i % np)),
        ),
        Space::new(
            "triples of maps",
            nt * nt * nt,
            move |i, r| triple_case(r, kt, [&list(kt, vt, i / nt / nt), &list(kt, vt, i / nt % nt), &list(kt, vt, i % nt)]),
            move |i| format!("{:?} + {:?} + {:?}", list(kt, vt, i / nt / nt), list(kt, vt, i / nt % nt), list(kt, vt, i % nt)),
        ),
        Space::new(
            "one key: every character",
            0x110000,
            |i, r| {
                if let Some(c) = char::from_u32(i as u32) {
                    one_case(r, c)
                }
            },
            |i| format!("{:?}", char::from_u32(i as u32)),
        ),
        Space::new(
            "ranges",
            nc * nc,
            move |i, r| {
                let (a, b) = (ch[(i / nc) as usize], ch[(i % nc) as usize]);
                if a > b {
                    return;
                }
                r.traces += 1;
                r.nontrivial += 1;
                match guarded(|| from_range(a..=b, 7u8)) {
                    Err(p) => r.fail("", format!("from_range: panic: {p}")),
                    Ok(m) => char_map(r, "from_range", &m, a, b),
                }
            },
            move |i| format!("{:?}..={:?}", ch2[(i / nc) as usize], ch2[(i % nc) as usize]),
        ),
    ]
}

fn main() {
    mc::engine::main(&[
        Check {
            id: "C23",
            level: "model_checking",
            rule: "every pair of ternary patterns on windows and pairs of bit positions, every split mask and word on them: fields, membership, or, and, split, payload round trips equal the set of words",
            assumptions: &["bits interact at most in windows of four or in pairs"],
            spaces: c23,
        },
        Check {
            id: "C24",
            level: "model_checking",
            rule: "every pair and triple of maps over a small key set, in every grouping: answers at every key equal the combination of the answers; from_one for every character; ranges between boundary characters",
            assumptions: &["a range given to from_range is not empty", "values are combined by a commutative, associative union with the default as neutral element"],
            spaces: c24,
        },
    ])
}
