//! big_numbers: BigUint (C20), BigInt (C21), BigFloat (C22).
use mc::engine::*;
use mc::refint::*;
use nanvm_lib::big_numbers::big_float::BigFloat;
use nanvm_lib::big_numbers::big_int::{BigInt, Sign as S};
use nanvm_lib::big_numbers::big_uint::BigUint;
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::parser::shared::to_js_bigint;
use mc::reflex::big;
use std::cmp::Ordering;
use std::sync::Arc;

const L9: [u64; 9] = [0, 1, 2, 0xffff_ffff, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
const L7: [u64; 7] = [0, 1, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
const L5: [u64; 5] = [0, 1, 1 << 63, u64::MAX - 1, u64::MAX];
const L4: [u64; 4] = [0, 1, 1 << 63, u64::MAX];

// ------------------------------------------------------------------ implementation <-> reference

trait Num: Clone + PartialEq + Ord {
    fn mk(v: &Int) -> Self;
    fn rd(&self) -> Result<Int, String>;
}
impl Num for BigUint {
    fn mk(v: &Int) -> Self {
        assert!(!v.neg);
        BigUint { value: v.limbs() }
    }
    fn rd(&self) -> Result<Int, String> {
        if self.value.last() == Some(&0) {
            return Err(format!("not normalized: {:x?}", self.value));
        }
        Ok(Int::from_limbs(false, &self.value))
    }
}
impl Num for BigInt {
    fn mk(v: &Int) -> Self {
        BigInt { sign: if v.neg { S::Negative } else { S::Positive }, value: BigUint::mk(&v.abs()) }
    }
    fn rd(&self) -> Result<Int, String> {
        let neg = self.sign == S::Negative;
        let v = self.value.rd()?;
        if neg && v.is_zero() {
            return Err("negative zero".into());
        }
        Ok(Int::new(neg, v.mag))
    }
}
fn expect<N: Num>(r: &mut Rec, what: &str, got: Result<N, String>, want: &Int) {
    r.transitions += 1;
    r.traces += 1;
    match got {
        Err(p) => r.fail("", format!("{what}: panic: {p}; expected {want}")),
        Ok(b) => match b.rd() {
            Err(e) => r.fail("", format!("{what}: {e}; expected {want}")),
            Ok(g) if g != *want => r.fail("", format!("{what}: got {g}, expected {want}")),
            Ok(g) => {
                r.outcome(&(what, g.neg, g.mag.len()));
                r.state(&g)
            }
        },
    }
}
fn small(n: i128, signed: bool) -> Vec<Int> {
    (0..=n).flat_map(|i| if i == 0 || !signed { vec![i] } else { vec![i, -i] }).map(Int::from_i128).collect()
}
fn grid(name: &str, a: Vec<Int>, b: Vec<Int>, f: fn(&mut Rec, &Int, &Int)) -> Space {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let (a2, b2) = (a.clone(), b.clone());
    let n = b.len() as u64;
    Space::new(
        name,
        a.len() as u64 * n,
        move |i, r| f(r, &a[(i / n) as usize], &b[(i % n) as usize]),
        move |i| format!("{} , {}", a2[(i / n) as usize], b2[(i % n) as usize]),
    )
    .hang(20)
}
fn near_space(t: Tier, signed: bool, f: fn(&mut Rec, &Int, &Int)) -> Space {
    let v = Arc::new(near_pairs((2..=t.pick(8, 16)).chain([32]), signed));
    let w = v.clone();
    Space::new(
        "numbers that differ in two limbs",
        v.len() as u64,
        move |i, r| f(r, &v[i as usize].0, &v[i as usize].1),
        move |i| format!("{} , {}", w[i as usize].0, w[i as usize].1),
    )
}
fn multiples(name: &str, q: Vec<Int>, d: Vec<Int>, signed: bool, f: fn(&mut Rec, &Int, &Int)) -> Space {
    let (q, d) = (Arc::new(q), Arc::new(d));
    let (nq, nd) = (q.len() as u64, d.len() as u64);
    let ns = if signed { 4 } else { 1 };
    let g = move |i: u64| {
        let g = digits(i, &[nq, nd, 4, ns]);
        let (q, d) = (&q[g[0] as usize], &d[g[1] as usize]);
        let one = Int::from_i128(1);
        let rem = match g[2] {
            0 => Int::zero(),
            1 => one.clone(),
            2 => d.sub(&one),
            _ => one.neg(),
        };
        let n = q.mul(d).add(&rem);
        let n = if signed { n } else { n.abs() };
        (if g[3] & 1 == 1 { n.neg() } else { n }, if g[3] & 2 == 2 { d.neg() } else { d.clone() })
    };
    let g2 = g.clone();
    Space::new(
        name,
        nq * nd * 4 * ns,
        move |i, r| {
            let (n, d) = g(i);
            f(r, &n, &d)
        },
        move |i| {
            let (n, d) = g2(i);
            format!("{n} , {d}")
        },
    )
    .hang(20)
}

fn div_check<N: Num>(r: &mut Rec, x: &Int, y: &Int, got: Result<(N, N), String>, div: Result<N, String>) {
    r.transitions += 1;
    r.traces += 1;
    if y.is_zero() {
        for g in [got.err(), div.err()] {
            r.check(g.as_deref().is_some_and(|m| m.contains("divide by zero")), || format!("division by zero: {g:?}"));
        }
        return;
    }
    match got {
        Err(m) => r.fail("", format!("div_mod: panic: {m}")),
        Ok((q, m)) => match (q.rd(), m.rd()) {
            (Ok(a), Ok(b)) => {
                let ok = a.mul(y).add(&b) == *x && b.cmp_abs(y) == Ordering::Less && (b.is_zero() || b.neg == x.neg);
                r.check(ok, || format!("div_mod: quotient {a} remainder {b}"));
                r.state(&(&a, &b));
                if ok {
                    expect(r, "/", div, &a);
                }
            }
            (a, b) => r.fail("", format!("div_mod: quotient {a:?} remainder {b:?}")),
        },
    }
}
fn cmp_check<N: Num>(r: &mut Rec, x: &Int, y: &Int) {
    r.transitions += 1;
    match guarded(|| {
        let (p, q) = (N::mk(x), N::mk(y));
        (p.cmp(&q), q.cmp(&p), p == q, p.partial_cmp(&q))
    }) {
        Err(m) => r.fail("", format!("compare: panic: {m}")),
        Ok((a, b, e, pc)) => {
            let w = x.cmp(y);
            r.check(a == w && b == w.reverse() && e == w.is_eq() && pc == Some(w), || {
                format!("compare: got {a:?}, reversed {b:?}, equal {e}, expected {w:?}")
            });
        }
    }
}

// ------------------------------------------------------------------ C20

fn u_case(r: &mut Rec, x: &Int, y: &Int) {
    let (p, q) = (BigUint::mk(x), BigUint::mk(y));
    expect(r, "+", guarded(|| &p + &q), &x.add(y));
    let d = x.sub(y);
    expect(r, "-", guarded(|| &p - &q), &if d.neg { Int::zero() } else { d });
    expect(r, "*", guarded(|| &p * &q), &x.mul(y));
    cmp_check::<BigUint>(r, x, y);
    if p.rd().as_ref() != Ok(x) || q.rd().as_ref() != Ok(y) {
        r.fail("", "operand changed");
    }
    let w = (x.bit(0) as u64, x.is_zero(), x.is_zero(), *x == Int::from_i128(1), x.limbs().len());
    let g = guarded(|| (p.get_last_bit(), p.is_zero(), p.is_empty(), p.is_one(), p.len()));
    r.check(g.as_ref() == Ok(&w), || format!("queries: got {g:?}, expected {w:?}"));
    r.nontrivial += !(x.is_zero() || y.is_zero()) as u64;
}
fn u_div(r: &mut Rec, x: &Int, y: &Int) {
    let (p, q) = (BigUint::mk(x), BigUint::mk(y));
    r.nontrivial += 1;
    div_check(r, x, y, guarded(|| p.div_mod(&q)), guarded(|| &p / &q));
}
fn u_shift(r: &mut Rec, x: &Int, c: &Int) {
    let (p, q) = (BigUint::mk(x), BigUint::mk(c));
    r.nontrivial += 1;
    let l = c.limbs();
    let n = match l.len() {
        0 => 0,
        1 => l[0],
        _ => u64::MAX,
    };
    expect(r, ">>", guarded(|| &p >> &q), &x.shr_floor(n));
    if l.len() > 1 && !x.is_zero() {
        let g = guarded(|| &p << &q);
        r.check(g.as_ref().err().is_some_and(|m| m.contains("size exceeded")), || format!("<< by 2^64: {g:?}"));
    } else if n <= 1 << 27 {
        expect(r, "<<", guarded(|| &p << &q), &x.shl(n));
    } else if x.is_zero() {
        expect(r, "<<", guarded(|| &p << &q), x);
    }
}
fn u_pow(r: &mut Rec, x: &Int, e: &Int) {
    let (p, q) = (BigUint::mk(x), BigUint::mk(e));
    r.nontrivial += 1;
    let want = if e.is_zero() {
        Int::from_i128(1)
    } else if x.is_zero() || x.bits() == 1 {
        x.clone()
    } else if e.limbs().len() > 1 {
        let g = guarded(|| p.pow(&q));
        r.check(g.as_ref().err().is_some_and(|m| m.contains("size exceeded")), || format!("huge power: {g:?}"));
        return;
    } else {
        x.pow(e.limbs()[0] as u32)
    };
    expect(r, "pow", guarded(|| p.pow(&q)), &want);
    let n = e.limbs().first().copied().unwrap_or(0);
    if e.limbs().len() <= 1 && (n < 1 << 22 || x.is_zero() || x.bits() == 1) {
        expect(r, "pow_u64", guarded(|| p.pow_u64(n)), &want);
    }
}
type UBin = (&'static str, fn(&BigUint, &BigUint) -> BigUint, fn(&Int, &Int) -> Option<Int>);
const UOPS: &[UBin] = &[
    ("add", |a, b| a + b, |a, b| Some(a.add(b))),
    ("sub", |a, b| a - b, |a, b| Some(a.sub(b)).map(|d| if d.neg { Int::zero() } else { d })),
    ("mul", |a, b| a * b, |a, b| Some(a.mul(b))),
];
fn u_chain(v: Vec<Int>) -> Space {
    let v = Arc::new(v);
    let v2 = v.clone();
    let (n, k) = (v.len() as u64, UOPS.len() as u64);
    let dec = move |i: u64| digits(i, &[n, n, n, k, 5]);
    Space::new(
        "two-step chains",
        n * n * n * k * 5,
        move |i, r| {
            let d = dec(i);
            let (x, y, z) = (&v[d[0] as usize], &v[d[1] as usize], &v[d[2] as usize]);
            let f = &UOPS[d[3] as usize];
            let m = f.2(x, y).unwrap();
            let got = guarded(|| f.1(&BigUint::mk(x), &BigUint::mk(y)));
            let Ok(im) = got else { return r.fail("", "panic") };
            let s = BigUint::mk(z);
            r.nontrivial += 1;
            match d[4] {
                0..=2 => {
                    let g = &UOPS[d[4] as usize];
                    expect(r, g.0, guarded(|| g.1(&im, &s)), &g.2(&m, z).unwrap())
                }
                3 => div_check(r, &m, z, guarded(|| im.div_mod(&s)), guarded(|| &im / &s)),
                _ => div_check(r, z, &m, guarded(|| s.div_mod(&im)), guarded(|| &s / &im)),
            }
        },
        move |i| {
            let d = dec(i);
            let g = ["add", "sub", "mul", "div", "div by"][d[4] as usize];
            format!("{} {} {} then {g} {}", v2[d[0] as usize], UOPS[d[3] as usize].0, v2[d[1] as usize], v2[d[2] as usize])
        },
    )
}
fn shift_values(al: &[u64], n: usize) -> Vec<Int> {
    let mut x = ints(al, n, false);
    for b in 0..=194u64 {
        for d in [-1, 0, 1] {
            x.push(Int::pow2(b).add(&Int::from_i128(d)));
        }
    }
    x
}
fn c20(t: Tier) -> Vec<Space> {
    let mut counts = small(t.pick(200, 300), false);
    for l in [vec![1000], vec![99_999], vec![1 << 32], vec![u64::MAX], vec![0, 1], vec![3, 1], vec![64, 1], vec![u64::MAX, 1]] {
        counts.push(Int::from_limbs(false, &l));
    }
    let huge = vec![Int::from_limbs(false, &[0, 1]), Int::from_limbs(false, &[7, 1]), Int::from_limbs(false, &[u64::MAX])];
    let mut ends = huge.clone();
    for b in 0..130u64 {
        for d in [-1, 0, 1] {
            ends.push(Int::pow2(b).add(&Int::from_i128(d)));
        }
    }
    vec![
        Space::new(
            "constructors and normalization",
            words_upto(9, 4) + 9,
            |i, r| {
                r.nontrivial += 1;
                if i < 9 {
                    let n = L9[i as usize];
                    expect(r, "from_u64", guarded(|| BigUint::from_u64(n)), &Int::from_limbs(false, &[n]));
                    expect(r, "one", guarded(BigUint::one), &Int::from_i128(1));
                } else {
                    let l = word_upto(&L9, 4, i - 9);
                    let g = guarded(|| {
                        let mut b = BigUint { value: l.clone() };
                        b.normalize();
                        b
                    });
                    let w = Int::from_limbs(false, &l);
                    expect(r, "normalize", g.clone(), &w);
                    expect(r, "to_big_int", g.map(|b| b.to_big_int()), &w);
                }
            },
            |i| format!("{i}"),
        ),
        grid("small integers", small(60, false), small(60, false), u_case),
        grid("limb words", ints(&L9, 3, false), ints(&L9, 3, false), u_case),
        grid("long carry/borrow chains", ints(t.pick(&L4, &L5), 5, false), ints(&L4, t.pick(4, 5), false), u_case),
        grid("long operands of every two lengths", long_ints(1..=t.pick(40, 90), false), long_ints(1..=t.pick(40, 90), false), u_case),
        grid("division of long operands", long_ints((1..=t.pick(14, 40)).chain([64, 65]), false), long_ints((1..=t.pick(14, 40)).chain([64, 65]), false), u_div),
        grid("shifts of long operands", long_ints((1..=t.pick(12, 40)).chain([64, 65, 200]), false), counts.clone(), u_shift),
        grid("power of long bases", long_ints(1..=t.pick(12, 40), false), small(5, false), u_pow),
        grid("division of small integers", small(60, false), small(60, false), u_div),
        grid("division of limb words", ints(&L7, 4, false), ints(&L9, 3, false), u_div),
        grid("division of long words", ints(&L4, t.pick(5, 6), false), ints(&L5, t.pick(3, 4), false), u_div),
        multiples("division around multiples", ints(&L9, 2, false), ints(&L9, t.pick(2, 3), false), false, u_div),
        grid("shifts", shift_values(&L9, t.pick(2, 3)), counts, u_shift),
        {
            let (x, c) = far_shifts(t.pick(23, 26), false);
            grid("shifts by very many bits", x, c, u_shift)
        },
        near_space(t, false, u_case),
        {
            let v = Arc::new(long_powers(t.pick(17, 20), false));
            let w = v.clone();
            Space::new(
                "long powers",
                v.len() as u64,
                move |i, r| u_pow(r, &v[i as usize].0, &v[i as usize].1),
                move |i| format!("{} ** {}", w[i as usize].0, w[i as usize].1),
            )
        },
        grid("power of small bases", small(12, false), small(140, false), u_pow),
        grid("power of limb words", ints(&L9, 2, false), small(t.pick(8, 14), false), u_pow),
        grid("huge exponents", small(1, false), ends, u_pow),
        grid("exponents beyond memory", vec![Int::from_i128(2), Int::pow2(64)], huge[..2].to_vec(), u_pow),
        u_chain(ints(t.pick(&L5, &L9), 2, false).into_iter().take(60).collect()),
    ]
}

// ------------------------------------------------------------------ C21

fn i_case(r: &mut Rec, x: &Int, y: &Int) {
    let (p, q) = (BigInt::mk(x), BigInt::mk(y));
    expect(r, "+", guarded(|| &p + &q), &x.add(y));
    expect(r, "-", guarded(|| p.clone() - q.clone()), &x.sub(y));
    expect(r, "*", guarded(|| &p * &q), &x.mul(y));
    expect(r, "neg", guarded(|| -p.clone()), &x.neg());
    expect(r, "abs", guarded(|| p.clone().abs()), &x.abs());
    r.check(p.is_zero() == x.is_zero(), || "is_zero".into());
    cmp_check::<BigInt>(r, x, y);
    if p.rd().as_ref() != Ok(x) || q.rd().as_ref() != Ok(y) {
        r.fail("", "operand changed");
    }
    r.nontrivial += !(x.is_zero() || y.is_zero()) as u64;
}
fn i_div(r: &mut Rec, x: &Int, y: &Int) {
    let (p, q) = (BigInt::mk(x), BigInt::mk(y));
    r.nontrivial += 1;
    div_check(r, x, y, guarded(|| p.div_mod(&q)), guarded(|| &p / &q));
}
type IBin = (&'static str, fn(&BigInt, &BigInt) -> BigInt, fn(&Int, &Int) -> Int);
const IOPS: &[IBin] = &[
    ("add", |a, b| a + b, |a, b| a.add(b)),
    ("sub", |a, b| a.clone() - b.clone(), |a, b| a.sub(b)),
    ("mul", |a, b| a * b, |a, b| a.mul(b)),
];
fn i_chain(v: Vec<Int>) -> Space {
    let v = Arc::new(v);
    let v2 = v.clone();
    let (n, k) = (v.len() as u64, 5);
    let dec = move |i: u64| digits(i, &[n, n, n, k, 6]);
    Space::new(
        "two-step chains",
        n * n * n * k * 6,
        move |i, r| {
            let d = dec(i);
            let (x, y, z) = (&v[d[0] as usize], &v[d[1] as usize], &v[d[2] as usize]);
            let (p, q, s) = (BigInt::mk(x), BigInt::mk(y), BigInt::mk(z));
            // the first step: + - * and both results of a division
            let im = match d[3] {
                0..=2 => guarded(|| IOPS[d[3] as usize].1(&p, &q)),
                _ if y.is_zero() => return,
                3 => guarded(|| p.div_mod(&q).0),
                _ => guarded(|| p.div_mod(&q).1),
            };
            let Ok(im) = im else { return r.fail("", "first step: panic") };
            let m = match d[3] {
                0..=2 => IOPS[d[3] as usize].2(x, y),
                _ => match im.rd() {
                    Ok(m) => m,
                    Err(e) => return r.fail("", format!("first step: {e}")),
                },
            };
            r.nontrivial += 1;
            match d[4] {
                0..=2 => {
                    let g = &IOPS[d[4] as usize];
                    expect(r, g.0, guarded(|| g.1(&im, &s)), &g.2(&m, z))
                }
                3 => div_check(r, &m, z, guarded(|| im.div_mod(&s)), guarded(|| &im / &s)),
                4 => div_check(r, z, &m, guarded(|| s.div_mod(&im)), guarded(|| &s / &im)),
                _ => {
                    r.transitions += 1;
                    let (c, e) = (im.cmp(&s), im == s);
                    let w = m.cmp(z);
                    r.check(c == w && e == w.is_eq(), || format!("compare: {c:?} {e}, expected {w:?}"));
                }
            }
        },
        move |i| {
            let d = dec(i);
            let f = ["add", "sub", "mul", "quotient", "remainder"][d[3] as usize];
            let g = ["add", "sub", "mul", "div", "div by", "cmp"][d[4] as usize];
            format!("{} {f} {} then {g} {}", v2[d[0] as usize], v2[d[1] as usize], v2[d[2] as usize])
        },
    )
}
fn c21(t: Tier) -> Vec<Space> {
    const I: [i64; 11] = [0, 1, -1, 2, -2, i64::MAX, i64::MIN, i64::MIN + 1, 1 << 62, -(1 << 62), 1 << 32];
    vec![
        near_space(t, true, i_case),
        Space::new(
            "constructors",
            I.len() as u64 + L9.len() as u64 + 2 * words_upto(L9.len(), 4),
            |i, r| {
                r.nontrivial += 1;
                let (ni, nl) = (I.len() as u64, L9.len() as u64);
                if i < ni {
                    let i = I[i as usize];
                    expect(r, "from_i64", guarded(|| BigInt::from_i64(i)), &Int::from_i128(i as i128));
                } else if i < ni + nl {
                    let n = L9[(i - ni) as usize];
                    expect(r, "from_u64", guarded(|| BigInt::from_u64(n)), &Int::from_limbs(false, &[n]));
                } else {
                    // high zero limbs and signed zeros included
                    let k = i - ni - nl;
                    let l = word_upto(&L9, 4, k / 2);
                    let v = Int::from_limbs(k % 2 == 1, &l);
                    let s = if k % 2 == 1 { S::Negative } else { S::Positive };
                    let b = guarded(|| BigInt::new(s, BigUint { value: l.clone() }));
                    let js = b.clone().and_then(|b| guarded(|| to_js_bigint(GLOBAL, b)));
                    expect(r, "new", b, &v);
                    match js.and_then(|b| big(&b)) {
                        Err(e) => r.fail("", format!("to_js_bigint: {e}")),
                        Ok(g) => {
                            r.check(g == v, || format!("to_js_bigint: got {g}, expected {v}"));
                        }
                    }
                }
            },
            |i| format!("{i}"),
        ),
        grid("small integers", small(40, true), small(40, true), i_case),
        grid("limb words", ints(t.pick(&L7, &L9), 3, true), ints(t.pick(&L7, &L9), 3, true), i_case),
        grid("different lengths", ints(&L4, t.pick(4, 5), true), ints(&L4, t.pick(3, 4), true), i_case),
        grid("long operands of every two lengths", long_ints(1..=t.pick(40, 90), true), long_ints(1..=t.pick(40, 90), true), i_case),
        grid("division of long operands", long_ints((1..=t.pick(14, 40)).chain([64, 65]), true), long_ints((1..=t.pick(14, 40)).chain([64, 65]), true), i_div),
        grid("division of small integers", small(40, true), small(40, true), i_div),
        grid("division of limb words", ints(t.pick(&L4, &L7), t.pick(4, 4), true), ints(t.pick(&L5, &L7), t.pick(2, 3), true), i_div),
        multiples("division around multiples", ints(&L7, 2, false), ints(&L9, 2, false), true, i_div),
        i_chain(ints(t.pick(&L4, &L7), 2, true).into_iter().take(t.pick(31, 99)).collect()),
    ]
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Copy)]
struct Mode {
    neg: bool,
    sticky: bool,
}
fn bf<const B: u32>(sig: &Int, exp: i64, m: Mode) -> BigFloat<B, Global> {
    BigFloat {
        manager: GLOBAL,
        significand: new_bigint(GLOBAL, Sign::Positive, sig.limbs()),
        sign: if m.neg { Sign::Negative } else { Sign::Positive },
        exp,
        non_zero_reminder: m.sticky,
    }
}
/// Nearest double of (sig + tiny if sticky) * 2^exp, ties to even, as bits.
fn round(sig: &Int, exp: i64, m: Mode) -> u64 {
    let s = (m.neg as u64) << 63;
    if sig.is_zero() {
        return s;
    }
    let inf = 2047u64 << 52;
    let top = exp as i128 + sig.bits() as i128 - 1;
    if top > 1023 {
        return s | inf;
    }
    let lsb = (top - 52).max(-1074);
    let drop = lsb - exp as i128;
    let (man, half, rest) = if drop <= 0 {
        (sig.shl((-drop) as u64), false, m.sticky)
    } else if drop as u64 > sig.bits() {
        (Int::zero(), false, true)
    } else {
        let d = drop as u64;
        let low = sig.sub(&sig.shr_floor(d - 1).shl(d - 1));
        (sig.shr_floor(d), sig.bit(d - 1), m.sticky || !low.is_zero())
    };
    let mut k = man.limbs().first().copied().unwrap_or(0);
    if half && (rest || k & 1 == 1) {
        k += 1;
    }
    // k in [2^52, 2^53] for a normal result, smaller for a subnormal one
    let bits = ((lsb + 1074) as u64).checked_shl(52).unwrap() + k;
    s | bits.min(inf)
}
fn f64_case(r: &mut Rec, sig: &Int, exp: i64, m: Mode) {
    r.traces += 1;
    r.transitions += 1;
    let w = round(sig, exp, m);
    match guarded(|| bf::<2>(sig, exp, m).to_f64().to_bits()) {
        Err(p) => r.fail("", format!("to_f64: panic: {p}")),
        Ok(g) => {
            r.check(g == w, || format!("to_f64: got {g:#x} ({:e}), expected {w:#x} ({:e})", f64::from_bits(g), f64::from_bits(w)));
            r.state(&g);
            r.outcome(&(g >> 52));
        }
    }
    r.nontrivial += !sig.is_zero() as u64;
}
const M4: [Mode; 4] = [
    Mode { neg: false, sticky: false },
    Mode { neg: true, sticky: false },
    Mode { neg: false, sticky: true },
    Mode { neg: true, sticky: true },
];
fn f64_space(name: &str, sig: Vec<Int>, exps: Vec<i64>) -> Space {
    let (a, b) = (Arc::new(sig), Arc::new(exps));
    let (a2, b2) = (a.clone(), b.clone());
    let n = b.len() as u64;
    Space::new(
        name,
        a.len() as u64 * n * 4,
        move |i, r| f64_case(r, &a[(i / 4 / n) as usize], b[(i / 4 % n) as usize], M4[(i % 4) as usize]),
        move |i| {
            let m = M4[(i % 4) as usize];
            format!("{}{} * 2^{}{}", if m.neg { "-" } else { "" }, a2[(i / 4 / n) as usize], b2[(i / 4 % n) as usize], if m.sticky { " + tiny" } else { "" })
        },
    )
    .hang(30)
}
/// to_bin at a precision, and the double of the result.
fn bin_case(r: &mut Rec, sig: &Int, exp: i64, prec: u8, m: Mode) {
    r.traces += 1;
    r.transitions += 1;
    let b = match guarded(|| bf::<10>(sig, exp, m).to_bin(prec)) {
        Err(p) => return r.fail("", format!("to_bin: panic: {p}")),
        Ok(b) => b,
    };
    let l = b.significand.items();
    if l.last() == Some(&0) || b.significand.sign() == Sign::Negative {
        return r.fail("", format!("to_bin: significand {l:x?} not canonical"));
    }
    let g = Int::from_limbs(false, l);
    r.state(&(&g, b.exp));
    r.check((b.sign == Sign::Negative) == m.neg, || "to_bin: sign lost".into());
    // sig * 10^exp against g * 2^b.exp, cross-multiplied to integers
    let ten = Int::from_i128(10).pow(exp.unsigned_abs() as u32);
    let (mut x, mut den) = (sig.clone(), Int::from_i128(1));
    if exp >= 0 {
        x = x.mul(&ten)
    } else {
        den = ten
    }
    // lo = g * 2^b.exp * den, step = 2^b.exp * den
    let (mut lo, mut step) = (g.mul(&den), den);
    if b.exp >= 0 {
        lo = lo.shl(b.exp as u64);
        step = step.shl(b.exp as u64);
    } else {
        x = x.shl(b.exp.unsigned_abs());
    }
    let exact = lo == x;
    let inside = lo.cmp(&x) != Ordering::Greater && x.cmp(&lo.add(&step)) == Ordering::Less;
    r.check(inside, || format!("to_bin: {g} * 2^{} is not the truncated value", b.exp));
    let lost = !exact || m.sticky;
    r.check(b.non_zero_reminder == lost, || format!("to_bin: remainder flag {}, expected {lost}", b.non_zero_reminder));
    r.check(exact || g.bits() >= prec as u64, || format!("to_bin: {} bits kept, precision {prec}", g.bits()));
    if prec >= 54 && !m.sticky {
        let w = format!("{}{}e{exp}", if m.neg { "-" } else { "" }, sig.to_decimal()).parse::<f64>().unwrap();
        match guarded(|| b.to_f64()) {
            Err(p) => r.fail("", format!("to_f64: panic: {p}")),
            Ok(f) => {
                r.check(f.to_bits() == w.to_bits(), || format!("as double: got {f:e}, expected {w:e}"));
            }
        }
    }
    r.nontrivial += !sig.is_zero() as u64;
    r.outcome(&(exact, g.bits(), m.neg));
}
fn bin_space(name: &str, sig: Vec<Int>, exps: Vec<i64>, precs: Vec<u8>) -> Space {
    let (a, b, c) = (Arc::new(sig), Arc::new(exps), Arc::new(precs));
    let (a2, b2, c2) = (a.clone(), b.clone(), c.clone());
    let (na, nb, nc) = (a.len() as u64, b.len() as u64, c.len() as u64);
    let dec = move |i| digits(i, &[na, nb, nc, 4]);
    Space::new(
        name,
        na * nb * nc * 4,
        move |i, r| {
            let d = dec(i);
            bin_case(r, &a[d[0] as usize], b[d[1] as usize], c[d[2] as usize], M4[d[3] as usize])
        },
        move |i| {
            let d = dec(i);
            let m = M4[d[3] as usize];
            format!(
                "{}{} * 10^{}{} to {} bits",
                if m.neg { "-" } else { "" },
                a2[d[0] as usize].to_decimal(),
                b2[d[1] as usize],
                if m.sticky { " + tiny" } else { "" },
                c2[d[2] as usize]
            )
        },
    )
    .hang(60)
}
/// Significands around the 53-bit rounding border: all patterns of the low bits.
fn border_sigs() -> Vec<Int> {
    let mut v = vec![];
    for top in [1u64 << 52, (1 << 52) + 1, (1 << 53) - 2, (1 << 53) - 1, (1 << 52) + (1 << 20), 0x15_5555_5555_5555] {
        for extra in 0..=4u64 {
            for low in 0..1u64 << extra {
                v.push(Int::from_i128(((top << extra) | low) as i128));
            }
        }
        // a rounding bit followed by far away bits
        for z in [10u64, 64, 75, 130] {
            for low in [0, 1] {
                let base = Int::from_i128(((top << 1) | 1) as i128).shl(z);
                v.push(base.add(&Int::from_i128(low)));
                v.push(base.sub(&Int::from_i128(low)));
            }
        }
    }
    v
}
fn c22(t: Tier) -> Vec<Space> {
    let mut pow2 = vec![];
    for b in 0..=t.pick(130, 200u64) {
        for d in [-1, 0, 1] {
            pow2.push(Int::pow2(b).add(&Int::from_i128(d)));
        }
    }
    let mut exps: Vec<i64> = (-1280..=-950).chain(-20..=20).chain(800..=1030).collect();
    if t == Tier::Thorough {
        exps = (-1300..=1100).collect();
    }
    let ext = vec![i64::MIN, i64::MIN + 1, i64::MIN + 60, -1 << 40, 1 << 40, i64::MAX - 60, i64::MAX - 1, i64::MAX];
    let mut dec_sigs = small(t.pick(30, 300), false);
    dec_sigs.extend(ints(&L7, 2, false));
    dec_sigs.extend(border_sigs().into_iter().step_by(t.pick(5, 1)));
    let dec_exps: Vec<i64> = match t {
        Tier::Quick => (-345..=-290).step_by(3).chain(-40..=40).chain((280..=312).step_by(2)).collect(),
        Tier::Thorough => (-400..=400).collect(),
    };
    vec![
        f64_space("binary to double: small significands", small(70, false), exps.clone()),
        f64_space("binary to double: rounding borders", border_sigs(), exps.clone()),
        f64_space("binary to double: powers of two and neighbours", pow2, exps.clone()),
        f64_space("binary to double: long significands", long_ints(1..=t.pick(20, 60), false), [-5000, -4000, -1400, -1280, -1200, -1138, -1075, -1074, -1000, -700, -400, -100, -64, -1, 0, 1, 64, 700, 959, 960, 1023].into()),
        f64_space("binary to double: one bit far below", lone_bits(t.pick(36, 90)), [-3000, -1100, -64, 0].into()),
        bin_space("decimal to binary: one bit far below", lone_bits(t.pick(28, 70)), vec![-3, 0, 5], vec![54]),
        bin_space("decimal to binary: long significands", long_ints(1..=t.pick(12, 40), false), vec![-700, -330, -100, -20, -1, 0, 1, 27, 100, 308], vec![1, 54, 64, 200, 255]),
        f64_space("binary to double: limb words", ints(&L5, t.pick(2, 3), false), exps),
        f64_space("binary to double: extreme exponents", ints(&L5, 2, false), ext),
        bin_space("decimal to binary: double precision", dec_sigs, dec_exps, vec![54, 64]),
        bin_space(
            "decimal to binary: all precisions",
            t.pick(vec![0, 1, 7, 10, 625, 1 << 53, (1 << 63) - 1], (0..=64).chain([625, 1 << 53, (1 << 63) - 1]).collect())
                .into_iter()
                .map(|i: i128| Int::from_i128(i))
                .collect(),
            t.pick(vec![-30, -3, -1, 0, 1, 2, 25], (-40..=40).collect()),
            (0..=255).collect(),
        ),
    ]
}

const ASSUME: &[&str] = &[
    "operands are normalized, as every operation of the library delivers them",
    "limbs other than those of the alphabets behave like their neighbours",
    "left shifts and powers whose exact result exceeds memory are not explored",
];
fn main() {
    mc::engine::main(&[
        Check {
            id: "C20",
            level: "model_checking",
            rule: "every pair of normalized BigUint states under +, - (saturating), *, /, div_mod, <<, >>, pow, cmp, every two-step chain: equal to the reference integer, normalized, operands unchanged",
            assumptions: ASSUME,
            spaces: c20,
        },
        Check {
            id: "C21",
            level: "model_checking",
            rule: "every pair of BigInt states under +, -, *, /, div_mod, neg, abs, cmp, every two-step chain: equal to the reference integer, one representation per number",
            assumptions: ASSUME,
            spaces: c21,
        },
        Check {
            id: "C22",
            level: "model_checking",
            rule: "every (significand, exponent, sign, sticky) and precision: to_bin is the truncated value with an exact remainder flag, to_f64 is the nearest double by integer arithmetic and by the Rust standard parser",
            assumptions: &["the significand is non-negative (the sign is a separate field)", "a set remainder flag stands for a value just above the significand", "decimal exponents up to 400 in magnitude"],
            spaces: c22,
        },
    ])
}
