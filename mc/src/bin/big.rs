//! JavaScript bigints (js::js_bigint): C16 C17 C18 C19.
//! State space: bigint values over limb alphabets; transitions: the real operations; every result
//! is compared with reference integers and has to be a canonical state again.
use mc::engine::*;
use mc::refint::*;
use nanvm_lib::js::js_bigint::{self as jb, JsBigint, JsBigintMutRef, Sign};
use nanvm_lib::mem::global::{Global, GLOBAL};
use std::sync::Arc;

type B = JsBigintMutRef<Global>;

const L9: [u64; 9] = [0, 1, 2, 0xffff_ffff, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
const L7: [u64; 7] = [0, 1, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
const L6: [u64; 6] = [0, 1, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
const L5: [u64; 5] = [0, 1, 1 << 63, u64::MAX - 1, u64::MAX];
const L4: [u64; 4] = [0, 1, 1 << 63, u64::MAX];

fn mk(v: &Int) -> B {
    jb::new_bigint(GLOBAL, if v.neg { Sign::Negative } else { Sign::Positive }, v.limbs())
}
/// The value of a bigint; Err if it is not in canonical form.
fn rd(b: &JsBigint) -> Result<Int, String> {
    let l = b.items();
    let neg = b.sign() == Sign::Negative;
    if l.last() == Some(&0) || (l.is_empty() && neg) || b.header_len().unsigned_abs() != l.len() {
        return Err(format!("not canonical: header {} items {l:x?}", b.header_len()));
    }
    Ok(Int::from_limbs(neg, l))
}

fn expect(r: &mut Rec, what: &str, got: Result<B, String>, want: &Int) {
    r.transitions += 1;
    r.traces += 1;
    match got {
        Err(p) => r.fail("", format!("{what}: panic: {p}; expected {want}")),
        Ok(b) => match rd(&b) {
            Err(e) => r.fail("", format!("{what}: {e}; expected {want}")),
            Ok(g) if g != *want => r.fail("", format!("{what}: got {g}, expected {want}")),
            Ok(g) => {
                r.outcome(&(what, g.neg, g.mag.len()));
                r.state(&g)
            }
        },
    }
}
fn unchanged(r: &mut Rec, b: &JsBigint, v: &Int) {
    if rd(b).as_ref() != Ok(v) {
        r.fail("", format!("operand changed: {v} became {:?}", rd(b)));
    }
}

type Bin = (&'static str, fn(&JsBigint, &JsBigint) -> B, fn(&Int, &Int) -> Int);
const ARITH: &[Bin] = &[
    ("add", |a, b| jb::add(GLOBAL, a, b), |a, b| a.add(b)),
    ("sub", |a, b| jb::sub(GLOBAL, a, b), |a, b| a.sub(b)),
    ("mul", |a, b| jb::mul(GLOBAL, a, b), |a, b| a.mul(b)),
];
const BITS: &[Bin] = &[
    ("and", |a, b| jb::and(GLOBAL, a, b), |a, b| a.bitop(b, |x, y| x & y)),
    ("or", |a, b| jb::or(GLOBAL, a, b), |a, b| a.bitop(b, |x, y| x | y)),
    ("xor", |a, b| jb::xor(GLOBAL, a, b), |a, b| a.bitop(b, |x, y| x ^ y)),
];
type Un = (&'static str, fn(&JsBigint) -> B, fn(&Int) -> Int);
const NEG: Un = ("negative", |a| jb::negative(GLOBAL, a), |a| a.neg());
const NOT: Un = ("not", |a| jb::not(GLOBAL, a), |a| a.neg().sub(&Int::from_i128(1)));

fn small(n: i128) -> Vec<Int> {
    (0..=n).flat_map(|i| if i == 0 { vec![0] } else { vec![i, -i] }).map(Int::from_i128).collect()
}

/// All pairs of two value sets through a family of binary operations.
fn pairs(name: &str, a: Vec<Int>, b: Vec<Int>, ops: &'static [Bin]) -> Space {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let (a2, b2) = (a.clone(), b.clone());
    let n = b.len() as u64;
    Space::new(
        name,
        a.len() as u64 * n,
        move |i, r| {
            let (x, y) = (&a[(i / n) as usize], &b[(i % n) as usize]);
            let (p, q) = (mk(x), mk(y));
            for (name, f, g) in ops {
                expect(r, name, guarded(|| f(&p, &q)), &g(x, y));
            }
            unchanged(r, &p, x);
            unchanged(r, &q, y);
            r.nontrivial += !(x.is_zero() || y.is_zero()) as u64;
        },
        move |i| format!("{} , {}", a2[(i / n) as usize], b2[(i % n) as usize]),
    )
}
fn unary(name: &str, a: Vec<Int>, op: Un) -> Space {
    let a = Arc::new(a);
    let a2 = a.clone();
    Space::new(
        name,
        a.len() as u64,
        move |i, r| {
            let x = &a[i as usize];
            let p = mk(x);
            expect(r, op.0, guarded(|| op.1(&p)), &op.2(x));
            // applied twice both give the operand back
            expect(r, &format!("{0}({0})", op.0), guarded(|| op.1(&op.1(&p))), x);
            unchanged(r, &p, x);
            r.nontrivial += 1;
        },
        move |i| format!("{} {}", op.0, a2[i as usize]),
    )
}

/// Chains: every pair of operations, the result of the first being an operand of the second.
fn chains(name: &str, v: Vec<Int>, ops: Vec<Bin>) -> Space {
    let v = Arc::new(v);
    let v2 = v.clone();
    let ops = Arc::new(ops);
    let o2 = ops.clone();
    let (n, k) = (v.len() as u64, ops.len() as u64);
    let dec = move |i: u64| digits(i, &[n, n, n, k, k, 2]);
    Space::new(
        name,
        n * n * n * k * k * 2,
        move |i, r| {
            let d = dec(i);
            let (x, y, z) = (&v[d[0] as usize], &v[d[1] as usize], &v[d[2] as usize]);
            let (f, g) = (&ops[d[3] as usize], &ops[d[4] as usize]);
            let (p, q, s) = (mk(x), mk(y), mk(z));
            let mid = f.2(x, y);
            let want = if d[5] == 0 { g.2(&mid, z) } else { g.2(z, &mid) };
            let got = guarded(|| {
                let m = f.1(&p, &q);
                if d[5] == 0 {
                    g.1(&m, &s)
                } else {
                    g.1(&s, &m)
                }
            });
            expect(r, "chain", got, &want);
            r.transitions += 1;
            r.nontrivial += 1;
        },
        move |i| {
            let d = dec(i);
            let (x, y, z) = (&v2[d[0] as usize], &v2[d[1] as usize], &v2[d[2] as usize]);
            let (f, g) = (o2[d[3] as usize].0, o2[d[4] as usize].0);
            if d[5] == 0 {
                format!("{g}({f}({x}, {y}), {z})")
            } else {
                format!("{g}({z}, {f}({x}, {y}))")
            }
        },
    )
}

fn c16(t: Tier) -> Vec<Space> {
    let mut s = vec![];
    s.push(Space::new(
        "constructors",
        L9.len() as u64 * 2,
        |i, r| {
            let (n, neg) = (L9[(i / 2) as usize], i % 2 == 1);
            let sg = if neg { Sign::Negative } else { Sign::Positive };
            expect(r, "from_u64", guarded(|| jb::from_u64(GLOBAL, sg, n)), &Int::from_limbs(neg, &[n]));
            expect(r, "zero", guarded(|| jb::zero(GLOBAL)), &Int::zero());
            r.nontrivial += 1;
        },
        |i| format!("from_u64 {} neg={}", L9[(i / 2) as usize], i % 2),
    ));
    s.push(pairs("small integers", small(40), small(40), ARITH));
    s.push(pairs("limb words", ints(&L9, 3, true), ints(t.pick(&L7, &L9), 3, true), ARITH));
    let (n, al): (usize, &[u64]) = t.pick((5, &L5), (6, &L5));
    s.push(pairs("long carry/borrow chains", ints(al, n, false), ints(&L4, 4, true), ARITH));
    s.push(unary("negation", ints(&L9, t.pick(3, 4), true), NEG));
    s.push(pairs("long operands of every two lengths", long_ints(1..=t.pick(40, 90), true), long_ints(1..=t.pick(40, 90), true), ARITH));
    s.push(pairs("very long operands", long_ints(t.pick([63usize, 64, 65, 128, 257], [127, 128, 129, 256, 1025]).into_iter(), true), long_ints([1usize, 2, 31, 32, 33, 63, 64, 65, 128, 257].into_iter(), true), ARITH));
    s.push(unary("negation of long operands", long_ints(1..=300, true), NEG));
    let v = ints(&L4, 2, true);
    let v = if t == Tier::Quick { v.into_iter().step_by(1).take(31).collect() } else { ints(&L9, 2, true) };
    s.push(chains("two-step chains", v, ARITH.to_vec()));
    s
}

fn div_case(r: &mut Rec, x: &Int, y: &Int) {
    let (p, q) = (mk(x), mk(y));
    r.transitions += 1;
    r.traces += 1;
    let got = guarded(|| jb::div_mod(GLOBAL, &p, &q));
    unchanged(r, &p, x);
    unchanged(r, &q, y);
    if y.is_zero() {
        match got {
            Err(m) if m.contains("divide by zero") => r.count("division_by_zero_panics", 1),
            Err(m) => r.fail("", format!("division by zero: wrong panic {m}")),
            Ok(_) => r.fail("", "division by zero returns"),
        }
        return;
    }
    let (qt, rm) = match got {
        Err(m) => return r.fail("", format!("panic: {m}")),
        Ok(v) => v,
    };
    let (qt, rm) = match (rd(&qt), rd(&rm)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return r.fail("", format!("quotient {a:?} remainder {b:?}")),
    };
    r.state(&qt);
    r.state(&rm);
    // the true quotient and remainder are the only pair with these properties
    let ok_rem = |m: &Int| {
        qt.mul(y).add(m) == *x && m.cmp_abs(y) == std::cmp::Ordering::Less && (m.is_zero() || m.neg == x.neg)
    };
    r.nontrivial += (x.cmp_abs(y) == std::cmp::Ordering::Greater) as u64;
    if ok_rem(&rm) {
        return;
    }
    // Known findings: the existing tests pin both wrong remainders. The quotient stays checked.
    let true_rem = x.sub(&qt.mul(y));
    if ok_rem(&true_rem) {
        if x.cmp_abs(y) == std::cmp::Ordering::Less && rm == Int::new(x.neg != y.neg, y.mag.clone()) {
            return r.fail("js_bigint::div_mod:|lhs|<|rhs|:remainder=sign*|rhs|", format!("remainder {rm}, expected {true_rem}"));
        }
        if x.cmp_abs(y) == std::cmp::Ordering::Greater && y.neg && rm == true_rem.neg() {
            return r.fail("js_bigint::div_mod:rhs<0:remainder has the quotient's sign", format!("remainder {rm}, expected {true_rem}"));
        }
    }
    r.fail("", format!("quotient {qt} remainder {rm}"));
}
fn divs(name: &str, a: Vec<Int>, b: Vec<Int>) -> Space {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let (a2, b2) = (a.clone(), b.clone());
    let n = b.len() as u64;
    Space::new(
        name,
        a.len() as u64 * n,
        move |i, r| div_case(r, &a[(i / n) as usize], &b[(i % n) as usize]),
        move |i| format!("{} / {}", a2[(i / n) as usize], b2[(i % n) as usize]),
    )
    .hang(20)
}
fn c17(t: Tier) -> Vec<Space> {
    let one = Int::from_i128(1);
    // dividends around every multiple: n = q*d + r for the extreme remainders
    let q = Arc::new(ints(t.pick(&L7, &L9), t.pick(2, 3), false));
    let d = Arc::new(ints(&L9, t.pick(2, 3), false));
    let (nq, nd) = (q.len() as u64, d.len() as u64);
    let f = move |i: u64| {
        let g = digits(i, &[nq, nd, 4, 4]);
        let (q, d) = (&q[g[0] as usize], &d[g[1] as usize]);
        let rem = match g[2] {
            0 => Int::zero(),
            1 => one.clone(),
            2 => d.sub(&one),
            _ => one.neg(),
        };
        let n = q.mul(d).add(&rem);
        let n = if g[3] & 1 == 1 { n.neg() } else { n };
        (n, if g[3] & 2 == 2 { d.neg() } else { d.clone() })
    };
    let f2 = f.clone();
    vec![
        divs("small integers", small(40), small(40)),
        divs("signs", ints(&L5, 2, true), ints(&L5, 2, true)),
        Space::new(
            "around multiples",
            nq * nd * 16,
            move |i, r| {
                let (n, d) = f(i);
                div_case(r, &n, &d)
            },
            move |i| {
                let (n, d) = f2(i);
                format!("{n} / {d}")
            },
        )
        .hang(20),
        divs("limb words", ints(t.pick(&L7, &L9), 4, false), ints(&L9, 3, false)),
        divs("long dividends and divisors of every two lengths", long_ints(1..=t.pick(14, 40), true), long_ints(1..=t.pick(14, 40), true)),
        divs("very long dividends", long_ints([33usize, 64, 65, 130].into_iter(), true), long_ints([1usize, 2, 3, 32, 33, 64, 65].into_iter(), true)),
        divs("long dividends", ints(t.pick(&L4, &L6), t.pick(5, 5), false), ints(&L5, t.pick(3, 4), false)),
    ]
}

fn shift_case(r: &mut Rec, x: &Int, c: &Int) {
    let (p, q) = (mk(x), mk(c));
    r.traces += 1;
    for left in [true, false] {
        let name = if left { "shl" } else { "shr" };
        let towards_left = left != c.neg;
        let l = c.limbs();
        if towards_left && !x.is_zero() && l.len() == 1 && l[0] > 1 << 27 {
            continue; // the exact result does not fit into memory
        }
        let got = guarded(|| if left { jb::shl(GLOBAL, &p, &q) } else { jb::shr(GLOBAL, &p, &q) });
        let want = if x.is_zero() || c.is_zero() {
            x.clone()
        } else if !towards_left {
            x.shr_floor(if l.len() == 1 { l[0] } else { u64::MAX })
        } else if l.len() == 1 {
            x.shl(l[0])
        } else {
            // documented limit
            match got {
                Err(m) if m.contains("Maximum bigint size exceeded") => {}
                Err(m) => r.fail("", format!("{name}: wrong panic {m}")),
                Ok(_) => r.fail("", format!("{name} by 2^64 or more returns")),
            }
            continue;
        };
        expect(r, name, got, &want);
    }
    if !c.neg && c.limbs().len() == 1 && c.limbs()[0] <= 1 << 27 {
        let n = c.limbs()[0];
        expect(r, "shl_on_u64", guarded(|| jb::shl_on_u64(GLOBAL, &p, n)), &x.shl(n));
    }
    if !c.neg && c.limbs().len() <= 1 {
        let n = *c.limbs().first().unwrap_or(&0);
        expect(r, "shr_on_u64", guarded(|| jb::shr_on_u64(GLOBAL, &p, n)), &x.shr_floor(n));
    }
    unchanged(r, &p, x);
    unchanged(r, &q, c);
    r.nontrivial += !x.is_zero() as u64;
}
fn c18(t: Tier) -> Vec<Space> {
    let v = ints(&L9, t.pick(2, 3), true);
    let mut s = vec![
        pairs("small integers", small(40), small(40), BITS),
        pairs("limb words", ints(t.pick(&L7, &L9), 3, true), ints(t.pick(&L7, &L9), 3, true), BITS),
        pairs("different lengths", ints(&L4, t.pick(4, 5), true), ints(&L4, t.pick(4, 4), true), BITS),
        pairs("long operands of every two lengths", long_ints(1..=t.pick(40, 90), true), long_ints(1..=t.pick(40, 90), true), BITS),
        unary("not of long operands", long_ints(1..=300, true), NOT),
        unary("not", ints(&L9, t.pick(3, 4), true), NOT),
        chains("two-step chains", ints(t.pick(&L4, &L7), 2, true).into_iter().take(t.pick(25, 99)).collect(), [BITS, ARITH].concat()),
    ];
    let mut c: Vec<Int> = (0..=t.pick(140, 260)).flat_map(|i| [Int::from_i128(i), Int::from_i128(-i - 1)]).collect();
    for big in [1000u64, 4096, 99_999, 1 << 32, (1 << 63) + 5, u64::MAX] {
        c.push(Int::from_limbs(false, &[big]));
        c.push(Int::from_limbs(true, &[big]));
    }
    for big in [[0, 1], [u64::MAX, 1], [5, 1]] {
        c.push(Int::from_limbs(false, &big));
        c.push(Int::from_limbs(true, &big));
    }
    let mut x = v;
    x.extend(small(20));
    x.extend(ints(&L4, 3, true));
    // one-bit and all-but-one-bit patterns around the limb borders
    for b in 0..=130u64 {
        for d in [-1, 0, 1] {
            let y = Int::pow2(b).add(&Int::from_i128(d));
            x.push(y.neg());
            x.push(y);
        }
    }
    x.extend(long_ints((1..=t.pick(12, 40)).chain([64, 65, 200]), true));
    let (x, c) = (Arc::new(x), Arc::new(c));
    let (x2, c2) = (x.clone(), c.clone());
    let n = c.len() as u64;
    s.push(Space::new(
        "shifts",
        x.len() as u64 * n,
        move |i, r| shift_case(r, &x[(i / n) as usize], &c[(i % n) as usize]),
        move |i| format!("{} << >> {}", x2[(i / n) as usize], c2[(i % n) as usize]),
    ));
    let (x, c) = far_shifts(t.pick(23, 26), true);
    s.push(grid("shifts by very many bits", x, c, shift_case, "<< >>"));
    s
}

fn cmp_case(r: &mut Rec, x: &Int, y: &Int) {
    let (p, q) = (mk(x), mk(y));
    r.transitions += 3;
    r.traces += 1;
    match guarded(|| (p.compare(&q), q.compare(&p), jb::equals(&p, &q))) {
        Err(m) => r.fail("", format!("panic: {m}")),
        Ok((a, b, e)) => {
            let w = x.cmp(y);
            r.check(a == w, || format!("compare: got {a:?}, expected {w:?}"));
            r.check(b == w.reverse(), || format!("compare reversed: got {b:?}, expected {:?}", w.reverse()));
            r.check(e == w.is_eq(), || format!("equals: {e}"));
            r.outcome(&(w as i8));
        }
    }
    match guarded(|| (p.sign(), p.get_last_bit(), jb::is_zero(&p), p.header_len())) {
        Err(m) => r.fail("", format!("panic: {m}")),
        Ok((s, b, z, l)) => {
            r.check((s == Sign::Negative) == x.neg, || "sign".into());
            r.check(b == x.bit(0) as u64, || format!("last bit {b}"));
            r.check(z == x.is_zero(), || format!("is_zero {z}"));
            let n = x.limbs().len() as isize;
            r.check(l == if x.neg { -n } else { n }, || format!("header_len {l}"));
        }
    }
    r.nontrivial += 1;
    r.state(&(x, y));
}
fn pow_case(r: &mut Rec, x: &Int, e: &Int) {
    let (p, q) = (mk(x), mk(e));
    r.traces += 1;
    r.nontrivial += 1;
    let got = guarded(|| jb::pow(GLOBAL, &p, &q));
    let one = x.abs() == Int::from_i128(1);
    let want = if e.neg {
        r.transitions += 1;
        match got {
            Err(m) if m.contains("exponent must be positive") => {}
            Err(m) => r.fail("", format!("wrong panic {m}")),
            Ok(_) => r.fail("", "negative exponent returns"),
        }
        return;
    } else if e.is_zero() {
        Int::from_i128(1)
    } else if x.is_zero() {
        Int::zero()
    } else if one {
        if e.bit(0) {
            x.clone()
        } else {
            x.abs()
        }
    } else if e.limbs().len() > 1 {
        r.transitions += 1;
        match got {
            Err(m) if m.contains("maximum bigint size exceeded") => {}
            Err(m) => r.fail("", format!("wrong panic {m}")),
            Ok(_) => r.fail("", "huge power returns"),
        }
        return;
    } else {
        x.pow(e.limbs()[0] as u32)
    };
    expect(r, "pow", got, &want);
    if e.limbs().len() <= 1 {
        let n = e.limbs().first().copied().unwrap_or(0);
        if !e.neg && (n < 1 << 22 || x.is_zero() || one) {
            expect(r, "pow_u64", guarded(|| jb::pow_u64(GLOBAL, &p, n)), &want);
        }
    }
    unchanged(r, &p, x);
}
fn grid(name: &str, a: Vec<Int>, b: Vec<Int>, f: fn(&mut Rec, &Int, &Int), op: &'static str) -> Space {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let (a2, b2) = (a.clone(), b.clone());
    let n = b.len() as u64;
    Space::new(
        name,
        a.len() as u64 * n,
        move |i, r| f(r, &a[(i / n) as usize], &b[(i % n) as usize]),
        move |i| format!("{} {op} {}", a2[(i / n) as usize], b2[(i % n) as usize]),
    )
}
fn long_powers_space(top: u32) -> Space {
    let v = Arc::new(long_powers(top, true));
    let w = v.clone();
    Space::new(
        "long powers",
        v.len() as u64,
        move |i, r| pow_case(r, &v[i as usize].0, &v[i as usize].1),
        move |i| format!("{} ** {}", w[i as usize].0, w[i as usize].1),
    )
}
fn c19(t: Tier) -> Vec<Space> {
    let r = |n: i128| (0..=n).map(Int::from_i128).collect::<Vec<_>>();
    let mut bigexp = vec![];
    for l in [vec![0, 1], vec![1, 1], vec![u64::MAX], vec![u64::MAX - 1], vec![u64::MAX, u64::MAX]] {
        bigexp.push(Int::from_limbs(false, &l));
        bigexp.push(Int::from_limbs(true, &l));
    }
    let mut ends = bigexp.clone();
    for b in 0..130u64 {
        for d in [-1, 0, 1] {
            ends.push(Int::pow2(b).add(&Int::from_i128(d)));
        }
    }
    vec![
        grid("compare small integers", small(20), small(20), cmp_case, "<=>"),
        grid("compare limb words", ints(t.pick(&L7, &L9), 3, true), ints(t.pick(&L7, &L9), 3, true), cmp_case, "<=>"),
        grid("compare different lengths", ints(&L4, 4, true), ints(&L4, t.pick(4, 4), true), cmp_case, "<=>"),
        grid("compare long operands", long_ints(1..=t.pick(40, 90), true), long_ints(1..=t.pick(40, 90), true), cmp_case, "<=>"),
        {
            let v = Arc::new(near_pairs((2..=t.pick(12, 20)).chain([32, 33]), true));
            let w = v.clone();
            Space::new(
                "compare numbers that differ in two limbs",
                v.len() as u64,
                move |i, r| cmp_case(r, &v[i as usize].0, &v[i as usize].1),
                move |i| format!("{} <=> {}", w[i as usize].0, w[i as usize].1),
            )
        },
        grid("power of long bases", long_ints(1..=t.pick(12, 40), true), r(5), pow_case, "**"),
        long_powers_space(t.pick(17, 20)),
        grid("power of small bases", small(12), r(t.pick(140, 300)), pow_case, "**"),
        grid("power of limb words", ints(&L9, t.pick(2, 3), true), r(t.pick(8, 12)), pow_case, "**"),
        grid("negative exponents", small(3), small(3), pow_case, "**"),
        grid("unit bases and huge exponents", small(1), ends, pow_case, "**"),
        grid(
            "huge exponents beyond memory",
            vec![Int::from_i128(2), Int::from_i128(-3), Int::pow2(64)],
            bigexp.into_iter().filter(|e| e.limbs().len() > 1).collect(),
            pow_case,
            "**",
        ),
    ]
}

const ASSUME: &[&str] = &[
    "operands are canonical, as every operation of the library delivers them",
    "limbs other than those of the alphabets behave like their neighbours (carry, borrow and quotient digit cases are all reached)",
    "left shifts and powers whose exact result exceeds memory are not explored",
];
fn main() {
    main_checks()
}
fn main_checks() -> ! {
    mc::engine::main(&[
        Check {
            id: "C16",
            level: "model_checking",
            rule: "every pair of states (integers over limb alphabets, both signs) under +, -, *, negation, and every two-step chain: the real result equals the reference integer, is canonical, operands unchanged",
            assumptions: ASSUME,
            spaces: c16,
        },
        Check {
            id: "C17",
            level: "model_checking",
            rule: "every dividend/divisor pair: q*d+r=n, |r|<|d|, sign of r, canonical, terminates; only division by zero panics",
            assumptions: ASSUME,
            spaces: c17,
        },
        Check {
            id: "C18",
            level: "model_checking",
            rule: "every pair under and/or/xor, every value under not, every value and count under both shifts: equal to the two's complement reference, canonical",
            assumptions: ASSUME,
            spaces: c18,
        },
        Check {
            id: "C19",
            level: "model_checking",
            rule: "every pair compared in both orders, every base and exponent: equal to the reference",
            assumptions: ASSUME,
            spaces: c19,
        },
    ])
}
