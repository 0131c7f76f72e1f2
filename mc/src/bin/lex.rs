//! Tokenizer: C01 (lexical grammar), C02 (numbers), C03 (bigints), C26 (streaming).
use mc::engine::*;
use mc::refint::*;
use mc::reflex::*;
use mc::sized;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::js_bigint::JsBigintRef;
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::parser::analyzer::{AnalyzerParameters, AnalyzerState};
use nanvm_lib::serializer::to_json::to_json;
use nanvm_lib::tokenizer::{create_transition_maps, tokenize, JsonToken, TokenizerState, TokenizerStateIterator, TransitionMaps};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

fn real(s: &str) -> Result<Vec<Tok>, String> {
    guarded(|| tokenize(GLOBAL, s.to_string()).iter().map(tok).collect())
}
fn lex_case(r: &mut Rec, s: &str) {
    r.traces += 1;
    r.transitions += s.chars().count() as u64;
    let w = lex(s);
    r.nontrivial += !w.is_empty() as u64;
    r.state(&w);
    let k: Vec<_> = w.iter().map(|t| (std::mem::discriminant(t), if let Tok::Err(e) = t { *e } else { "" })).collect();
    r.outcome(&k);
    match real(s) {
        Err(p) => r.fail("", format!("panic: {p}")),
        Ok(g) => {
            r.check(g == w, || format!("got {g:?}, expected {w:?}"));
        }
    }
}

/// All words over an alphabet, between a prefix and a suffix.
fn words(name: &str, pre: &'static str, alpha: &'static [&'static str], n: usize, suf: &'static str, f: fn(&mut Rec, &str)) -> Space {
    let d = move |i| format!("{pre}{}{suf}", word_upto(alpha, n, i).concat());
    Space::new(name, words_upto(alpha.len(), n), move |i, r| f(r, &d(i)), move |i| format!("{:?}", d(i)))
}
fn texts(name: &str, v: Vec<String>, f: fn(&mut Rec, &str)) -> Space {
    let v = Arc::new(v);
    let v2 = v.clone();
    Space::new(name, v.len() as u64, move |i, r| f(r, &v[i as usize]), move |i| clip(&v2[i as usize]))
}
/// Constructs of every size up to `n`, with every end.
fn grown(n: usize, f: fn(&mut Rec, &str)) -> Space {
    Space::new("constructs of every size", sized::count(n), move |i, r| f(r, &sized::text(n, i)), move |i| clip(&sized::text(n, i)))
}
fn clip(s: &str) -> String {
    if s.len() <= 300 {
        return format!("{s:?}");
    }
    let a: String = s.chars().take(120).collect();
    let b: String = s.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{a:?}...{b:?} ({} bytes)", s.len())
}

const GENERAL: &[&str] = &[
    "\"", "\\", "/", "*", "\n", "\r", " ", "0", "1", "-", "+", ".", "e", "E", "n", "u", "a", "{", ":", "(", "_", "$", "ѣ", "#",
];
const STRING: &[&str] = &["\"", "\\", "u", "d", "8", "0", "D", "c", "n", "x", "\n", "é"];
const ESCAPES: &[&str] = &["\\u", "d83d", "DE00", "0041", "\\", "\"", "d8", "dc00", "n", "x", "\\ud800", "\\udfff"];
const NUMBER: &[&str] = &["0", "1", "9", ".", "e", "E", "+", "-", "n", " ", "a", ",", "/"];
const COMMENT: &[&str] = &["/", "*", "\n", "\r", " ", "a", "\"", "1"];
const OPERATOR: &[&str] = &["{", "}", "[", "]", ":", ",", "=", ".", ";", "(", ")", "a", "1", " "];
/// Texts that bring the tokenizer into each of its states.
const CONTEXTS: &[&str] = &[
    "", "a", "\"", "\"\\", "\"\\u", "\"\\u0", "\"\\u00", "\"\\u004", "\"\\ud83d", "\"\\ud83d\\", "\"\\ud83d\\u", "\"\\ud83d\\udc0", "0", "12", "-", "1.", "1.5",
    "1e", "1e-", "1e5", "1n", "0n", "\n", "/", "//", "/*", "/**", "{", ".", "-0",
];

fn long_texts() -> Vec<String> {
    [1usize, 10, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 65_537]
        .iter()
        .flat_map(|n| {
            let n = *n;
            vec![
                "a".repeat(n),
                format!("\"{}\"", "x".repeat(n)),
                format!("\"{}\"", "\\ud83d\\ude00".repeat(n)),
                format!("\"{}", "\\n".repeat(n)),
                format!("//{}\n1", "/".repeat(n)),
                format!("/*{}*/1", "*".repeat(n)),
                format!("/*{}", "/*".repeat(n)),
                format!("{}1", " \n".repeat(n)),
                "[".repeat(n),
                "1,".repeat(n),
                "\n1".repeat(n),
                "#".repeat(n),
            ]
        })
        .collect()
}
fn c01(t: Tier) -> Vec<Space> {
    let tops: u64 = t.pick(0x800, 0x110000);
    let extra: Vec<char> = vec!['\u{fff}', '\u{1000}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}'];
    let nx = extra.len() as u64;
    let per = tops + nx;
    let nc = CONTEXTS.len() as u64;
    let ctx = move |i: u64| {
        let (k, p) = (i / nc, i % nc);
        let c = if k < tops { char::from_u32(k as u32)? } else { extra[(k - tops) as usize] };
        Some(format!("{}{c}1\"", CONTEXTS[p as usize]))
    };
    let ctx2 = ctx.clone();
    // every escape \uXXXX, and every pair of border surrogates
    let esc = |i: u64| {
        let u = i / 2;
        if i % 2 == 0 {
            format!("\"a\\u{u:04x}b\",")
        } else {
            format!("\"\\u{u:04X}\\u{u:04X}\"")
        }
    };
    let b: Vec<u32> = vec![0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0xffff];
    let mut pairs = vec![];
    for x in &b {
        for y in &b {
            for z in &b {
                pairs.push(format!("[\"\\u{x:04x}\\u{y:04X}\\u{z:04x}\",1]"));
            }
        }
    }
    if t == Tier::Thorough {
        for x in (0xd800..0xe000).step_by(7) {
            for y in (0xdc00..0xe000).step_by(5) {
                pairs.push(format!("\"\\u{x:04x}\\u{y:04x}\""));
            }
        }
    }
    let long = long_texts();
    vec![
        words("all texts", "", GENERAL, t.pick(4, 5), "", lex_case),
        words("strings", "\"", STRING, t.pick(4, 6), "", lex_case),
        words("closed strings", "[\"", STRING, t.pick(4, 5), "\"]", lex_case),
        words("escape sequences", "\"", ESCAPES, t.pick(4, 5), "", lex_case),
        words("numbers", "", NUMBER, t.pick(5, 6), "", lex_case),
        words("comments and line ends", "", COMMENT, t.pick(5, 7), "", lex_case),
        words("operators", "", OPERATOR, t.pick(4, 5), "", lex_case),
        Space::new(
            "every character in every state",
            per * nc,
            move |i, r| {
                if let Some(s) = ctx(i) {
                    lex_case(r, &s)
                }
            },
            move |i| format!("{:?}", ctx2(i)),
        ),
        Space::new("every \\uXXXX escape", 0x20000, move |i, r| lex_case(r, &esc(i)), move |i| esc(i)),
        texts("surrogate pairs", pairs, lex_case),
        texts("long texts", long, lex_case).hang(60),
        grown(t.pick(70, 300), lex_case),
        equality(),
    ]
}

/// Two tokens are equal iff they are of one kind with equal contents.
fn equality() -> Space {
    let mut t: Vec<String> = OPS.chars().map(String::from).collect();
    for x in ["", "a", "b", "ab", "null", "1", "ѣ", "{", "\u{1f600}"] {
        t.push(format!("\"{x}\""));
    }
    for x in ["a", "b", "ab", "null", "$", "_1", "true"] {
        t.push(x.into());
    }
    for x in ["0", "-0", "1", "-1", "2", "1.5", "1e400", "-1e400", "18446744073709551616"] {
        t.push(x.into());
    }
    for x in ["0", "-0", "1", "-1", "2", "18446744073709551615", "18446744073709551616", "-18446744073709551616", "18446744073709551617", "36893488147419103232", "340282366920938463463374607431768211456"] {
        t.push(format!("{x}n"));
    }
    // every kind of error
    for x in ["#", "-a", "1a", "01", "1.", "1na", "\"\\uX", "\"\\u00G", "\"", "\"\\", "\"\\x", "/*", "/a", "1e"] {
        t.push(x.into());
    }
    t.push("\na".into());
    let t = Arc::new(t);
    let (n, u) = (t.len() as u64, t.clone());
    Space::new(
        "equality of tokens",
        n * n,
        move |i, r| {
            let (a, b) = (&t[(i / n) as usize], &t[(i % n) as usize]);
            r.traces += 1;
            let g = guarded(|| {
                let (x, y) = (tokenize(GLOBAL, a.clone()), tokenize(GLOBAL, b.clone()));
                let mut o = vec![];
                for p in &x {
                    for q in &y {
                        o.push((tok(p), tok(q), p == q, p != q));
                    }
                }
                (o, x == y)
            });
            match g {
                Err(p) => r.fail("", format!("panic: {p}")),
                Ok((o, all)) => {
                    r.transitions += o.len() as u64;
                    for (p, q, eq, ne) in o {
                        let w = match (&p, &q) {
                            (Tok::Num(p), Tok::Num(q)) => f64::from_bits(*p) == f64::from_bits(*q),
                            _ => p == q,
                        };
                        r.nontrivial += 1;
                        r.outcome(&(w, std::mem::discriminant(&p), std::mem::discriminant(&q)));
                        r.check(eq == w && ne != w, || format!("{p:?} == {q:?}: {eq}, != {ne}"));
                    }
                    if i / n == i % n {
                        r.check(all, || "a text's tokens differ from themselves".into());
                    }
                }
            }
        },
        move |i| format!("{:?} and {:?}", u[(i / n) as usize], u[(i % n) as usize]),
    )
}

// ------------------------------------------------------------------ C02

fn num_case(r: &mut Rec, s: &str) {
    r.traces += 1;
    r.transitions += s.len() as u64;
    let w = s.parse::<f64>().unwrap().to_bits();
    r.state(&w);
    r.outcome(&(w >> 52));
    r.nontrivial += (w << 1 != 0) as u64;
    for t in [s.to_string(), format!("{s} ")] {
        match real(&t) {
            Err(p) => return r.fail("", format!("panic: {p}")),
            Ok(g) => {
                r.check(g == [Tok::Num(w)], || {
                    let g = match &g[..] {
                        [Tok::Num(g)] => format!("{:e} ({g:#x})", f64::from_bits(*g)),
                        o => format!("{o:?}"),
                    };
                    format!("got {g}, expected {:e} ({w:#x})", f64::from_bits(w))
                });
            }
        }
    }
}
/// Digits with a point `k` places from the right (k may exceed the number of digits).
fn point(d: &str, k: usize) -> String {
    if k == 0 {
        return d.to_string();
    }
    let d = if d.len() <= k { format!("{}{d}", "0".repeat(k - d.len() + 1)) } else { d.to_string() };
    let (a, b) = d.split_at(d.len() - k);
    format!("{a}.{b}")
}
/// The exact decimal expansion of m * 2^e as (digits, decimals).
fn exact(m: u64, e: i64) -> (Int, u64) {
    let m = Int::from_i128(m as i128);
    if e >= 0 {
        (m.shl(e as u64), 0)
    } else {
        (m.mul(&Int::from_i128(5).pow(-e as u32)), -e as u64)
    }
}
/// Spellings of digits * 10^-k.
fn spellings(d: &Int, k: u64) -> Vec<String> {
    let s = d.to_decimal();
    if s == "0" {
        return ["0", "-0", "0.0", "-0.000", "0e-5", "-0E+7", "0.00e999"].map(String::from).to_vec();
    }
    let mut v = vec![format!("{s}e-{k}"), point(&s, k as usize)];
    // scientific, and with an exponent that moves the point beyond the digits
    if s.len() > 1 {
        v.push(format!("{}.{}E{}", &s[..1], &s[1..], s.len() as i64 - 1 - k as i64));
    }
    v.push(format!("0.{}{s}e+{}", "0".repeat(25), 25 + s.len() as i64 - k as i64).replace("+-", "-"));
    v.push(format!("-{s}{}e-{}", "0".repeat(30), k + 30));
    v
}
/// Doubles (as bits) whose neighbourhood is explored.
fn doubles(t: Tier) -> Vec<u64> {
    let mut v = vec![];
    let man = [0u64, 1, 2, (1 << 51) - 1, 1 << 51, (1 << 51) + 1, (1 << 52) - 2, (1 << 52) - 1, 0x5_5555_5555_5555];
    let exps: Vec<u64> = match t {
        Tier::Quick => (0..4).chain((4..1000).step_by(97)).chain(1015..1032).chain((1032..2040).step_by(97)).chain(2043..2047).collect(),
        Tier::Thorough => (0..8).chain((8..2040).step_by(5)).chain(2040..2047).collect(),
    };
    for e in exps {
        for m in man {
            v.push(e << 52 | m);
        }
    }
    v
}
fn c02(t: Tier) -> Vec<Space> {
    let d = Arc::new(doubles(t));
    let d2 = d.clone();
    // the double itself, the midpoint to its successor, and the closest values on both sides
    let near = move |i: u64| -> Vec<String> {
        let b = d[(i / 4) as usize];
        let (e, m) = match b >> 52 {
            0 => (-1074, b),
            e => (e as i64 - 1075, (b & ((1 << 52) - 1)) | 1 << 52),
        };
        let (d, k) = match i % 4 {
            0 => exact(m, e),
            j => {
                let (d, k) = exact(2 * m + 1, e - 1);
                match j {
                    1 => (d, k),
                    // one unit more (less) 20 digits behind the last one
                    2 => (d.mul(&Int::from_i128(10).pow(20)).add(&Int::from_i128(1)), k + 20),
                    _ => (d.mul(&Int::from_i128(10).pow(20)).sub(&Int::from_i128(1)), k + 20),
                }
            }
        };
        spellings(&d, k)
    };
    let near2 = near.clone();
    let n = d2.len() as u64 * 4;
    // short decimals at every exponent
    let digs = ["1", "2", "5", "9", "17", "49", "2225073858507201", "22250738585072014", "17976931348623157", "17976931348623159", "4940656458412465", "24703282292062327", "9007199254740993", "0", "00000001"];
    let (lo, hi) = t.pick((-345i64, 315i64), (-420, 420));
    let mut short = vec![];
    for e in lo..=hi {
        for g in digs {
            if g.starts_with('0') && g.len() > 1 {
                short.push(format!("0.{g}e{e}"));
            } else {
                short.push(format!("{g}e{e}"));
                short.push(format!("-{g}.0{g}E{e:+}"));
            }
        }
    }
    let mut ext = vec![];
    for e in ["309", "310", "324", "325", "400", "999", "1000", "32768", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "000000000000000000000001", "00000000000000000000000000000308"] {
        for s in ["", "+", "-"] {
            for m in ["0", "1", "-1", "-0", "9.5", "0.0", "-0.000", "123456789012345678901234567890", "0.000000000000000000000000000001"] {
                ext.push(format!("{m}e{s}{e}"));
            }
        }
    }
    // the same with so many digits that a count of them, or an exponent, outgrows its type or its digits
    for b in [1000usize, 8192, 10_000, 16_384, 32_768].into_iter().chain(t.pick(vec![], vec![20_000])) {
        for k in [b - 1, b, b + 1] {
            for g in ["1", "9007199254740993"] {
                ext.push(format!("{g}{}e-{k}", "0".repeat(k)));
                ext.push(format!("{g}.{}1", "0".repeat(k)));
            }
        }
    }
    for b in [8192usize, 10_000, 16_384, 32_768, 65_536, 100_000].into_iter().chain(t.pick(vec![], vec![131_072, 400_000])) {
        for k in [b - 2, b - 1, b, b + 1, b + 2] {
            for g in ["1", "9007199254740993"] {
                ext.push(format!("0.{}{g}e{}", "0".repeat(k), k + 1));
                ext.push(format!("-0.{}{g}E+{}", "0".repeat(k), k + 309));
                ext.push(format!("0.{}{g}e{}", "0".repeat(k), k - 323));
                ext.push(format!("0.{}{g}", "0".repeat(k)));
            }
            ext.push(format!("0.{}e{k}", "0".repeat(k)));
            ext.push(format!("1e{}", "0".repeat(k)));
            ext.push(format!("1e-{}300", "0".repeat(k)));
        }
    }
    // the exponent undone by digits or zeros of the literal
    for k in (1..=t.pick(450usize, 1300)).chain(t.pick((500..1500).step_by(50).collect::<Vec<_>>(), vec![1500, 2000, 3000])).chain([2200, 4000]) {
        for g in ["1", "7", "123456789"] {
            ext.push(format!("{g}{}e-{k}", "0".repeat(k)));
            ext.push(format!("0.{}{g}e{k}", "0".repeat(k)));
            ext.push(format!("{g}{}", "0".repeat(k)));
            ext.push(format!("-0.{}{g}", "0".repeat(k)));
            ext.push(format!("{g}.{}1", "0".repeat(k)));
            ext.push(format!("{}e-{k}", "9".repeat(k)));
            ext.push(format!("0.{}", "3".repeat(k)));
            ext.push(format!("{}", "8".repeat(k)));
            ext.push(format!("{g}{}e-{}", "0".repeat(k), k + 308));
            ext.push(format!("{g}{}e-{}", "0".repeat(k), k + 324));
            ext.push(format!("0.{}{g}e{}", "0".repeat(k), k + 308));
        }
    }
    vec![
        Space::new("small integers", 100_000 / t.pick(10, 1), |i, r| num_case(r, &format!("{i}")), |i| format!("{i}")),
        Space::new(
            "short decimals",
            t.pick(200, 1000) * 100,
            |i, r| num_case(r, &format!("{}.{:02}", i / 100, i % 100)),
            |i| format!("{}.{:02}", i / 100, i % 100),
        ),
        texts("short significands, every exponent", short, num_case),
        Space::new(
            "doubles, midpoints and their neighbours",
            n,
            move |i, r| {
                for s in near(i) {
                    num_case(r, &s)
                }
            },
            move |i| format!("bits {:#x}, {}: {}", d2[(i / 4) as usize], ["exact", "midpoint", "above midpoint", "below midpoint"][(i % 4) as usize], clip(&near2(i)[1])),
        ),
        texts("extreme exponents and long literals", ext, num_case).hang(60),
    ]
}

// ------------------------------------------------------------------ C03

fn big_case(r: &mut Rec, v: &Int) {
    r.traces += 1;
    let d = v.to_decimal();
    r.transitions += d.len() as u64;
    r.nontrivial += !v.is_zero() as u64;
    for s in [format!("{d}n"), format!("{d}n,")] {
        match guarded(|| tokenize(GLOBAL, s.clone())) {
            Err(p) => return r.fail("", format!("panic: {p}")),
            Ok(mut g) => {
                let one = s.ends_with('n');
                if g.len() != 2 - one as usize {
                    return r.fail("", format!("got {:?}", g.iter().map(tok).collect::<Vec<_>>()));
                }
                let JsonToken::BigInt(b) = g.swap_remove(0) else {
                    return r.fail("", "not a bigint");
                };
                match big(&b) {
                    Err(e) => return r.fail("", e),
                    Ok(x) => {
                        r.state(&x);
                        if x != *v {
                            return r.fail("", format!("got {x}, expected {v}"));
                        }
                    }
                }
                if one {
                    let w = guarded(|| to_json(Any::<Global>::move_from::<JsBigintRef<Global>>(b.to_ref())));
                    r.transitions += 1;
                    r.check(w == Ok(Ok(format!("{d}n"))), || format!("written back: {w:?}, expected {d}n"));
                }
            }
        }
    }
}
fn c03(t: Tier) -> Vec<Space> {
    const L: [u64; 7] = [0, 1, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
    let vals = |name: &str, v: Vec<Int>| {
        let v = Arc::new(v);
        let v2 = v.clone();
        Space::new(name, v.len() as u64, move |i, r| big_case(r, &v[i as usize]), move |i| clip(&format!("{}n", v2[i as usize].to_decimal())))
    };
    let mut borders = vec![];
    for k in 1..=t.pick(6u64, 20) {
        for b in [32u64, 64] {
            for d in -2..=2 {
                let x = Int::pow2(b * k).add(&Int::from_i128(d));
                borders.push(x.neg());
                borders.push(x);
            }
        }
    }
    for k in 0..=t.pick(80u32, 330) {
        for d in -1..=1 {
            let x = Int::from_i128(10).pow(k).add(&Int::from_i128(d));
            borders.push(x.neg());
            borders.push(x);
        }
    }
    let long = [1000usize, 3000, 10_000]
        .iter()
        .flat_map(|n| ["9", "1", "1234567890", "90"].map(|p| Int::from_decimal(&p.repeat(n / p.len()))))
        .collect();
    // every number of digits
    let each = (1..t.pick(420usize, 1300))
        .flat_map(|n| ["9", "1", "1234567890", "90", "18446744073709551616", "10000000000000000000"].map(|p| Int::from_decimal(&p.repeat(n / p.len() + 1)[..n])))
        .enumerate()
        .map(|(i, v)| if i % 5 == 0 { v.neg() } else { v })
        .collect();
    let zeros: Vec<String> = (0..t.pick(100usize, 400)).flat_map(|n| {
        let z = "0".repeat(n);
        ["", "-"].map(|s| vec![format!("{s}1{z}n"), format!("{s}0{z}n"), format!("{s}{z}1n"), format!("{s}1{z}1n,1"), format!("{s}1{z}nn"), format!("{s}1{z}.n"), format!("{s}1{z}.0n"), format!("{s}1{z}e1n"), format!("{s}1{z} n"), format!("{s}1{z}n{z}"), format!("[{s}9{z}n]")]).concat()
    }).collect();
    const BIG: &[&str] = &["0", "1", "9", "n", "-", ".", "e", "+", ",", " ", "a", "\""];
    vec![
        vals("small integers", (0..t.pick(20_000, 200_000)).flat_map(|i| [Int::from_i128(i), Int::from_i128(-i - 1)]).collect()),
        vals("limb words", ints(&L, t.pick(3, 4), true)),
        vals("powers of two and ten and neighbours", borders),
        vals("long literals", long).hang(60),
        vals("every number of digits", each).hang(60),
        texts("zeros in every number", zeros, lex_case),
        words("well and ill formed", "", BIG, t.pick(4, 5), "", lex_case),
        words("after digits", "18446744073709551616", BIG, t.pick(4, 5), "", lex_case),
    ]
}

// ------------------------------------------------------------------ C26

thread_local! {
    static MAPS: TransitionMaps<Global> = create_transition_maps();
}
/// A source that keeps no promise after its end: it yields characters again.
struct Src {
    s: Rc<Vec<char>>,
    i: Rc<Cell<usize>>,
    ended: bool,
}
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let i = self.i.get();
        self.i.set(i + 1);
        if i < self.s.len() {
            return Some(self.s[i]);
        }
        if self.ended {
            return Some('7');
        }
        self.ended = true;
        None
    }
}
fn stream_case(r: &mut Rec, s: &str) {
    r.traces += 1;
    r.nontrivial += !s.is_empty() as u64;
    let whole = match real(s) {
        Err(p) => return r.fail("", format!("tokenize panics: {p}")),
        Ok(w) => w,
    };
    r.state(&whole);
    r.outcome(&whole.iter().map(std::mem::discriminant).take(4).collect::<Vec<_>>());
    // character by character
    let pushed = guarded(|| {
        MAPS.with(|m| {
            let mut st: TokenizerState<_> = Default::default();
            let mut out = vec![];
            let mut marks = vec![0];
            for c in s.chars() {
                out.extend(st.push_mut(GLOBAL, c, m).iter().map(tok));
                marks.push(out.len());
            }
            (out, marks)
        })
    });
    let (pushed, marks) = match pushed {
        Err(p) => return r.fail("", format!("push_mut panics: {p}")),
        Ok(v) => v,
    };
    // the analyzer accepts the same characters, and counts what it reports
    let seen = guarded(|| {
        let mut a = AnalyzerState::<Global>::new(AnalyzerParameters::default());
        let k: usize = s.chars().map(|c| a.push_mut(GLOBAL, c)).sum();
        (k, a.end().diagnostics.len())
    });
    match seen {
        Err(p) => r.fail("", format!("analyzer: panic: {p}")),
        Ok((k, n)) => {
            r.check(k <= n, || format!("the analyzer announced {k} diagnostics and has {n}"));
        }
    }
    r.transitions += marks.len() as u64;
    if !r.check(whole.starts_with(&pushed), || format!("pushed {pushed:?}, whole {whole:?}")) {
        return;
    }
    // lazily, from a source that misbehaves after its end; a token is delivered once the characters
    // that determine it are read, and what was delivered is what the pushed prefix delivers
    let i = Rc::new(Cell::new(0));
    let src = Src { s: Rc::new(s.chars().collect()), i: i.clone(), ended: false };
    let n = s.chars().count();
    let lazy = guarded(|| {
        let mut it = TokenizerStateIterator::new(GLOBAL, src);
        let mut out = vec![];
        let mut at = vec![];
        while let Some(t) = it.next() {
            out.push(tok(&t));
            at.push(i.get());
            if out.len() > 2 * n + 4 {
                break;
            }
        }
        let after: Vec<_> = (0..3).map(|_| it.next().is_none()).collect();
        (out, at, after)
    });
    let (lazy, at, after) = match lazy {
        Err(p) => return r.fail("", format!("iterator panics: {p}")),
        Ok(v) => v,
    };
    r.transitions += lazy.len() as u64;
    r.check(lazy == whole, || format!("lazily {lazy:?}, whole {whole:?}"));
    r.check(after.iter().all(|b| *b), || "the iterator yields after its end".into());
    for (k, a) in at.iter().enumerate() {
        if *a <= n {
            r.check(marks[*a] > k, || format!("token {k} delivered after {a} characters, pushing delivers it later"));
        }
    }
}
/// Two tokenizers, advanced in every order.
fn interleave_case(r: &mut Rec, a: &str, b: &str, schedule: u64, steps: u32) {
    r.traces += 1;
    r.nontrivial += 1;
    let (wa, wb) = (real(a), real(b));
    let g = guarded(|| {
        MAPS.with(|m| {
            // one lazily iterating, one pushing, a third sharing the maps
            let mut x = TokenizerStateIterator::new(GLOBAL, a.chars());
            let mut y: TokenizerState<_> = Default::default();
            let mut z: TokenizerState<_> = Default::default();
            let (mut ox, mut oy, mut oz) = (vec![], vec![], vec![]);
            let (mut cb, mut ca) = (b.chars(), a.chars());
            for k in 0..steps {
                match schedule >> k & 1 {
                    0 => {
                        ox.extend(x.next().iter().map(tok));
                        if let Some(c) = ca.next() {
                            oz.extend(z.push_mut(GLOBAL, c, m).iter().map(tok))
                        }
                    }
                    _ => {
                        if let Some(c) = cb.next() {
                            oy.extend(y.push_mut(GLOBAL, c, m).iter().map(tok))
                        }
                    }
                }
            }
            for c in cb {
                oy.extend(y.push_mut(GLOBAL, c, m).iter().map(tok))
            }
            for c in ca {
                oz.extend(z.push_mut(GLOBAL, c, m).iter().map(tok))
            }
            ox.extend(x.map(|t| tok(&t)));
            (ox, oy, oz)
        })
    });
    r.transitions += steps as u64;
    match (g, wa, wb) {
        (Ok((x, y, z)), Ok(a), Ok(b)) => {
            r.check(x == a, || format!("interleaved {x:?}, alone {a:?}"));
            r.check(b.starts_with(&y), || format!("interleaved {y:?}, alone {b:?}"));
            r.check(a.starts_with(&z), || format!("interleaved {z:?}, alone {a:?}"));
        }
        (g, ..) => r.fail("", format!("panic: {:?}", g.err())),
    }
}
fn c26(t: Tier) -> Vec<Space> {
    const TEXTS: &[&str] = &["\"a\\n\"1", "1.5e3,", "// c\n2", "/**/x", "\"\\ud83d\\ude00\"", "\n \n{", "12n 0x", "\"\\u004", "-0 ", "[]"];
    let k = TEXTS.len() as u64;
    let steps = t.pick(6u32, 9);
    let n = 1u64 << steps;
    let _ = RefCell::new(0);
    vec![
        words("all texts", "", GENERAL, t.pick(3, 4), "", stream_case),
        words("strings", "\"", STRING, t.pick(4, 5), "", stream_case),
        words("escape sequences", "\"", ESCAPES, t.pick(3, 4), "", stream_case),
        words("numbers", "", NUMBER, t.pick(4, 5), "", stream_case),
        words("comments and line ends", "", COMMENT, t.pick(5, 6), "", stream_case),
        words("operators", "", OPERATOR, t.pick(3, 4), "", stream_case),
        grown(t.pick(40, 300), stream_case),
        texts("long texts", long_texts(), stream_case).hang(60),
        Space::new(
            "interleaved tokenizers",
            k * k * n,
            move |i, r| {
                let d = digits(i, &[k, k, n]);
                interleave_case(r, TEXTS[d[0] as usize], TEXTS[d[1] as usize], d[2], steps)
            },
            move |i| {
                let d = digits(i, &[k, k, n]);
                format!("{:?} and {:?}, schedule {:b}", TEXTS[d[0] as usize], TEXTS[d[1] as usize], d[2])
            },
        ),
    ]
}

fn main() {
    mc::engine::main(&[
        Check {
            id: "C01",
            level: "model_checking",
            rule: "every text of the word spaces: the token sequence equals that of the reference scanner (all kinds, values, errors and their places)",
            assumptions: &["characters outside the alphabets behave like those of their class, except in the space that visits every character in every tokenizer state"],
            spaces: c01,
        },
        Check {
            id: "C02",
            level: "model_checking",
            rule: "every literal of the grids, in several spellings: the token is the double of the Rust standard parser, bit for bit",
            assumptions: &["the Rust standard library parses decimal numbers correctly"],
            spaces: c02,
        },
        Check {
            id: "C03",
            level: "model_checking",
            rule: "every bigint literal of the grids: exact value, canonical, written back with the same digits; every well or ill formed word: the reference scanner's tokens",
            assumptions: &["limbs other than those of the alphabets behave like their neighbours"],
            spaces: c03,
        },
        Check {
            id: "C26",
            level: "model_checking",
            rule: "every text: pushing character by character, iterating lazily (from a source that is not fused) and tokenizing at once agree; every schedule of two tokenizers agrees with each alone",
            assumptions: &[],
            spaces: c26,
        },
    ])
}
