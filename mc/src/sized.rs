//! Texts of every size: a construct that grows by one unit at a time, and what can follow it.
use crate::engine::{digits, word_upto, words_upto};

/// (what opens the construct, what repeats, what may come last, what closes it)
type Family = (&'static str, &'static [&'static str], &'static [&'static str], &'static str);
const ENDS: &[&str] = &["\\u0000", "\\u0041", "\\n", "\u{e9}", "\u{1f600}", "a", "\"", "\\ud83d\\ude00", "\\", "\n", " ", "1"];
const FAMILIES: &[Family] = &[
    ("\"", &["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}", "\\n", "\\u0041", "\\ud83d\\ude00"], ENDS, "\",1"),
    ("", &["a", "$1", "ab_"], &[" ", "\n", ":", "\"", "1", "\u{e9}", "(", ".", "/", "-"], ",1"),
    ("[", &["0", "1", "9", "1.", "10"], &[".", "e", "E", "+", "-", "n", "0", "7", " ", ",", "a"], ",1"),
    ("0.", &["0", "9", "25"], &["e", "-", "5", "n", " ", "]"], ",1"),
    ("1e", &["0", "1"], &["e", "-", "5", "n", " ", "]", "."], ",1"),
    ("//", &["a", "/", "*", "\u{20ac}", "\r", " "], &["\n", "/", "*", "1", "\r"], "\n1"),
    ("/*", &["a", "/", "**", "\n", "\u{20ac}", "* /"], &["\n", "/", "*", "*/", "1"], "*/1"),
    ("1", &[" ", "\n", "\r", "\t", " \n", "\r\n"], &["\n", " ", "2", "/", "/**/", "\""], "1"),
    ("", &["{", "=", ",", "(", "- ", "[]", ":;", "#", "\u{2028}"], &["1", "n", " ", "\n", "/", "."], "1"),
];
fn radix(f: &Family, n: usize) -> Vec<u64> {
    vec![n as u64, f.1.len() as u64, words_upto(f.2.len(), 2)]
}
/// The number of texts with up to `n - 1` units.
pub fn count(n: usize) -> u64 {
    FAMILIES.iter().map(|f| radix(f, n).iter().product::<u64>()).sum()
}
pub fn text(n: usize, mut i: u64) -> String {
    for f in FAMILIES {
        let r = radix(f, n);
        let c = r.iter().product();
        if i < c {
            let d = digits(i, &r);
            return format!("{}{}{}{}", f.0, f.1[d[1] as usize].repeat(d[0] as usize), word_upto(f.2, 2, d[2]).concat(), f.3);
        }
        i -= c;
    }
    panic!("index out of range")
}
