//! Reference tokenizer: a plain index-driven scanner of the JSON/DJS lexical grammar, with the
//! documented error recovery. Independent of the state machine under test.
use crate::refint::Int;
use nanvm_lib::js::js_bigint::{JsBigint, Sign};
use nanvm_lib::mem::manager::Dealloc;
use nanvm_lib::tokenizer::{ErrorType, JsonToken};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tok {
    Str(String),
    /// bits of the double
    Num(u64),
    Big(Int),
    Id(String),
    Op(char),
    NewLine,
    Err(&'static str),
}

pub const OPS: &str = "{}[]:,=.;()";

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\t' | '\r')
}
fn ends_number(c: Option<char>) -> bool {
    match c {
        None => true,
        Some(c) => is_ws(c) || (c != '.' && OPS.contains(c)) || c == '"' || c == '/',
    }
}
fn digit(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_ascii_digit())
}

/// A number literal at `i`: its end and the token.
fn number(s: &[char], start: usize) -> (usize, Tok) {
    let at = |i: usize| s.get(i).copied();
    let bad = |i| (i, Tok::Err("InvalidNumber"));
    let text = |a: usize, b: usize| s[a..b].iter().collect::<String>();
    let mut i = start;
    if at(i) == Some('-') {
        i += 1;
    }
    match at(i) {
        Some('0') => i += 1,
        Some('1'..='9') => {
            while digit(at(i)) {
                i += 1
            }
        }
        _ => return bad(i),
    }
    if at(i) == Some('n') {
        i += 1;
        return if ends_number(at(i)) { (i, Tok::Big(Int::from_decimal(&text(start, i - 1)))) } else { bad(i) };
    }
    if at(i) == Some('.') {
        i += 1;
        if !digit(at(i)) {
            return bad(i);
        }
        while digit(at(i)) {
            i += 1
        }
    }
    if matches!(at(i), Some('e' | 'E')) {
        i += 1;
        if matches!(at(i), Some('+' | '-')) {
            i += 1;
        }
        if !digit(at(i)) {
            return bad(i);
        }
        while digit(at(i)) {
            i += 1
        }
    }
    if !ends_number(at(i)) {
        return bad(i);
    }
    (i, Tok::Num(text(start, i).parse::<f64>().unwrap().to_bits()))
}

fn hex4(s: &[char], i: usize) -> Result<u32, usize> {
    let mut v = 0;
    for k in 0..4 {
        match s.get(i + k).and_then(|c| c.to_digit(16)) {
            Some(d) => v = v * 16 + d,
            None => return Err(i + k),
        }
    }
    Ok(v)
}

pub fn lex(text: &str) -> Vec<Tok> {
    let s: Vec<char> = text.chars().collect();
    let n = s.len();
    let at = |i: usize| s.get(i).copied();
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        let c = s[i];
        match c {
            ' ' | '\t' | '\r' => i += 1,
            '\n' => {
                while i < n && is_ws(s[i]) {
                    i += 1
                }
                if i < n {
                    out.push(Tok::NewLine)
                }
            }
            '/' => match at(i + 1) {
                Some('/') => {
                    i += 2;
                    while i < n && s[i] != '\n' && s[i] != '\r' {
                        i += 1
                    }
                    // the line end of the comment counts as a line end
                    if i < n {
                        while i < n && is_ws(s[i]) {
                            i += 1
                        }
                        if i < n {
                            out.push(Tok::NewLine)
                        }
                    }
                }
                Some('*') => {
                    i += 2;
                    loop {
                        if i + 1 >= n {
                            out.push(Tok::Err("CommentClosingExpected"));
                            i = n;
                            break;
                        }
                        if s[i] == '*' && s[i + 1] == '/' {
                            i += 2;
                            break;
                        }
                        i += 1;
                    }
                }
                _ => {
                    out.push(Tok::Err("UnexpectedCharacter"));
                    i += 2;
                }
            },
            '"' => {
                i += 1;
                let mut v = String::new();
                loop {
                    let Some(c) = at(i) else {
                        out.push(Tok::Err("MissingQuotes"));
                        break;
                    };
                    i += 1;
                    if c == '"' {
                        out.push(Tok::Str(v));
                        break;
                    }
                    if c != '\\' {
                        v.push(c);
                        continue;
                    }
                    let Some(e) = at(i) else { continue };
                    i += 1;
                    match e {
                        '"' | '\\' | '/' => v.push(e),
                        'b' => v.push('\u{8}'),
                        'f' => v.push('\u{c}'),
                        'n' => v.push('\n'),
                        'r' => v.push('\r'),
                        't' => v.push('\t'),
                        'u' => match hex4(&s, i) {
                            // a bad hex digit: the escape is dropped, the string goes on there
                            Err(j) => {
                                i = j;
                                if i < n {
                                    out.push(Tok::Err("InvalidHex"))
                                }
                            }
                            Ok(h @ 0xd800..=0xdbff) => {
                                i += 4;
                                // needs \uDC00..\uDFFF
                                if at(i).is_none() {
                                    continue;
                                }
                                let mut lone = true;
                                if at(i) == Some('\\') {
                                    i += 1;
                                    if at(i).is_none() {
                                        continue;
                                    }
                                    if at(i) == Some('u') {
                                        i += 1;
                                        match hex4(&s, i) {
                                            Err(j) => {
                                                i = j;
                                                if i < n {
                                                    out.push(Tok::Err("InvalidHex"))
                                                }
                                                continue;
                                            }
                                            Ok(l) => {
                                                i += 4;
                                                if let 0xdc00..=0xdfff = l {
                                                    v.push(char::from_u32(0x10000 + (h - 0xd800) * 1024 + l - 0xdc00).unwrap());
                                                    lone = false;
                                                }
                                            }
                                        }
                                    }
                                }
                                if lone {
                                    out.push(Tok::Err("InvalidHex"));
                                    break;
                                }
                            }
                            Ok(u) => {
                                i += 4;
                                match char::from_u32(u) {
                                    Some(c) => v.push(c),
                                    // not a character: the string is given up
                                    None => {
                                        out.push(Tok::Err("InvalidHex"));
                                        break;
                                    }
                                }
                            }
                        },
                        // unknown escape: reported, the character stays
                        _ => {
                            out.push(Tok::Err("UnexpectedCharacter"));
                            i -= 1;
                            // the character is read as an ordinary one (it is neither " nor \)
                            v.push(e);
                            i += 1;
                        }
                    }
                }
            }
            '-' | '0'..='9' => {
                let (j, t) = number(&s, i);
                out.push(t);
                i = j;
            }
            'a'..='z' | 'A'..='Z' | '_' | '$' => {
                let a = i;
                while i < n && (s[i].is_ascii_alphanumeric() || s[i] == '_' || s[i] == '$') {
                    i += 1
                }
                out.push(Tok::Id(s[a..i].iter().collect()));
            }
            c if OPS.contains(c) => {
                out.push(Tok::Op(c));
                i += 1;
            }
            _ => {
                out.push(Tok::Err("UnexpectedCharacter"));
                i += 1;
            }
        }
    }
    out
}

pub fn big(b: &JsBigint) -> Result<Int, String> {
    let l = b.items();
    let neg = b.sign() == Sign::Negative;
    if l.last() == Some(&0) || (l.is_empty() && neg) {
        return Err(format!("bigint not canonical: {neg} {l:x?}"));
    }
    Ok(Int::from_limbs(neg, l))
}

/// A token of the implementation in reference form.
pub fn tok<D: Dealloc>(t: &JsonToken<D>) -> Tok {
    match t {
        JsonToken::String(s) => Tok::Str(s.clone()),
        JsonToken::Number(n) => Tok::Num(n.to_bits()),
        JsonToken::ObjectBegin => Tok::Op('{'),
        JsonToken::ObjectEnd => Tok::Op('}'),
        JsonToken::ArrayBegin => Tok::Op('['),
        JsonToken::ArrayEnd => Tok::Op(']'),
        JsonToken::Colon => Tok::Op(':'),
        JsonToken::Comma => Tok::Op(','),
        JsonToken::Equals => Tok::Op('='),
        JsonToken::Dot => Tok::Op('.'),
        JsonToken::ErrorToken(e) => Tok::Err(match e {
            ErrorType::UnexpectedCharacter => "UnexpectedCharacter",
            ErrorType::InvalidToken => "InvalidToken",
            ErrorType::InvalidNumber => "InvalidNumber",
            ErrorType::InvalidHex => "InvalidHex",
            ErrorType::MissingQuotes => "MissingQuotes",
            ErrorType::CommentClosingExpected => "CommentClosingExpected",
        }),
        JsonToken::BigInt(b) => match big(b) {
            Ok(v) => Tok::Big(v),
            Err(_) => Tok::Err("bigint not canonical"),
        },
        JsonToken::Id(s) => Tok::Id(s.clone()),
        JsonToken::NewLine => Tok::NewLine,
        JsonToken::Semicolon => Tok::Op(';'),
        JsonToken::OpeningParenthesis => Tok::Op('('),
        JsonToken::ClosingParenthesis => Tok::Op(')'),
    }
}
