//! The parser: value grammar (C04), module statements (C05), import graphs (C06), paths (C25).
use mc::engine::*;
use mc::refint::Int;
use mc::reflex::{lex, Tok};
use mc::refload::Model;
use mc::refparse::{self, Err, Kind};
use mc::value::{canon, canon_any, Val};
use mc::vio::{resolve, Fault, Op, Vio, CWD};
use nanvm_lib::js::js_bigint::{new_bigint, Sign};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::parser::json_state::JsonState;
use nanvm_lib::parser::parser::{parse, parse_with_tokens, Context};
use nanvm_lib::parser::path::{concat, normalize, split};
use nanvm_lib::parser::root_state::{RootState, RootStatus};
use nanvm_lib::parser::shared::{DataType, ModuleCache, ParseError, ParseResult};
use nanvm_lib::tokenizer::{ErrorType, JsonToken};
use std::sync::Arc;

type Token = JsonToken<Global>;

fn token(t: &Tok) -> Token {
    match t {
        Tok::Str(s) => JsonToken::String(s.clone()),
        Tok::Num(b) => JsonToken::Number(f64::from_bits(*b)),
        Tok::Big(b) => JsonToken::BigInt(new_bigint(GLOBAL, if b.neg { Sign::Negative } else { Sign::Positive }, b.limbs())),
        Tok::Id(s) => JsonToken::Id(s.clone()),
        Tok::NewLine => JsonToken::NewLine,
        Tok::Err(_) => JsonToken::ErrorToken(ErrorType::InvalidToken),
        Tok::Op(c) => match c {
            '{' => JsonToken::ObjectBegin,
            '}' => JsonToken::ObjectEnd,
            '[' => JsonToken::ArrayBegin,
            ']' => JsonToken::ArrayEnd,
            ':' => JsonToken::Colon,
            ',' => JsonToken::Comma,
            '=' => JsonToken::Equals,
            '.' => JsonToken::Dot,
            ';' => JsonToken::Semicolon,
            '(' => JsonToken::OpeningParenthesis,
            ')' => JsonToken::ClosingParenthesis,
            _ => unreachable!(),
        },
    }
}
fn kind(d: &DataType) -> Kind {
    match d {
        DataType::Json => Kind::Json,
        DataType::Djs => Kind::Djs,
        DataType::Cjs => Kind::Cjs,
        DataType::Mjs => Kind::Mjs,
    }
}
/// Outcome in comparable form.
type Out = Result<(Kind, String), String>;

fn out_real(r: Result<ParseResult<Global>, ParseError>) -> Out {
    match r {
        Ok(r) => Ok((kind(&r.data_type), canon_any(&r.any, true))),
        Err(e) => Err(e.to_string()),
    }
}
fn out_ref(r: Result<(Kind, Val), Err>) -> Out {
    match r {
        Ok((k, v)) => Ok((k, canon(&v, true))),
        Err(e) => Err(e.into()),
    }
}
/// The only module that the token spaces can import.
const M: &str = "[1]";
fn m_val() -> Val {
    Val::arr(vec![Val::Num(1.0)])
}

fn real_tokens(w: &[Tok], io: &Vio) -> Result<Out, String> {
    guarded(|| {
        let mut mc = ModuleCache::default();
        let mut c = Context::new(GLOBAL, io, String::new(), &mut mc);
        out_real(parse_with_tokens(&mut c, w.iter().map(token)))
    })
}
/// The interface without IO: each token is pushed into the state.
fn real_push(w: &[Tok]) -> Result<(Out, Vec<(String, String)>), String> {
    guarded(|| {
        let mut imports = vec![];
        let mut s: JsonState<Global> = JsonState::ParseRoot(RootState { status: RootStatus::Initial, state: Default::default(), new_line: true });
        for t in w {
            let (n, i) = s.push(GLOBAL, token(t));
            s = n;
            imports.extend(i);
        }
        (out_real(s.end()), imports)
    })
}

thread_local! {
    static IO: Vio = Vio::new(&[], &[("m", M.as_bytes())]);
}

/// Checks one token sequence; returns the reference outcome.
fn word_case(r: &mut Rec, w: &[Tok]) -> Out {
    let shared = m_val();
    let want = out_ref(refparse::parse(w, &mut |p| if p == "m" { Ok(shared.clone()) } else { Err("CannotReadFile") }));
    r.traces += 1;
    r.transitions += w.len() as u64 + 1;
    let io = IO.with(|i| i.clone());
    io.st.borrow_mut().log.clear();
    match real_tokens(w, &io) {
        Err(p) => r.fail("", format!("{w:?}: panic: {p}")),
        Ok(got) => {
            if got != want {
                r.fail("", format!("{w:?}: got {got:?}, expected {want:?}"));
            }
        }
    }
    // without IO nothing is loaded: a required module is an error, an import is handed out
    let mut seen = vec![];
    let want2 = out_ref(refparse::parse(w, &mut |p| {
        seen.push(p.to_string());
        Ok(Val::Null)
    }));
    let has_import = w.iter().any(|t| *t == Tok::Id("import".into()));
    match real_push(w) {
        Err(p) => r.fail("", format!("push {w:?}: panic: {p}")),
        Ok((got, imports)) => {
            if !has_import && seen.is_empty() && got != want2 {
                r.fail("", format!("push {w:?}: got {got:?}, expected {want2:?}"));
            }
            if !has_import && !imports.is_empty() {
                r.fail("", format!("push {w:?}: reports imports {imports:?}"));
            }
            if has_import && imports.iter().any(|(_, p)| !seen.contains(p)) {
                r.fail("", format!("push {w:?}: reports imports {imports:?}, expected {seen:?}"));
            }
        }
    }
    r.outcome(&want);
    if want.is_ok() {
        r.nontrivial += 1;
    }
    want
}
fn id(s: &str) -> Tok {
    Tok::Id(s.into())
}
fn ids(s: &[&str]) -> Vec<Tok> {
    s.iter().map(|s| id(s)).collect()
}
fn ops(s: &str) -> Vec<Tok> {
    s.chars().map(Tok::Op).collect()
}
fn st(s: &str) -> Tok {
    Tok::Str(s.into())
}
fn num(f: f64) -> Tok {
    Tok::Num(f.to_bits())
}
fn toks(s: &str) -> Vec<Tok> {
    lex(s)
}

/// The tree of all viable sequences: a sequence that the reference rejects for good is checked, and
/// again with more tokens behind it, but not extended further.
fn dfs(r: &mut Rec, alpha: &[Vec<Tok>], w: &mut Vec<Tok>, depth: usize) {
    let o = word_case(r, w);
    r.state(&*w);
    if r.failed() {
        return;
    }
    let n = w.len();
    match &o {
        Err(e) if e != "UnexpectedEnd" => {
            for t in [num(7.0), Tok::NewLine, Tok::Op(']'), Tok::Op(';'), id("const")] {
                w.push(t);
                let _ = word_case(r, w);
            }
            w.truncate(n);
        }
        _ => {
            if depth > 0 {
                for t in alpha {
                    w.extend(t.iter().cloned());
                    dfs(r, alpha, w, depth - 1);
                    w.truncate(n);
                }
            }
        }
    }
}
/// All viable sequences up to `depth` items behind `start`.
fn tree(name: &str, start: Vec<Tok>, alpha: Vec<Vec<Tok>>, depth: usize) -> Space {
    let l0 = 2.min(depth);
    let a2 = alpha.clone();
    let s2 = start.clone();
    Space::new(
        name,
        words_upto(alpha.len(), l0),
        move |i, r| {
            let p = word_upto(&alpha, l0, i);
            let full = p.len() == l0;
            let mut w = start.clone();
            // the prefix has to be viable
            for t in &p[..p.len().saturating_sub(1)] {
                w.extend(t.iter().cloned());
                if let Err(e) = refparse::parse(&w, &mut |_| Ok(m_val())) {
                    if e != "UnexpectedEnd" {
                        return;
                    }
                }
            }
            if let Some(t) = p.last() {
                w.extend(t.iter().cloned());
            }
            dfs(r, &alpha, &mut w, if full { depth - l0 } else { 0 });
        },
        move |i| format!("{:?} {:?} ...", s2, word_upto(&a2, l0, i).concat()),
    )
    .hang(600)
}
fn single(v: Vec<Tok>) -> Vec<Vec<Tok>> {
    v.into_iter().map(|t| vec![t]).collect()
}
/// A document as text: tokens of the reference lexer.
fn texts(name: &str, v: Vec<String>) -> Space {
    let v = Arc::new(v);
    let v2 = v.clone();
    Space::new(
        name,
        v.len() as u64,
        move |i, r| {
            let _ = word_case(r, &toks(&v[i as usize]));
        },
        move |i| v2[i as usize].chars().take(300).collect(),
    )
}

/// Characters, the ones with a role in some text format or file system first of all.
fn odd_chars(t: Tier) -> Arc<Vec<char>> {
    let end = t.pick(0x600, 0x110000);
    let more = [0x1680, 0x180e, 0xfeff, 0xfffe, 0xfffd, 0xffff, 0xfffc, 0xfff9, 0x3000, 0x200b, 0x200e, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x1f600, 0x10000, 0x10ffff, 0xe000, 0xd7ff, 0xff02, 0xfe0f, 0x212a, 0xe0001];
    let v: Vec<char> = (0..end).chain(0x2000..0x2070).chain(more).filter_map(char::from_u32).collect();
    Arc::new(v)
}
/// What some formats allow around or inside of a document, and this one may not.
fn surroundings(name: &str, docs: &'static [&'static str]) -> Space {
    const PIECES: [&str; 44] = [
        "\u{feff}", "\u{feff}\u{feff}", "\u{fffe}", "#!x\n", "#!/usr/bin/env node\n", "#!", "#x\n", "<!--\n", "<!--x-->", "-->\n", "\"use strict\"\n", "\"use strict\";", "'use strict'\n", ")]}'\n", ")]}',\n", "//", "//c\n",
        "//c\r", "//c\r\n", "//c\u{2028}", "/*c*/", "/*c\nd*/", "/*", "/**/", "\0", "\u{1a}", "\u{4}", "\u{2028}", "\u{85}", "\u{a0}", "\u{b}", "\u{c}", "---\n", "...", "while(1);", "for(;;);", "(", ")", "@charset \"x\";\n", "\r", "\r\n", ";", ",", "\n;\n",
    ];
    let n = PIECES.len() as u64;
    let doc = move |i: u64| {
        let d = digits(i, &[docs.len() as u64, n, 4]);
        let (doc, p) = (docs[d[0] as usize], PIECES[d[1] as usize]);
        match d[2] {
            0 => format!("{p}{doc}"),
            1 => format!("{doc}{p}"),
            2 => format!("{p}{doc}{p}"),
            // behind the first token
            _ => {
                let at = doc.find(|c: char| !c.is_alphanumeric()).unwrap_or(doc.len()).max(1).min(doc.len());
                format!("{}{p}{}", &doc[..at], &doc[at..])
            }
        }
    };
    Space::new(name, docs.len() as u64 * n * 4, move |i, r| placed(r, &doc(i)), move |i| format!("{:?}", doc(i)))
}
fn every_char(name: &str, docs: &'static [&'static str], t: Tier) -> Space {
    let chars = odd_chars(t);
    let chars2 = chars.clone();
    Space::new(
        name,
        chars.len() as u64,
        move |i, r| {
            let c = chars[i as usize];
            for doc in docs {
                for text in [format!("{c}{doc}"), format!("{doc}{c}"), format!("{c}\n{doc}"), format!("{doc}\n{c}"), doc.replacen('[', &format!("[{c}"), 1), doc.replacen(' ', &format!("{c}"), 1)] {
                    placed(r, &text);
                    if r.failed() {
                        return;
                    }
                }
            }
        },
        move |i| format!("{:?}", chars2[i as usize]),
    )
}
/// A text as the root, as an imported module and as a required one.
fn placed(r: &mut Rec, text: &str) {
    let x = ("/w/x".to_string(), "[7]".to_string());
    let own = |s: &str| s.to_string();
    graph_case(r, &[(own("/w/m"), own(text)), x.clone()], &["m"], false);
    graph_case(r, &[(own("/w/a"), own("import m from \"m\"\nexport default [m]")), (own("/w/m"), own(text)), x.clone()], &["a"], false);
    graph_case(r, &[(own("/w/a"), own("module.exports=[require(\"m\")]")), (own("/w/m"), own(text)), x], &["a"], false);
}

// ------------------------------------------------------------------ C04

fn value_alpha() -> Vec<Tok> {
    let mut v = ops("[]{},:");
    v.extend([num(1.0), st("a"), st("b"), Tok::Big(Int::from_i128(-5)), id("null"), id("c"), id("k"), Tok::NewLine]);
    v.extend(ops("=.;()"));
    v.extend([id("true"), id("require"), Tok::Err("InvalidToken")]);
    v
}
/// The tokens that build nested values, for greater depth.
fn nest_alpha() -> Vec<Tok> {
    let mut v = ops("[]{},");
    v.extend([num(1.0), id("c")]);
    v
}
const CONTEXTS: [(&str, &str); 5] = [
    ("bare", ""),
    ("DJS", "const c=[2]\n"),
    ("ES export", "const c=[2]\nexport default "),
    ("CommonJS export", "const c=[2]\nmodule.exports="),
    ("const value", "const c=[2]\nconst d="),
];
fn c04(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (name, start) in CONTEXTS {
        v.push(tree(&format!("{name}: all tokens"), toks(start), single(value_alpha()), t.pick(6, 8)));
        let mut kv = single(nest_alpha());
        kv.push(vec![st("a"), Tok::Op(':')]);
        kv.push(vec![if name == "bare" { st("b") } else { id("b") }, Tok::Op(':')]);
        v.push(tree(&format!("{name}: nesting"), toks(start), kv, t.pick(9, 11)));
    }
    // keys: every sequence, with repetition
    let keys = ["", "a", "aa", "b", "A", "10", "9", "\u{0}", "\u{ffff}", "\u{10000}", "\u{e9}", "__proto__"];
    let n = t.pick(3, 4);
    let mut seqs = vec![];
    for i in 0..words_upto(keys.len(), n) {
        let w = word_upto(&keys, n, i);
        let mut tk = ops("{");
        for (j, k) in w.iter().enumerate() {
            tk.extend([st(k), Tok::Op(':'), num(j as f64), Tok::Op(',')]);
        }
        tk.push(Tok::Op('}'));
        seqs.push(tk);
    }
    let seqs = Arc::new(seqs);
    let s2 = seqs.clone();
    v.push(Space::new(
        "keys: every sequence",
        seqs.len() as u64,
        move |i, r| {
            let _ = word_case(r, &seqs[i as usize]);
        },
        move |i| format!("{:?}", s2[i as usize]),
    ));
    // sizes
    let mut big = vec![];
    let mut sz: Vec<usize> = (0..t.pick(70, 400)).collect();
    sz.extend([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024]);
    sz.extend(t.pick(vec![4096], vec![4096, 10_000, 65_535, 65_536, 65_537]));
    for n in sz {
        let seq: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        big.push(format!("[{}]", seq.join(",")));
        big.push(format!("[{},]", seq.join(",")));
        big.push(format!("[{}", seq.join(",")));
        let kv: Vec<String> = (0..n).map(|i| format!("\"k{}\":{i}", i * 7 % 1000)).collect();
        big.push(format!("{{{}}}", kv.join(",")));
        big.push(format!("export default {{{},}}", kv.join(",")));
        // keys backwards, twice, all the same; one long key; prefixes of each other
        let back: Vec<String> = (0..n).rev().map(|i| format!("\"k{i:05}\":[{i}]")).collect();
        big.push(format!("{{{}}}", back.join(",")));
        let twice: Vec<String> = (0..2 * n).map(|i| format!("\"k{:03}\":{i}", i % n.max(1) * 7 % 1000)).collect();
        big.push(format!("{{{}}}", twice.join(",")));
        let same: Vec<String> = (0..n).map(|i| format!("\"a\":{i},\"b{}\":[{i}]", i / 9)).collect();
        big.push(format!("{{{}}}", same.join(",")));
        let k = "k".repeat(n);
        big.push(format!("{{\"{k}b\":1,\"{k}a\":2,\"{k}\":3,\"{k}a\":4}}"));
        big.push(format!("const {k}x={{{k}b:1,{k}a:[2],{k}:3}}\nexport default {{{k}a:{k}x,{k}:{k}x}}"));
        // several containers in a row, values behind a long one
        big.push(format!("[{}[{}],{{{}}},{{}},[]]", "[],{},".repeat(n), seq.join(","), kv.join(",")));
        big.push(format!("const c=[{}]\nmodule.exports=[c,{{{},c:c}},c]", seq.join(","), kv.join(",").replace('"', "")));
        big.push(format!("\"{}\"", "\u{e9}".repeat(n)));
        big.push(format!("{}1{}", "\n".repeat(n), "\n".repeat(n)));
        big.push(format!("[{}1{},{}2]", "\n".repeat(n), "\n".repeat(n), "\n".repeat(n)));
        if n <= 1000 {
            big.push(format!("{}1{}", "[".repeat(n), "]".repeat(n)));
            big.push(format!("{}1{}", "[".repeat(n), "]".repeat(n + 1)));
            big.push(format!("{}1{}", "[".repeat(n + 1), "]".repeat(n)));
            big.push(format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)));
            big.push(format!("{}1{}", "[0,{\"a\":".repeat(n), ",\"b\":[]},2]".repeat(n)));
            big.push(format!("{}1{}", "[0,{\"a\":".repeat(n), ",\"b\":[]]},2".repeat(n)));
        }
    }
    v.push(texts("sizes and nesting depths", big));
    const DOCS: [&str; 8] = ["1", "[1]", "{\"a\": [1]}", "\"x\"", "null", "export default [1]", "module.exports = {a: [2]}", ""];
    v.push(surroundings("what may stand around a value", &DOCS));
    v.push(every_char("every character around a value", &["1", "{\"a\": [1]}"], t));
    v
}

// ------------------------------------------------------------------ C05

fn c05(t: Tier) -> Vec<Space> {
    let mut a = ids(&["const", "import", "export", "default", "module", "exports", "from", "require", "a", "b", "null"]);
    a.extend(ops(".=();[],"));
    a.extend([st("m"), st("x"), num(1.0), Tok::NewLine, Tok::Op('{'), Tok::Op('}'), Tok::Op(':'), Tok::Err("InvalidToken")]);
    let mut v = vec![tree("every token", vec![], single(a.clone()), t.pick(7, 9))];
    for (name, start) in [
        ("after const a=", "const a="),
        ("after const a", "const a=[1]"),
        ("after two consts", "const a=[1]\nconst b={c:a}\n"),
        ("after import a", "import a from \"m\""),
        ("after require", "const a=require(\"m\")"),
        ("after a require in a value", "const a=[require(\"m\"),"),
        ("ES export of", "import a from \"m\"\nexport default "),
        ("CommonJS export of", "const a=require(\"m\")\nmodule.exports="),
        ("import of", "import a "),
        ("module", "module"),
    ] {
        v.push(tree(name, toks(start), single(a.clone()), t.pick(6, 8)));
    }
    // statements as letters
    let st = [
        "const a=1", "const a=[a]", "const b=a", "const b={k:[a,a],b:b}", "const a=require(\"m\")", "const b=require(\"x\")", "import a from \"m\"",
        "import b from \"m\"", "import a from \"x\"", "export default ", "module.exports=", "[a,b,a]", "a", "require(\"m\")", "null", "{a:a,\"a\":b}", "{\"a\":a}",
        "[{k:1},require(\"m\"),{k:2}]", "\n", ";", "=", "const", "export", "const null=1", "const const=2", "const require=[3]", "const import=[4]", "[require,import]",
    ];
    let letters: Vec<Vec<Tok>> = st.iter().map(|s| toks(s).into_iter().filter(|t| *s == "\n" || *t != Tok::NewLine).collect()).collect();
    v.push(tree("statements", vec![], letters.clone(), t.pick(6, 8)));
    // whole statements with their ends
    let whole = [
        "const a=1\n", "const a=[a];", "const b=a\n", "const b={k:a,l:b};", "const a=require(\"m\");", "const b=[require(\"m\"),a]\n", "import a from \"m\"\n", "import b from \"m\";", "import a from \"x\"\n",
        "export default a", "export default [a,b,a]", "module.exports=b", "module.exports=[b,require(\"m\"),a]", "[b,{a:a}]", "\n", ";",
    ];
    v.push(tree("whole statements", vec![], whole.iter().map(|s| toks(s)).collect(), t.pick(6, 7)));
    // many statements
    let mut sz: Vec<usize> = (0..t.pick(70, 300)).collect();
    sz.extend([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001]);
    if t == Tier::Thorough {
        sz.extend([1024, 4096, 4097]);
    }
    let mut docs = vec![];
    for n in sz {
        let all = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        let names = all(&|i| format!("c{i}"), ",");
        for (sep, end) in [("\n", "export default "), (";", "module.exports=")] {
            let def = all(&|i| format!("const c{i}=[{i}]"), sep);
            let chain = all(&|i| if i == 0 { "const c0={}".into() } else { format!("const c{i}=[c{},c{}]", i - 1, i / 2) }, sep);
            docs.push(format!("{def}{sep}{end}[{names}]"));
            docs.push(format!("{def}{sep}{end}[{names},{names}]"));
            docs.push(format!("{chain}{sep}{end}[c0,c{}]", n.max(1) - 1));
            // one name less, one name twice, a name of itself
            docs.push(format!("{def}{sep}{end}c{n}"));
            docs.push(format!("{def}{sep}const c0=2{sep}{end}c0"));
            docs.push(format!("{def}{sep}const d=[d]{sep}{end}d"));
            docs.push(format!("{}{sep}{end}a", all(&|i| format!("const a={i}"), sep)));
            docs.push(format!("const a=[1]{}{end}a", sep.repeat(n)));
            let req = all(&|i| format!("const r{i}=require(\"m\")"), sep);
            if end.starts_with('m') {
                docs.push(format!("{req}{sep}{end}[{}]", names.replace('c', "r")));
            } else {
                docs.push(format!("{}{sep}{end}[{}]", all(&|i| format!("import r{i} from \"m\""), sep), names.replace('c', "r")));
            }
        }
        docs.push(format!("module.exports=[{}]", vec!["require(\"m\")"; n].join(",")));
    }
    v.push(texts("many statements", docs));
    const DOCS: [&str; 5] = ["const a = 1\nexport default [a]", "import a from \"x\"\nexport default [a]", "const a=require(\"x\");module.exports = [a]", "export default [2]", "module.exports=[require(\"x\")]"];
    v.push(surroundings("what may stand around a module", &DOCS));
    v.push(every_char("every character around a module", &["export default [2]", "import a from \"x\"\nexport default [a]"], t));
    v
}

// ------------------------------------------------------------------ C06

fn opens(log: &[Op]) -> Vec<String> {
    log.iter().filter_map(|o| if let Op::Open(p) = o { Some(p.clone()) } else { None }).collect()
}
fn real_parse(io: &Vio, root: &str, mc: &mut ModuleCache<Global>) -> Result<Out, String> {
    guarded(|| {
        let mut c = Context::new(GLOBAL, io, root.to_string(), mc);
        out_real(parse(&mut c))
    })
}
/// Parses `root` twice with one context; `between` runs in between.
fn real_twice(io: &Vio, root: &str, mc: &mut ModuleCache<Global>, between: impl Fn()) -> Result<[Out; 2], String> {
    guarded(|| {
        let mut c = Context::new(GLOBAL, io, root.to_string(), mc);
        let a = out_real(parse(&mut c));
        between();
        [a, out_real(parse(&mut c))]
    })
}
/// Parses `roots` one after another with one cache.
fn graph_case(r: &mut Rec, files: &[(String, String)], roots: &[&str], faults: bool) {
    graph_case_in(r, files, roots, faults, Some(CWD))
}
fn graph_case_in(r: &mut Rec, files: &[(String, String)], roots: &[&str], faults: bool, cwd: Option<&'static str>) {
    let mut io = Vio::new(&[], &files.iter().map(|(p, s)| (p.as_str(), s.as_bytes())).collect::<Vec<_>>());
    io.cwd = cwd;
    let mut model = Model { files: io.files(), ..Default::default() };
    let mut mc = ModuleCache::default();
    for root in roots {
        io.st.borrow_mut().log.clear();
        model.opened.clear();
        let want = out_ref(model.eval(&resolve(root)));
        r.traces += 1;
        r.outcome(&want);
        if model.opened.len() > 1 {
            r.nontrivial += 1;
        }
        r.state(&(&want, &model.opened));
        match real_parse(&io, root, &mut mc) {
            Err(p) => r.fail("", format!("{root}: panic: {p}")),
            Ok(got) => {
                r.check(got == want, || format!("parse of {root} (of {roots:?}) gives {got:?}, expected {want:?}"));
                let log = opens(&io.log());
                r.check(log == model.opened, || format!("parse of {root} (of {roots:?}) reads {log:?}, expected {:?}", model.opened));
            }
        }
        r.transitions += model.opened.len() as u64;
        if r.failed() {
            return;
        }
    }
    if !faults {
        return;
    }
    // a context serves for several parses
    {
        let mut m = Model { files: io.files(), ..Default::default() };
        let want = [out_ref(m.eval(&resolve(roots[0]))), out_ref(m.eval(&resolve(roots[0])))];
        io.st.borrow_mut().log.clear();
        r.traces += 1;
        match real_twice(&io, roots[0], &mut ModuleCache::default(), || ()) {
            Err(p) => r.fail("", format!("one context: panic: {p}")),
            Ok(got) => {
                r.check(got == want, || format!("two parses with one context of {} give {got:?}, expected {want:?}", roots[0]));
                let log = opens(&io.log());
                r.check(log == m.opened, || format!("two parses with one context of {} read {log:?}, expected {:?}", roots[0], m.opened));
            }
        }
        if r.failed() {
            return;
        }
    }
    // every operation of the first parse, every fault
    let ops = {
        io.st.borrow_mut().log.clear();
        let _ = real_parse(&io, roots[0], &mut ModuleCache::default());
        io.log()
    };
    for (n, op) in ops.iter().enumerate() {
        for f in [Fault::Fail, Fault::Half, Fault::Interrupted] {
            let io2 = Vio::new(&[], &files.iter().map(|(p, s)| (p.as_str(), s.as_bytes())).collect::<Vec<_>>());
            let k = opens(&ops[..=n]).len() - 1;
            // an interrupted read is repeated
            let fails = f != Fault::Interrupted || matches!(op, Op::Open(_));
            r.traces += 2;
            // with a new context after the fault, and with the same one
            for same in [false, true] {
                let mut mc = ModuleCache::default();
                io2.st.borrow_mut().log.clear();
                io2.st.borrow_mut().fault = Some((n, f));
                let mut m = Model { files: io.files(), fail_open: if fails { Some(k) } else { None }, ..Default::default() };
                let want = out_ref(m.eval(&resolve(roots[0])));
                let first = m.opened.clone();
                m.fail_open = None;
                m.opened.clear();
                let want2 = out_ref(m.eval(&resolve(roots[0])));
                let what = || format!("fault {f:?} at {n} ({op:?}), {} context", if same { "one" } else { "a new" });
                // the fault is gone: the second parse succeeds as if it was the first
                let count = std::cell::Cell::new(0);
                let between = || {
                    let mut st = io2.st.borrow_mut();
                    count.set(st.log.len());
                    st.fault = None;
                    st.broken.clear();
                };
                let got = if same {
                    real_twice(&io2, roots[0], &mut mc, between)
                } else {
                    real_parse(&io2, roots[0], &mut mc).and_then(|a| {
                        between();
                        Ok([a, real_parse(&io2, roots[0], &mut mc)?])
                    })
                };
                match got {
                    Err(p) => r.fail("", format!("{}: panic: {p}", what())),
                    Ok([a, b]) => {
                        r.check(a == want, || format!("{}: {a:?}, expected {want:?}", what()));
                        r.check(b == want2, || format!("after {}: {b:?}, expected {want2:?}", what()));
                        let log = io2.log();
                        let (x, y) = (opens(&log[..count.get()]), opens(&log[count.get()..]));
                        r.check(x == first, || format!("{}: reads {x:?}, expected {first:?}", what()));
                        r.check(y == m.opened, || format!("after {}: reads {y:?}, expected {:?}", what(), m.opened));
                    }
                }
            }
            if r.failed() {
                return;
            }
        }
    }
    // reading byte by byte
    let io3 = io.clone();
    io3.st.borrow_mut().chunk = 1;
    let mut m = Model { files: io.files(), ..Default::default() };
    let want = out_ref(m.eval(&resolve(roots[0])));
    match real_parse(&io3, roots[0], &mut ModuleCache::default()) {
        Err(p) => r.fail("", format!("byte by byte: panic: {p}")),
        Ok(got) => {
            r.check(got == want, || format!("byte by byte: {got:?}, expected {want:?}"));
        }
    }
}

/// The way from the directory of `from` to `to` (both absolute).
fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let c = f.iter().zip(&t).take(f.len() - 1).take_while(|(a, b)| a == b).count();
    let mut v = vec![".."; f.len() - 1 - c];
    v.extend(&t[c..]);
    v.join("/")
}
const SPELLINGS: usize = 8;
/// From here on: spellings that do not leave the directory of the importing module needlessly.
const INSIDE: usize = 100;
fn spell(from: &str, to: &str, how: usize) -> String {
    let p = relative(from, to);
    match if how < INSIDE { how % SPELLINGS } else { how % 5 } {
        0 => p,
        1 => format!("./{p}"),
        2 => format!("x/../{p}"),
        3 => format!(".//{}", p.replace('/', "//")),
        4 => format!("././x/y/../../{}", p.replace('/', "/./")),
        // absolute
        6 => to.into(),
        // over the root directory
        7 => format!("{}{}", "../".repeat(from.split('/').count() + 1), &to[1..]),
        // up and down again through the directory of the importing module
        _ => match from.rsplit('/').nth(1) {
            Some(d) if !d.is_empty() => format!("../{d}/{p}"),
            _ => p,
        },
    }
}
const LAYOUTS: [[&str; 4]; 5] = [
    ["/w/a", "/w/b", "/w/c", "/w/e"],
    ["/w/a", "/w/d/b", "/w/d/c", "/w/e"],
    ["/w/x/a", "/w/b", "/w/x/y/c", "/w/z/e"],
    ["/w/p/q/a", "/w/p/a", "/w/a", "/w/q/a"],
    ["/w/d/e/a", "/w/e/d/b", "/w/d/c", "/w/e/e"],
];
/// Targets beyond the modules: a missing file, one with an error, one that is not a text.
const EXTRA: [&str; 3] = ["/w/missing", "/w/d/broken", "/w/binary"];

/// One module: its number, imports and flavour.
fn module(files: &[&str], k: usize, imports: &[usize], flavour: u64, how: usize) -> String {
    let here = files[k];
    let p: Vec<String> = imports
        .iter()
        .enumerate()
        .map(|(j, t)| spell(here, files.get(*t).copied().unwrap_or_else(|| EXTRA[t - files.len()]), how + j + k))
        .collect();
    let list = |f: &dyn Fn(usize) -> String| (0..p.len()).map(|j| format!(",{}", f(j))).collect::<String>();
    match flavour {
        // ES modules
        0 => {
            let head: String = p.iter().enumerate().map(|(j, p)| format!("import i{j} from \"{p}\"\n")).collect();
            format!("{head}export default [{k}{}]", list(&|j| format!("{{k:i{j}}},i{j}")))
        }
        // CommonJS with consts
        1 => {
            let head: String = p.iter().enumerate().map(|(j, p)| format!("const i{j}=require(\"{p}\");")).collect();
            format!("{head}module.exports=[{k}{}]", list(&|j| format!("i{j},[i{j}]")))
        }
        // CommonJS inside of the value
        // exports that are no containers, beside the imports
        4 => {
            let head: String = p.iter().enumerate().map(|(j, p)| format!("const i{j}=require(\"{p}\");")).collect();
            format!("{head}module.exports={}", ["1.5", "\"two\"", "3n", "null", "true"][k % 5])
        }
        5 => {
            let head: String = p.iter().enumerate().map(|(j, p)| format!("import i{j} from \"{p}\"\n")).collect();
            format!("{head}export default {}", if p.is_empty() { ["false", "\"\"", "-0", "{}"][k % 4] } else { "i0" })
        }
        2 => format!("module.exports=[[]{}]", list(&|j| format!("require(\"{}\"),{{a:require(\"{}\")}}", p[j], p[j]))),
        // a bare value
        _ => format!("[{k}{}]", list(&|j| format!("require(\"{}\")", p[j]))),
    }
}
fn graph_files(layout: usize, lists: &[Vec<usize>], flavour: &[u64], how: usize) -> Vec<(String, String)> {
    let files = &LAYOUTS[layout][..lists.len()];
    let mut v: Vec<(String, String)> =
        lists.iter().enumerate().map(|(k, l)| (files[k].to_string(), module(files, k, l, flavour[k], how))).collect();
    v.push((EXTRA[1].into(), "export default [1,".into()));
    v
}
/// A root module as the user may name it.
fn root_name(file: &str, form: usize) -> String {
    let p = relative("/w/_", file);
    match form {
        0 => file.into(),
        1 => p,
        2 => format!("./{p}"),
        3 => format!("../w/{p}"),
        _ => format!("../../..{file}"),
    }
}
fn graphs(name: &str, n: usize, max: usize, extra: usize, layouts: Vec<usize>, flavours: Vec<Vec<u64>>, hows: Vec<usize>, faults: bool, roots: Vec<Vec<(usize, usize)>>) -> Space {
    graphs_in(name, n, max, extra, layouts, flavours, hows, faults, roots, &[Some(CWD)])
}
fn graphs_in(name: &str, n: usize, max: usize, extra: usize, layouts: Vec<usize>, flavours: Vec<Vec<u64>>, hows: Vec<usize>, faults: bool, roots: Vec<Vec<(usize, usize)>>, cwds: &'static [Option<&'static str>]) -> Space {
    let targets: Vec<usize> = (0..n + extra).collect();
    let lists = words_upto(targets.len(), max);
    let mut radix = vec![lists; n];
    radix.extend([layouts.len() as u64, flavours.len() as u64, hows.len() as u64, roots.len() as u64]);
    let size = radix.iter().product();
    let make = move |i: u64| {
        let d = digits(i, &radix);
        let ls: Vec<Vec<usize>> = (0..n).map(|k| word_upto(&targets, max, d[k])).collect();
        let layout = layouts[d[n] as usize];
        let files = graph_files(layout, &ls, &flavours[d[n + 1] as usize], hows[d[n + 2] as usize]);
        let roots: Vec<String> = roots[d[n + 3] as usize].iter().map(|(k, form)| root_name(LAYOUTS[layout][*k], *form)).collect();
        (files, roots)
    };
    let make2 = make.clone();
    Space::new(
        name,
        size,
        move |i, r| {
            let (f, roots) = make(i);
            for cwd in cwds {
                graph_case_in(r, &f, &roots.iter().map(|s| s.as_str()).collect::<Vec<_>>(), faults, *cwd)
            }
        },
        move |i| format!("{:?}", make2(i)),
    )
}
fn custom(name: &str, v: Vec<(Vec<(&str, String)>, Vec<&'static str>)>) -> Space {
    let v: Vec<(Vec<(String, String)>, Vec<&'static str>)> =
        v.into_iter().map(|(f, r)| (f.into_iter().map(|(p, s)| (p.to_string(), s)).collect(), r)).collect();
    let v = Arc::new(v);
    let v2 = v.clone();
    Space::new(
        name,
        v.len() as u64,
        move |i, r| {
            let (f, roots) = &v[i as usize];
            graph_case(r, f, roots, true)
        },
        move |i| format!("{:?}", v2[i as usize]).chars().take(400).collect(),
    )
}
fn c06(t: Tier) -> Vec<Space> {
    let fl = |n: usize| (0..4u64.pow(n as u32)).map(|i| digits(i, &vec![4; n])).collect::<Vec<_>>();
    let mut v = vec![
        graphs("one module, faults", 1, t.pick(2, 3), 3, vec![0, 2, 3], fl(1), (0..SPELLINGS).collect(), true, vec![vec![(0, 0)], vec![(0, 1)], vec![(0, 2), (0, 3)], vec![(0, 4), (0, 0)]]),
        graphs("one module", 1, 3, 3, vec![0, 2, 3], fl(1), (0..SPELLINGS).collect(), false, vec![vec![(0, 0)], vec![(0, 1)], vec![(0, 2), (0, 3)], vec![(0, 4), (0, 0)]]),
        graphs("two modules", 2, 2, 2, vec![0, 1, 2, 3, 4], fl(2), (0..SPELLINGS).collect(), false, vec![vec![(0, 0)], vec![(0, 1), (1, 3)], vec![(1, 2), (0, 0), (0, 1)]]),
        graphs("two modules, faults", 2, 2, 1, vec![1, 3], vec![vec![0, 0], vec![1, 2], vec![3, 0]], vec![0, 3], true, vec![vec![(0, 1)]]),
        graphs("three modules", 3, 2, 1, vec![1, 3], vec![vec![0, 1, 2], vec![2, 0, 3]], t.pick(vec![2], (0..SPELLINGS).collect()), false, vec![vec![(0, 1)], vec![(2, 0), (1, 1), (0, 2)]]),
    ];
    // modules that export no containers, or what they import
    v.push(graphs("two modules of scalars", 2, 2, 1, vec![1, 3], vec![vec![0, 4], vec![4, 0], vec![4, 4], vec![1, 5], vec![5, 5], vec![3, 4], vec![5, 2]], t.pick(vec![0, 3], (0..SPELLINGS).collect()), true, vec![vec![(0, 1), (1, 0)]]));
    v.push(graphs("three modules of scalars", 3, 2, 0, vec![1, 4], vec![vec![0, 4, 4], vec![0, 1, 4], vec![4, 4, 4], vec![0, 5, 4], vec![5, 5, 5]], t.pick(vec![0], (0..SPELLINGS).collect()), false, vec![vec![(0, 1), (2, 0)]]));
    // nobody knows the current directory: paths that do not leave it still have one name
    let unknown: &[Option<&str>] = &[Some(""), None];
    v.push(graphs_in("two modules, no current directory", 2, 2, 1, vec![0, 1, 3, 4], fl(2), (INSIDE..INSIDE + 5).collect(), false, vec![vec![(0, 1)], vec![(0, 2), (1, 1)]], unknown));
    v.push(graphs_in("three modules, no current directory", 3, 2, 0, vec![1, 3], vec![vec![0, 0, 0], vec![1, 2, 0]], vec![INSIDE, INSIDE + 3], false, vec![vec![(0, 1)]], unknown));
    if t == Tier::Thorough {
        v.push(graphs("three modules, longer lists", 3, 3, 1, vec![4], vec![vec![1, 0, 0]], vec![1], false, vec![vec![(0, 1), (1, 0)]]));
        v.push(graphs("four modules", 4, 2, 0, vec![1, 4], vec![vec![0, 1, 2, 3]], vec![5], false, vec![vec![(0, 1)]]));
        v.push(graphs("three modules, faults", 3, 2, 1, vec![2], vec![vec![0, 1, 2]], vec![4], true, vec![vec![(0, 1), (2, 1)]]));
    }
    // chains, ladders and odd files
    let mut c = vec![];
    for n in t.pick((1usize..=12).chain([15, 16, 17, 24, 25, 31, 32, 33, 48, 63, 64, 65, 99, 100]).collect::<Vec<_>>(), (1..=140).collect()) {
        for (back, import) in [None, Some(0), Some(n / 2), Some(n)].into_iter().flat_map(|b| [(b, false), (b, true)]) {
            let names: Vec<String> = (0..=n).map(|k| format!("/w/{}m{k}", "s/".repeat(k % 3))).collect();
            let files: Vec<(String, String)> = (0..=n)
                .map(|k| {
                    let next: Vec<usize> = if k < n { vec![k + 1, k + 1] } else { back.into_iter().collect() };
                    let to: Vec<String> = next.iter().map(|j| relative(&names[k], &names[*j])).collect();
                    let text = if import {
                        let head: String = to.iter().enumerate().map(|(i, p)| format!("import i{i} from \"{p}\"\n")).collect();
                        format!("{head}export default [{k}{}]", (0..to.len()).map(|i| format!(",i{i}")).collect::<String>())
                    } else {
                        format!("module.exports=[{k}{}]", to.iter().map(|p| format!(",require(\"{p}\")")).collect::<String>())
                    };
                    (names[k].clone(), text)
                })
                .collect();
            c.push(files);
        }
    }
    let c = Arc::new(c);
    let c2 = c.clone();
    // a ladder has 2^n paths: only its first levels are compared in full, all of it has to be read once
    v.push(Space::new("chains with two imports each", c.len() as u64, move |i, r| {
        let f = &c[i as usize];
        graph_case(r, f, &["m0"], f.len() < 12);
    }, move |i| format!("{} modules, the last is {:?}", c2[i as usize].len(), c2[i as usize].last())).hang(120));
    // many imports in one module, in several levels, the last of which is fine, missing, broken or closes a cycle
    let mut wide: Vec<Vec<(String, String)>> = vec![];
    let mut sz: Vec<usize> = (0..t.pick(40, 120)).collect();
    sz.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
    for n in sz {
        for last in ["[1]", "module.exports=require(\"a\")", "[", "import c from \"missing\"\nexport default c", "import c from \"d0\"\nexport default c"] {
            for kind in 0..4 {
                let one = |i: usize| -> String {
                    match kind {
                        // leaves; modules with a common import; chains of two; long names
                        0 | 3 => format!("[{i}]"),
                        1 => "import z from \"z\"\nexport default [z]".into(),
                        _ if i % 2 == 0 => format!("module.exports=[{i}]"),
                        _ => format!("module.exports=[require(\"d{}\"),require(\"z\")]", i - 1),
                    }
                };
                let name = |i: usize| if kind == 3 && i + 1 < n { format!("{}{i}", "n".repeat(i)) } else { format!("d{i}") };
                let mut f: Vec<(String, String)> = (0..n).map(|i| (format!("/w/{}", name(i)), if i + 1 == n { last.to_string() } else { one(i) })).collect();
                f.push(("/w/z".into(), "{}".into()));
                let root = if kind % 2 == 0 {
                    let head: String = (0..n).map(|i| format!("import i{i} from \"{}\"\n", name(i))).collect();
                    format!("{head}export default [{}]", (0..n).rev().map(|i| format!("i{i}")).collect::<Vec<_>>().join(","))
                } else {
                    format!("module.exports=[{}]", (0..n).map(|i| format!("require(\"./{}\")", name(i))).collect::<Vec<_>>().join(","))
                };
                f.push(("/w/a".into(), root));
                wide.push(f);
            }
        }
    }
    let wide = Arc::new(wide);
    let wide2 = wide.clone();
    v.push(
        Space::new("modules with many imports", wide.len() as u64, move |i, r| graph_case(r, &wide[i as usize], &["a", "./a", "d0"], wide[i as usize].len() < 7), move |i| {
            format!("{} modules, the last import is {:?}", wide2[i as usize].len() - 1, wide2[i as usize].iter().rev().nth(2))
        })
        .hang(60),
    );
    // names that some systems take for others: every pair
    const NAMES: [&str; 68] = [
        "b", "B", "b ", " b", "b\t", "\tb", " ", "b b", "b?", "b?c", "?b", "b#", "b#c", "#b", "b%20", "%62", "b%2Fc", "b+", "b&c", "b=c", "b:c", "c:b", "file:b", "file:///w/b", "node:b", "http://h/b",
        "//h/b", "b;c", "b|c", "b*", "b\\c", "b\\", "b/", "b/c", "B/c", "b/C", "b.", "b..", "b...", "..b", ".b", "~", "~/b", "~b", "$b", "${b}", "@b", "@b/c", "b.js", "b.mjs", "b.d.mjs", "b.cjs", "b.json",
        "b.JSON", "b/index.js", "b/index", "index", "b\u{301}", "\u{e9}", "e\u{301}", "\u{c9}", "\u{feff}b", "b\u{0}", "b\u{0}c", "b\n", "'b'", "`b`", "b\u{ad}",
    ];
    fn lit(n: &str) -> String {
        n.chars().map(|c| if c.is_ascii_alphanumeric() || c == '/' || c == '.' { c.to_string() } else { c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{u:04x}")).collect() }).collect()
    }
    /// The root imports `names` in turn; which of them (and of the other names) exist.
    fn named(names: &[&str], flavour: u64, exist: &[&str]) -> Vec<(String, String)> {
        let text = match flavour {
            0 => format!("{}export default [{}]", names.iter().enumerate().map(|(i, n)| format!("import i{i} from \"{}\"\n", lit(n))).collect::<String>(), (0..names.len()).map(|i| format!("i{i}")).collect::<Vec<_>>().join(",")),
            1 => format!("module.exports=[{}]", names.iter().map(|n| format!("require(\"{}\")", lit(n))).collect::<Vec<_>>().join(",")),
            _ => format!("import x from \"{}\"\nconst y=require(\"{}\")\nmodule.exports={{x:x,y:y}}", lit(names[0]), lit(names[names.len() - 1])),
        };
        let mut m = std::collections::BTreeMap::new();
        for (k, n) in exist.iter().enumerate() {
            m.entry(resolve(&if n.starts_with('/') { n.to_string() } else { format!("/w/{n}") })).or_insert(format!("[{k}]"));
        }
        m.insert("/w/root".into(), text);
        m.into_iter().collect()
    }
    let nn = NAMES.len() as u64;
    let pick = move |i: u64| {
        let d = digits(i, &[nn, nn, 3, 3]);
        let (a, b) = (NAMES[d[0] as usize], NAMES[d[1] as usize]);
        let exist: Vec<&str> = match d[3] {
            0 => NAMES.to_vec(),
            1 => NAMES.iter().copied().filter(|n| *n != a).collect(),
            _ => vec![b],
        };
        (named(&[a, b], d[2], &exist), a, d)
    };
    v.push(Space::new(
        "odd names of modules",
        nn * nn * 9,
        move |i, r| {
            let (f, a, _) = pick(i);
            graph_case(r, &f, &["root", a, "root"], false)
        },
        move |i| {
            let d = pick(i).2;
            format!("{:?} and {:?}, flavour {}, files {}", NAMES[d[0] as usize], NAMES[d[1] as usize], d[2], d[3])
        },
    ));
    let chars = odd_chars(t);
    let chars2 = chars.clone();
    v.push(Space::new(
        "every character in the name of a module",
        chars.len() as u64,
        move |i, r| {
            let c = chars[i as usize];
            let n = [format!("b{c}"), format!("{c}b"), format!("b{c}b"), format!("{c}"), format!("d/{c}"), format!("d{c}/b")];
            let other: Vec<String> = n.iter().flat_map(|n| [n.to_lowercase(), n.to_uppercase(), n.replace(c, ""), n.split(c).next().unwrap().to_string()]).filter(|o| !n.contains(o) && !o.is_empty() && !o.ends_with('/')).collect();
            let o: Vec<&str> = other.iter().map(|s| s.as_str()).collect();
            for x in &n {
                for flavour in 0..3 {
                    // only other names exist; this one exists too
                    graph_case(r, &named(&[x], flavour, &o), &["root"], false);
                    let all: Vec<&str> = o.iter().copied().chain([x.as_str()]).collect();
                    graph_case(r, &named(&[x], flavour, &all), &["root", x], false);
                    if r.failed() {
                        return;
                    }
                }
            }
        },
        move |i| format!("{:?}", chars2[i as usize]),
    ));
    let s = |s: &str| s.to_string();
    v.push(custom(
        "spellings of the root and odd files",
        ["a", "./a", "/w/a", "d/../a", "//w//a", "/w/./d/../a", "../w/a"]
            .into_iter()
            .flat_map(|root| {
                vec![
                    (vec![("/w/a", s("import b from \"./d/b\"\nexport default b")), ("/w/d/b", s("module.exports=[require(\"c\"),require(\"../d/c\")]")), ("/w/d/c", s("{\"x\":1}"))], vec![root, root]),
                    (vec![("/w/a", s("import b from \"a\"\nexport default b"))], vec![root]),
                    (vec![("/w/a", s("import b from \"d/b\"\nexport default b")), ("/w/d/b", s("import c from \"../a\"\nexport default c"))], vec![root, root]),
                    (vec![("/w/a", s("const x=require(\"d/b\");module.exports=[x,require(\"d/c\")]")), ("/w/d/b", s("const y=[1];module.exports=[y,y]")), ("/w/d/c", s("const x=require(\"b\")\nmodule.exports=x"))], vec![root]),
                    (vec![("/w/a", s("module.exports=[require(\"e\")"))], vec![root, "d/c"]),
                    (vec![("/w/a", s("const x=1\nconst y=require(\"d/b\")\nmodule.exports=[x,y]")), ("/w/d/b", s("module.exports=x"))], vec![root]),
                    (vec![("/w/a", s("import y from \"d/b\"\nexport default y")), ("/w/d/b", s(""))], vec![root]),
                    (vec![("/w/a", s("import y from \"\"\nexport default y"))], vec![root]),
                    (vec![("/w/a", s("import y from \".\"\nexport default y"))], vec![root]),
                ]
            })
            .collect(),
    ));
    v
}

// ------------------------------------------------------------------ C25

/// What a path denotes: from the root or not, levels up, names down.
fn denote(p: &str) -> (bool, usize, Vec<String>) {
    let abs = p.starts_with('/');
    let (mut up, mut down) = (0, vec![]);
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                if down.pop().is_none() && !abs {
                    up += 1
                }
            }
            s => down.push(s.to_string()),
        }
    }
    (abs, up, down)
}
fn normal(p: &str) -> String {
    let (abs, up, down) = denote(p);
    let mut v = vec![".."; up];
    v.extend(down.iter().map(|s| s.as_str()));
    format!("{}{}", if abs { "/" } else { "" }, v.join("/"))
}
fn path_case(r: &mut Rec, p: &str) {
    r.traces += 1;
    r.nontrivial += 1;
    r.state(&normal(p));
    match guarded(|| (normalize(p), normalize(&normalize(p)), split(p), concat(split(p).0, split(p).1))) {
        Err(e) => r.fail("", format!("panic: {e}")),
        Ok((n, n2, s, c)) => {
            r.eq("normalize", &n, &normal(p));
            r.eq("normalize twice", &n2, &n);
            r.check(!s.1.contains('/') && p.ends_with(s.1), || format!("split gives {s:?}"));
            r.eq("split and concat", &c, &n);
        }
    }
    r.outcome(&normal(p));
}
fn join_case(r: &mut Rec, a: &str, b: &str) {
    if b.starts_with('/') {
        return;
    }
    r.traces += 1;
    r.nontrivial += 1;
    // walks the second path from where the first ends
    let (abs, mut up, mut at) = denote(a);
    for s in b.split('/').filter(|s| !s.is_empty() && *s != ".") {
        if s != ".." {
            at.push(s.to_string());
        } else if at.pop().is_none() && !abs {
            up += 1;
        }
    }
    let mut names = vec!["..".to_string(); up];
    names.extend(at);
    let want = format!("{}{}", if abs { "/" } else { "" }, names.join("/"));
    match guarded(|| concat(a, b)) {
        Err(e) => r.fail("", format!("panic: {e}")),
        Ok(c) => {
            r.eq("concat", &c, &want);
        }
    }
}
const ODD: [char; 9] = ['.', '/', ' ', '\\', '~', ':', '\t', 'A', '\u{a0}'];
fn for_char(c: char, mut f: impl FnMut(String)) {
    for p in [
        format!("{c}"), format!("a/{c}/b"), format!("a/{c}/../b"), format!("a/.{c}/b"), format!("a/{c}./b"), format!("a/..{c}/b"), format!("a/{c}../b"), format!("a/.{c}./b"),
        format!("{c}/a"), format!("a/{c}"), format!("{c}.."), format!("..{c}"), format!("a/..{c}/.."), format!("/{c}/.."), format!("../{c}"), format!("{c}{c}/../a"),
    ] {
        f(p)
    }
}
fn c25(t: Tier) -> Vec<Space> {
    let o = t.pick(5usize, 6);
    let po = move |i: u64| word_upto(&ODD, o, i).into_iter().collect::<String>();
    let stride = t.pick(7u64, 1);
    let chars = ['a', '.', '/', 'b'];
    let n = t.pick(8, 11);
    let segs = ["", ".", "..", "a", "b", "...", ".a", "a.", "é😀", "a b"];
    let m = t.pick(5, 6);
    let pc = move |i: u64| word_upto(&chars, n, i).into_iter().collect::<String>();
    let ps = move |i: u64| format!("{}{}", if i % 2 == 1 { "/" } else { "" }, word_upto(&segs, m, i / 2).join("/"));
    let k = t.pick(4usize, 5);
    let small = words_upto(3, k);
    let abc = ['a', '.', '/'];
    let pj = move |i: u64| (word_upto(&abc, k, i / small).into_iter().collect::<String>(), word_upto(&abc, k, i % small).into_iter().collect::<String>());
    let l = t.pick(2usize, 3);
    let ns = words_upto(segs.len(), l);
    let pk = move |i: u64| {
        let a = format!("{}{}", if i % 2 == 1 { "/" } else { "" }, word_upto(&segs, l, i / 2 / ns).join("/"));
        (a, word_upto(&segs, l, i / 2 % ns).join("/"))
    };
    vec![
        Space::new("all short strings", words_upto(4, n), move |i, r| path_case(r, &pc(i)), pc),
        Space::new("all short lists of segments", words_upto(segs.len(), m) * 2, move |i, r| path_case(r, &ps(i)), ps),
        Space::new("join of all pairs of short strings", small * small, move |i, r| join_case(r, &pj(i).0, &pj(i).1), move |i| format!("{:?}", pj(i))),
        Space::new("join of all pairs of lists of segments", ns * ns * 2, move |i, r| join_case(r, &pk(i).0, &pk(i).1), move |i| format!("{:?}", pk(i))),
        Space::new("short strings of odd characters", words_upto(ODD.len(), o), move |i, r| path_case(r, &po(i)), po),
        Space::new("every character in every place of a segment", 0x110000 / stride, move |i, r| {
            let Some(c) = char::from_u32(i as u32 * stride as u32) else { return };
            for_char(c, |p| path_case(r, &p));
            for b in [format!("{c}"), format!("..{c}"), format!("{c}/..")] {
                join_case(r, &b, "../x");
                join_case(r, "d/e", &b);
            }
        }, move |i| format!("U+{:04X}", i * stride)),
        Space::new("every ASCII character in every place of a segment", 128, move |i, r| {
            for_char(i as u8 as char, |p| path_case(r, &p));
            for j in 0..128u8 {
                path_case(r, &format!("x/{}{}/../y", i as u8 as char, j as char));
                path_case(r, &format!("{}{}", i as u8 as char, j as char));
            }
        }, |i| format!("U+{i:04X}")),
        Space::new("long paths", t.pick(600, 2000), |i, r| {
            let k = i as usize;
            for p in [format!("{}x", "a/".repeat(k)), format!("{}{}x", "a/".repeat(k), "../".repeat(k + 2)), format!("{}{}", "../".repeat(k), "a/".repeat(k)), format!("/{}{}", "../".repeat(k), "./b//".repeat(k)),
                // one long name, and the dots next to it
                "n".repeat(k), format!("a/{}/../b", "n".repeat(k)), format!("{}/{}/..", "n".repeat(k), "é".repeat(k)), format!("a/{}", ".".repeat(k)), format!("{}/a/{}/..", "/".repeat(k), ".".repeat(k)), format!("{}a{}", "./".repeat(k), "/".repeat(k))] {
                path_case(r, &p)
            }
        }, |i| format!("{i} segments")),
    ]
}

fn main() {
    mc::engine::main(&[
        Check {
            id: "C04",
            level: "model_checking",
            rule: "every viable token sequence up to the depth in every context, each also with every token that ends it: the parser's verdict, error, kind and value (with sharing) equal the recursive-descent reference",
            assumptions: &["the reference grammar is right; it was written from the documentation and the tests that pin the behaviour"],
            spaces: c04,
        },
        Check {
            id: "C05",
            level: "model_checking",
            rule: "every viable token sequence of module statements up to the depth, and every sequence of whole statements: verdict, error kind, module kind and value equal the reference, with IO and with the push interface",
            assumptions: &["one importable module; import graphs are C06"],
            spaces: c05,
        },
        Check {
            id: "C06",
            level: "model_checking",
            rule: "every import graph up to the size, in every layout, flavour and spelling, every history of parses with one cache, every fault at every operation: result with sharing, error and the sequence of files read equal the reference",
            assumptions: &["path identity is lexical (no symbolic links)", "every path is resolved from one current directory, or does not leave it if that is unknown"],
            spaces: c06,
        },
        Check {
            id: "C25",
            level: "model_checking",
            rule: "every string over a small alphabet and every list of segments up to the length, and all pairs: normal form, join and split equal the walk from the directory",
            assumptions: &["no symbolic links"],
            spaces: c25,
        },
    ])
}
