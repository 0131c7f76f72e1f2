//! The whole program: conversions under faults (C10), robustness against every text (C11).
use mc::engine::*;
use mc::refjson::read_json;
use mc::reflex::lex;
use mc::refload::Model;
use mc::refparse::{self, Kind};
use mc::value::{canon, Val};
use mc::vio::{resolve, Fault, Op, Vio};
use nanvm_lib::app::run;
use nanvm_lib::mem::global::GLOBAL;
use nanvm_lib::mem::local::Local;
use nanvm_lib::parser::parser::{parse, Context};
use nanvm_lib::parser::shared::ModuleCache;
use nanvm_lib::serializer::to_djs::to_djs;
use nanvm_lib::serializer::to_json::to_json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Arc;

// ------------------------------------------------------------------ memory accounting

struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    /// All bytes ever allocated: a measure of the work done.
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| {
            c.set(c.get() + l.size() as isize);
            PEAK.with(|p| p.set(p.get().max(c.get())));
            BLOCKS.with(|b| b.set(b.get() + 1));
            TOTAL.with(|b| b.set(b.get() + l.size() as u64));
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| {
            c.set(c.get() - l.size() as isize);
            BLOCKS.with(|b| b.set(b.get() - 1));
        });
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Debug, Clone, Copy, Default)]
struct Use {
    leaked_bytes: isize,
    leaked_blocks: isize,
    peak: isize,
    total: u64,
}
/// Runs `f` and measures its memory; what `f` returns is dropped inside.
fn measure<T>(f: impl FnOnce() -> T) -> Use {
    let (l, b, t) = (LIVE.with(|c| c.get()), BLOCKS.with(|c| c.get()), TOTAL.with(|c| c.get()));
    PEAK.with(|p| p.set(l));
    drop(f());
    Use {
        leaked_bytes: LIVE.with(|c| c.get()) - l,
        leaked_blocks: BLOCKS.with(|c| c.get()) - b,
        peak: PEAK.with(|c| c.get()) - l,
        total: TOTAL.with(|c| c.get()) - t,
    }
}

// ------------------------------------------------------------------ C10

/// The format of an output name.
fn format(out: &str) -> Option<Kind> {
    let end = |e: &str| out.len() >= e.len() && out.as_bytes()[out.len() - e.len()..] == *e.as_bytes();
    if end(".json") {
        Some(Kind::Json)
    } else if end(".d.cjs") {
        Some(Kind::Cjs)
    } else if end(".d.mjs") {
        Some(Kind::Mjs)
    } else {
        None
    }
}
/// What a command line has to do: the value and the format to write, or an error.
fn expected(args: &[String], m: &mut Model) -> Result<(String, Kind, Val), String> {
    let (Some(input), Some(output)) = (args.get(1), args.get(2)) else { return Err("arguments".into()) };
    let k = format(output).ok_or("extension")?;
    let (_, v) = m.eval(&resolve(input)).map_err(String::from)?;
    Ok((resolve(output), k, v))
}
/// The written bytes denote the value in the format.
fn denotes(b: &[u8], k: Kind, v: &Val) -> Result<(), String> {
    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let (got, want) = match k {
        Kind::Json => (canon(&read_json(t)?, false), canon(v, false)),
        _ => {
            let (k2, g) = refparse::parse(&lex(t), &mut |_| Err("import"))?;
            if k2 != k {
                return Err(format!("{t} is {k2:?}, expected {k:?}"));
            }
            (canon(&g, true), canon(v, true))
        }
    };
    if got != want {
        return Err(format!("{t} denotes {got}, expected {want}"));
    }
    Ok(())
}
type Files = Vec<(String, Vec<u8>)>;

fn vio(args: &[String], files: &Files) -> Vio {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    Vio::new(&a, &files.iter().map(|(p, b)| (p.as_str(), b.as_slice())).collect::<Vec<_>>())
}
/// One run with at most one fault; returns the operations of the run.
fn app_case(r: &mut Rec, args: &[String], files: &Files, fault: Option<(usize, Fault)>, op: Option<&Op>) -> Vec<Op> {
    let io = vio(args, files);
    io.st.borrow_mut().fault = fault;
    let before = io.files();
    let mut m = Model { files: before.clone(), ..Default::default() };
    let want = expected(args, &mut m);
    // does the fault make the run fail?
    let fatal = match (fault, op) {
        (Some((_, Fault::Interrupted)), Some(Op::Read(_) | Op::Write(..))) => false,
        (Some(_), _) => true,
        _ => false,
    };
    r.traces += 1;
    r.transitions += m.opened.len() as u64 + 1;
    let got = guarded(|| run(&io).map_err(|e| e.to_string()));
    let after = io.files();
    let log = io.log();
    let creates: Vec<&Op> = log.iter().filter(|o| matches!(o, Op::Create(_))).collect();
    let who = |s: String| format!("{args:?} fault {fault:?} at {op:?}: {s}");
    r.outcome(&(got.is_ok(), want.is_ok(), fatal, creates.len()));
    r.state(&(&after, got.is_ok(), log.len()));
    match got {
        Err(p) => r.fail("", who(format!("panic: {p}"))),
        Ok(Ok(())) => match &want {
            _ if fatal => r.fail("", who("succeeds although an operation failed".into())),
            Err(e) => r.fail("", who(format!("succeeds, expected the error {e}"))),
            Ok((out, k, v)) => {
                r.nontrivial += 1;
                r.check(creates == [&Op::Create(out.clone())], || who(format!("creates {creates:?}, expected {out}")));
                match after.get(out) {
                    None => r.fail("", who("no output".into())),
                    Some(b) => {
                        if let Err(e) = denotes(b, *k, v) {
                            r.fail("", who(e));
                        }
                    }
                }
                let mut rest = before.clone();
                rest.remove(out);
                let mut rest2 = after.clone();
                rest2.remove(out);
                r.check(rest == rest2, || who(format!("changes other files: {rest2:?}")));
            }
        },
        Ok(Err(e)) => {
            if want.is_ok() && !fatal {
                r.fail("", who(format!("fails with {e}")));
            }
            let writing = fatal && matches!(op, Some(Op::Create(_) | Op::Write(..)));
            match (&want, writing) {
                (Ok((out, _, _)), true) => {
                    r.nontrivial += 1;
                    let mut rest = before.clone();
                    rest.remove(out);
                    let mut rest2 = after.clone();
                    rest2.remove(out);
                    r.check(rest == rest2, || who(format!("changes other files: {rest2:?}")));
                    if matches!(op, Some(Op::Create(_))) {
                        r.check(after == before, || who("changes the output although it could not be created".into()));
                    }
                }
                _ => {
                    r.check(after == before, || who(format!("reports the error {e} but changes files: {after:?}")));
                }
            }
        }
    }
    log
}
const FAULTS: [Fault; 3] = [Fault::Fail, Fault::Half, Fault::Interrupted];

fn app_faults(r: &mut Rec, args: &[String], files: &Files) {
    let log = app_case(r, args, files, None, None);
    for (n, op) in log.iter().enumerate() {
        for f in FAULTS {
            if r.failed() {
                return;
            }
            app_case(r, args, files, Some((n, f)), Some(op));
        }
    }
    // one byte at a time
    let io = vio(args, files);
    io.st.borrow_mut().chunk = 1;
    let mut m = Model { files: io.files(), ..Default::default() };
    let want = expected(args, &mut m);
    match guarded(|| run(&io).is_ok()) {
        Err(p) => r.fail("", format!("{args:?} byte by byte: panic: {p}")),
        Ok(ok) => {
            r.check(ok == want.is_ok(), || format!("{args:?} byte by byte: success is {ok}"));
            if let (true, Ok((out, k, v))) = (ok, want) {
                if let Err(e) = denotes(io.files().get(&out).map_or(&[], |b| b), k, &v) {
                    r.fail("", format!("{args:?} byte by byte: {e}"));
                }
            }
        }
    }
}
fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// Files of the command line spaces.
fn standard() -> Files {
    [
        ("a.json", &b"{\"k\":[1,-0,\"\\u00e9\",12345678901234567890n],\"l\":1e999}"[..]),
        ("b.d.mjs", b"import x from \"./d/c.d.cjs\"\nconst y=[x,x];export default {y:y,x:x}"),
        ("d/c.d.cjs", b"const s=[];module.exports=[s,s,require(\"e.json\")]"),
        ("d/e.json", b"[null,true]"),
        ("bad.d.mjs", b"export default [1,"),
        ("lex.json", b"[1.]"),
        ("deep.d.mjs", b"import x from \"bad.d.mjs\"\nexport default x"),
        ("deep2.d.cjs", b"module.exports=[require(\"d/c.d.cjs\"),require(\"d/none.json\")]"),
        ("loop.d.cjs", b"module.exports=require(\"./loop.d.cjs\")"),
        ("utf8.json", b"\"\xff\xfe\""),
        ("empty.json", b""),
        ("old.json", b"old contents"),
        ("old.d.cjs", b"old contents that are much longer than whatever is written to this file by any of the conversions of this space, so that a part of them would stay"),
    ]
    .iter()
    .map(|(p, b)| (p.to_string(), b.to_vec()))
    .collect()
}
fn c10(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // every command line of up to four arguments
    let words = ["nanvm", "a.json", "b.d.mjs", "deep.d.mjs", "none", "out.json", "out.d.cjs", "out.d.mjs", "old.json", "old.d.cjs", "out.txt", "", "--help", "-", ".json", "x/out.d.mjs"];
    let n = t.pick(4, 5);
    let cmd = move |i: u64| strings(&word_upto(&words, n, i));
    v.push(Space::new("every command line", words_upto(words.len(), n), move |i, r| { app_case(r, &cmd(i), &standard(), None, None); }, move |i| format!("{:?}", cmd(i))));
    // every input and output with every fault
    let inputs = ["a.json", "./a.json", "b.d.mjs", "d/c.d.cjs", "bad.d.mjs", "lex.json", "deep.d.mjs", "deep2.d.cjs", "loop.d.cjs", "utf8.json", "empty.json", "none.json", "", "/w/b.d.mjs"];
    let outputs = ["out.json", "out.d.cjs", "out.d.mjs", "old.json", "old.d.cjs", "a.json", "b.d.mjs", "d/e.json", "d/c.d.cjs", "deep/er/x.json", "/t/x.d.mjs", "../y.json", ".json", ".d.cjs", ".d.mjs"];
    let (ni, no) = (inputs.len() as u64, outputs.len() as u64);
    let io = move |i: u64| strings(&["nanvm", inputs[(i / no) as usize], outputs[(i % no) as usize]]);
    v.push(Space::new("inputs, outputs and every fault", ni * no, move |i, r| app_faults(r, &io(i), &standard()), move |i| format!("{:?}", io(i))));
    // names and extensions
    let parts = [".", "json", "d", "cjs", "mjs", "JSON", "x", "/", "j", "s", " ", "\n", "\u{3000}", ".json"];
    let k = t.pick(5, 6);
    let name = move |i: u64| word_upto(&parts, k, i).concat();
    let name2 = name.clone();
    v.push(Space::new(
        "every output name",
        words_upto(parts.len(), k),
        move |i, r| {
            app_case(r, &strings(&["nanvm", "a.json", &name(i)]), &standard(), None, None);
        },
        move |i| name2(i),
    ));
    // module graphs with faults at every depth
    let bodies = ["[1]", "export default [1,2]", "module.exports={a:1}", "const x=[1];module.exports=[x,x]", "export default", "[1,", "\"\\q\""];
    let nb = bodies.len() as u64;
    let head = ["import a from \"m1\"\nimport b from \"m2\"\nexport default [a,b,a]", "module.exports=[require(\"m1\"),require(\"m2\"),require(\"m1\")]", "const a=require(\"m2\");const b=require(\"m1\");module.exports={a:a,b:b,c:[a,b]}", "import a from \"m2\"\nexport default a"];
    let outs = ["out.json", "out.d.cjs", "m1.d.mjs"];
    let mk = move |i: u64| {
        let d = digits(i, &[4, 2, 3, nb, nb]);
        let m1 = if d[1] == 1 { format!("module.exports=[require(\"m2\"),{}]", if d[3] == 0 { "1" } else { "[2]" }) } else { bodies[d[3] as usize].to_string() };
        let f: Files = vec![("m0".into(), head[d[0] as usize].into()), ("m1".into(), m1.into()), ("m2".into(), bodies[d[4] as usize].into()), ("out.json".into(), b"before".to_vec())];
        (strings(&["nanvm", "m0", outs[d[2] as usize]]), f)
    };
    v.push(Space::new("module graphs and every fault", 4 * 2 * 3 * nb * nb, move |i, r| { let (a, f) = mk(i); app_faults(r, &a, &f) }, move |i| format!("{:?}", mk(i))));
    // long outputs: many writes
    v.push(Space::new("long texts and every fault", t.pick(12, 40) * 3, |i, r| {
        let n = 1 << (i / 3).min(13);
        let f: Files = vec![("m".into(), format!("[{}]", vec!["\"0123456789abcdef\""; n].join(",")).into_bytes())];
        app_faults(r, &strings(&["nanvm", "m", ["o.json", "o.d.cjs", "o.d.mjs"][(i % 3) as usize]]), &f)
    }, |i| format!("long text {i}")));
    // outputs of every size around the powers of two, without faults
    let mut sizes: Vec<usize> = (2..=t.pick(24, 26)).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    sizes.dedup();
    let s2 = sizes.clone();
    v.push(
        Space::new("long outputs", sizes.len() as u64 * 3, move |i, r| {
            let (n, out) = (sizes[i as usize / 3], ["o.json", "o.d.cjs", "o.d.mjs"][i as usize % 3]);
            let head = ["", "module.exports=", "export default "][i as usize % 3].len();
            let f: Files = vec![("m".into(), format!("\"{}\"", "a".repeat(n.saturating_sub(head + 2))).into_bytes())];
            app_case(r, &strings(&["nanvm", "m", out]), &f, None, None);
        }, move |i| format!("output of {} bytes, format {}", s2[i as usize / 3], i % 3))
        .hang(300),
    );
    if std::env::var_os("NANVM_BIN").is_some() {
        v.push(program());
    }
    v
}

// ---- the program itself, in a scratch directory

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-app-{}-{:?}", std::process::id(), std::thread::current().id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn listing(d: &std::path::Path, at: &str, out: &mut Vec<(String, Vec<u8>)>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap()).collect();
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let n = format!("{at}/{}", e.file_name().to_string_lossy());
        if e.file_type().unwrap().is_symlink() {
            out.push((n, b"link".to_vec()));
        } else if e.file_type().unwrap().is_dir() {
            out.push((format!("{n}/"), vec![]));
            listing(&e.path(), &n, out);
        } else {
            out.push((n, std::fs::read(e.path()).unwrap()));
        }
    }
}
/// The built program with every pair of input and output, among them directories.
fn program() -> Space {
    let inputs = ["a.json", "./a.json", "b.d.mjs", "d/c.d.cjs", "bad.d.mjs", "deep.d.mjs", "deep2.d.cjs", "loop.d.cjs", "utf8.json", "none.json", "d", "", "a.json/x"];
    let outputs = ["out.json", "out.d.cjs", "d/out.d.mjs", "old.json", "old.d.cjs", "none/out.json", "out.txt", "dir.json", "", "a.json", "a.json/x.json", "none/../out.json", "d/../out.json", "link/../out.d.mjs", "./d/.././old.json"];
    let mut lines: Vec<Vec<&str>> = vec![vec![]];
    for i in inputs {
        lines.push(vec![i]);
        for o in outputs {
            lines.push(vec![i, o]);
        }
    }
    let lines = Arc::new(lines);
    let l2 = lines.clone();
    Space::new(
        "the program in a directory",
        lines.len() as u64,
        move |i, r| {
            let line = &lines[i as usize];
            let d = scratch();
            for (p, b) in standard() {
                let p = d.join(p);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, b).unwrap();
            }
            std::fs::create_dir_all(d.join("dir.json")).unwrap();
            // the parent of what the link leads to is not the parent of the link
            std::fs::create_dir_all(d.join("d/in")).unwrap();
            std::os::unix::fs::symlink("d/in", d.join("link")).unwrap();
            let mut before = vec![];
            listing(&d, CWD, &mut before);
            let o = Command::new(std::env::var_os("NANVM_BIN").unwrap()).args(line).current_dir(&d).stdin(Stdio::null()).output().unwrap();
            let mut after = vec![];
            listing(&d, CWD, &mut after);
            let _ = std::fs::remove_dir_all(&d);
            r.traces += 1;
            r.transitions += 1;
            r.nontrivial += 1;
            let mut m = Model { files: standard().into_iter().map(|(p, b)| (resolve(&p), b)).collect(), ..Default::default() };
            let mut args = strings(&["nanvm"]);
            args.extend(strings(line));
            let mut want = expected(&args, &mut m);
            // what the directory makes impossible
            if let Some(out) = line.get(1) {
                if ["none/out.json", "dir.json", "a.json/x.json", "none/../out.json"].contains(out) {
                    want = Err("the output cannot be created".into());
                }
                if let (Ok(w), "link/../out.d.mjs") = (&mut want, *out) {
                    w.0 = resolve("d/out.d.mjs");
                }
            }
            r.outcome(&o.status.code());
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            match (&want, o.status.code()) {
                (_, None | Some(101)) => r.fail("", format!("{}: {err}", o.status)),
                (Ok(_), Some(0)) => {}
                (Err(_), Some(c)) if c != 0 => {
                    r.check(!err.is_empty(), || "fails without a message".into());
                }
                (w, c) => r.fail("", format!("exit code {c:?}, expected {:?}, stderr {err}", w.as_ref().map(|_| ()))),
            }
            match want {
                Err(_) => {
                    r.check(before == after, || format!("an error, but the directory is changed: {after:?}"));
                }
                Ok((out, k, v)) => {
                    match after.iter().find(|(p, _)| *p == out) {
                        None => r.fail("", "no output"),
                        Some((_, b)) => {
                            if let Err(e) = denotes(b, k, &v) {
                                r.fail("", e);
                            }
                        }
                    }
                    before.retain(|(p, _)| *p != out);
                    after.retain(|(p, _)| *p != out);
                    r.check(before == after, || "other files changed".into());
                }
            }
        },
        move |i| format!("{:?}", l2[i as usize]),
    )
}
use mc::vio::CWD;

// ------------------------------------------------------------------ C11

/// Memory that a text of `n` bytes may take at any moment.
fn peak_limit(n: usize) -> isize {
    1_000_000 + 2000 * n as isize
}
/// Memory that a text of `n` bytes may take in all: a measure of the work. Long numbers take work
/// quadratic in their digits.
fn work_limit(n: usize) -> u64 {
    10_000_000 + (200_000 + 40 * n as u64) * n as u64
}
/// The module files around a text.
const AROUND: [(&str, &str); 3] = [("m", "[1]"), ("bad", "[1"), ("n", "module.exports=[require(\"m\"),require(\"t\")]")];

struct Seen {
    outcome: String,
    locals: (usize, usize),
}
/// Read, tokenize, parse with both managers; serialize to every format.
fn pipeline(text: &[u8], json: bool) -> Result<Seen, String> {
    let io = Vio::new(&[], &[("t", text)]);
    for (p, t) in AROUND {
        io.st.borrow_mut().files.insert(resolve(p), t.as_bytes().to_vec());
    }
    // a manager has to be static: it is given back at the end (a panic keeps it)
    let raw = Box::into_raw(Box::<Local>::default());
    let local: &'static Local = unsafe { &*raw };
    let mut outcome = String::new();
    let mid;
    {
        let mut mc = ModuleCache::default();
        let mut c = Context::new(local, &io, "t".into(), &mut mc);
        match parse(&mut c) {
            Err(e) => outcome = e.to_string(),
            Ok(r) => {
                if json {
                    outcome = to_json(r.any.clone()).map_err(|e| e.to_string())?;
                }
                outcome += &to_djs(r.any.clone(), false).map_err(|e| e.to_string())?;
                outcome += &to_djs(r.any, true).map_err(|e| e.to_string())?;
            }
        }
        mid = local.size();
    }
    let end = local.size();
    if end == 0 {
        drop(unsafe { Box::from_raw(raw) });
    }
    // the program's own manager
    let mut mc = ModuleCache::default();
    let mut c = Context::new(GLOBAL, &io, "t".into(), &mut mc);
    match parse(&mut c) {
        Err(e) => {
            if outcome != e.to_string() {
                return Err(format!("{outcome} with a local manager, {e} with the global one"));
            }
        }
        Ok(r) => {
            let mut o2 = String::new();
            if json {
                o2 = to_json(r.any.clone()).map_err(|e| e.to_string())?;
            }
            o2 += &to_djs(r.any.clone(), false).map_err(|e| e.to_string())?;
            o2 += &to_djs(r.any, true).map_err(|e| e.to_string())?;
            if outcome != o2 {
                return Err(format!("{outcome} with a local manager, {o2} with the global one"));
            }
        }
    }
    Ok(Seen { outcome, locals: (mid, end) })
}
fn text_case(r: &mut Rec, text: &[u8]) {
    text_case_in(r, text, true)
}
fn text_case_in(r: &mut Rec, text: &[u8], json: bool) {
    r.traces += 1;
    r.transitions += text.len() as u64;
    let mut res = Ok(String::new());
    let mut output = 0;
    let show = |s: &str| s.chars().take(200).collect::<String>();
    let mut go = || {
        measure(|| {
            res = match guarded(|| pipeline(text, json)) {
                Err(p) => Err(format!("panic: {p}")),
                Ok(Err(e)) => Err(e),
                Ok(Ok(s)) if s.locals.1 != 0 => Err(format!("{} bytes are still allocated in the manager", s.locals.1)),
                Ok(Ok(s)) => {
                    output = s.outcome.len();
                    // the outcome is not charged
                    let k = hash_of(&s.outcome);
                    r.outcome(&k);
                    r.state(&(k, s.locals.0));
                    if !s.outcome.chars().all(|c| c.is_alphabetic()) {
                        r.nontrivial += 1;
                    }
                    Ok(String::new())
                }
            };
        })
    };
    let mut u = go();
    if u.leaked_bytes != 0 || u.leaked_blocks != 0 {
        // the sets of this explorer grow, and statics are made once: a leak comes again
        u = go();
        if u.leaked_bytes != 0 || u.leaked_blocks != 0 {
            u = go();
        }
    }
    if let Err(e) = res {
        r.fail("", format!("{:?}: {e}", show(&String::from_utf8_lossy(text))));
        return;
    }
    r.check(u.leaked_bytes == 0 && u.leaked_blocks == 0, || format!("{:?} leaks: {u:?}", show(&String::from_utf8_lossy(text))));
    let work = work_limit(text.len()) + 100 * output as u64;
    r.check(u.total <= work, || format!("{:?}... ({} bytes) allocates {} bytes in all, limit {work}", show(&String::from_utf8_lossy(text)), text.len(), u.total));
    let lim = peak_limit(text.len()) + 8 * output as isize;
    r.check(u.peak <= lim, || format!("{:?}... ({} bytes) takes {} bytes of memory, limit {lim}", show(&String::from_utf8_lossy(text)), text.len(), u.peak));
}
const SAMPLES: [&str; 12] = [
    "{\"a\":[1,-2.5e+10,true,null],\"b\":\"\\u00e9\\n\\\"\"}",
    "import a from \"m\"\nconst b=[a,a];export default {b:b,\"c\":12345678901234567890n,}",
    "const a=require(\"m\")\nmodule.exports=[a,{k:a,l:-0},1e999]",
    "// comment\n/* more\n*/ [ \"\\ud83d\\ude00\" , 0.1 ]",
    "import a from \"n\"\nexport default a",
    "const a=require(\"bad\");module.exports=a",
    "\"\u{e9}\u{1F600}\\b\\f\\n\\r\\t\\/\\\\\"",
    "[[[[{\"a\":{\"b\":[[]]}}]]]]",
    "-123.456e-789",
    "const null=1\nconst x={x:null}\n[x,x]",
    "module.exports=require(\"t\")",
    "[0n,-0n,-1n,18446744073709551616n,-340282366920938463463374607431768211456n]",
];
const PIECES: [&str; 28] = [
    "", " ", "\n", "\"", "\\", "/", "*", "[", "]", "{", "}", ",", ":", ";", ".", "-", "0", "9", "e", "n", "a", "=", "(", ")", "\u{0}", "\u{e9}", "\u{1F600}", "\\ud800",
];
/// Every prefix, every deletion, every replacement and insertion of a piece at every position.
fn mutants() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for s in SAMPLES {
        let c: Vec<char> = s.chars().collect();
        let t = |x: &[char]| x.iter().collect::<String>();
        for i in 0..=c.len() {
            v.push(t(&c[..i]).into_bytes());
            v.push(t(&c[i..]).into_bytes());
            for p in PIECES {
                v.push(format!("{}{p}{}", t(&c[..i]), t(&c[i..])).into_bytes());
                if i < c.len() {
                    v.push(format!("{}{p}{}", t(&c[..i]), t(&c[i + 1..])).into_bytes());
                }
            }
        }
    }
    v
}
/// Texts that grow: family `f` with size `n`.
const FAMILIES: usize = 40;
fn family(f: usize, n: usize) -> String {
    let rep = |s: &str| s.repeat(n);
    match f {
        0 => rep("["),
        1 => rep("]"),
        2 => rep("{\"a\":"),
        3 => format!("\"{}\"", rep("a")),
        4 => format!("\"{}\"", rep("\\u0041")),
        5 => format!("\"{}\"", rep("\\ud83d\\ude00")),
        6 => format!("\"{}", rep("\u{1F600}")),
        7 => format!("[{}]", rep("1,")),
        8 => format!("[{}]", rep("\"\",")),
        9 => format!("[{}]", rep("[],")),
        10 => format!("[{}]", rep("{},")),
        11 => format!("{{{}}}", rep("\"a\":1,")),
        12 => format!("{{{}}}", (0..n).map(|i| format!("\"k{i}\":{i},")).collect::<String>()),
        13 => rep("\n"),
        14 => rep(" "),
        15 => format!("//{}\n1", rep("c")),
        16 => format!("/*{}*/1", rep("*")),
        17 => rep("/"),
        18 => rep("-"),
        19 => rep("a"),
        20 => rep("const a=1;"),
        21 => format!("{}a0", (0..n).map(|i| format!("const a{i}=[{i}];")).collect::<String>()),
        22 => format!("const a0=[];{}export default a{n}", (0..n).map(|i| format!("const a{}=[a{i},a{i}]\n", i + 1)).collect::<String>()),
        23 => format!("{}1", rep("import a from \"m\"\n")),
        24 => format!("module.exports=[{}]", rep("require(\"m\"),")),
        25 => format!("const a=[1];module.exports=[{}]", rep("a,")),
        26 => rep(";"),
        27 => rep("\\"),
        28 => rep("\u{0}"),
        29 => rep("\"a\\"),
        30 => rep("1"),
        31 => format!("0.{}", rep("3")),
        32 => format!("{}n", rep("9")),
        33 => format!("1e{}", rep("9")),
        34 => format!("1e-{}", rep("9")),
        35 => format!("{}e-{n}", rep("7")),
        36 => format!("0.{}1e{n}", rep("0")),
        37 => format!("[{}]", rep("1e999999999,")),
        38 => format!("[{}]", rep("-1.5e-300,")),
        _ => format!("[{}]", rep("123456789012345678901234567890n,")),
    }
}
/// Processor time of this thread.
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// Texts made of one unit again and again: (before, unit, after, repetitions).
fn repetitions() -> Vec<(&'static str, String, &'static str, usize)> {
    let mut v = vec![];
    let pairs = |l: &[&str]| -> Vec<String> { l.iter().flat_map(|a| std::iter::once(a.to_string()).chain(l.iter().filter(move |b| *b != a).map(move |b| format!("{a}{b}")))).collect() };
    let bodies = ["a", " ", "'", "/", "*", "\\\\", "\\\"", "\\/", "\\n", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\u{e9}", "\u{3042}", "\u{1F600}", "[", ","];
    for u in pairs(&bodies) {
        v.push(("\"", u, "\"", 3000));
    }
    for (a, z) in [("//", "\n1"), ("/*", "*/1")] {
        for u in pairs(&["a", " ", "*", "\"", "\\", "\u{e9}", "\t"]) {
            v.push((a, u, z, 6000));
        }
    }
    for u in pairs(&["a", "Z", "_", "$", "9", "const"]) {
        v.push(("const a", u.clone(), "=1\n[1]", 4000));
        v.push(("[a", u, "]", 4000));
    }
    for u in pairs(&[" ", "\t", "\n", "\r", "//\n", "/**/", "/* * */"]) {
        v.push(("", u, "1", 4000));
    }
    for u in pairs(&["1,", "-1,", "0.5,", "1e5,", "1n,", "\"a\",", "\"\\n\",", "[],", "{},", "[[]],", "{\"a\":1},", "null,", "true,", "x,", "\n"]) {
        v.push(("const x=[]\nexport default [", u.clone(), "]", 500));
        v.push(("module.exports={\"k\":[", u, "],}", 500));
    }
    for u in pairs(&["a:1,", "\"b\":[],", "\"\\u0061\":x,", "c:{},"]) {
        v.push(("const x=[]\nexport default {", u, "}", 500));
    }
    for u in pairs(&["const a=1;", "const b=a\n", "const a=[a,a]\n", "const c={}\n", "import a from \"m\"\n", "import d from \"n\";", "\n", ";"]) {
        v.push(("const a=[]\n", u, "export default 1", 150));
    }
    for u in pairs(&["require(\"m\"),", "require(\"n\"),", "[],"]) {
        v.push(("module.exports=[", u, "]", 150));
    }
    v
}
/// Texts of two such parts, whose units are numbered: (before, unit, between, unit, after, repetitions).
fn numbered() -> Vec<(&'static str, &'static str, &'static str, &'static str, &'static str, usize)> {
    let mut v = vec![];
    // definitions and references to them: what is shared is counted by the writer
    for d in ["const a#=[];", "const a#={}\n", "const a#=[#]\n", "const a#={a:#,\"b\":\"#\"};", "const a#=[[[#]]]\n", "const a#=\"#\";", "const a#=#n\n", "const a#=1.5;"] {
        for (x, u, z) in [("export default [", "a#,", "]"), ("export default [", "a#,a#,", "]"), ("module.exports={", "k#:a#,\"l#\":a#,", "}"), ("export default [", "[a#],[a#],{a:a#},", "]"), ("", "const b#=[a#,a#]\n", "[a0,b0]")] {
            v.push(("", d, x, u, z, 2500));
        }
    }
    v.push(("const a=[]\n", "const a#=a;", "[", "a#,", "]", 2500));
    v.push(("const a=[]\nconst b={}\n", "const a#=[a,b];", "[", "a#,a#,", "]", 2500));
    for u in ["k#:#,", "\"k#\":[],", "\"k#\":{a:#,b:#},", "k#:k#:,", "\"\\u0061#\":\"#\","] {
        v.push(("const x=1\nexport default {", u, "", "", "}", 3000));
        v.push(("const x=1\nexport default [{", u, "},{", u, "}]", 2500));
    }
    for u in ["import a# from \"m\"\n", "import a# from \"n\";", "import a# from \"./m\"\nconst b#=a#;"] {
        v.push(("", u, "export default [", "a#,", "]", 300));
    }
    for u in ["const a#=require(\"m\");", "const a#=[require(\"n\")]\n"] {
        v.push(("", u, "module.exports=[", "a#,a#,", "]", 300));
    }
    v
}
/// The time of a text of `n` repetitions and of one of `8 * n`: eight times as much if it is linear, sixty-four
/// times as much if it is quadratic. A limit in between has to be exceeded in every one of several measurements.
fn repetition_case(r: &mut Rec, n: usize, text: &dyn Fn(usize) -> String) {
    let (small, large) = (text(n), text(8 * n));
    text_case_in(r, small.as_bytes(), true);
    let time = |t: &str| {
        let c = cpu();
        let _ = guarded(|| pipeline(t.as_bytes(), true).map(|_| ()));
        cpu() - c
    };
    r.traces += 1;
    let mut seen = vec![];
    for _ in 0..5 {
        let (s, l) = (time(&small), time(&large));
        seen.push((s, l));
        if l < 24.0 * s + 0.02 {
            return;
        }
    }
    r.fail("", format!("{:?}: time grows faster than the text, seconds for {n} and for {} repetitions: {seen:?}", text(2), 8 * n));
}
/// Families whose value is nested as deep as the text is long.
fn deep_family(f: usize) -> bool {
    [0, 2, 22].contains(&f)
}
/// JSON cannot share: its text grows with the value and not with the text.
fn json_family(f: usize) -> bool {
    f != 22
}

// ---- nesting, in a process of its own with the stack of a main thread

fn nested(kind: u64, n: usize) -> String {
    match kind {
        0 => format!("{}{}", "[".repeat(n), "]".repeat(n)),
        1 => format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)),
        2 => "[".repeat(n),
        3 => format!("{}1{}", "[{\"a\":".repeat(n / 2), "}]".repeat(n / 2)),
        _ => format!("const a0=[];{}module.exports=a{n}", (0..n).map(|i| format!("const a{}=[a{i}]\n", i + 1)).collect::<String>()),
    }
}
/// A chain of `n` modules, each of which imports the next one: its value is as small as its text.
fn chain(n: usize, cjs: bool) -> Result<(), String> {
    let io = Vio::new(&[], &[]);
    for i in 0..=n {
        let text = match (i == n, cjs) {
            (true, _) => "[1]".to_string(),
            (_, true) => format!("const a=require(\"m{}\")\nmodule.exports=a", i + 1),
            _ => format!("import a from \"m{}\"\nexport default a", i + 1),
        };
        io.st.borrow_mut().files.insert(resolve(&format!("m{i}")), text.into_bytes());
    }
    let mut mc = ModuleCache::default();
    let r = parse(&mut Context::new(GLOBAL, &io, "m0".into(), &mut mc)).map_err(|e| e.to_string())?;
    match to_json(r.any) {
        Ok(s) if s == "[1]" => Ok(()),
        s => Err(format!("{s:?}")),
    }
}
/// The stack of the main thread of the program.
const STACK: usize = 8 << 20;

fn nest_child(kind: u64, n: usize) -> ! {
    let t = std::thread::Builder::new().stack_size(STACK).spawn(move || match kind {
        5 => chain(n, true),
        6 => chain(n, false),
        _ => pipeline(nested(kind, n).as_bytes(), true).map(|_| ()),
    }).unwrap();
    std::process::exit(match t.join() {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            eprintln!("{e}");
            3
        }
        Err(_) => 4,
    })
}
const DEEP: usize = 1_000_000;
const CHAIN: usize = 100_000;

fn nesting() -> Space {
    let depths = [1usize, 10, 100, 1000, 3000, DEEP];
    // a chain of modules needs a file for each
    let at = move |i: u64| (i % 7, if i % 7 >= 5 { depths[(i / 7) as usize].min(CHAIN) } else { depths[(i / 7) as usize] });
    Space::new(
        "nesting depths on the stack of a main thread",
        7 * depths.len() as u64,
        move |i, r| {
            let (kind, n) = at(i);
            let st = Command::new(std::env::current_exe().unwrap())
                .args(["nest", &kind.to_string(), &n.to_string()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .unwrap();
            r.traces += 1;
            r.transitions += 1;
            r.nontrivial += 1;
            r.outcome(&format!("{st}"));
            use std::os::unix::process::ExitStatusExt;
            if !st.success() {
                let overflow = matches!(st.signal(), Some(libc::SIGABRT | libc::SIGSEGV));
                if kind < 5 && n == DEEP && overflow {
                    r.fail("nesting depth 1000000: stack overflow", format!("{st}"));
                } else if kind >= 5 && n == CHAIN && overflow {
                    r.fail("chain of 100000 imports: stack overflow", format!("{st}"));
                } else {
                    r.fail("", format!("{st}"));
                }
            }
        },
        move |i| format!("{} {} nested {} deep", if at(i).0 < 5 { "shape" } else { "import" }, at(i).0, at(i).1),
    )
    .hang(300)
}

fn word_space(name: &str, alpha: Vec<&'static str>, n: usize) -> Space {
    let k = alpha.len();
    let d = move |i: u64| word_upto(&alpha, n, i).concat();
    let d2 = d.clone();
    Space::new(name, words_upto(k, n), move |i, r| text_case(r, d(i).as_bytes()), move |i| format!("{:?}", d2(i)))
}
fn c11(t: Tier) -> Vec<Space> {
    let chars = vec!["[", "]", "{", "}", "\"", "a", ":", ",", "1", "0", "-", ".", "e", "n", "\\", "u", "/", "*", "\n", " ", "=", ";", "(", "\u{e9}", "\u{1F600}", "\u{0}"];
    let tokens = vec![
        "const ", "a", "b", "=", "\n", ";", "import ", "from ", "export ", "default ", "module", ".", "exports", "require", "(", ")", "\"m\"", "\"n\"", "\"bad\"", "\"t\"", "\"\"", "[", "]", "{", "}", ":", ",",
        "1", "-0", "1e999999999999", "1n", "null ", "\"\\ud800\"", "@", "/*", "//",
    ];
    let heads = vec![
        "const a=[1]\n", "const b={a:a};", "import a from \"m\"\n", "import b from \"n\"\n", "const a=require(\"m\");", "const b=require(\"n\")\n", "export default ", "module.exports=", "[a,b,a]", "[", "{a:", "a", "1", "]", "}", ",", "\n", ";",
        "require(\"t\")", "require(\"bad\")",
    ];
    let nums = vec!["0", "1", "9", ".", "e", "E", "+", "-", "n", "00000000000000000000", "99999999999999999999", " ", "]", "_", "x"];
    let strs = vec!["\"", "\\", "u", "d", "8", "0", "a", "\n", "\u{7f}", "\u{80}", "\u{ffff}", "\u{10ffff}", "/", "b", "\t", "\\ud83d", "\\ude00"];
    let bytes: Vec<u8> = vec![0, 9, 10, 0x22, 0x5b, 0x5d, 0x31, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xa9, 0xe2, 0xed, 0xa0, 0xef, 0xbb, 0xf0, 0x9f, 0x90, 0xf4, 0xff];
    let nb = t.pick(3, 4);
    let bl = bytes.len();
    let by = move |i: u64| word_upto(&bytes, nb, i);
    let by2 = by.clone();
    let m = Arc::new(mutants());
    let m2 = m.clone();
    let sizes: Vec<usize> = t.pick(vec![1, 2, 3, 5, 10, 30, 100, 300, 1000, 3000, 10_000], (1..100).chain([128, 256, 300, 512, 1000, 1024, 3000, 4096, 10_000, 16_384, 30_000]).collect());
    let s2 = sizes.clone();
    vec![
        word_space("every text over the characters", chars, t.pick(3, 4)),
        word_space("every text over the tokens", tokens, t.pick(3, 4)),
        word_space("every text over the statements", heads, t.pick(4, 5)),
        word_space("every text over the parts of numbers", nums, t.pick(4, 5)),
        word_space("every text over the parts of strings", strs, t.pick(4, 5)),
        Space::new("every byte string", words_upto(bl, nb), move |i, r| text_case(r, &by(i)), move |i| format!("{:?}", by2(i))),
        Space::new("every mutation of the samples", m.len() as u64, move |i, r| text_case(r, &m[i as usize]), move |i| String::from_utf8_lossy(&m2[i as usize]).to_string()),
        Space::new(
            "growing texts",
            (FAMILIES * sizes.len()) as u64,
            move |i, r| {
                let (f, n) = (i as usize % FAMILIES, sizes[i as usize / FAMILIES]);
                if deep_family(f) && n > 3000 {
                    return;
                }
                text_case_in(r, family(f, n).as_bytes(), json_family(f) || n < 10);
            },
            move |i| format!("family {} of size {}: {:.60}", i as usize % FAMILIES, s2[i as usize / FAMILIES], family(i as usize % FAMILIES, s2[i as usize / FAMILIES].min(20))),
        )
        .hang(60),
        {
            let v = Arc::new(repetitions());
            let v2 = v.clone();
            Space::new("repetitions: time is linear", v.len() as u64, move |i, r| { let (a, u, z, n) = &v[i as usize]; repetition_case(r, *n, &|n| format!("{a}{}{z}", u.repeat(n))) }, move |i| format!("{:?}", v2[i as usize])).hang(300)
        },
        {
            let v = Arc::new(numbered());
            let v2 = v.clone();
            let rep = |u: &str, n: usize| (0..n).map(|i| u.replace('#', &i.to_string())).collect::<String>();
            Space::new("numbered repetitions: time is linear", v.len() as u64, move |i, r| { let (a, u, x, w, z, n) = v[i as usize]; repetition_case(r, n, &|n| format!("{a}{}{x}{}{z}", rep(u, n), rep(w, n))) }, move |i| format!("{:?}", v2[i as usize])).hang(300)
        },
        {
            // a pipeline that takes time quadratic in the text does not come to an end here
            let mut v: Vec<(usize, usize)> = vec![];
            for f in (0..FAMILIES).filter(|f| !deep_family(*f) && ![30, 31, 32, 35, 36].contains(f)) {
                v.push((f, match f {
                    // one token
                    3 | 6 | 14 | 15 | 16 | 19 => 4_000_000,
                    4 | 5 => 500_000,
                    // numbers
                    37..=39 => 30_000,
                    7 | 11 | 12 | 20 | 21 => 100_000,
                    _ => 200_000,
                } * t.pick(1, 4)));
            }
            let v = Arc::new(v);
            let v2 = v.clone();
            Space::new(
                "long texts",
                v.len() as u64,
                move |i, r| {
                    let (f, n) = v[i as usize];
                    text_case(r, family(f, n).as_bytes());
                },
                move |i| format!("family {} of size {}", v2[i as usize].0, v2[i as usize].1),
            )
            .hang(t.pick(60, 240))
        },
        {
            let n = t.pick(36, 140);
            Space::new("constructs of every size", mc::sized::count(n), move |i, r| text_case(r, mc::sized::text(n, i).as_bytes()), move |i| format!("{:?}", mc::sized::text(n, i)))
        },
        nested_statements(t),
        nesting(),
    ]
}
/// Consts, imports and values at every depth of containers, complete and cut off.
fn nested_statements(t: Tier) -> Space {
    const BEFORE: [&str; 7] = ["", "const a=[1]\n", "const a=[1];const b={a:a}\n", "const a=require(\"m\")\n", "const a=require(\"m\");const b=[a]\n", "import a from \"m\"\n", "import a from \"n\"\nconst b=[a]\n"];
    const HEAD: [&str; 3] = ["", "module.exports=", "export default "];
    const IN: [&str; 12] = ["1", "a", "[a,a]", "{k:a,l:b}", "require(\"m\")", "require(\"m\"),a", "a,require(\"n\")", "require(\"bad\")", "require(\"none\")", "a,require(\"t\")", "\"\\ud800\"", "9n,\"x\",c"];
    let depth = t.pick(7u64, 10);
    let radix = move || [7, 3, 12, depth, 3, 5];
    let text = move |i: u64| {
        let d = digits(i, &radix());
        let (depth, mix) = (d[3] as usize, d[4]);
        let obj = |j: usize| mix == 1 || mix == 2 && j % 2 == 1;
        let mut s = format!("{}{}", BEFORE[d[0] as usize], HEAD[d[1] as usize]);
        for j in 0..depth {
            // something to release on every level
            s += if obj(j) { "{\"x\":[2],\"y\":" } else { "[\"s\"," };
        }
        s += IN[d[2] as usize];
        // closed down to some level, or by something wrong
        let open = match d[5] {
            0 => 0,
            1 => depth / 2,
            2 => depth,
            _ => 1.min(depth),
        };
        for j in (open..depth).rev() {
            s += if obj(j) { "}" } else { "]" };
        }
        s += ["", "", "", ";", "]"][d[5] as usize];
        s
    };
    Space::new("statements around nested values", radix().iter().product(), move |i, r| text_case(r, text(i).as_bytes()), move |i| text(i))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("nest") {
        nest_child(a[2].parse().unwrap(), a[3].parse().unwrap());
    }
    mc::engine::main(&[
        Check {
            id: "C10",
            level: "model_checking",
            rule: "every command line, input and output of the spaces, with no fault and with every fault at every IO operation: result, files before and after, and the value written are as the reference says; the built program is run in a directory for every pair",
            assumptions: &["one fault per run", "arguments are Unicode"],
            spaces: c10,
        },
        Check {
            id: "C11",
            level: "model_checking",
            rule: "every text of the spaces through read, tokenize, parse and all serializers, with both managers: no panic, crash or hang, no memory left, peak memory linear in the text, all memory ever allocated quadratic at most, same outcome with both managers",
            assumptions: &["JSON texts of shared values are as long as the value they spell out"],
            spaces: c11,
        },
    ])
}
