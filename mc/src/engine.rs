use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing

/// FNV-1a style hasher with a final mix: deterministic, seedless.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E3779B97F4A7C15);
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
type FnvSet = HashSet<u64, BuildHasherDefault<Fnv>>;

// ---------------------------------------------------------------- tiers

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

// ---------------------------------------------------------------- spaces

type RunFn = Box<dyn Fn(u64, &mut Rec) + Send + Sync>;
type ShowFn = Box<dyn Fn(u64) -> String + Send + Sync>;

/// A finite, index-addressable space of cases. Index order is simplest-first.
pub struct Space {
    pub name: String,
    pub size: u64,
    run: RunFn,
    show: ShowFn,
    hang_s: u64,
}

impl Space {
    pub fn new(
        name: &str,
        size: u64,
        run: impl Fn(u64, &mut Rec) + Send + Sync + 'static,
        show: impl Fn(u64) -> String + Send + Sync + 'static,
    ) -> Space {
        Space { name: name.into(), size, run: Box::new(run), show: Box::new(show), hang_s: 60 }
    }
    /// Runs one case, outside of the explorer.
    pub fn case(&self, i: u64, r: &mut Rec) {
        (self.run)(i, r)
    }
    pub fn describe(&self, i: u64) -> String {
        (self.show)(i)
    }
    pub fn hang(mut self, s: u64) -> Space {
        self.hang_s = s;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub space: String,
    pub index: u64,
    /// Identifies the finding, for known findings: a specific input or call site with its outcome.
    pub key: String,
    pub case: String,
    pub msg: String,
}

/// What one thread records while it runs cases.
pub struct Rec {
    states: FnvSet,
    outcomes: FnvSet,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    evaluations: u64,
    cur_fail: Vec<(String, String)>,
    counters: BTreeMap<&'static str, u64>,
}

const SET_CAP: usize = 4_000_000;

impl Rec {
    pub fn new() -> Rec {
        Rec {
            states: Default::default(),
            outcomes: Default::default(),
            transitions: 0,
            traces: 0,
            nontrivial: 0,
            evaluations: 0,
            cur_fail: vec![],
            counters: BTreeMap::new(),
        }
    }
    /// Room for some states and outcomes, so that recording them allocates nothing.
    pub fn with_room() -> Rec {
        let mut r = Rec::new();
        r.states.reserve(64);
        r.outcomes.reserve(64);
        r
    }
    /// Adds what another recorder saw of the same case.
    pub fn absorb(&mut self, o: Rec) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        for (k, n) in o.counters {
            self.count(k, n);
        }
        for (k, m) in o.cur_fail {
            self.fail(k, m);
        }
    }
    pub fn messages(&self) -> Vec<String> {
        self.cur_fail.iter().map(|f| f.1.clone()).collect()
    }
    /// A distinct model/implementation state was visited.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < SET_CAP {
            self.states.insert(hash_of(t));
        }
    }
    /// The observed outcome of a case (used to show that the exploration is not vacuous).
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < SET_CAP {
            self.outcomes.insert(hash_of(t));
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_default() += n;
    }
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        if self.cur_fail.len() < 4 {
            self.cur_fail.push((key.into(), msg.into()));
        }
    }
    pub fn failed(&self) -> bool {
        !self.cur_fail.is_empty()
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail("", m);
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: &T, want: &T) -> bool {
        self.transitions += 1;
        let ok = got == want;
        if !ok {
            self.fail("", format!("{what}: got {got:?}, expected {want:?}"));
        }
        ok
    }
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}

/// Runs code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- shared memory slots

const NSLOT: usize = 64;
#[repr(C)]
struct Slot {
    busy: AtomicU64,
    space: AtomicU64,
    index: AtomicU64,
    seq: AtomicU64,
}
#[repr(C)]
struct Shm {
    slots: [Slot; NSLOT],
}
fn map_shm(path: &Path, create: bool) -> &'static Shm {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).unwrap();
    let len = std::mem::size_of::<Shm>();
    f.set_len(len as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { &*(p as *const Shm) }
}

// ---------------------------------------------------------------- check description

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}

fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF").map(PathBuf::from).unwrap_or_else(|_| {
        let e = std::env::current_exe().unwrap();
        // <verif>/<crate>/target/<profile>/bin
        for a in e.ancestors() {
            if a.join("known_findings.txt").exists() {
                return a.to_path_buf();
            }
        }
        PathBuf::from("/verif")
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut r: String = s.chars().take(n).collect();
        let _ = write!(r, "… ({} chars)", s.chars().count());
        r
    }
}

struct Known {
    key: String,
    what: String,
}
fn load_known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut r = vec![];
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut prop = "";
            let mut key = "";
            let mut what = "";
            if let Some((head, w)) = rest.split_once(" what=") {
                what = w;
                if let Some((p, k)) = head.split_once(" key=") {
                    key = k;
                    prop = p.strip_prefix("property=").unwrap_or("");
                }
            }
            if prop == id && !key.is_empty() {
                r.push(Known { key: key.into(), what: what.into() });
            }
        }
    }
    r
}

// ---------------------------------------------------------------- child: run the spaces

#[derive(Default)]
struct ChildReport {
    lines: Vec<String>,
}

fn run_one(sp: &Space, i: u64, rec: &mut Rec) -> Vec<(String, String)> {
    rec.evaluations += 1;
    let r = guarded(|| (sp.run)(i, rec));
    if let Err(m) = r {
        rec.fail("", format!("panic: {m}"));
    }
    std::mem::take(&mut rec.cur_fail)
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
    })
}

fn child(check: &Check, tier: Tier, shm_path: &Path, out: &Path) {
    install_panic_hook();
    if std::env::var("MC_NO_RLIMIT").is_err() {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
    let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &nocore) };
    let shm = map_shm(shm_path, false);
    let spaces = (check.spaces)(tier);
    let known: BTreeSet<String> = load_known(check.id).into_iter().map(|k| k.key).collect();
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let seen_known: Mutex<BTreeMap<String, Fail>> = Mutex::new(BTreeMap::new());
    let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    let mut space_lines = vec![];
    let n = threads();
    for (si, sp) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let chunk = (sp.size / (n as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|s| {
            for t in 0..n {
                let (next, stop, fails, recs, known, seen_known) = (&next, &stop, &fails, &recs, &known, &seen_known);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let slot = &shm.slots[t];
                        let mut rec = Rec::new();
                        'o: loop {
                            let b = next.fetch_add(chunk, Relaxed);
                            if b >= sp.size {
                                break;
                            }
                            for i in b..(b + chunk).min(sp.size) {
                                if stop.load(Relaxed) {
                                    break 'o;
                                }
                                slot.space.store(si as u64, Relaxed);
                                slot.index.store(i, Relaxed);
                                slot.seq.fetch_add(1, Relaxed);
                                slot.busy.store(1, Release);
                                let fs = run_one(sp, i, &mut rec);
                                slot.busy.store(0, Release);
                                for (key, msg) in fs {
                                    let f = Fail { space: sp.name.clone(), index: i, case: (sp.show)(i), key: key.clone(), msg };
                                    if known.contains(&key) {
                                        seen_known.lock().unwrap().entry(key).or_insert(f);
                                    } else {
                                        let mut l = fails.lock().unwrap();
                                        l.push(f);
                                        if l.len() >= 12 {
                                            stop.store(true, Relaxed);
                                        }
                                    }
                                }
                            }
                        }
                        recs.lock().unwrap().push(rec);
                    })
                    .unwrap();
            }
        });
        space_lines.push(format!(
            "space\t{}\t{}\t{:.2}\t{}",
            sp.name,
            sp.size,
            t0.elapsed().as_secs_f64(),
            if sp.size > 0 { clip(&(sp.show)((sp.size - 1).min(sp.size / 2 + 1)), 160) } else { String::new() }.replace(['\n', '\t', '\r'], " ")
        ));
        if stop.load(Relaxed) {
            break;
        }
    }
    let mut rep = ChildReport::default();
    rep.lines.append(&mut space_lines);
    let mut states: FnvSet = Default::default();
    let mut outcomes: FnvSet = Default::default();
    let (mut tr, mut tc, mut nt, mut ev) = (0, 0, 0, 0);
    let mut counters: BTreeMap<&str, u64> = BTreeMap::new();
    for r in recs.into_inner().unwrap() {
        states.extend(r.states.iter());
        outcomes.extend(r.outcomes.iter());
        tr += r.transitions;
        tc += r.traces;
        nt += r.nontrivial;
        ev += r.evaluations;
        for (k, v) in r.counters {
            *counters.entry(k).or_default() += v;
        }
    }
    rep.lines.push(format!("tot\t{}\t{}\t{}\t{}\t{}\t{}", states.len(), outcomes.len(), tr, tc, nt, ev));
    for (k, v) in counters {
        rep.lines.push(format!("cnt\t{k}\t{v}"));
    }
    let esc = |s: &str| s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r");
    let mut fl = fails.into_inner().unwrap();
    let order: BTreeMap<&str, usize> = spaces.iter().enumerate().map(|(i, s)| (s.name.as_str(), i)).collect();
    fl.sort_by_key(|f| (order[f.space.as_str()], f.index));
    for f in fl {
        rep.lines.push(format!("fail\t{}\t{}\t{}\t{}\t{}", f.space, f.index, esc(&f.key), esc(&f.case), esc(&f.msg)));
    }
    for (_, f) in seen_known.into_inner().unwrap() {
        rep.lines.push(format!("known\t{}\t{}\t{}\t{}\t{}", f.space, f.index, esc(&f.key), esc(&f.case), esc(&f.msg)));
    }
    rep.lines.push("done".into());
    std::fs::write(out, rep.lines.join("\n")).unwrap();
}

// ---------------------------------------------------------------- parent

enum End {
    Done,
    Crash(String),
    Hang { space: u64, index: u64 },
    Killed,
}

fn spawn_child(args: &[String], shm: &Path) -> std::process::Child {
    let _ = shm;
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(std::process::Stdio::null())
        .spawn()
        .expect("spawn")
}

fn supervise(mut c: std::process::Child, shm: &Shm, hang: &dyn Fn(u64) -> u64, limit: Duration) -> End {
    let t0 = Instant::now();
    let mut last: Vec<(u64, Instant)> = (0..NSLOT).map(|_| (u64::MAX, Instant::now())).collect();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            if st.success() {
                return End::Done;
            }
            if st.signal() == Some(libc::SIGKILL) {
                return End::Killed;
            }
            return End::Crash(match st.signal() {
                Some(s) => format!("terminated by signal {s}"),
                None => format!("exit code {:?}", st.code()),
            });
        }
        for (k, sl) in shm.slots.iter().enumerate() {
            let seq = sl.seq.load(Relaxed);
            if sl.busy.load(Acquire) == 0 || seq != last[k].0 {
                last[k] = (seq, Instant::now());
            } else if last[k].1.elapsed().as_secs() >= hang(sl.space.load(Relaxed)) {
                let _ = c.kill();
                let _ = c.wait();
                return End::Hang { space: sl.space.load(Relaxed), index: sl.index.load(Relaxed) };
            }
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return End::Killed;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn write_replay(dir: &Path, id: &str, tier: Tier, f: &Fail) -> PathBuf {
    let d = dir.join("evidence/replay");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}-{}-{}.txt", f.space.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), f.index));
    let exe = std::env::current_exe().unwrap();
    let _ = std::fs::write(
        &p,
        format!(
            "property={id}\ntier={}\nspace={}\nindex={}\ncase={}\nfailure={}\n# replay: {} replay {}\n",
            if tier == Tier::Quick { "quick" } else { "thorough" },
            f.space,
            f.index,
            f.case.replace('\n', "\\n"),
            f.msg.replace('\n', "\\n"),
            exe.display(),
            p.display()
        ),
    );
    p
}

pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> ! {
        eprintln!("usage: check <ID> | replay <file>");
        std::process::exit(2)
    };
    let find = |id: &str| checks.iter().find(|c| c.id == id);
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match args.first().map(|s| s.as_str()) {
        Some("child") => {
            // child ID TIER SHM OUT
            let c = find(&args[1]).unwrap();
            child(c, tier_of(&args[2]), Path::new(&args[3]), Path::new(&args[4]));
            std::process::exit(0)
        }
        Some("one") => {
            // one ID TIER SPACE INDEX  (in-process single case)
            install_panic_hook();
            if std::env::var("MC_NO_RLIMIT").is_err() {
                let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
                unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
            }
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            unsafe { libc::setrlimit(libc::RLIMIT_CORE, &nocore) };
            let c = find(&args[1]).unwrap();
            let sps = (c.spaces)(tier_of(&args[2]));
            let sp = sps.into_iter().find(|s| s.name == args[3]).expect("space");
            let i: u64 = args[4].parse().unwrap();
            println!("case: {}", (sp.show)(i));
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut rec = Rec::new();
                    run_one(&sp, i, &mut rec)
                })
                .unwrap();
            let fs = h.join().unwrap();
            for (k, m) in &fs {
                println!("FAILS: key={k:?} {m}");
            }
            if fs.is_empty() {
                println!("ok");
            }
            std::process::exit(if fs.is_empty() { 0 } else { 1 })
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[1]).unwrap();
            let get = |k: &str| {
                t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string()
            };
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["one", &get("property"), &get("tier"), &get("space"), &get("index")])
                .status()
                .unwrap();
            println!("replay ended: {st}");
            std::process::exit(if st.success() { 0 } else { 1 })
        }
        Some("spaces") => {
            let c = find(&args[1]).unwrap_or_else(|| usage());
            for t in [Tier::Quick, Tier::Thorough] {
                for s in (c.spaces)(t) {
                    println!("{t:?} {} {}", s.name, s.size);
                }
            }
            std::process::exit(0)
        }
        Some("check") => {}
        _ => usage(),
    }
    let check = match args.get(1).and_then(|i| find(i)) {
        Some(c) => c,
        None => usage(),
    };
    let tier_s = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = tier_of(&tier_s);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::process::exit(parent(check, tier, &tier_s, seed))
}

fn parent(check: &Check, tier: Tier, tier_s: &str, seed: i64) -> i32 {
    let t0 = Instant::now();
    let dir = verif_dir();
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let shm_path = scratch.join("shm");
    let out = scratch.join("out");
    let shm = map_shm(&shm_path, true);
    let spaces = (check.spaces)(tier);
    let limit = Duration::from_secs(
        std::env::var("MC_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
            Tier::Quick => 840,
            Tier::Thorough => 4 * 3600,
        }),
    );
    let args: Vec<String> = vec![
        "child".into(),
        check.id.into(),
        tier_s.into(),
        shm_path.display().to_string(),
        out.display().to_string(),
    ];
    let end = supervise(
        spawn_child(&args, &shm_path),
        shm,
        &|s| spaces.get(s as usize).map(|s| s.hang_s).unwrap_or(60),
        limit,
    );
    let mut fails: Vec<Fail> = vec![];
    let known = load_known(check.id);
    let mut known_seen: BTreeMap<String, Fail> = BTreeMap::new();
    let mut space_lines: Vec<(String, u64, f64, String)> = vec![];
    let mut tot = [0u64; 6];
    let mut counters: Vec<(String, u64)> = vec![];
    let mut error = None;
    match end {
        End::Done => {
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            if !text.ends_with("done") {
                error = Some("child wrote no report".to_string());
            }
            let unesc = |s: &str| {
                let mut o = String::new();
                let mut it = s.chars();
                while let Some(c) = it.next() {
                    if c == '\\' {
                        match it.next() {
                            Some('t') => o.push('\t'),
                            Some('n') => o.push('\n'),
                            Some('r') => o.push('\r'),
                            Some(c) => o.push(c),
                            None => {}
                        }
                    } else {
                        o.push(c)
                    }
                }
                o
            };
            for l in text.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "space" => space_lines.push((f[1].into(), f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].into())),
                    "tot" => {
                        for k in 0..6 {
                            tot[k] = f[k + 1].parse().unwrap();
                        }
                    }
                    "cnt" => counters.push((f[1].into(), f[2].parse().unwrap())),
                    "fail" | "known" => {
                        let x = Fail {
                            space: f[1].into(),
                            index: f[2].parse().unwrap(),
                            key: unesc(f[3]),
                            case: unesc(f[4]),
                            msg: unesc(f[5]),
                        };
                        if f[0] == "fail" {
                            fails.push(x)
                        } else {
                            known_seen.insert(x.key.clone(), x);
                        }
                    }
                    _ => {}
                }
            }
        }
        End::Killed => error = Some("exploration was killed (memory or time limit): no answer".into()),
        End::Hang { space, index } => {
            let sp = &spaces[space as usize];
            fails.push(Fail {
                space: sp.name.clone(),
                index,
                key: String::new(),
                case: (sp.show)(index),
                msg: format!("does not terminate within {} s (cases of this space take microseconds to milliseconds)", sp.hang_s),
            });
        }
        End::Crash(how) => {
            // Find out which of the cases in flight crashes, by running each alone.
            let mut cand = vec![];
            for sl in shm.slots.iter() {
                if sl.busy.load(Acquire) == 1 {
                    cand.push((sl.space.load(Relaxed), sl.index.load(Relaxed)));
                }
            }
            let mut found = false;
            for (s, i) in &cand {
                let sp = &spaces[*s as usize];
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["one", check.id, tier_s, &sp.name, &i.to_string()])
                    .stdout(std::process::Stdio::null())
                    .status()
                    .unwrap();
                if !st.success() {
                    found = true;
                    fails.push(Fail {
                        space: sp.name.clone(),
                        index: *i,
                        key: String::new(),
                        case: (sp.show)(*i),
                        msg: format!("the process running this case {st}; exploration {how}"),
                    });
                }
            }
            if !found {
                if let Some((s, i)) = cand.first() {
                    let sp = &spaces[*s as usize];
                    fails.push(Fail {
                        space: sp.name.clone(),
                        index: *i,
                        key: String::new(),
                        case: (sp.show)(*i),
                        msg: format!("exploration {how} with this case in flight (memory corrupted by an earlier case)"),
                    });
                } else {
                    error = Some(format!("exploration {how} outside any case"));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = error {
        eprintln!("ERROR property={} {e}", check.id);
        return 2;
    }
    let mut code = 0;
    for k in &known {
        if known_seen.contains_key(&k.key) {
            println!("KNOWN-FINDING: property={} {}", check.id, k.what);
        }
    }
    let mut first = true;
    for f in fails.iter().take(5) {
        code = 1;
        let p = write_replay(&dir, check.id, tier, f);
        if first {
            println!("VIOLATION property={} replay={}", check.id, p.display());
            first = false;
        }
        println!("  space {} case #{}: {}\n    {}", f.space, f.index, clip(&f.case, 400), clip(&f.msg, 800));
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::new();
    let samples: Vec<String> = space_lines.iter().filter(|s| !s.3.is_empty()).map(|s| js(&format!("{}: {}", s.0, s.3))).collect();
    let complete = fails.is_empty() && space_lines.len() == spaces.len();
    let _ = write!(
        e,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {},\n  \"exhaustive\": {complete},\n  \"rule\": {},\n",
        js(check.id),
        js(tier_s),
        js(check.level),
        tot[5], tot[4], tot[0], tot[2], tot[3], tot[1],
        js(check.rule)
    );
    for (k, v) in &counters {
        let _ = write!(e, "  {}: {v},\n", js(k));
    }
    let _ = write!(e, "  \"spaces\": [");
    for (k, s) in space_lines.iter().enumerate() {
        let _ = write!(e, "{}{{\"name\": {}, \"cases\": {}, \"wall_s\": {:.2}}}", if k > 0 { ", " } else { "" }, js(&s.0), s.1, s.2);
    }
    let _ = write!(e, "],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"known_findings_seen\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        samples.join(", "),
        check.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        known_seen.values().map(|f| js(&format!("{}: {}", f.key, clip(&f.case, 120)))).collect::<Vec<_>>().join(", "),
        fails.len(),
        wall
    );
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    std::fs::write(dir.join("evidence").join(format!("{}.json", check.id)), e).unwrap();
    println!(
        "{} {} {}: {} cases, {} states, {} transitions, {} traces, {} outcomes, {:.1}s",
        if code == 0 { "HELD" } else { "BROKEN" },
        check.id, tier_s, tot[5], tot[0], tot[2], tot[3], tot[1], wall
    );
    code
}

// ---------------------------------------------------------------- enumeration helpers

/// Strings over `alpha` of length exactly `n`, index-addressed.
pub fn word<T: Clone>(alpha: &[T], n: usize, mut i: u64) -> Vec<T> {
    let k = alpha.len() as u64;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(alpha[(i % k) as usize].clone());
        i /= k;
    }
    v.reverse();
    v
}
/// Number of words of length 0..=n and decoding of an index into one of them (shortest first).
pub fn words_upto(k: usize, n: usize) -> u64 {
    (0..=n).map(|j| (k as u64).pow(j as u32)).sum()
}
pub fn word_upto<T: Clone>(alpha: &[T], n: usize, mut i: u64) -> Vec<T> {
    let k = alpha.len() as u64;
    for j in 0..=n {
        let c = k.pow(j as u32);
        if i < c {
            return word(alpha, j, i);
        }
        i -= c;
    }
    panic!("index out of range")
}
/// Splits a mixed-radix index.
pub fn digits(mut i: u64, radix: &[u64]) -> Vec<u64> {
    let mut v = Vec::with_capacity(radix.len());
    for r in radix.iter().rev() {
        v.push(i % r);
        i /= r;
    }
    v.reverse();
    v
}
