//! Arena allocations (C15). The arena is reached through a hook that exists with
//! `--cfg nanvm_verif` only; without it this program does nothing.
#![allow(unexpected_cfgs)]

#[cfg(not(nanvm_verif))]
fn main() {
    eprintln!("built without --cfg nanvm_verif");
    std::process::exit(2)
}

#[cfg(nanvm_verif)]
fn main() {
    on::main()
}

#[cfg(nanvm_verif)]
mod on {
    use mc::engine::*;
    use mc::heap::{elements, errors, Elem, E1, E16, E2, E4, E64, E8};
    use nanvm_lib::mem::arena_verif::{with_arena, Visitor};
    use nanvm_lib::mem::manager::Manager;
    use std::alloc::Layout;
    use std::collections::VecDeque;
    use std::process::{Command, Stdio};

    /// A buffer of `len` bytes whose address is `shift` modulo 128, between guard zones.
    struct Buf {
        mem: Vec<u8>,
        from: usize,
        len: usize,
    }
    const GUARD: usize = if cfg!(miri) { 8 } else { 256 };
    fn filler(i: usize) -> u8 {
        (i * 37) as u8 ^ 0xa5
    }
    impl Buf {
        fn new(shift: usize, len: usize) -> Buf {
            let mem: Vec<u8> = (0..len + 128 + 2 * GUARD).map(filler).collect();
            let a = mem.as_ptr() as usize + GUARD;
            let from = GUARD + (shift + 128 - a % 128) % 128;
            Buf { mem, from, len }
        }
        fn start(&self) -> usize {
            self.mem.as_ptr() as usize + self.from
        }
    }
    /// What a region given out must satisfy, in terms of the requests alone.
    struct Model {
        start: usize,
        end: usize,
        /// Behind the last region.
        top: usize,
        given: Vec<(usize, usize)>,
    }
    impl Model {
        fn new(b: &Buf) -> Model {
            Model { start: b.start(), end: b.start() + b.len, top: b.start(), given: vec![] }
        }
        /// Whether a request fits behind the earlier ones.
        fn fits(&self, size: usize, align: usize) -> bool {
            let p = self.top.div_ceil(align) as u128 * align as u128;
            p + size as u128 <= self.end as u128
        }
        fn given(&mut self, r: &mut Rec, p: usize, size: usize, align: usize) -> bool {
            let mut ok = r.check(p % align == 0, || format!("a region at {} is not aligned to {align}", p.wrapping_sub(self.start) as isize));
            ok &= r.check(p >= self.start && p.checked_add(size).is_some_and(|e| e <= self.end), || {
                format!("a region of {size} bytes at {} leaves the buffer of {}", p.wrapping_sub(self.start) as isize, self.end - self.start)
            });
            let hit = self.given.iter().find(|(q, s)| size > 0 && *s > 0 && p < q + s && *q < p + size).copied();
            ok &= r.check(hit.is_none(), || {
                let (q, s) = hit.unwrap();
                format!("a region of {size} bytes at {} overlaps one of {s} bytes at {}", p.wrapping_sub(self.start) as isize, q - self.start)
            });
            if ok {
                self.given.push((p, size));
                self.top = self.top.max(p + size);
            }
            ok
        }
    }

    // -------------------------------------------------------------- raw requests

    struct Raw<'a> {
        r: &'a mut Rec,
        reqs: &'a [(usize, usize)],
        model: &'a mut Model,
        /// Writing is left out for a start that only repeats a known history.
        write: bool,
    }
    impl Visitor for Raw<'_> {
        type Result = ();
        fn visit<M: Manager>(self, m: M) {
            let Raw { r, reqs, model, write } = self;
            for (i, &(size, align)) in reqs.iter().enumerate() {
                let fits = model.fits(size, align);
                r.transitions += 1;
                let l = Layout::from_size_align(size, align).unwrap();
                match guarded(|| unsafe { m.alloc(l) }) {
                    Ok(p) => {
                        r.count("given", 1);
                        if !r.check(fits, || format!("request {i} does not fit and is not refused")) {
                            return;
                        }
                        if !model.given(r, p as usize, size, align) {
                            return;
                        }
                        if write {
                            for k in 0..size {
                                unsafe { p.add(k).write(mark(i, k)) };
                            }
                        }
                    }
                    Err(e) => {
                        r.count("refused", 1);
                        if !r.check(!fits, || format!("request {i} fits and is refused: {e}")) {
                            return;
                        }
                    }
                }
            }
        }
    }
    fn mark(i: usize, k: usize) -> u8 {
        (i * 67 + k * 5) as u8 ^ 0x1c
    }
    fn raw_case(r: &mut Rec, shift: usize, len: usize, reqs: &[(usize, usize)]) -> (usize, bool) {
        r.traces += 1;
        r.nontrivial += 1;
        let mut b = Buf::new(shift, len);
        let mut model = Model::new(&b);
        let from = b.from;
        let base = b.mem.as_ptr() as usize;
        with_arena(&mut b.mem[from..from + len], Raw { r, reqs, model: &mut model, write: true });
        if !r.failed() {
            // every byte of the memory around: as it was, or as the owner of its region wrote it
            let mut want: Vec<u8> = (0..b.mem.len()).map(filler).collect();
            let mut g = model.given.iter();
            let mut top = model.start;
            for (i, (size, align)) in reqs.iter().enumerate() {
                let fits = (top.div_ceil(*align) as u128 * *align as u128) + *size as u128 <= model.end as u128;
                if fits {
                    let (p, s) = g.next().unwrap();
                    for k in 0..*s {
                        want[p - base + k] = mark(i, k);
                    }
                    top = top.max(p + s);
                }
            }
            r.check(b.mem == want, || "memory outside of a region changed, or contents of an earlier region".into());
        }
        r.state(&(shift, len, model.top - model.start));
        r.outcome(&model.given.len());
        (model.top - model.start, !r.failed())
    }
    const REQS: [(usize, usize); 26] = [
        (1, 1), (0, 1), (2, 1), (3, 1), (5, 1), (9, 1), (2, 2), (6, 2), (0, 2), (4, 4), (0, 4), (12, 4), (8, 8), (1, 8), (0, 8), (16, 8), (24, 8), (16, 16), (3, 16),
        (32, 32), (0, 32), (64, 64), (1, 64), (0, 64), (usize::MAX / 2 - 63, 1), (usize::MAX / 2 - 127, 128),
    ];
    fn reqs_upto(n: usize, i: u64) -> Vec<(usize, usize)> {
        word_upto(&REQS, n, i)
    }

    // -------------------------------------------------------------- objects

    /// What is built in the arena.
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Build {
        Fixed(u8),
        Array(u8, usize),
        /// The iterator fails at the given element.
        Fail(u8, usize, usize),
        /// The iterator itself builds an object in the arena for each element.
        Nested(u8, usize),
    }
    const TYPES: usize = 9;
    fn builds(tier: Tier) -> Vec<Build> {
        let mut v = vec![];
        for t in 0..TYPES as u8 {
            v.push(Build::Fixed(t));
            for n in [0, 1, 3] {
                v.push(Build::Array(t, n));
            }
            if t % 4 == 1 || tier == Tier::Thorough {
                v.push(Build::Fail(t, 3, 1));
                v.push(Build::Nested(t, 2));
            }
        }
        v
    }
    type Probe = (Box<dyn Fn() -> bool>, usize, usize, usize);
    struct Objects<'a> {
        r: &'a mut Rec,
        builds: &'a [Build],
        start: usize,
        end: usize,
    }
    /// A reference kept to the end: a check of its contents, and its place.
    fn fixed<E: Elem, M: Manager>(m: M, k: u16) -> Result<Vec<Probe>, String> {
        let v = guarded(|| m.fixed_new(E::make(k)))?;
        let p = &v.0 as *const E as usize;
        let r = v.to_ref();
        let r = r.clone();
        let f: Box<dyn Fn() -> bool> = Box::new(move || r.0.is(E::kept(k)));
        // the reference outlives the visit only inside of this visit
        Ok(vec![(unsafe { std::mem::transmute::<Box<dyn Fn() -> bool + '_>, Box<dyn Fn() -> bool>>(f) }, p, size_of::<E>(), align_of::<E>())])
    }
    struct Items<'a, E, M: Manager> {
        n: usize,
        i: usize,
        k: u16,
        fail: usize,
        inner: Option<(M, &'a std::cell::RefCell<Vec<Probe>>)>,
        e: std::marker::PhantomData<E>,
    }
    impl<E: Elem, M: Manager> Iterator for Items<'_, E, M> {
        type Item = E;
        fn next(&mut self) -> Option<E> {
            if self.i == self.fail {
                panic!("element");
            }
            if let Some((m, v)) = self.inner {
                match fixed::<E, M>(m, self.k + 50 + self.i as u16) {
                    Ok(p) => v.borrow_mut().extend(p),
                    Err(_) => panic!("nested"),
                }
            }
            self.i += 1;
            (self.i <= self.n).then(|| E::make(self.k + self.i as u16 - 1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.n - self.i, Some(self.n - self.i))
        }
    }
    impl<E: Elem, M: Manager> ExactSizeIterator for Items<'_, E, M> {}
    fn array<E: Elem, M: Manager>(m: M, k: u16, n: usize, fail: usize, nested: bool) -> (Result<(), String>, Vec<Probe>) {
        let inner = std::cell::RefCell::new(vec![]);
        let res = guarded(|| {
            let items = Items::<E, M> { n, i: 0, k, fail, inner: nested.then_some((m, &inner)), e: std::marker::PhantomData };
            let v = m.flexible_array_new::<E, _>(items);
            let r = v.to_ref();
            let h = &r.header as *const usize as usize;
            let p = r.items().as_ptr() as usize;
            let f: Box<dyn Fn() -> bool> =
                Box::new(move || r.header == n && r.items().len() == n && r.items().iter().enumerate().all(|(i, e)| e.is(E::kept(k + i as u16))));
            let f = unsafe { std::mem::transmute::<Box<dyn Fn() -> bool + '_>, Box<dyn Fn() -> bool>>(f) };
            let h: Probe = (Box::new(|| true), h, size_of::<usize>(), align_of::<usize>());
            let i: Probe = (f, p, n * size_of::<E>(), align_of::<E>());
            [h, i]
        });
        let mut v = inner.into_inner();
        let res = res.map(|p| v.extend(p));
        (res, v)
    }
    fn build<M: Manager>(m: M, b: Build, k: u16) -> (Result<(), String>, Vec<Probe>) {
        fn go<E: Elem, M: Manager>(m: M, b: Build, k: u16) -> (Result<(), String>, Vec<Probe>) {
            match b {
                Build::Fixed(_) => match fixed::<E, M>(m, k) {
                    Ok(v) => (Ok(()), v),
                    Err(e) => (Err(e), vec![]),
                },
                Build::Array(_, n) => array::<E, M>(m, k, n, usize::MAX, false),
                Build::Fail(_, n, f) => array::<E, M>(m, k, n, f, false),
                Build::Nested(_, n) => array::<E, M>(m, k, n, usize::MAX, true),
            }
        }
        let (Build::Fixed(t) | Build::Array(t, _) | Build::Fail(t, _, _) | Build::Nested(t, _)) = b;
        match t {
            0 => go::<E1<1>, M>(m, b, k),
            1 => go::<E4<4>, M>(m, b, k),
            2 => go::<E8<8>, M>(m, b, k),
            3 => go::<E1<0>, M>(m, b, k),
            4 => go::<E2<6>, M>(m, b, k),
            5 => go::<E16<16>, M>(m, b, k),
            6 => go::<E1<3>, M>(m, b, k),
            7 => go::<E64<64>, M>(m, b, k),
            _ => go::<E64<0>, M>(m, b, k),
        }
    }
    fn layout_of(b: Build) -> Option<(usize, usize)> {
        const T: [(usize, usize); TYPES] = [(1, 1), (4, 4), (8, 8), (0, 1), (6, 2), (16, 16), (3, 1), (64, 64), (0, 64)];
        Some(match b {
            Build::Fixed(t) => T[t as usize],
            Build::Array(t, n) => {
                let (s, a) = T[t as usize];
                (8usize.next_multiple_of(a) + n * s, a.max(8))
            }
            // what such a request takes is not observed
            _ => return None,
        })
    }
    impl Visitor for Objects<'_> {
        type Result = ();
        fn visit<M: Manager>(self, m: M) {
            let Objects { r, builds, start, end } = self;
            let mut all: Vec<Probe> = vec![];
            // Behind the last object, as long as every request was observed completely.
            let mut top = Some(start);
            for (i, b) in builds.iter().enumerate() {
                r.transitions += 1;
                let (res, new) = build(m, *b, i as u16 * 70);
                let l = layout_of(*b);
                let fits = l.zip(top).map(|((s, a), t)| t.next_multiple_of(a) + s <= end);
                if let Some(fits) = fits {
                    if !r.check(fits == res.is_ok(), || format!("object {i} {b:?}: fits {fits}, result {res:?}")) {
                        break;
                    }
                }
                match &res {
                    Ok(()) => r.count("objects", 1),
                    Err(_) => r.count("refused", 1),
                }
                if l.is_none() {
                    top = None;
                }
                for (f, p, s, a) in new {
                    r.check(p % a == 0, || format!("part of object {i} is not aligned to {a}"));
                    r.check(p >= start && p + s <= end, || format!("part of object {i} leaves the buffer: {} + {s}", p.wrapping_sub(start) as isize));
                    for (_, q, t, _) in &all {
                        r.check(s == 0 || *t == 0 || p >= q + t || *q >= p + s, || format!("object {i} overlaps an earlier one"));
                    }
                    top = top.map(|t| t.max(p + s));
                    all.push((f, p, s, a));
                }
                if r.failed() {
                    break;
                }
                for (f, ..) in &all {
                    r.check(f(), || format!("object {i} changes an earlier object, or its contents are not what was put in"));
                }
                if r.failed() {
                    break;
                }
            }
            if r.failed() {
                // nothing that may be broken is touched again
                std::mem::forget(all);
                return;
            }
            r.outcome(&all.len());
        }
    }
    fn object_case(r: &mut Rec, shift: usize, len: usize, builds: &[Build]) {
        r.traces += 1;
        r.nontrivial += 1;
        elements();
        errors();
        let mut b = Buf::new(shift, len);
        let (from, start) = (b.from, b.start());
        with_arena(&mut b.mem[from..from + len], Objects { r, builds, start, end: start + len });
        let end = from + len;
        let clean = (0..from).chain(end..b.mem.len()).all(|i| b.mem[i] == filler(i));
        r.check(clean, || "memory outside of the buffer changed".into());
        for e in errors() {
            r.fail("", e);
        }
        elements();
        r.state(&(shift, len, builds.len()));
    }

    // -------------------------------------------------------------- spaces

    /// The shortest histories that reach every state (place of the top) of an arena.
    fn reach(r: &mut Rec, shift: usize, len: usize, reqs: &[(usize, usize)]) {
        let mut seen = vec![false; len + 1];
        seen[0] = true;
        let mut queue = VecDeque::from([vec![]]);
        let mut n = 0;
        while let Some(h) = queue.pop_front() {
            n += 1;
            for q in reqs {
                let mut g: Vec<(usize, usize)> = h.clone();
                g.push(*q);
                // a refused request is followed by the smallest ones
                let (top, ok) = raw_case(r, shift, len, &g);
                if !ok {
                    r.fail("", format!("history {g:?}"));
                    return;
                }
                if !seen[top] {
                    seen[top] = true;
                    queue.push_back(g.clone());
                }
                g.push((1, 1));
                if !raw_case(r, shift, len, &g).1 {
                    r.fail("", format!("history {g:?}"));
                    return;
                }
            }
        }
        r.count("tops", n);
        r.check(n == len as u64 + 1, || format!("{n} of {} states reached", len + 1));
    }
    pub fn c15(tier: Tier) -> Vec<Space> {
        let mut v = vec![];
        v.extend(miri_space());
        // every sequence, on buffers of every length and address
        let depth = tier.pick(3, 4);
        let words = words_upto(REQS.len(), depth);
        let lens = [0usize, 1, 2, 3, 7, 8, 9, 16, 17, 24, 31, 40, 64, 65, 100, 128];
        let shifts = tier.pick(vec![0usize, 1, 8, 60], vec![0, 1, 2, 3, 4, 7, 8, 60, 63, 64, 100]);
        let (l2, s2) = (lens, shifts.clone());
        let split = move |i: u64| {
            let k = (i % (l2.len() * s2.len()) as u64) as usize;
            (s2[k / l2.len()], l2[k % l2.len()], reqs_upto(depth, i / (l2.len() * s2.len()) as u64))
        };
        let s3 = split.clone();
        v.push(Space::new(
            "every sequence of requests",
            words * (lens.len() * shifts.len()) as u64,
            move |i, r| {
                let (s, l, q) = split(i);
                raw_case(r, s, l, &q);
            },
            move |i| format!("{:?}", s3(i)),
        ));
        // every state of a buffer with every request
        let (ns, nl) = tier.pick((16u64, 100u64), (128, 200));
        let split = move |i: u64| ((i % ns) as usize * (128 / ns as usize) + (i / ns % 8) as usize % (128 / ns as usize), (i / ns) as usize);
        v.push(Space::new(
            "every state of a buffer",
            ns * nl,
            move |i, r| {
                let (s, l) = split(i);
                reach(r, s, l, &REQS);
            },
            move |i| format!("{:?}", split(i)),
        ));
        // every request of one size and alignment on an arena with each top
        let (sizes, tops, extra) = tier.pick((40u64, 40u64, 40u64), (80, 70, 80));
        v.push(Space::new(
            "every size and alignment",
            sizes * tops * extra * 8,
            move |i, r| {
                let d = digits(i, &[sizes, tops, extra, 8]);
                let len = d[1] as usize + d[2] as usize;
                raw_case(r, 0, len, &[(d[1] as usize, 1), (d[0] as usize, 1 << d[3]), (1, 1), (0, 1)]);
            },
            move |i| format!("{:?}", digits(i, &[sizes, tops, extra, 8])),
        ));
        // long sequences on long buffers, until the buffer is full and beyond
        let long: Vec<usize> = tier.pick(vec![250, 255, 256, 257, 1000, 4096, 65_535, 65_536, 65_600, 131_073], vec![250, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 32_768, 65_535, 65_536, 65_537, 65_600, 131_073, 1 << 20]);
        let steps: Vec<(usize, usize)> = vec![(1, 1), (7, 1), (8, 8), (24, 8), (100, 16), (255, 1), (256, 2), (257, 4), (1000, 64), (4096, 8), (40_000, 1), (65_535, 1), (65_536, 8), (65_537, 1)];
        let many: Vec<(usize, usize, usize, usize)> = long
            .iter()
            .flat_map(|l| steps.iter().enumerate().flat_map(move |(a, p)| (0..14).filter(move |b| l / p.0.max(1) <= 3000 || a == *b).map(move |b| (*l, a, b, [0usize, 1][(a + b) % 2]))))
            .filter(|(l, a, ..)| l / [1, 7, 8, 24, 100, 255, 256, 257, 1000, 4096, 40_000, 65_535, 65_536, 65_537][*a] <= 10_000)
            .collect();
        let many = std::sync::Arc::new(many);
        let many2 = many.clone();
        v.push(
            Space::new(
                "long sequences on long buffers",
                many.len() as u64,
                move |i, r| {
                    let (len, a, b, shift) = many[i as usize];
                    let (x, y) = (steps[a], steps[b]);
                    let n = (2 * len / (x.0 + y.0)).min(10_000) + 3;
                    let mut q: Vec<(usize, usize)> = (0..n).map(|k| if k % 2 == 0 { x } else { y }).collect();
                    q.extend([(1, 1), (0, 1), (0, 64), (2, 2), (1, 1)]);
                    raw_case(r, shift, len, &q);
                },
                move |i| format!("{:?} (length, numbers of two requests, shift)", many2[i as usize]),
            )
            .hang(60),
        );
        // objects
        let b = builds(tier);
        let depth = 3;
        let words = words_upto(b.len(), depth);
        let lens = tier.pick(vec![0usize, 9, 24, 40, 200, 1000], vec![0, 1, 7, 8, 9, 16, 24, 33, 40, 64, 100, 200, 400, 1000]);
        let shifts = [0usize, 5, 56];
        let split = move |i: u64| {
            let k = (i % (lens.len() * shifts.len()) as u64) as usize;
            (shifts[k / lens.len()], lens[k % lens.len()], word_upto(&b, depth, i / (lens.len() * shifts.len()) as u64))
        };
        let s3 = split.clone();
        v.push(Space::new(
            "every sequence of objects",
            words * (tier.pick(6, 14) * 3) as u64,
            move |i, r| {
                let (s, l, q) = split(i);
                object_case(r, s, l, &q);
            },
            move |i| format!("{:?}", s3(i)),
        ));
        v
    }
    /// Small spaces for the Miri interpreter.
    fn miri_spaces(tier: Tier) -> Vec<Space> {
        let lens = [0usize, 9, 40];
        let shifts = [0usize, 5];
        let depth = tier.pick(1, 2);
        let b = builds(Tier::Quick);
        vec![
            Space::new(
                "requests",
                words_upto(REQS.len(), depth) * 6,
                move |i, r| {
                    raw_case(r, shifts[i as usize % 2], lens[i as usize / 2 % 3], &reqs_upto(depth, i / 6));
                },
                |i| i.to_string(),
            ),
            Space::new(
                "objects",
                words_upto(b.len(), depth) * 4,
                move |i, r| object_case(r, shifts[i as usize % 2], [40, 200][i as usize / 2 % 2], &word_upto(&b, depth, i / 4)),
                |i| i.to_string(),
            ),
        ]
    }
    const SHARDS: u64 = 16;
    fn miri_space() -> Option<Space> {
        let cmd = std::env::var("MIRI_CMD").ok()?;
        let run = move |i: u64, r: &mut Rec| {
            let o = Command::new(&cmd).args(["miri", &i.to_string()]).env("MIRI_BIN", "arena").stdin(Stdio::null()).output().unwrap();
            let out = String::from_utf8_lossy(&o.stdout);
            let n: u64 = out.lines().filter_map(|l| l.strip_prefix("explored ")).filter_map(|l| l.parse::<u64>().ok()).sum();
            r.traces += n;
            r.transitions += n;
            r.nontrivial += n;
            r.outcome(&o.status.success());
            if !o.status.success() {
                let e = String::from_utf8_lossy(&o.stderr);
                let e: Vec<&str> = e.lines().filter(|l| l.contains("error") || l.contains("FAIL")).take(5).collect();
                r.fail("", format!("{} {} {}", o.status, out.lines().filter(|l| l.contains("FAIL")).take(3).collect::<Vec<_>>().join("; "), e.join("; ")));
            } else {
                r.check(n > 0, || "no case ran".into());
            }
        };
        Some(Space::new("small spaces under the Miri interpreter", SHARDS, run, |i| format!("slice {i}")).hang(800))
    }
    fn miri_child(k: u64) -> ! {
        let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
        let mut n = 0;
        for s in miri_spaces(tier) {
            let mut i = k;
            while i < s.size {
                let mut r = Rec::new();
                s.case(i, &mut r);
                n += 1;
                if r.failed() {
                    println!("FAIL {} {i}: {}", s.name, r.messages().join("; "));
                    std::process::exit(1)
                }
                i += SHARDS;
            }
        }
        println!("explored {n}");
        std::process::exit(0)
    }
    pub fn main() {
        let a: Vec<String> = std::env::args().collect();
        if a.get(1).is_some_and(|a| a == "miri") {
            install_panic_hook();
            match a.get(2) {
                Some(k) => miri_child(k.parse().unwrap()),
                None => std::process::exit(0),
            }
        }
        mc::engine::main(&[Check {
            id: "C15",
            level: "model_checking",
            rule: "every sequence of requests (size, alignment) and of objects up to a depth on buffers of every length and address, every reachable state of each buffer with every request: regions inside, aligned, disjoint, given exactly if they fit; all bytes as their owner wrote them",
            assumptions: &["the arena is reached through a hook (cfg nanvm_verif)"],
            spaces: c15,
        }])
    }
}
