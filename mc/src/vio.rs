//! An in-memory file system that logs every operation and injects one fault at a chosen operation.
use io_trait::Io;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Error, ErrorKind, Read, Seek, Write};
use std::rc::Rc;
use std::time::Duration;

/// How the operation with the chosen number goes wrong.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    /// It fails and does nothing.
    Fail,
    /// It transfers half of the bytes, the next one on that file fails.
    Half,
    /// It reports an interrupted call (a legal outcome: it has to be repeated).
    Interrupted,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Open(String),
    Create(String),
    Read(String),
    Write(String, usize),
    /// Any other operation of the interface.
    Other(&'static str, String),
}

pub struct State {
    pub files: BTreeMap<String, Vec<u8>>,
    pub log: Vec<Op>,
    pub fault: Option<(usize, Fault)>,
    /// The operation that panics.
    pub panic: Option<usize>,
    /// Bytes transferred by one read or write at most.
    pub chunk: usize,
    /// True once the fault was injected.
    pub fired: bool,
    pub broken: Vec<String>,
}

#[derive(Clone)]
pub struct Vio {
    pub st: Rc<RefCell<State>>,
    pub args: Vec<String>,
    /// What the current directory is reported to be.
    pub cwd: Option<&'static str>,
}

pub const CWD: &str = "/w";

/// The file a path denotes: walks its segments from the current directory.
pub fn resolve(path: &str) -> String {
    let mut at: Vec<&str> = vec![];
    if !path.starts_with('/') {
        at.extend(CWD.split('/').filter(|s| !s.is_empty()));
    }
    for s in path.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            s => at.push(s),
        }
    }
    format!("/{}", at.join("/"))
}

impl Vio {
    pub fn new(args: &[&str], files: &[(&str, &[u8])]) -> Vio {
        Vio {
            st: Rc::new(RefCell::new(State {
                files: files.iter().map(|(p, b)| (resolve(p), b.to_vec())).collect(),
                log: vec![],
                fault: None,
                panic: None,
                chunk: usize::MAX,
                fired: false,
                broken: vec![],
            })),
            cwd: Some(CWD),
            args: args.iter().map(|s| s.to_string()).collect(),
        }
    }
    pub fn log(&self) -> Vec<Op> {
        self.st.borrow().log.clone()
    }
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        self.st.borrow().files.clone()
    }
}
impl State {
    fn op(&mut self, op: Op) -> Option<Fault> {
        let n = self.log.len();
        self.log.push(op);
        if self.panic == Some(n) {
            self.fired = true;
            panic!("panic in an operation");
        }
        match self.fault {
            Some((k, f)) if k == n => {
                self.fired = true;
                Some(f)
            }
            _ => None,
        }
    }
    fn other<T>(&mut self, name: &'static str, path: &str) -> io::Result<T> {
        self.log.push(Op::Other(name, path.into()));
        Err(Error::from(ErrorKind::Unsupported))
    }
}

impl std::fmt::Debug for VFile {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}@{}", self.path, self.pos)
    }
}
pub struct VFile {
    st: Rc<RefCell<State>>,
    path: String,
    pos: usize,
}
fn broken<T>() -> io::Result<T> {
    Err(Error::other("injected fault"))
}
impl Read for VFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        if st.broken.contains(&self.path) {
            return broken();
        }
        let left = st.files.get(&self.path).map_or(0, |f| f.len().saturating_sub(self.pos));
        let mut n = left.min(buf.len()).min(st.chunk);
        match st.op(Op::Read(self.path.clone())) {
            None => {}
            Some(Fault::Fail) => return broken(),
            Some(Fault::Interrupted) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Fault::Half) => {
                n /= 2;
                let p = self.path.clone();
                st.broken.push(p);
                if n == 0 {
                    return broken();
                }
            }
        }
        if n > 0 {
            buf[..n].copy_from_slice(&st.files[&self.path][self.pos..self.pos + n]);
        }
        self.pos += n;
        Ok(n)
    }
}
impl Write for VFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        if st.broken.contains(&self.path) {
            return broken();
        }
        let mut n = buf.len().min(st.chunk);
        match st.op(Op::Write(self.path.clone(), buf.len())) {
            None => {}
            Some(Fault::Fail) => return broken(),
            Some(Fault::Interrupted) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Fault::Half) => {
                n /= 2;
                let p = self.path.clone();
                st.broken.push(p);
                if n == 0 {
                    return broken();
                }
            }
        }
        let pos = self.pos;
        let f = st.files.get_mut(&self.path).unwrap();
        f.truncate(pos);
        f.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for VFile {
    fn seek(&mut self, _: io::SeekFrom) -> io::Result<u64> {
        Err(Error::from(ErrorKind::Unsupported))
    }
}
impl io_trait::File for VFile {
    type Metadata = Meta;
    fn metadata(&self) -> io::Result<Meta> {
        Ok(Meta(self.st.borrow().files.get(&self.path).map_or(0, |f| f.len() as u64)))
    }
}
#[derive(Clone)]
pub struct Meta(u64);
impl io_trait::Metadata for Meta {
    fn len(&self) -> u64 {
        self.0
    }
    fn is_dir(&self) -> bool {
        false
    }
}
pub struct Entry(String);
impl io_trait::DirEntry for Entry {
    type Metadata = Meta;
    fn path(&self) -> String {
        self.0.clone()
    }
    fn metadata(&self) -> io::Result<Meta> {
        Ok(Meta(0))
    }
}
impl Io for Vio {
    type Args = std::vec::IntoIter<String>;
    type File = VFile;
    type Stdout = io::Sink;
    type Metadata = Meta;
    type DirEntry = Entry;
    type Instant = Duration;
    fn args(&self) -> Self::Args {
        self.args.clone().into_iter()
    }
    fn stdout(&self) -> io::Sink {
        io::sink()
    }
    fn metadata(&self, path: &str) -> io::Result<Meta> {
        match self.st.borrow().files.get(&resolve(path)) {
            Some(f) => Ok(Meta(f.len() as u64)),
            None => Err(Error::from(ErrorKind::NotFound)),
        }
    }
    fn create_dir(&self, path: &str) -> io::Result<()> {
        self.st.borrow_mut().other("create_dir", path)
    }
    fn create(&self, path: &str) -> io::Result<VFile> {
        let mut st = self.st.borrow_mut();
        let p = resolve(path);
        match st.op(Op::Create(p.clone())) {
            None => {}
            Some(Fault::Interrupted) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(_) => return broken(),
        }
        st.files.insert(p.clone(), vec![]);
        Ok(VFile { st: self.st.clone(), path: p, pos: 0 })
    }
    fn open(&self, path: &str) -> io::Result<VFile> {
        let mut st = self.st.borrow_mut();
        let p = resolve(path);
        match st.op(Op::Open(p.clone())) {
            None => {}
            Some(Fault::Interrupted) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(_) => return broken(),
        }
        if !st.files.contains_key(&p) {
            return Err(Error::from(ErrorKind::NotFound));
        }
        Ok(VFile { st: self.st.clone(), path: p, pos: 0 })
    }
    fn now(&self) -> Duration {
        Duration::ZERO
    }
    fn read_dir(&self, path: &str) -> io::Result<Vec<Entry>> {
        self.st.borrow_mut().other("read_dir", path)
    }
    fn current_dir(&self) -> io::Result<String> {
        self.cwd.map(|s| s.into()).ok_or_else(|| Error::from(ErrorKind::NotFound))
    }
    fn set_current_dir(&self, path: &str) -> io::Result<()> {
        self.st.borrow_mut().other("set_current_dir", path)
    }
}
