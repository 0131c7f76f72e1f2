//! Reference module loader.
use crate::reflex::{lex, Tok};
use crate::refparse::{self, Err, Kind};
use crate::value::Val;
use crate::vio::resolve;
use std::collections::{BTreeMap, BTreeSet};

/// What importers of the same session share.
#[derive(Default)]
pub struct Model {
    pub files: BTreeMap<String, Vec<u8>>,
    pub complete: BTreeMap<String, Val>,
    pub progress: BTreeSet<String>,
    pub opened: Vec<String>,
    /// The number of the open that fails.
    pub fail_open: Option<usize>,
}
impl Model {
    fn read(&mut self, path: &str) -> Result<Vec<Tok>, Err> {
        let n = self.opened.len();
        self.opened.push(path.into());
        if self.fail_open == Some(n) {
            return Err("CannotReadFile");
        }
        let b = self.files.get(path).ok_or("CannotReadFile")?;
        let s = std::str::from_utf8(b).map_err(|_| "CannotReadFile")?;
        Ok(lex(s))
    }
    /// Evaluates the file at an absolute path.
    pub fn eval(&mut self, path: &str) -> Result<(Kind, Val), Err> {
        self.progress.insert(path.into());
        let dir = path.rsplit_once('/').unwrap().0.to_string();
        let r = self.read(path).and_then(|t| refparse::parse(&t, &mut |p| self.import(&dir, p)));
        self.progress.remove(path);
        r
    }
    pub fn import(&mut self, dir: &str, p: &str) -> Result<Val, Err> {
        let path = resolve(&if p.starts_with('/') { p.to_string() } else { format!("{dir}/{p}") });
        if let Some(v) = self.complete.get(&path) {
            return Ok(v.clone());
        }
        if self.progress.contains(&path) {
            return Err("CircularDependency");
        }
        let (_, v) = self.eval(&path)?;
        self.complete.insert(path, v.clone());
        Ok(v)
    }
}
