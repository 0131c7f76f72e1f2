//! Reference parser: recursive descent over the token sequence of a document, written from the
//! grammar. Errors are named as the implementation's error kinds.
use crate::reflex::Tok;
use crate::value::{u16s, Val};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Err = &'static str;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Json,
    Djs,
    Cjs,
    Mjs,
}
impl Kind {
    fn cjs_ok(self) -> bool {
        self != Kind::Mjs
    }
    fn mjs_ok(self) -> bool {
        self != Kind::Cjs
    }
}

/// Gives the value of an imported module.
pub type Load<'a> = dyn FnMut(&str) -> Result<Val, Err> + 'a;

struct P<'a, 'b> {
    toks: &'a [Tok],
    i: usize,
    kind: Kind,
    consts: BTreeMap<String, Val>,
    load: &'a mut Load<'b>,
}

const UT: Err = "UnexpectedToken";
const END: Err = "UnexpectedEnd";

impl P<'_, '_> {
    fn raw(&mut self) -> Option<Tok> {
        let t = self.toks.get(self.i).cloned();
        self.i += 1;
        t
    }
    /// The next token that is not a line end.
    fn next(&mut self) -> Result<Tok, Err> {
        loop {
            match self.raw() {
                None => return Err(END),
                Some(Tok::NewLine) => {}
                Some(t) => return Ok(t),
            }
        }
    }
    fn word(&mut self, e: Err) -> Result<String, Err> {
        match self.raw() {
            None => Err(END),
            Some(Tok::Id(s)) => Ok(s),
            Some(_) => Err(e),
        }
    }
    fn exact(&mut self, want: Tok, e: Err) -> Result<(), Err> {
        match self.raw() {
            None => Err(END),
            Some(t) if t == want => Ok(()),
            Some(_) => Err(e),
        }
    }
    fn value(&mut self, first: Tok) -> Result<Val, Err> {
        match first {
            Tok::Num(b) => Ok(Val::Num(f64::from_bits(b))),
            Tok::Str(s) => Ok(Val::str(&s)),
            Tok::Big(b) => Ok(Val::Big(Rc::new(b))),
            Tok::Op('[') => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        Tok::Op(']') => break,
                        t => v.push(self.value(t)?),
                    }
                    match self.next()? {
                        Tok::Op(',') => {}
                        Tok::Op(']') => break,
                        _ => return Err(UT),
                    }
                }
                Ok(Val::arr(v))
            }
            Tok::Op('{') => {
                let mut m = BTreeMap::new();
                loop {
                    let k = match self.next()? {
                        Tok::Op('}') => break,
                        Tok::Str(s) => s,
                        Tok::Id(s) if self.kind != Kind::Json => s,
                        _ => return Err(UT),
                    };
                    if self.next()? != Tok::Op(':') {
                        return Err(UT);
                    }
                    let t = self.next()?;
                    let v = self.value(t)?;
                    m.insert(k, v);
                    match self.next()? {
                        Tok::Op(',') => {}
                        Tok::Op('}') => break,
                        _ => return Err(UT),
                    }
                }
                Ok(Val::Obj(Rc::new(m.into_iter().map(|(k, v)| (u16s(&k), v)).collect())))
            }
            Tok::Id(s) if s == "require" && self.kind.cjs_ok() => {
                const E: Err = "WrongRequireStatement";
                self.kind = Kind::Cjs;
                if self.next()? != Tok::Op('(') {
                    return Err(E);
                }
                let Tok::Str(p) = self.next()? else { return Err(E) };
                let v = (self.load)(&p)?;
                if self.next()? != Tok::Op(')') {
                    return Err(E);
                }
                Ok(v)
            }
            Tok::Id(s) => match s.as_str() {
                "null" => Ok(Val::Null),
                "true" => Ok(Val::Bool(true)),
                "false" => Ok(Val::Bool(false)),
                _ => self.consts.get(&s).cloned().ok_or(UT),
            },
            _ => Err(UT),
        }
    }
    /// The value that ends the document.
    fn last(&mut self, first: Option<Tok>) -> Result<Val, Err> {
        let t = match first {
            Some(t) => t,
            None => self.next()?,
        };
        let v = self.value(t)?;
        match self.next() {
            Err(_) => Ok(v),
            Ok(_) => Err(UT),
        }
    }
    fn document(&mut self) -> Result<Val, Err> {
        let mut separated = true;
        loop {
            let t = self.raw().ok_or(END)?;
            if t == Tok::NewLine || (t == Tok::Op(';') && !separated) {
                separated = true;
                continue;
            }
            if !separated {
                return Err("NewLineExpected");
            }
            match &t {
                Tok::Id(s) if s == "const" => {
                    const E: Err = "WrongConstStatement";
                    if self.kind == Kind::Json {
                        self.kind = Kind::Djs;
                    }
                    let name = self.word(E)?;
                    self.exact(Tok::Op('='), E)?;
                    let t = self.next()?;
                    let v = self.value(t)?;
                    self.consts.insert(name, v);
                    separated = false;
                }
                Tok::Id(s) if s == "import" && self.kind.mjs_ok() => {
                    const E: Err = "WrongImportStatement";
                    self.kind = Kind::Mjs;
                    let name = self.word(E)?;
                    self.exact(Tok::Id("from".into()), E)?;
                    let p = match self.raw() {
                        None => return Err(END),
                        Some(Tok::Str(p)) => p,
                        Some(_) => return Err(E),
                    };
                    let v = (self.load)(&p)?;
                    self.consts.insert(name, v);
                    separated = false;
                }
                Tok::Id(s) if s == "export" && self.kind.mjs_ok() => {
                    self.kind = Kind::Mjs;
                    self.exact(Tok::Id("default".into()), "WrongExportStatement")?;
                    return self.last(None);
                }
                Tok::Id(s) if s == "module" && self.kind.cjs_ok() => {
                    const E: Err = "WrongExportStatement";
                    self.kind = Kind::Cjs;
                    self.exact(Tok::Op('.'), E)?;
                    self.exact(Tok::Id("exports".into()), E)?;
                    self.exact(Tok::Op('='), E)?;
                    return self.last(None);
                }
                _ => return self.last(Some(t)),
            }
        }
    }
}

/// Parses a document.
pub fn parse(toks: &[Tok], load: &mut Load) -> Result<(Kind, Val), Err> {
    let mut p = P { toks, i: 0, kind: Kind::Json, consts: BTreeMap::new(), load };
    let v = p.document()?;
    Ok((p.kind, v))
}
