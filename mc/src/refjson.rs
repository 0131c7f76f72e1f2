//! An independent JSON reader: strict, compact texts, with the extended forms for bigints.
use crate::refint::Int;
use crate::value::Val;
use std::rc::Rc;

struct Json<'a>(&'a [u8], usize);
impl Json<'_> {
    fn peek(&self) -> u8 {
        *self.0.get(self.1).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() != c {
            return Err(format!("{:?} expected at {}", c as char, self.1));
        }
        self.1 += 1;
        Ok(())
    }
    fn digits(&mut self) -> Result<(), String> {
        let a = self.1;
        while self.peek().is_ascii_digit() {
            self.1 += 1
        }
        if a == self.1 {
            return Err(format!("digit expected at {a}"));
        }
        Ok(())
    }
    fn string(&mut self) -> Result<Vec<u16>, String> {
        self.eat(b'"')?;
        let mut v = vec![];
        loop {
            let c = self.peek();
            self.1 += 1;
            match c {
                b'"' => return Ok(v),
                b'\\' => {
                    let e = self.peek();
                    self.1 += 1;
                    v.push(match e {
                        b'"' | b'\\' | b'/' => e as u16,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => {
                            let h = self.0.get(self.1..self.1 + 4).ok_or("short escape")?;
                            self.1 += 4;
                            let mut u = 0u16;
                            for d in h {
                                u = u * 16 + (*d as char).to_digit(16).ok_or("bad escape")? as u16;
                            }
                            u
                        }
                        _ => return Err(format!("bad escape at {}", self.1)),
                    })
                }
                0x20..=0x7f => v.push(c as u16),
                _ => return Err(format!("raw {c} in a string at {}", self.1)),
            }
        }
    }
    fn value(&mut self) -> Result<Val, String> {
        let lit = |s: &mut Self, t: &str, v: Val| {
            if s.0[s.1..].starts_with(t.as_bytes()) {
                s.1 += t.len();
                Ok(v)
            } else {
                Err(format!("bad literal at {}", s.1))
            }
        };
        match self.peek() {
            b'n' => lit(self, "null", Val::Null),
            b't' => lit(self, "true", Val::Bool(true)),
            b'f' => lit(self, "false", Val::Bool(false)),
            b'"' => Ok(Val::Str(Rc::new(self.string()?))),
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                if self.peek() == b']' {
                    self.1 += 1;
                    return Ok(Val::arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek() == b']' {
                        self.1 += 1;
                        return Ok(Val::arr(v));
                    }
                    self.eat(b',')?;
                }
            }
            b'{' => {
                self.1 += 1;
                let mut v = vec![];
                if self.peek() == b'}' {
                    self.1 += 1;
                    return Ok(Val::Obj(Rc::new(v)));
                }
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    if self.peek() == b'}' {
                        self.1 += 1;
                        return Ok(Val::Obj(Rc::new(v)));
                    }
                    self.eat(b',')?;
                }
            }
            _ => {
                let a = self.1;
                if self.peek() == b'-' {
                    self.1 += 1
                }
                if self.peek() == b'0' {
                    self.1 += 1
                } else {
                    self.digits()?
                }
                let text = |s: &Self| std::str::from_utf8(&s.0[a..s.1]).unwrap().to_string();
                if self.peek() == b'n' {
                    let t = text(self);
                    self.1 += 1;
                    return Ok(Val::Big(Rc::new(Int::from_decimal(&t))));
                }
                if self.peek() == b'.' {
                    self.1 += 1;
                    self.digits()?
                }
                if matches!(self.peek(), b'e' | b'E') {
                    self.1 += 1;
                    if matches!(self.peek(), b'+' | b'-') {
                        self.1 += 1
                    }
                    self.digits()?
                }
                Ok(Val::Num(text(self).parse::<f64>().map_err(|e| e.to_string())?))
            }
        }
    }
}
pub fn read_json(t: &str) -> Result<Val, String> {
    if !t.is_ascii() {
        return Err("the text is not ASCII".into());
    }
    let mut j = Json(t.as_bytes(), 0);
    let v = j.value()?;
    if j.1 != t.len() {
        return Err(format!("more text at {}", j.1));
    }
    Ok(v)
}

