//! An independent reader for STEP (ISO-10303-21) text: the oracle side never
//! uses the crate's own parser or printer.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Omit,
    Inh,
    Num(f64),
    Str(String),
    /// a binary literal, as written
    Bin(String),
    Enum(String),
    Ref(u64),
    List(Vec<V>),
    /// keyword with arguments: measure values, inline entities
    Typed(String, Vec<V>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub name: String,
    pub args: Vec<V>,
}

#[derive(Clone, Debug)]
pub struct File {
    /// header statements in order: keyword and arguments
    pub header: Vec<Ent>,
    /// data statements in file order; `raw` is the text between `=` and the final `;`
    pub data: Vec<(u64, Ent, String)>,
}

pub struct Rd<'a> {
    s: &'a [u8],
    src: &'a str,
    pub p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
    pub fn new(src: &'a str) -> Self {
        Rd { s: src.as_bytes(), src, p: 0 }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.p + 40).min(self.s.len());
        Err(format!("{m} at byte {}: {:?}", self.p, String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..e])))
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.p).unwrap_or(&0)
    }
    pub fn ws(&mut self) {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\r' | b'\n' => self.p += 1,
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => {
                    self.p += 2;
                    while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") {
                        self.p += 1;
                    }
                    self.p = (self.p + 2).min(self.s.len());
                }
                _ => return,
            }
        }
    }
    fn lit(&mut self, l: &str) -> R<()> {
        self.ws();
        if self.s[self.p..].starts_with(l.as_bytes()) {
            self.p += l.len();
            Ok(())
        } else {
            self.err(&format!("expected {l:?}"))
        }
    }
    fn word(&mut self) -> R<String> {
        self.ws();
        let b = self.p;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' || self.peek() == b'-' {
            self.p += 1;
        }
        if b == self.p {
            return self.err("expected a keyword");
        }
        Ok(self.src[b..self.p].to_string())
    }
    fn args(&mut self) -> R<Vec<V>> {
        self.lit("(")?;
        let mut v = Vec::new();
        self.ws();
        if self.peek() == b')' {
            self.p += 1;
            return Ok(v);
        }
        loop {
            v.push(self.val()?);
            self.ws();
            match self.peek() {
                b',' => self.p += 1,
                b')' => {
                    self.p += 1;
                    return Ok(v);
                }
                _ => return self.err("expected ',' or ')'"),
            }
        }
    }
    pub fn val(&mut self) -> R<V> {
        self.ws();
        match self.peek() {
            b'$' => {
                self.p += 1;
                Ok(V::Omit)
            }
            b'*' => {
                self.p += 1;
                Ok(V::Inh)
            }
            b'#' => {
                self.p += 1;
                let b = self.p;
                while self.peek().is_ascii_digit() {
                    self.p += 1;
                }
                match self.src[b..self.p].parse() {
                    Ok(n) => Ok(V::Ref(n)),
                    Err(_) => self.err("bad reference"),
                }
            }
            b'(' => Ok(V::List(self.args()?)),
            b'\'' => {
                self.p += 1;
                let b = self.p;
                loop {
                    match self.s.get(self.p) {
                        None => return self.err("unterminated string"),
                        Some(b'\'') if self.s.get(self.p + 1) == Some(&b'\'') => self.p += 2,
                        Some(b'\'') => break,
                        _ => self.p += 1,
                    }
                }
                let raw = &self.src[b..self.p];
                self.p += 1;
                Ok(V::Str(decode(&raw.replace("''", "'"))))
            }
            b'"' => {
                let b = self.p;
                self.p += 1;
                while self.p < self.s.len() && self.peek() != b'"' {
                    self.p += 1;
                }
                self.p = (self.p + 1).min(self.s.len());
                Ok(V::Bin(self.src[b..self.p].to_string()))
            }
            b'.' if self.s.get(self.p + 1).is_some_and(|c| c.is_ascii_alphabetic()) => {
                let b = self.p;
                self.p += 1;
                while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' {
                    self.p += 1;
                }
                if self.peek() != b'.' {
                    return self.err("unterminated enumeration");
                }
                self.p += 1;
                Ok(V::Enum(self.src[b..self.p].to_string()))
            }
            c if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                let b = self.p;
                if c == b'-' || c == b'+' {
                    self.p += 1;
                }
                let d = self.p;
                while self.peek().is_ascii_digit() {
                    self.p += 1;
                }
                if d == self.p {
                    return self.err("digits expected");
                }
                if self.peek() == b'.' {
                    self.p += 1;
                    while self.peek().is_ascii_digit() {
                        self.p += 1;
                    }
                }
                if self.peek() == b'E' || self.peek() == b'e' {
                    self.p += 1;
                    if self.peek() == b'-' || self.peek() == b'+' {
                        self.p += 1;
                    }
                    let e = self.p;
                    while self.peek().is_ascii_digit() {
                        self.p += 1;
                    }
                    if e == self.p {
                        return self.err("exponent expected");
                    }
                }
                match self.src[b..self.p].parse() {
                    Ok(n) => Ok(V::Num(n)),
                    Err(_) => self.err("bad number"),
                }
            }
            c if c.is_ascii_alphabetic() => {
                let w = self.word()?.to_uppercase();
                let a = self.args()?;
                // an inline entity keeps its own terminator
                if self.peek() == b';' && {
                    let mut look = Rd { s: self.s, src: self.src, p: self.p + 1 };
                    look.ws();
                    matches!(look.peek(), b',' | b')')
                } {
                    self.p += 1;
                }
                Ok(V::Typed(w, a))
            }
            _ => self.err("value expected"),
        }
    }
}

/// `\X2\hhhh...\X0\` sequences to characters
pub fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("\\X2\\") {
        let (a, b) = rest.split_at(i);
        out.push_str(a);
        let body = &b[4..];
        match body.find("\\X0\\") {
            Some(j) if j > 0 && j % 4 == 0 && body[..j].bytes().all(|c| c.is_ascii_hexdigit()) => {
                let units: Vec<u16> =
                    (0..j / 4).map(|k| u16::from_str_radix(&body[k * 4..k * 4 + 4], 16).unwrap()).collect();
                out.push_str(&String::from_utf16_lossy(&units));
                rest = &body[j + 4..];
            }
            _ => {
                // another may begin with the backslash at its end
                out.push('\\');
                rest = &b[1..];
            }
        }
    }
    out.push_str(rest);
    out
}

pub fn ent(text: &str) -> R<Ent> {
    let mut r = Rd::new(text);
    let name = r.word()?;
    let args = r.args()?;
    r.ws();
    if r.peek() == b';' {
        r.p += 1;
    }
    r.ws();
    if r.p != r.s.len() {
        return r.err("trailing text");
    }
    Ok(Ent { name, args })
}

pub fn file(text: &str) -> R<File> {
    let mut r = Rd::new(text);
    r.lit("ISO-10303-21")?;
    r.lit(";")?;
    r.lit("HEADER")?;
    r.lit(";")?;
    let mut header = Vec::new();
    loop {
        let w = r.word()?;
        if w == "ENDSEC" {
            r.lit(";")?;
            break;
        }
        let args = r.args()?;
        r.lit(";")?;
        header.push(Ent { name: w, args });
    }
    r.lit("DATA")?;
    r.lit(";")?;
    let mut data = Vec::new();
    loop {
        r.ws();
        if r.peek() != b'#' {
            break;
        }
        let V::Ref(id) = r.val()? else { unreachable!() };
        r.lit("=")?;
        r.ws();
        let b = r.p;
        // a complex instance is kept as a list of its parts
        let (name, args) = if r.peek() == b'(' {
            r.p += 1;
            let mut parts = Vec::new();
            loop {
                r.ws();
                if r.peek() == b')' {
                    r.p += 1;
                    break;
                }
                let w = r.word()?;
                parts.push(V::Typed(w, r.args()?));
            }
            (String::new(), parts)
        } else {
            (r.word()?, r.args()?)
        };
        let e = r.p;
        r.lit(";")?;
        data.push((id, Ent { name, args }, text[b..e].to_string()));
    }
    r.lit("ENDSEC")?;
    r.lit(";")?;
    r.lit("END-ISO-10303-21")?;
    r.lit(";")?;
    r.ws();
    if r.p != r.s.len() {
        return r.err("trailing text");
    }
    Ok(File { header, data })
}

impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Omit => write!(f, "$"),
            V::Inh => write!(f, "*"),
            V::Num(n) => write!(f, "{n:?}"),
            V::Str(s) => write!(f, "'{}'", s.replace('\'', "''")),
            V::Enum(s) | V::Bin(s) => write!(f, "{s}"),
            V::Ref(n) => write!(f, "#{n}"),
            V::List(l) => {
                write!(f, "(")?;
                for (i, x) in l.iter().enumerate() {
                    write!(f, "{}{x}", if i > 0 { "," } else { "" })?;
                }
                write!(f, ")")
            }
            V::Typed(n, l) => write!(f, "{n}{}", V::List(l.clone())),
        }
    }
}
impl fmt::Display for Ent {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{}", self.name, V::List(self.args.clone()))
    }
}
