//! An independent STEP tokeniser, used to place insertions and mutations.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Word,
    Num,
    Str,
    Enum,
    Ref,
    Omit,
    Star,
    Open,
    Close,
    Comma,
    Eq,
    Semi,
    Other,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub t: T,
    pub a: usize,
    pub b: usize,
}

/// tokens of a STEP text, blanks and comments left out
pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let a = i;
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if s[i..].starts_with("/*") {
            i = s[i..].find("*/").map(|j| i + j + 2).unwrap_or(b.len());
            continue;
        }
        let t = match c {
            b'(' => T::Open,
            b')' => T::Close,
            b',' => T::Comma,
            b'=' => T::Eq,
            b';' => T::Semi,
            b'$' => T::Omit,
            b'*' => T::Star,
            b'\'' => {
                i += 1;
                loop {
                    if i >= b.len() {
                        break;
                    }
                    if b[i] == b'\'' {
                        if b.get(i + 1) == Some(&b'\'') {
                            i += 2;
                            continue;
                        }
                        break;
                    }
                    i += 1;
                }
                T::Str
            }
            b'.' => {
                i += 1;
                while i < b.len() && b[i] != b'.' {
                    i += 1;
                }
                T::Enum
            }
            b'#' => {
                while i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                    i += 1;
                }
                T::Ref
            }
            c if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                while i + 1 < b.len()
                    && (b[i + 1].is_ascii_digit()
                        || b[i + 1] == b'.'
                        || b[i + 1] == b'E'
                        || ((b[i + 1] == b'-' || b[i + 1] == b'+') && b[i] == b'E'))
                {
                    i += 1;
                }
                T::Num
            }
            c if c.is_ascii_alphabetic() => {
                while i + 1 < b.len()
                    && (b[i + 1].is_ascii_alphanumeric() || b[i + 1] == b'_' || b[i + 1] == b'-')
                {
                    i += 1;
                }
                T::Word
            }
            _ => T::Other,
        };
        i += 1;
        while !s.is_char_boundary(i.min(s.len())) {
            i += 1;
        }
        v.push(Tok { t, a, b: i.min(b.len()) });
    }
    v
}
