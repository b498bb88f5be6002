//! A second, independent tokenizer: what a text consists of, without the parser's opinion.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Word,
    /// Name in backticks
    Quoted,
    Str,
    Int,
    Float,
    /// `?`
    Q,
    /// `%s`
    Pct,
    /// `$n`
    Dollar,
    Op,
    /// No token starts here, or a token that does not end
    Bad,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lex {
    pub t: T,
    pub s: usize,
    pub e: usize,
}

const OPS: &[&str] = &[
    "<=>", "&&", "||", "<<", ">>", "<=", ">=", "<>", "!=", "!!", "::", "=>", "$$", "<", ">", "=", "!", "+", "-", "*", "/", "^", "~", ":", ".", ",", ";", "(", ")", "[", "]", "{", "}", "#", "\\", "%", "&", "|", "@",
];

fn word(b: &[u8]) -> usize {
    b.iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count()
}
fn digits(b: &[u8]) -> usize {
    b.iter().take_while(|c| c.is_ascii_digit()).count()
}

/// The token at the start of `s`: its kind and length. None: white space or a comment of that length
fn one(s: &str) -> (Option<T>, usize) {
    let b = s.as_bytes();
    let c = b[0];
    let line = || s.bytes().position(|c| c == b'\n' || c == b'\r').map(|p| p + 1).unwrap_or(s.len());
    let first = s.chars().next().unwrap().len_utf8();
    match c {
        b' ' | b'\t' | b'\n' | b'\r' => (None, 1),
        b'-' if s.starts_with("--") => (None, line()),
        b'/' if s.starts_with("//") => (None, line()),
        b'/' if s.starts_with("/*") => match s[2..].find("*/") {
            Some(p) => (None, p + 4),
            None => (Some(T::Bad), s.len()),
        },
        b'x' | b'X' if b.get(1) == Some(&b'\'') => (Some(T::Bad), s[2..].find('\'').map(|p| p + 3).unwrap_or(s.len())),
        b'_' | b'a'..=b'z' | b'A'..=b'Z' => (Some(T::Word), word(b)),
        b'0'..=b'9' => {
            let n = digits(b);
            if b.get(n) == Some(&b'.') {
                (Some(T::Float), n + 1 + digits(&b[n + 1..]))
            } else {
                (Some(T::Int), n)
            }
        }
        b'.' if b.get(1).map(|c| c.is_ascii_digit()).unwrap_or(false) => (Some(T::Float), 1 + digits(&b[1..])),
        b'`' => {
            let n = b[1..].iter().take_while(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-')).count();
            if b.get(n + 1) == Some(&b'`') {
                (Some(T::Quoted), n + 2)
            } else {
                (Some(T::Bad), n + 1)
            }
        }
        b'\'' | b'"' => {
            let mut i = 1;
            loop {
                match b.get(i) {
                    None => return (Some(T::Bad), s.len()),
                    Some(b'\\') => i += 1 + s[i + 1..].chars().next().map(|c| c.len_utf8()).unwrap_or(0),
                    Some(d) if *d == c => {
                        if b.get(i + 1) == Some(&c) {
                            i += 2
                        } else {
                            return (Some(T::Str), i + 1);
                        }
                    }
                    Some(_) => i += 1,
                }
            }
        }
        b'?' => (Some(T::Q), 1),
        b'%' if b.get(1) == Some(&b's') => (Some(T::Pct), 2),
        b'$' if b.get(1) == Some(&b'$') => (Some(T::Op), 2),
        b'$' if matches!(b.get(1), Some(b'1'..=b'9')) => {
            let n = digits(&b[1..]);
            (Some(if s[1..1 + n].parse::<usize>().is_ok() { T::Dollar } else { T::Bad }), n + 1)
        }
        b'@' if b.get(1) == Some(&b'@') => {
            let n = word(&b[2..]);
            let l = s[2..2 + n].to_ascii_lowercase();
            if l.starts_with("session") {
                (Some(T::Op), 9)
            } else if l.starts_with("global") {
                (Some(T::Op), 8)
            } else {
                (Some(T::Bad), 2)
            }
        }
        _ => {
            for o in OPS {
                if s.starts_with(o) {
                    return (Some(T::Op), o.len());
                }
            }
            (Some(T::Bad), first)
        }
    }
}

pub fn lex(s: &str) -> Vec<Lex> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let (t, n) = one(&s[i..]);
        if let Some(t) = t {
            v.push(Lex { t, s: i, e: i + n });
        }
        i += n;
    }
    v
}

impl Lex {
    pub fn text<'a>(&self, s: &'a str) -> &'a str {
        &s[self.s..self.e]
    }
    pub fn literal(&self) -> bool {
        matches!(self.t, T::Str | T::Int | T::Float)
    }
    pub fn arg(&self) -> bool {
        matches!(self.t, T::Q | T::Pct | T::Dollar)
    }
}

/// First reason why no text with these tokens can be valid, brackets and broken tokens only
pub fn malformed(s: &str, v: &[Lex]) -> Option<String> {
    let mut st: Vec<&str> = Vec::new();
    for l in v {
        if l.t == T::Bad {
            return Some(format!("{:?} at {} is no token", l.text(s).chars().take(20).collect::<String>(), l.s));
        }
        if l.t == T::Op {
            match l.text(s) {
                o @ ("(" | "[" | "{") => st.push(o),
                c @ (")" | "]" | "}") => {
                    let w = match c {
                        ")" => "(",
                        "]" => "[",
                        _ => "{",
                    };
                    if st.pop() != Some(w) {
                        return Some(format!("stray {c:?} at {}", l.s));
                    }
                }
                _ => {}
            }
        }
    }
    st.last().map(|o| format!("unclosed {o:?}"))
}
