//! Parser for the `{:?}` output of the AST. The crate derives `Debug` for every node, so this
//! gives the monitors a uniform, complete view of what the parser reported, private types included.

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    St(String, Vec<(String, D)>),
    Tu(String, Vec<D>),
    Li(Vec<D>),
    At(String),
    Str(String),
    Sp(usize, usize),
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Result<D, String> {
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    let d = p.val()?;
    if p.i != p.b.len() {
        return Err(format!("trailing debug output at {}: {}", p.i, &s[p.i..]));
    }
    Ok(d)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n') {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {} of {}", c as char, self.i, self.s))
        }
    }
    fn word(&mut self) -> &'a str {
        let st = self.i;
        while self.i < self.b.len()
            && (self.b[self.i].is_ascii_alphanumeric() || matches!(self.b[self.i], b'_' | b'+' | b'-'))
        {
            self.i += 1
        }
        &self.s[st..self.i]
    }
    fn seq(&mut self, end: u8) -> Result<Vec<D>, String> {
        let mut v = Vec::new();
        loop {
            self.ws();
            if self.eat(end) {
                return Ok(v);
            }
            v.push(self.val()?);
            self.ws();
            if !self.eat(b',') {
                self.ws();
                self.need(end)?;
                return Ok(v);
            }
        }
    }
    fn val(&mut self) -> Result<D, String> {
        self.ws();
        match self.peek() {
            b'[' => {
                self.i += 1;
                Ok(D::Li(self.seq(b']')?))
            }
            b'(' => {
                self.i += 1;
                Ok(D::Tu(String::new(), self.seq(b')')?))
            }
            b'"' => Ok(D::Str(self.string()?)),
            c if c.is_ascii_digit() || c == b'-' => {
                let st = self.i;
                self.i += 1;
                loop {
                    let c = self.peek();
                    if c == b'.' && self.b.get(self.i + 1) == Some(&b'.') {
                        break;
                    }
                    if c.is_ascii_digit() || c == b'.' || c == b'e' || ((c == b'-' || c == b'+') && self.b[self.i - 1] == b'e') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                let a = &self.s[st..self.i];
                if self.s[self.i..].starts_with("..") {
                    self.i += 2;
                    let st = self.i;
                    while self.peek().is_ascii_digit() {
                        self.i += 1
                    }
                    let b = &self.s[st..self.i];
                    return Ok(D::Sp(
                        a.parse().map_err(|_| format!("span {a}"))?,
                        b.parse().map_err(|_| format!("span {b}"))?,
                    ));
                }
                Ok(D::At(a.to_string()))
            }
            _ => {
                let w = self.word().to_string();
                if w.is_empty() {
                    return Err(format!("no value at {} of {}", self.i, self.s));
                }
                if self.eat(b'(') {
                    return Ok(D::Tu(w, self.seq(b')')?));
                }
                if self.s[self.i..].starts_with(" {") {
                    self.i += 2;
                    let mut f = Vec::new();
                    loop {
                        self.ws();
                        if self.eat(b'}') {
                            break;
                        }
                        let k = self.word().to_string();
                        self.ws();
                        self.need(b':')?;
                        let v = self.val()?;
                        f.push((k, v));
                        self.ws();
                        if !self.eat(b',') {
                            self.ws();
                            self.need(b'}')?;
                            break;
                        }
                    }
                    return Ok(D::St(w, f));
                }
                Ok(D::At(w))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.need(b'"')?;
        let mut o = String::new();
        loop {
            let c = self.s[self.i..].chars().next().ok_or("unterminated debug string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'n' => o.push('\n'),
                        b'r' => o.push('\r'),
                        b't' => o.push('\t'),
                        b'0' => o.push('\0'),
                        b'\\' => o.push('\\'),
                        b'"' => o.push('"'),
                        b'\'' => o.push('\''),
                        b'u' => {
                            self.need(b'{')?;
                            let st = self.i;
                            while self.peek() != b'}' {
                                self.i += 1
                            }
                            let v = u32::from_str_radix(&self.s[st..self.i], 16).map_err(|e| e.to_string())?;
                            self.i += 1;
                            o.push(char::from_u32(v).ok_or("bad char")?);
                        }
                        _ => return Err(format!("bad escape at {}", self.i)),
                    }
                }
                c => o.push(c),
            }
        }
    }
}

impl D {
    /// Visit every node, parents first
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a D)) {
        f(self);
        match self {
            D::St(_, v) => v.iter().for_each(|(_, d)| d.walk(f)),
            D::Tu(_, v) | D::Li(v) => v.iter().for_each(|d| d.walk(f)),
            _ => {}
        }
    }
    /// All spans, in tree order
    pub fn spans(&self) -> Vec<(usize, usize)> {
        let mut o = Vec::new();
        self.walk(&mut |d| {
            if let D::Sp(a, b) = d {
                o.push((*a, *b))
            }
        });
        o
    }
    pub fn name(&self) -> &str {
        match self {
            D::St(n, _) | D::Tu(n, _) | D::At(n) => n,
            _ => "",
        }
    }
    /// The tree without positions, and with every argument number renumbered through `f`
    pub fn map(&self, sp: &dyn Fn(usize, usize) -> D, arg: &dyn Fn(usize) -> usize) -> D {
        match self {
            D::St(n, v) => D::St(n.clone(), v.iter().map(|(k, d)| (k.clone(), d.map(sp, arg))).collect()),
            D::Tu(n, v) if n == "Arg" || n == "ListHack" => {
                if let [D::Tu(_, w)] = &v[..] {
                    if let [D::At(a), s] = &w[..] {
                        let a: usize = a.parse().unwrap_or(usize::MAX);
                        return D::Tu(
                            n.clone(),
                            vec![D::Tu(String::new(), vec![D::At(arg(a).to_string()), s.map(sp, arg)])],
                        );
                    }
                }
                D::Tu(n.clone(), v.iter().map(|d| d.map(sp, arg)).collect())
            }
            D::Tu(n, v) => D::Tu(n.clone(), v.iter().map(|d| d.map(sp, arg)).collect()),
            D::Li(v) => D::Li(v.iter().map(|d| d.map(sp, arg)).collect()),
            D::Sp(a, b) => sp(*a, *b),
            d => d.clone(),
        }
    }
    pub fn nospan(&self) -> D {
        self.map(&|_, _| D::Sp(0, 0), &|a| a)
    }
    /// `(number, span)` of every placeholder
    pub fn args(&self) -> Vec<(usize, (usize, usize))> {
        let mut o = Vec::new();
        self.walk(&mut |d| {
            if let D::Tu(n, v) = d {
                if n == "Arg" || n == "ListHack" {
                    if let [D::Tu(_, w)] = &v[..] {
                        if let [D::At(a), D::Sp(s, e)] = &w[..] {
                            o.push((a.parse().unwrap_or(usize::MAX), (*s, *e)))
                        }
                    }
                }
            }
        });
        o
    }
}

/// Path of the first difference between two trees
pub fn diff(a: &D, b: &D) -> Option<String> {
    fn go(a: &D, b: &D, path: &mut Vec<String>) -> Option<String> {
        let here = |path: &Vec<String>, m: String| Some(format!("{}: {}", path.join("."), m));
        match (a, b) {
            (D::St(n, v), D::St(m, w)) if n == m && v.len() == w.len() => {
                for ((k, x), (l, y)) in v.iter().zip(w) {
                    if k != l {
                        return here(path, format!("field {k} / {l}"));
                    }
                    path.push(k.clone());
                    if let Some(r) = go(x, y, path) {
                        return Some(r);
                    }
                    path.pop();
                }
                None
            }
            (D::Tu(n, v), D::Tu(m, w)) if n == m && v.len() == w.len() => {
                for (i, (x, y)) in v.iter().zip(w).enumerate() {
                    path.push(format!("{n}[{i}]"));
                    if let Some(r) = go(x, y, path) {
                        return Some(r);
                    }
                    path.pop();
                }
                None
            }
            (D::Li(v), D::Li(w)) if v.len() == w.len() => {
                for (i, (x, y)) in v.iter().zip(w).enumerate() {
                    path.push(format!("[{i}]"));
                    if let Some(r) = go(x, y, path) {
                        return Some(r);
                    }
                    path.pop();
                }
                None
            }
            _ if a == b => None,
            _ => here(path, format!("{} / {}", short(a), short(b))),
        }
    }
    go(a, b, &mut Vec::new())
}

pub fn short(d: &D) -> String {
    let s = show(d);
    if s.len() > 160 {
        let mut e = 160;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}…", &s[..e])
    } else {
        s
    }
}

pub fn show(d: &D) -> String {
    match d {
        D::St(n, v) => format!("{n} {{ {} }}", v.iter().map(|(k, d)| format!("{k}: {}", show(d))).collect::<Vec<_>>().join(", ")),
        D::Tu(n, v) => format!("{n}({})", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        D::Li(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        D::At(a) => a.clone(),
        D::Str(s) => format!("{s:?}"),
        D::Sp(a, b) => format!("{a}..{b}"),
    }
}
