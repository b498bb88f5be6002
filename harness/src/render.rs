//! Tokens and how they are laid out as text.
use crate::n::S;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    /// Keyword, known function name, type name or unit: case does not matter
    Kw,
    /// Unquoted name
    Id,
    /// Quoted name
    Q,
    Num,
    Str,
    Arg,
    Op,
    /// Copied verbatim, glued to both sides (COPY data)
    Raw,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub t: String,
    /// Not represented in the tree by design
    pub ex: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    /// One space between tokens
    Single,
    /// As little white space as possible
    Tight,
    /// Random white space
    Space,
    /// Random white space and comments
    Wild,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Case {
    Upper,
    Lower,
    Random,
}

pub struct Text {
    pub s: String,
    pub at: Vec<(usize, usize)>,
}

impl Text {
    pub fn span(&self, s: S) -> (usize, usize) {
        if s.0 >= s.1 || s.1 > self.at.len() {
            return (0, 0);
        }
        (self.at[s.0].0, self.at[s.1 - 1].1)
    }
}

/// Must something separate the two tokens for them to stay two tokens?
pub fn need_space(a: &Tok, b: &Tok) -> bool {
    use K::*;
    let punct = |t: &Tok| t.k == Op && matches!(t.t.as_str(), "(" | ")" | "," | ";");
    if a.k == Raw || b.k == Raw {
        return false;
    }
    if punct(a) || punct(b) {
        return false;
    }
    match (a.k, b.k) {
        (Op, Op) => true,
        (Op, _) => match a.t.as_str() {
            "." => !matches!(b.k, Kw | Id | Q),
            "@" => !matches!(b.k, Id | Q),
            "$$" => true,
            "%" | "/" | "-" | ":" | "?" => true,
            "@@GLOBAL" | "@@SESSION" => true,
            _ => b.k == Arg || b.t.starts_with('.'),
        },
        (_, Op) => match b.t.as_str() {
            "." => !matches!(a.k, Kw | Id | Q),
            "$$" => true,
            "%" => true,
            _ => a.k == Arg,
        },
        (Q, Kw | Id | Q) | (Kw | Id, Q) if a.t.starts_with('`') || b.t.starts_with('`') => false,
        (Str, Kw | Num) => false,
        // The number of a placeholder ends at the first letter
        (Arg, Kw | Id) => false,
        _ => true,
    }
}

fn cased(t: &Tok, c: Case, r: &mut Rng) -> String {
    if t.k != K::Kw {
        return t.t.clone();
    }
    match c {
        Case::Upper => t.t.clone(),
        Case::Lower => t.t.to_ascii_lowercase(),
        Case::Random => t
            .t
            .chars()
            .map(|c| if r.p(50) { c.to_ascii_lowercase() } else { c })
            .collect(),
    }
}

const WS: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\n\n", " \t ", "\n    ", "\r"];
const INSIDE: &[&str] = &[
    "", " x ", " SELECT 1; ", " it's ", " \"q ", " `b ", "é", " 日本 ", " ) ( ", " DELIMITER ", " \\ ", " ? %s $1 ", " END ", "* /", "😀", " x", "/x", " a * b", "%", "\t", " -- ", " // ", " # ", " 0x ", " ''", "; DROP ", "\u{c}", "\u{b} )", " \u{85} )", "\u{2028})", "\0", "\u{feff}", " x \u{a0}(", "\u{1a}", "\u{7f}'", "\u{1b}",
];

/// Stars at the start or end of a comment
const STARS: &[&str] = &["*", "**", "***", "****", " *", "* *", "*****"];

/// What is written inside of a comment
fn inside(r: &mut Rng) -> String {
    const ODD: &[char] = &['+', '!', '*', '/', '-', '#', ';', '\'', '"', '`', '\\', '(', ')', '{', '@', '$', '0', '4', 'S', 'x', ' ', ' ', '=', '%', '?', ':'];
    match r.n(6) {
        5 => (0..r.r(1, 4)).map(|_| r.ch()).filter(|c| !matches!(c, '\n' | '\r')).collect(),
        0..=2 => r.pick(INSIDE).to_string(),
        3 => (0..r.r(1, 6)).map(|_| *r.pick(ODD)).collect(),
        _ => format!("{}{}", r.pick(&["+", "!", "!40101 SET ", "+*/", "*/", "--", "- ", "!!", "#", "M!100 ", "/", "//", "{", "$$"]), r.pick(INSIDE)),
    }
}

fn comment(r: &mut Rng, o: &mut String) {
    match r.n(4) {
        0 | 1 => {
            let mut c = String::new();
            let n = if r.p(30) { 2 } else { 1 };
            for i in 0..n {
                if i > 0 {
                    c.push('\n')
                }
                if r.p(30) {
                    c.push_str(r.pick(STARS))
                }
                c.push_str(&inside(r));
                if r.p(30) {
                    c.push_str(r.pick(STARS))
                }
            }
            if r.p(10) {
                c.push('/')
            }
            o.push_str("/*");
            while c.contains("*/") {
                c = c.replace("*/", "* /");
            }
            o.push_str(&c);
            o.push_str("*/");
        }
        2 => {
            o.push_str("--");
            o.push_str(&inside(r));
            o.push_str(if r.p(20) { "\r\n" } else { "\n" });
        }
        _ => {
            o.push_str("//");
            o.push_str(&inside(r));
            o.push('\n');
        }
    }
}

/// White space or comments between two tokens
fn gap(l: Layout, need: bool, r: &mut Rng, o: &mut String) {
    match l {
        Layout::Single => o.push(' '),
        Layout::Tight => {
            if need {
                o.push(' ')
            }
        }
        Layout::Space => {
            if need || r.p(70) {
                let w = r.pick(WS);
                o.push_str(w)
            }
        }
        Layout::Wild => {
            let mut any = false;
            if r.n(20_000) == 0 {
                let n = r.r(200, 70_000);
                match r.n(3) {
                    0 => o.push_str(&" ".repeat(n)),
                    1 => o.push_str(&"\n".repeat(n)),
                    _ => o.push_str(&format!(" /*{}*/", "é'".repeat(n / 3))),
                }
                any = true;
            }
            if need || r.p(50) {
                let w = r.pick(WS);
                o.push_str(w);
                any = true;
            }
            while r.p(25) {
                // A comment directly after '/' or '-' would read differently
                if !any && matches!(o.chars().last(), Some('/' | '-')) {
                    o.push(' ');
                }
                comment(r, o);
                any = true;
                if r.p(50) {
                    let w = r.pick(WS);
                    o.push_str(w);
                }
            }
        }
    }
}

pub fn render(toks: &[Tok], l: Layout, c: Case, r: &mut Rng) -> Text {
    let mut s = String::new();
    let mut at = Vec::with_capacity(toks.len());
    if matches!(l, Layout::Space | Layout::Wild) && r.p(50) && toks.first().map(|t| t.k != K::Raw).unwrap_or(true) {
        gap(l, false, r, &mut s);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            if p.k != K::Raw && t.k != K::Raw {
                gap(l, need_space(p, t), r, &mut s);
            }
        }
        let st = s.len();
        s.push_str(&cased(t, c, r));
        at.push((st, s.len()));
    }
    if matches!(l, Layout::Space | Layout::Wild) && r.p(50) && toks.last().map(|t| t.k != K::Raw).unwrap_or(true) {
        gap(l, false, r, &mut s);
    }
    Text { s, at }
}

pub fn plain(toks: &[Tok]) -> Text {
    render(toks, Layout::Single, Case::Upper, &mut Rng::new(0))
}
