//! Hostile texts: mutated statements, token soup, random characters.
use crate::gen::*;
use crate::render::*;
use crate::rng::Rng;
use crate::words;

const OPS: &[&str] = &[
    "(", ")", ",", ";", ".", "=", "<", ">", "<=", ">=", "<>", "!=", "<=>", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "!!", "&&", "||", "<<", ">>", ":", "::", "=>", "[", "]", "{", "}", "@", "#", "\\", "$$", "@@GLOBAL", "@@SESSION", "?", "%s", "$1", "$2", "$99999999999999999999999",
];
const LITS: &[&str] = &[
    "1", "0", "18446744073709551615", "18446744073709551616", "9223372036854775808", "00", "1.5", ".5", "7.", "'a'", "\"b\"", "''", "'it''s'", "'\\''", "'é\\é'", "'", "\"", "`", "x'12'", "X'", "0x1F", "1e5", "_utf8", "`q`", "`a b`", "é", "\u{0}", "日本", "😀", "\u{feff}", "\u{a0}",
];
const HOT: &[&str] = &[
    "SELECT", "FROM", "WHERE", "AS", "BEGIN", "END", "IF", "THEN", "ELSE", "CASE", "WHEN", "NOT", "AND", "OR", "IN", "IS", "NULL", "ON", "SET", "TABLE", "CREATE", "DROP", "ALTER", "UNION", "ALL", "WITH", "INSERT", "INTO", "VALUES", "UPDATE", "DELETE", "JOIN", "LEFT", "ORDER", "BY", "GROUP", "LIMIT", "DELIMITER", "DO", "COPY", "STDIN", "TRIGGER", "FUNCTION", "INTERVAL", "DISTINCT", "EXISTS", "EXCEPTION", "RETURN", "COLLATE", "OVER", "_LIST_",
];

pub fn token(r: &mut Rng) -> Tok {
    let (k, t) = match r.n(10) {
        0..=2 => (K::Kw, r.pick(words::keywords()).to_string()),
        3 | 4 => (K::Kw, r.pick(HOT).to_string()),
        5 | 6 => (K::Op, r.pick(OPS).to_string()),
        7 => (K::Num, r.pick(LITS).to_string()),
        8 => (K::Id, r.pick(SHORT).to_string()),
        _ => (K::Kw, r.pick(words::functions()).0.to_string()),
    };
    Tok { k, t, ex: false }
}
/// One that is no literal noise, so that the result may well be accepted
pub fn tame(r: &mut Rng) -> Tok {
    loop {
        let t = token(r);
        if t.k == K::Num && !["1", "0", "1.5", "'a'", "`q`", "\"b\"", "''"].contains(&t.t.as_str()) {
            continue;
        }
        return t;
    }
}

/// A few random changes to a sequence of tokens
pub fn tokens(r: &mut Rng, v: &mut Vec<Tok>, wild: bool) {
    let n = [1, 1, 1, 2, 3, 6][r.n(6)];
    for _ in 0..n {
        let l = v.len();
        let new = |r: &mut Rng| if wild { token(r) } else { tame(r) };
        match r.n(9) {
            0 | 1 if l > 1 => {
                v.remove(r.n(l));
            }
            2 if l > 0 => {
                let i = r.n(l);
                v[i] = new(r);
            }
            3 => {
                let t = new(r);
                v.insert(r.n(l + 1), t);
            }
            4 if l > 1 => {
                let i = r.n(l - 1);
                v.swap(i, i + 1);
            }
            5 if l > 0 => {
                // Another token of the text
                let (i, j) = (r.n(l), r.n(l));
                v[i] = v[j].clone();
            }
            6 if l > 0 => {
                // A run of tokens again
                let i = r.n(l);
                let k = (i + 1 + r.n(6)).min(l);
                let c: Vec<Tok> = v[i..k].to_vec();
                let at = r.n(l + 1);
                v.splice(at..at, c);
            }
            7 if l > 2 => {
                let i = r.n(l);
                let k = (i + 1 + r.n(5)).min(l);
                v.drain(i..k);
            }
            _ if l > 2 => v.truncate(1 + r.n(l - 1)),
            _ => {}
        }
    }
}

/// Other texts for the strings
pub fn strings(r: &mut Rng, v: &mut [Tok]) {
    const PARTS: &[&str] = &["\\'", "''", "\\n", "\\\\", "é", "日本", "😀", " ", "  ", "x", "1", "12", ":", ".", "-", "1:2", "\n", "\"", "\\\"", "\u{301}", "é1", "\\0", "%", "\\Z", "\u{0}"];
    for t in v.iter_mut().filter(|t| t.k == K::Str) {
        if r.p(80) {
            let n = r.n(6);
            t.t = format!("'{}'", (0..n).map(|_| *r.pick(PARTS)).collect::<String>());
        }
    }
}

pub fn soup(r: &mut Rng, n: usize) -> Vec<Tok> {
    (0..n).map(|_| token(r)).collect()
}

const CHARS: &[char] = &[
    ' ', '\n', '\t', '\r', '\'', '"', '`', '\\', '(', ')', '[', ']', '{', '}', ',', ';', '.', ':', '=', '<', '>', '!', '+', '-', '*', '/', '%', '&', '|', '^', '~', '@', '#', '$', '?', '_', 'a', 'x', 'X', 's', 'S', 'e', 'E', '0', '1', '9', 'é', '日', '😀', '\u{0}', '\u{feff}', '\u{2028}', '\u{a0}',
];

pub fn noise(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match r.n(12) {
            0 => s.push_str(r.pick(HOT)),
            1 => s.push(char::from_u32(r.n(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            2 => s.push_str(r.pick(&["--", "/*", "*/", "//", "$$", "@@", "@@session", "@@glob", "x'", "''", "\\'", "\\.", "\n\\.\n", "$1", "%s"])),
            _ => s.push(*r.pick(CHARS)),
        }
    }
    s
}

/// A few random changes to the characters of a text
pub fn chars(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..[1, 1, 2, 4][r.n(4)] {
        let l = v.len();
        match r.n(5) {
            0 | 1 if l > 0 => {
                v.remove(r.n(l));
            }
            2 if r.p(20) => v.insert(r.n(l + 1), r.ch()),
            2 => v.insert(r.n(l + 1), *r.pick(CHARS)),
            3 if l > 0 => {
                let i = r.n(l);
                v[i] = *r.pick(CHARS)
            }
            4 if l > 1 => v.truncate(r.n(l)),
            _ => {}
        }
    }
    v.into_iter().collect()
}
