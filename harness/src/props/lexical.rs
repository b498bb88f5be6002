//! C07 to C13: literals, names, letter case, layout, placeholders, operators.
use super::*;
use crate::dbg::{diff, short, D};
use crate::gexpr::{BIN, IS, UN};
use crate::lex::{lex, Lex, T};
use crate::mutate;
use crate::n::{at, S};
use crate::words;
use crate::{st, tu, tup};

pub const DIALECTS: [u8; 3] = [M, P, L];

/// Value of what stands between the quotes of a literal
pub fn decode(raw: &str, q: char, maria: bool) -> String {
    let mut o = String::new();
    let v: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == '\\' && i + 1 < v.len() {
            let n = v[i + 1];
            i += 2;
            if !maria {
                o.push('\\');
                o.push(n);
                continue;
            }
            match n {
                '0' => o.push('\u{0}'),
                'b' => o.push('\u{8}'),
                'n' => o.push('\u{a}'),
                'r' => o.push('\u{d}'),
                't' => o.push('\u{9}'),
                'Z' => o.push('\u{1a}'),
                '%' => o.push_str("\\%"),
                '_' => o.push_str("\\_"),
                n => o.push(n),
            }
        } else {
            if c == q {
                i += 1; // the second of two
            }
            o.push(c);
            i += 1;
        }
    }
    o
}
/// Does the literal end exactly at the end of `raw`?
fn complete(raw: &str, q: char) -> bool {
    let v: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i < v.len() {
        if v[i] == '\\' {
            if i + 1 >= v.len() {
                return false;
            }
            i += 2;
        } else if v[i] == q {
            if v.get(i + 1) != Some(&q) {
                return false;
            }
            i += 2;
        } else {
            i += 1
        }
    }
    true
}

/// Places for a string literal: text, dialects, and the other strings of the text before and after it
const STRS: &[(&str, u8, &[&str], &[&str])] = &[
    ("SELECT {}", ALL, &[], &[]),
    ("SELECT a FROM t WHERE b = {} AND c = 1", ALL, &[], &[]),
    ("INSERT INTO t VALUES ({}, 1)", ALL, &[], &[]),
    ("INSERT INTO t (a, b) VALUES ('1', {}), ('2', '3')", ALL, &["1"], &["2", "3"]),
    ("CREATE TABLE t (a INT COMMENT {})", ALL, &[], &[]),
    ("CREATE TABLE t (a ENUM({}, 'z'))", ALL, &[], &["z"]),
    ("CREATE TABLE t (a SET('y', {}))", ALL, &["y"], &[]),
    ("CREATE TABLE t (a INT) COMMENT = {}", ALL, &[], &[]),
    ("UPDATE t SET a = {} WHERE b LIKE 'q%'", ALL, &[], &["q%"]),
    ("SIGNAL SQLSTATE {}", ALL, &[], &[]),
    ("SELECT CONCAT({}, 'x')", ALL, &[], &["x"]),
    ("ALTER TABLE t ADD COLUMN c INT COMMENT {}", ALL, &[], &[]),
    ("ALTER TABLE t ADD INDEX i (a) COMMENT {}", ALL, &[], &[]),
    ("CREATE FUNCTION f() RETURNS INT COMMENT {} RETURN 1", M, &[], &[]),
    ("CREATE TABLE t (a INT DEFAULT {})", ALL, &[], &[]),
    ("SELECT CASE WHEN 1 THEN {} END", ALL, &[], &[]),
    ("SELECT * FROM t WHERE a IN ({}, 'b')", ALL, &[], &["b"]),
    ("CREATE TYPE t AS ENUM ({}, 'b')", P, &[], &["b"]),
    ("SELECT * FROM t ORDER BY {} LIMIT 5", ALL, &[], &[]),
    ("SELECT CAST({} AS CHAR(5))", ALL, &[], &[]),
    ("SELECT COUNT({})", ALL, &[], &[]),
];

fn strings(d: &D) -> Vec<(String, (usize, usize))> {
    let mut v = Vec::new();
    d.walk(&mut |d| {
        if let D::St(n, f) = d {
            if n == "SString" {
                if let (Some((_, D::Str(s))), Some((_, D::Sp(a, b)))) = (f.iter().find(|f| f.0 == "value"), f.iter().find(|f| f.0 == "span")) {
                    v.push((s.clone(), (*a, *b)))
                }
            }
        }
    });
    v.sort_by_key(|v| v.1);
    v
}

fn check_string(t: &(&str, u8, &[&str], &[&str]), lit: &str, want: &str, o: &O) -> R {
    let text = t.0.replace("{}", lit);
    let v = obs::run(&text, o);
    if !v.ok() {
        return bad(&text, o, format!("valid string literal is not accepted: {}", v.messages()));
    }
    let got: Vec<String> = v.trees.iter().flat_map(strings).map(|s| s.0).collect();
    let mut exp: Vec<String> = t.2.iter().map(|s| s.to_string()).collect();
    exp.push(want.to_string());
    exp.extend(t.3.iter().map(|s| s.to_string()));
    if got != exp {
        return bad(&text, o, format!("string values {got:?} instead of {exp:?}"));
    }
    Ok(())
}

const ALPHA: &[&str] = &["a", "\\", "'", "\"", "n", "%", "é", "0", "\n", "Z", "_", " "];

/// Every short content
fn str_short(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let mut k = i;
    let q = ['\'', '"'][(k % 2) as usize];
    k /= 2;
    let d = DIALECTS[(k % 3) as usize];
    k /= 3;
    let mut raw = String::new();
    // Bijective numeration: every content of length 0, 1, 2, ...
    while k > 0 {
        k -= 1;
        raw.push_str(ALPHA[(k % ALPHA.len() as u64) as usize]);
        k /= ALPHA.len() as u64;
    }
    if !complete(&raw, q) {
        // Does not end here: must not be accepted as it stands
        let text = format!("SELECT {q}{raw}{q}");
        let o = O::new(d, Args::None);
        if lex(&text).iter().any(|l| l.t == T::Bad) {
            cx.eval(&text, true);
            cx.f("string.unterminated");
            if obs::accepts(&text, &o) {
                return bad(&text, &o, "unterminated string literal is accepted");
            }
        }
        return Ok(());
    }
    let t = r.pick(STRS);
    let o = O::new(if t.1 & d != 0 { d } else { [M, P, L][t.1.trailing_zeros() as usize] }, Args::None);
    let want = decode(&raw, q, o.dialect == M);
    let lit = format!("{q}{raw}{q}");
    cx.eval(&format!("{lit}{d}"), true);
    cx.f(if raw.contains('\\') { "string.backslash" } else { "string.plain" });
    check_string(t, &lit, &want, &o)
}

/// Long random contents in several adjacent pieces
fn str_random(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let t = r.pick(STRS);
    let d = loop {
        let d = DIALECTS[r.n(3)];
        if t.1 & d != 0 {
            break d;
        }
    };
    let o = O::new(d, [Args::None, Args::Question, Args::Percent, Args::Dollar][r.n(4)]);
    let n = [1, 1, 1, 2, 3, 5][r.n(6)];
    let (mut lit, mut want) = (String::new(), String::new());
    let mut last = ' ';
    for i in 0..n {
        let q = if r.p(60) { '\'' } else { '"' };
        let k = if r.p(5) { 7 } else { 6 };
        let len = [0, 1, 3, 8, 30, 200, 3000][r.n(k)];
        let mut raw = String::new();
        // Long runs of letters with something else here and there, and at the end
        let plain = r.p(25);
        let m = r.n(len + 1);
        for i in 0..m {
            let k = match plain {
                false => r.n(9),
                true if r.n(m + 1) == 0 || (i + 1 == m && r.p(50)) => r.n(5),
                true => 9,
            };
            match k {
                9 => raw.push((97 + r.n(26) as u8) as char),
                0 => {
                    raw.push('\\');
                    match r.n(3) {
                        0 => raw.push(['0', 'b', 'n', 'r', 't', 'Z', '%', '_', '\\', '\'', '"'][r.n(11)]),
                        1 => raw.push((32 + r.n(95) as u8) as char),
                        _ => raw.push(char::from_u32(r.n(0x3000) as u32).unwrap_or('x')),
                    }
                }
                1 => raw.push_str(&format!("{q}{q}")),
                2 => raw.push_str(r.pick(&["--", "/*", "*/", "//", "#", ";", "%s", "?", "$1", "$$", "`", "(", ")", "DELIMITER", "\r\n", "END", "\n\\.\n", "😀", "日本語", "é"])),
                3 => raw.push(char::from_u32(r.n(0x11_0000) as u32).unwrap_or('\u{fffd}')),
                4 => raw.push(if q == '\'' { '"' } else { '\'' }),
                _ => raw.push((32 + r.n(95) as u8) as char),
            }
        }
        // Characters that came out as a lone quote or backslash
        let mut s = String::new();
        let v: Vec<char> = raw.chars().collect();
        let mut k = 0;
        while k < v.len() {
            if v[k] == '\\' {
                s.push('\\');
                s.push(*v.get(k + 1).unwrap_or(&'n'));
                k += 2;
            } else {
                s.push(v[k]);
                if v[k] == q {
                    s.push(q);
                    if v.get(k + 1) == Some(&q) {
                        k += 1
                    }
                }
                k += 1;
            }
        }
        if i > 0 {
            let sep = *r.pick(&["", " ", "\n", " /* ' */ ", "-- \"\n", "\t\r\n"]);
            lit.push_str(if sep.is_empty() && last == q { " " } else { sep });
        }
        lit.push_str(&format!("{q}{s}{q}"));
        want.push_str(&decode(&s, q, d == M));
        last = q;
    }
    cx.eval(&lit, lit.len() > 6);
    cx.f(if n > 1 { "string.adjacent" } else { "string.one" });
    cx.max("characters", want.chars().count() as u64);
    check_string(t, &lit, &want, &o)
}

/// Generated statements of every kind, strings preferred, compared as trees
fn str_trees(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.focus = &[3, 4, 5];
    let m = any(r, cfg);
    if !m.g.toks.iter().any(|t| t.k == K::Str) {
        return Ok(());
    }
    let t = m.text(r);
    let o = m.o(r);
    let v = obs::run(&t.s, &o);
    cx.eval(&t.s, true);
    let ex = m.g.toks.iter().any(|t| t.ex);
    if !v.ok() || ex {
        return Ok(()); // decided elsewhere
    }
    // Adjacent literals of the text are one value
    let l: Vec<Lex> = lex(&t.s);
    let mut want: Vec<(String, (usize, usize))> = Vec::new();
    let mut prev = false;
    for x in &l {
        if x.t == T::Str {
            let w = x.text(&t.s);
            let q = w.chars().next().unwrap();
            let s = decode(&w[1..w.len() - 1], q, o.dialect == M);
            if prev {
                let p = want.last_mut().unwrap();
                p.0.push_str(&s);
                p.1 .1 = x.e;
            } else {
                want.push((s, (x.s, x.e)))
            }
            prev = true;
        } else {
            prev = false;
        }
    }
    let got: Vec<_> = v.trees.iter().flat_map(strings).collect();
    cx.fs("string.in_tree", got.len() as u64);
    for g in &got {
        if !want.contains(g) {
            return bad(&t.s, &o, format!("string {:?} at {:?} is not in the text", g.0, g.1));
        }
    }
    Ok(())
}

/// Places for an integer: text, dialects, whether 64 bits are unsigned
const INTS: &[(&str, u8)] = &[
    ("SELECT {}", ALL),
    ("SELECT a, {} AS b FROM t", ALL),
    ("SELECT a FROM t LIMIT {}", ALL),
    ("SELECT a FROM t LIMIT 3, {}", ALL),
    ("SELECT a FROM t LIMIT 3 OFFSET {}", ALL),
    ("SELECT a FROM t WHERE b <= {} AND c = 1", ALL),
    ("INSERT INTO t VALUES ('x', {}, 1)", ALL),
    ("UPDATE t SET a = b + {}", ALL),
    ("SELECT a FROM t WHERE b IN (1, {}, 3)", ALL),
    ("SELECT CONCAT({}, 'x')", ALL),
    ("CREATE TABLE t (a INT DEFAULT {} NOT NULL)", ALL),
    ("SET @x = {}", 0),
    ("RETURN {}", ALL),
    ("SELECT - {}", ALL),
    ("SELECT f({}) FROM t", ALL),
    ("DELETE FROM t WHERE a = {}", ALL),
    ("SELECT CASE {} WHEN 1 THEN 2 END", ALL),
];
const WIDTHS: &[(&str, u8)] = &[
    ("CREATE TABLE t (a INT({}))", ALL),
    ("CREATE TABLE t (a VARCHAR({}) NOT NULL)", ALL),
    ("CREATE TABLE t (a BINARY({}))", ALL),
    ("CREATE TABLE t (a VARBINARY({}))", ALL),
    ("CREATE TABLE t (a BIT({}))", ALL),
    ("CREATE TABLE t (a TIMESTAMP({}), b INT)", ALL),
    ("CREATE TABLE t (a NUMERIC({}, 2))", ALL),
    ("CREATE TABLE t (a NUMERIC(2, {}))", ALL),
    ("SELECT CAST(a AS CHAR({}))", ALL),
    ("ALTER TABLE t ADD INDEX i (a({}))", ALL),
    ("ALTER TABLE t ADD COLUMN c BIGINT({})", ALL),
    ("SELECT DATE_ADD(a, INTERVAL {} DAY)", ALL),
];

/// Is the value reported, directly beside the span of its literal (or as a bare number)?
fn reports(d: &D, want: &str, sp: (usize, usize)) -> bool {
    let mut ok = false;
    let hit = |d: &D| match d {
        D::At(a) => a == want,
        D::Li(l) => l.len() == 1 && matches!(&l[0], D::At(a) if a == want),
        _ => false,
    };
    d.walk(&mut |d| match d {
        D::Tu(n, v) if v.len() == 2 && hit(&v[0]) && v[1] == D::Sp(sp.0, sp.1) && (n.is_empty() || n == "Bit") => ok = true,
        D::Tu(n, v) if n == "Numeric" && v.len() == 3 && (hit(&v[0]) || hit(&v[1])) => ok = true,
        _ => {}
    });
    ok
}

fn int_value(r: &mut Rng, i: u64) -> u64 {
    match r.n(6) {
        0 => i % 1000,
        1 => {
            let b = 1u128 << r.n(65);
            (b + r.n(5) as u128).saturating_sub(2).min(u64::MAX as u128) as u64
        }
        2 => {
            let p = 10u128.pow(r.n(20) as u32);
            (p + r.n(5) as u128).saturating_sub(2).min(u64::MAX as u128) as u64
        }
        3 => u64::MAX - r.n(1000) as u64,
        _ => r.u64() >> r.n(64),
    }
}

fn ints(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let width = r.p(40);
    let t = if width { r.pick(WIDTHS) } else { r.pick(INTS) };
    let d = DIALECTS[r.n(3)];
    if t.1 & d == 0 {
        return Ok(());
    }
    let o = O::new(d, Args::None);
    let mut v = int_value(r, i);
    if t.0.contains("INTERVAL") {
        v &= i64::MAX as u64; // a signed number
    }
    if t.0.contains("INDEX") {
        v &= u32::MAX as u64; // sizes of key parts have 32 bits
    }
    let z = "0".repeat([0, 0, 1, 5, 40, 500][r.n(6)]);
    let lit = format!("{z}{v}");
    let text = t.0.replace("{}", &lit);
    let p = t.0.find("{}").unwrap();
    let x = obs::run(&text, &o);
    cx.eval(&text, true);
    cx.f(if width { "int.width" } else { "int.value" });
    if !z.is_empty() {
        cx.f("int.leading_zero");
    }
    if !x.ok() {
        return bad(&text, &o, format!("the integer {v} is not accepted: {}", x.messages()));
    }
    if !x.trees.iter().any(|d| reports(d, &v.to_string(), (p, p + lit.len()))) {
        return bad(&text, &o, format!("the integer {v} is not reported: {}", short(&x.trees[0])));
    }
    Ok(())
}

fn int_too_large(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let width = r.p(40);
    let t = if width { r.pick(WIDTHS) } else { r.pick(INTS) };
    let d = DIALECTS[r.n(3)];
    if t.1 & d == 0 {
        return Ok(());
    }
    let o = O::new(d, Args::None);
    let lit = match r.n(5) {
        0 => format!("{}", (1u128 << 64) + (i % 300) as u128),
        1 => format!("{}", (1u128 << (64 + r.n(60))) + r.n(3) as u128),
        2 => format!("{}{:020}", r.r(1, 99), r.u64()),
        3 => format!("{}{}", r.r(1, 9), "0".repeat(r.r(20, 400))),
        _ => format!("{}", u128::MAX - r.u64() as u128),
    };
    let lit = format!("{}{lit}", "0".repeat([0, 0, 3][r.n(3)]));
    let text = t.0.replace("{}", &lit);
    cx.eval(&text, true);
    cx.f("int.too_large");
    if obs::accepts(&text, &o) {
        return bad(&text, &o, format!("{lit} is larger than 2^64-1 but accepted"));
    }
    Ok(())
}

fn floats(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let t = r.pick(INTS);
    let d = DIALECTS[r.n(3)];
    if t.1 & d == 0 {
        return Ok(());
    }
    let o = O::new(d, Args::None);
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.n(10) as u8) as char).collect::<String>();
    let (a, b) = match r.n(6) {
        0 => (r.n(10), r.n(10)),
        1 => (r.n(4), r.n(4)),
        2 => (r.n(25), r.n(25)),
        3 => (r.n(330), r.n(5)),
        4 => (r.n(3), r.n(340)),
        _ => (r.n(18), r.n(18)),
    };
    let (mut i, f) = (digits(r, a), digits(r, b));
    if i.is_empty() && f.is_empty() {
        i = "0".into();
    }
    if r.p(20) {
        i = format!("{}{i}", "0".repeat(r.n(20) + 1));
    }
    let lit = format!("{i}.{f}");
    // The nearest double: exactly computable for few digits, otherwise the parser of the standard library
    let all: String = format!("{i}{f}");
    let sig = all.trim_start_matches('0');
    let std: f64 = format!("0{i}.{f}0").parse().unwrap();
    if sig.len() <= 15 && f.len() <= 22 {
        let n: u64 = if sig.is_empty() { 0 } else { sig.parse().unwrap() };
        let e = n as f64 / 10f64.powi(f.len() as i32);
        assert!(e == std, "harness: {lit}");
        cx.f("float.exact");
    }
    let text = t.0.replace("{}", &lit);
    let p = t.0.find("{}").unwrap();
    let x = obs::run(&text, &o);
    cx.eval(&text, true);
    cx.f("float");
    if !x.ok() {
        return bad(&text, &o, format!("the number {lit} is not accepted: {}", x.messages()));
    }
    let sp = (p, p + lit.len());
    let mut ok = false;
    x.trees.iter().for_each(|d| {
        d.walk(&mut |d| {
            if let D::Tu(n, v) = d {
                if n == "Float" {
                    if let [D::Tu(_, w)] = &v[..] {
                        if let [D::At(a), D::Sp(s, e)] = &w[..] {
                            ok |= (*s, *e) == sp && a.parse::<f64>().map(|g| g.to_bits() == std.to_bits()).unwrap_or(false)
                        }
                    }
                }
            }
        })
    });
    if !ok {
        return bad(&text, &o, format!("the number {lit} is not reported as {std:?}: {}", short(&x.trees[0])));
    }
    Ok(())
}

fn malformed_number(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let t = if r.p(30) { r.pick(WIDTHS) } else { r.pick(INTS) };
    let d = DIALECTS[r.n(3)];
    if t.1 & d == 0 || t.0.contains("{} DAY") {
        return Ok(());
    }
    let o = O::new(d, [Args::None, Args::Question, Args::Percent, Args::Dollar][r.n(4)]);
    let n = r.n(10000);
    let h: String = (0..r.n(6)).map(|_| *r.pick(&['0', '9', 'a', 'F', 'g', 'z', '_', ' ', 'é', '-', '日', '😀'])).collect();
    let lit = match r.n(10) {
        0 => format!("x'{h}'"),
        1 => format!("X'{h}'"),
        2 => format!("x'{h}' '{n}'"),
        3 => format!("0x{n:x}"),
        4 => format!("0X{n:X}"),
        5 => format!("{n}.{n}.{n}"),
        6 => format!("{n}..{n}"),
        7 => format!("0b{n:b}"),
        8 => format!("{n}e{}", r.n(300)),
        _ => format!("{n}_{n}"),
    };
    let text = t.0.replace("{}", &lit);
    cx.eval(&text, true);
    cx.f("malformed");
    if obs::accepts(&text, &o) {
        return bad(&text, &o, format!("malformed number {lit} is accepted"));
    }
    Ok(())
}

/// Places for a name. `strict`: a reserved word can have no meaning there
const NAMES: &[(&str, u8, bool)] = &[
    ("SELECT a AS {} FROM t", ALL, true),
    ("SELECT a FROM {}", ALL, true),
    ("SELECT a FROM s.{} WHERE b = 1", ALL, true),
    ("SELECT a FROM t AS {} WHERE b = 1", ALL, true),
    ("SELECT a FROM (SELECT 1) AS {}", ALL, true),
    ("SELECT {} FROM t", ALL, false),
    ("SELECT t.{} FROM t", ALL, true),
    ("SELECT {}.a FROM t", ALL, false),
    ("SELECT a FROM t WHERE {} = 1", ALL, false),
    ("SELECT a FROM t GROUP BY b, {}", ALL, false),
    ("SELECT a FROM t ORDER BY t.{} DESC", ALL, true),
    ("SELECT a FROM t JOIN {} ON 1", ALL, true),
    ("SELECT a FROM t JOIN u USING ({})", ALL, true),
    ("SELECT a FROM t LEFT JOIN u AS {} ON 1", ALL, true),
    ("INSERT INTO {} (a) VALUES (1)", ALL, true),
    ("INSERT INTO t ({}) VALUES (1)", ALL, true),
    ("INSERT INTO t (a, {}, b) SELECT 1, 2, 3", ALL, true),
    ("UPDATE {} SET a = 1", ALL, true),
    ("UPDATE t SET {} = 1", ALL, true),
    ("DELETE FROM {} WHERE a = 1", ALL, true),
    ("CREATE TABLE {} (a INT)", ALL, true),
    ("CREATE TABLE s.{} (a INT)", ALL, true),
    ("CREATE TABLE t ({} INT)", ALL, true),
    ("CREATE TABLE t (a INT, {} VARCHAR(3) NOT NULL)", ALL, false),
    ("CREATE INDEX {} ON t (a)", ALL, true),
    ("CREATE INDEX i ON {} (a)", ALL, true),
    ("CREATE INDEX i ON t ({})", ALL, true),
    ("CREATE VIEW {} AS SELECT 1", ALL, true),
    ("CREATE FUNCTION {}() RETURNS INT RETURN 1", M, true),
    ("CREATE FUNCTION f({} INT) RETURNS INT RETURN 1", M, true),
    ("CREATE TRIGGER {} AFTER INSERT ON t FOR EACH ROW SET a = 1", M, true),
    ("CREATE TRIGGER a AFTER INSERT ON {} FOR EACH ROW SET a = 1", M, true),
    ("CREATE TYPE {} AS ENUM ('a')", P, true),
    ("ALTER TABLE {} ADD COLUMN b INT", ALL, true),
    ("ALTER TABLE t ADD COLUMN {} INT", ALL, true),
    ("ALTER TABLE t DROP COLUMN {}", ALL, true),
    ("ALTER TABLE t MODIFY COLUMN {} INT", M, true),
    ("ALTER TABLE t ADD CONSTRAINT {} FOREIGN KEY (a) REFERENCES u (b)", ALL, true),
    ("ALTER TABLE t ADD CONSTRAINT c FOREIGN KEY ({}) REFERENCES u (b)", ALL, true),
    ("ALTER TABLE t ADD CONSTRAINT c FOREIGN KEY (a) REFERENCES {} (b)", ALL, true),
    ("ALTER TABLE t ADD CONSTRAINT c FOREIGN KEY (a) REFERENCES u ({})", ALL, true),
    ("ALTER TABLE t ADD INDEX i ({})", ALL, true),
    ("DROP TABLE {}", ALL, true),
    ("DROP TABLE a, {}", ALL, true),
    ("DROP VIEW {}", ALL, true),
    ("DROP INDEX {} ON t", M, true),
    ("DROP FUNCTION {}", ALL, true),
    ("DROP DATABASE {}", ALL, true),
    ("TRUNCATE TABLE {}", ALL, true),
    ("RENAME TABLE {} TO b", ALL, true),
    ("RENAME TABLE a TO {}", ALL, true),
    ("SET {} = 1", ALL, true),
    ("WITH {} AS (SELECT 1) SELECT 2", P, true),
    ("SELECT a FROM t USE INDEX ({})", M, true),
    ("INSERT INTO t SET {} = 1", M, true),
    ("INSERT INTO t (a) VALUES (1) ON DUPLICATE KEY UPDATE {} = 1", M, true),
    ("SELECT RANK() OVER (ORDER BY t.{})", ALL, true),
    ("SELECT a.b.{} FROM t", ALL, true),
    ("SELECT a.{}.b FROM t", ALL, true),
    ("SELECT t.{}.* FROM t", ALL, true),
    ("SELECT a FROM {}.t", ALL, true),
    ("SELECT a FROM t, {}", ALL, true),
    ("SELECT a FROM t WHERE b = t.{}", ALL, true),
    ("SELECT f(a, t.{})", ALL, true),
    ("SELECT a, b AS {}, c FROM t", ALL, true),
    ("SELECT a FROM t, u AS {}, v", ALL, true),
    ("SELECT a FROM t FOR UPDATE OF {}", P, true),
    ("SELECT a FROM t FOR SHARE OF b, {}", P, true),
    ("INSERT INTO s.{} (a) VALUES (1)", ALL, true),
    ("INSERT INTO t (a) VALUES (1) ON CONFLICT ({}) DO NOTHING", P, true),
    ("INSERT INTO t (a) VALUES (1) ON CONFLICT ON CONSTRAINT {} DO NOTHING", P, true),
    ("INSERT INTO t (a) VALUES (1) ON CONFLICT (a) DO UPDATE SET {} = 1", P, true),
    ("INSERT INTO t (a) VALUES (1) RETURNING a AS {}", P, true),
    ("REPLACE INTO {} (a) VALUES (1)", M, true),
    ("UPDATE s.{} SET a = 1", ALL, true),
    ("UPDATE t SET t.{} = 1", ALL, true),
    ("UPDATE t SET a = 1, {} = 2", ALL, true),
    ("DELETE t, {} FROM t, u WHERE a = 1", M, true),
    ("DELETE t FROM t, {} WHERE a = 1", M, true),
    ("CREATE INDEX i ON t (a, {})", ALL, true),
    ("CREATE INDEX i ON s.{} (a)", ALL, true),
    ("CREATE TRIGGER a AFTER INSERT ON t FOR EACH ROW SET {} = 1", M, true),
    ("ALTER TABLE s.{} ADD COLUMN b INT", ALL, true),
    ("ALTER TABLE t OWNER TO {}", P, true),
    ("ALTER TABLE t ALTER COLUMN {} SET NOT NULL", P, true),
    ("ALTER TABLE t ADD CONSTRAINT {} UNIQUE INDEX (a)", ALL, true),
    ("ALTER TABLE t ADD CONSTRAINT c UNIQUE INDEX (a, {})", ALL, true),
    ("ALTER TABLE t ADD PRIMARY KEY ({})", ALL, true),
    ("ALTER TABLE t ADD INDEX {} (a)", ALL, true),
    ("DROP TRIGGER {}", ALL, true),
    ("DROP PROCEDURE {}", ALL, true),
    ("DROP EVENT {}", M, true),
    ("DROP SERVER {}", M, true),
    ("DROP VIEW a, {}", ALL, true),
    ("DROP TABLE s.{}", ALL, true),
    ("RENAME TABLE a TO b, {} TO d", ALL, true),
    ("RENAME TABLE a TO s.{}", ALL, true),
    ("SET a = 1, {} = 2", ALL, true),
    ("WITH a AS (SELECT 1), {} AS (SELECT 2) SELECT 3", P, true),
    ("SELECT a FROM t USE INDEX (b, {})", M, true),
    ("COPY t (a, {}) FROM STDIN", ALL, true),
    ("COPY {} (a) FROM STDIN", ALL, true),
    ("COPY t ({}) FROM STDIN", ALL, true),
];

fn has_name(d: &D, w: &str, sp: (usize, usize)) -> bool {
    let mut ok = false;
    d.walk(&mut |d| {
        if let D::St(n, f) = d {
            if n == "Identifier" {
                let v = f.iter().any(|f| f.0 == "value" && f.1 == D::Str(w.to_string()));
                ok |= v && f.iter().any(|f| f.0 == "span" && f.1 == D::Sp(sp.0, sp.1));
            }
        }
    });
    ok
}

fn name_case(cx: &mut Cx, r: &mut Rng, t: &(&str, u8, bool), w: &str, quote: &str, d: u8) -> R {
    let lit = format!("{quote}{w}{quote}");
    let text = t.0.replace("{}", &lit);
    let mut o = O::new(d, Args::None);
    o.warn_id = r.p(20);
    let p = t.0.find("{}").unwrap();
    let x = obs::run(&text, &o);
    cx.eval(&text, true);
    cx.f(if quote.is_empty() { "name.plain" } else { "name.quoted" });
    if !x.ok() {
        return bad(&text, &o, format!("the name {lit} is not accepted: {}", x.messages()));
    }
    if !x.trees.iter().any(|d| has_name(d, w, (p, p + lit.len()))) {
        return bad(&text, &o, format!("the name {lit} is not reported: {}", short(&x.trees[0])));
    }
    Ok(())
}
fn pick_place(r: &mut Rng) -> (&'static (&'static str, u8, bool), u8) {
    loop {
        let t = r.pick(NAMES);
        let d = DIALECTS[r.n(3)];
        if t.1 & d != 0 {
            return (t, d);
        }
    }
}
fn names_plain(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, d) = pick_place(r);
    let mut g = G::new(Rng::new(r.u64()), Cfg::new(r));
    g.cfg.scale = if r.p(5) { 3000 } else { 0 };
    let mut w = g.word();
    if r.p(15) {
        w = r.pick(words::functions()).0.to_ascii_lowercase();
        if words::is_keyword(&w) {
            return Ok(());
        }
        cx.f("name.function");
    }
    // The words a position gives meaning to
    if words::is_keyword(&w) && !words::idle_keywords().contains(&w.to_ascii_uppercase().as_str()) {
        return Ok(());
    }
    name_case(cx, r, t, &w, "", d)
}
fn names_quoted(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let (t, d) = pick_place(r);
    if d == P {
        return Ok(());
    }
    let mut g = G::new(Rng::new(r.u64()), Cfg::new(r));
    let k = words::keywords();
    let w = match r.n(4) {
        0 => k[(i as usize) % k.len()].to_string(),
        1 => k[r.n(k.len())].to_ascii_lowercase(),
        2 => (0..r.r(1, 12)).map(|_| *r.pick(b"abcXYZ019_-") as char).collect(),
        _ => g.quoted_word(),
    };
    name_case(cx, r, t, &w, "`", d)
}
fn names_reserved(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let v = words::reserved();
    let n = NAMES.len();
    let w = v[(i as usize / n) % v.len()];
    let t = &NAMES[i as usize % n];
    if !t.2 {
        return Ok(());
    }
    let w = match r.n(3) {
        0 => w.to_string(),
        1 => w.to_ascii_lowercase(),
        _ => w.chars().map(|c| if r.p(50) { c.to_ascii_lowercase() } else { c }).collect(),
    };
    for d in DIALECTS {
        if t.1 & d == 0 {
            continue;
        }
        let text = t.0.replace("{}", &w);
        let o = O::new(d, Args::None);
        cx.eval(&text, true);
        cx.f("name.reserved");
        if obs::accepts(&text, &o) {
            return bad(&text, &o, format!("the reserved word {w} is accepted as a name"));
        }
        if d != P {
            name_case(cx, r, t, &w, "`", d)?;
        }
    }
    Ok(())
}
/// Generated statements: every name of the text is in the tree with its spelling
fn names_trees(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.quoted = [12, 50, 100][r.n(3)];
    let m = any(r, cfg);
    let t = m.text(r);
    let o = m.o(r);
    let v = obs::run(&t.s, &o);
    cx.eval(&t.s, m.g.toks.len() > 3);
    m.feats(cx);
    if !v.ok() {
        return bad(&t.s, &o, format!("names are not accepted: {}", v.messages()));
    }
    for (i, plain) in &m.g.names {
        let k = &m.g.toks[*i];
        if k.ex {
            continue;
        }
        let w = if *plain { k.t.clone() } else { k.t[1..k.t.len() - 1].to_string() };
        if !has_name(&v.trees[0], &w, t.at[*i]) {
            return bad(&t.s, &o, format!("the name {} at {:?} is not reported as {w:?}", k.t, t.at[*i]));
        }
    }
    Ok(())
}

fn lower(d: &D) -> D {
    match d {
        D::Str(s) => D::Str(s.to_ascii_lowercase()),
        D::St(n, v) => D::St(n.clone(), v.iter().map(|(k, d)| (k.clone(), lower(d))).collect()),
        D::Tu(n, v) => D::Tu(n.clone(), v.iter().map(lower).collect()),
        D::Li(v) => D::Li(v.iter().map(lower).collect()),
        d => d.clone(),
    }
}

/// The same text with the letters of the keywords in another case
pub fn recase(toks: &[Tok], t: &Text, c: Case, r: &mut Rng) -> String {
    let mut b = t.s.clone().into_bytes();
    for (k, (s, e)) in toks.iter().zip(&t.at) {
        if k.k != K::Kw && !k.t.starts_with("@@") {
            continue;
        }
        for x in &mut b[*s..*e] {
            match c {
                Case::Upper => x.make_ascii_uppercase(),
                Case::Lower => x.make_ascii_lowercase(),
                Case::Random => {
                    if r.p(50) {
                        x.make_ascii_uppercase()
                    } else {
                        x.make_ascii_lowercase()
                    }
                }
            }
        }
    }
    String::from_utf8(b).unwrap()
}

fn same_case(cx: &mut Cx, r: &mut Rng, toks: &[Tok], o: &O, valid: bool) -> R {
    let t = render(toks, [Layout::Single, Layout::Tight, Layout::Space, Layout::Wild][r.n(4)], Case::Upper, r);
    let a = obs::run(&t.s, o);
    for c in [Case::Lower, Case::Random] {
        let s = recase(toks, &t, c, r);
        let b = obs::run(&s, o);
        cx.eval(&s, toks.len() > 2);
        cx.f(if a.ok() { "case.accepted" } else { "case.rejected" });
        if a.trees.len() != b.trees.len() {
            return bad(&s, o, format!("{} statements, but {} in capitals", b.trees.len(), a.trees.len()));
        }
        for (x, y) in a.trees.iter().zip(&b.trees) {
            let e = if valid { diff(x, y) } else { diff(&lower(x), &lower(y)) };
            if let Some(e) = e {
                return bad(&s, o, format!("the tree depends on letter case: {e}"));
            }
        }
        if a.spans != b.spans {
            return bad(&s, o, "the span depends on letter case");
        }
        let (x, y) = (a.err_list(), b.err_list());
        let same = x.len() == y.len()
            && x.iter().zip(&y).all(|(x, y)| {
                x.span == y.span && x.msg.eq_ignore_ascii_case(&y.msg) && x.frags.len() == y.frags.len() && x.frags.iter().zip(&y.frags).all(|(f, g)| f.0.eq_ignore_ascii_case(&g.0) && f.1 == g.1)
            });
        if !same {
            return bad(&s, o, format!("the errors depend on letter case: {} / {}", a.messages(), b.messages()));
        }
    }
    Ok(())
}
fn case_valid(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    m.feats(cx);
    let mut o = m.o(r);
    o.warn_id = r.p(30);
    o.warn_kw = r.p(30);
    o.script = r.p(30);
    same_case(cx, r, &m.g.toks, &o, true)
}
fn case_mutated(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    let mut o = m.o(r);
    o.script = r.p(30);
    let mut v = m.g.toks.clone();
    mutate::tokens(r, &mut v, true);
    if v.iter().any(|t| t.t == "DELIMITER") {
        return Ok(()); // any word can be a delimiter, which is no keyword then
    }
    same_case(cx, r, &v, &o, false)
}
/// Every keyword, alone and after others
fn case_words(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let k = words::keywords();
    let f = words::functions();
    let j = i as usize % (k.len() + f.len());
    let w = if j < k.len() { k[j] } else { f[j - k.len()].0 };
    let mut g = G::new(Rng::new(r.u64()), Cfg::new(r));
    let pre = *r.pick(&["", "SELECT", "SELECT a", "SELECT a FROM t", "CREATE", "CREATE TABLE t ( a", "DROP", "ALTER TABLE t", "INSERT", "SELECT a ,", "CREATE TABLE t ( a INT", "SELECT CAST ( a AS", "SELECT a FROM t WHERE b", "SELECT EXTRACT (", "BEGIN", "CREATE FUNCTION f ( ) RETURNS INT", "SELECT INTERVAL 5", "SELECT a OVER", "UPDATE", "DELETE", "SELECT a FROM t ORDER BY b", "SET", "SIGNAL SQLSTATE '1' SET"]);
    for p in pre.split(' ').filter(|p| !p.is_empty()) {
        match p.as_bytes()[0] {
            b'a'..=b'z' => g.push(K::Id, p),
            b'A'..=b'Z' => g.kw(p),
            b'0'..=b'9' => g.push(K::Num, p),
            b'\'' => g.push(K::Str, p),
            _ => g.op(p),
        };
    }
    g.kw(w);
    match r.n(4) {
        0 => {
            g.op("(");
            g.push(K::Id, "a");
            g.op(")");
        }
        1 => {
            g.push(K::Id, "a");
        }
        2 => {
            g.kw(k[r.n(k.len())]);
        }
        _ => {}
    }
    if w == "DELIMITER" && pre.is_empty() {
        g.op("$$");
    }
    if pre.contains("( a") || pre.ends_with('(') {
        g.op(")");
    }
    let mut o = O::random(r);
    o.warn_kw = false;
    let toks = g.toks;
    same_case(cx, r, &toks, &o, false)
}

fn same_layout(cx: &mut Cx, r: &mut Rng, toks: &[Tok], o: &O) -> R {
    let a = render(toks, Layout::Single, Case::Upper, r);
    let la: Vec<Lex> = lex(&a.s);
    let x = obs::run(&a.s, o);
    for l in [Layout::Tight, Layout::Wild, [Layout::Space, Layout::Wild][r.n(2)]] {
        let b = render(toks, l, Case::Upper, r);
        let lb = lex(&b.s);
        if la.len() != lb.len() || !la.iter().zip(&lb).all(|(p, q)| p.t == q.t && p.text(&a.s) == q.text(&b.s)) {
            cx.f("layout.other_tokens");
            continue;
        }
        if la.iter().any(|l| l.t == T::Bad) {
            cx.f("layout.no_tokens");
        }
        let y = obs::run(&b.s, o);
        cx.eval(&b.s, toks.len() > 2);
        cx.f(if x.ok() { "layout.accepted" } else { "layout.rejected" });
        if x.ok() != y.ok() {
            return bad(&b.s, o, format!("acceptance depends on the layout: with single spaces {:?} / {:?}; {}", x.messages(), y.messages(), a.s));
        }
        if x.trees.len() != y.trees.len() {
            return bad(&b.s, o, format!("{} statements instead of {} with single spaces", y.trees.len(), x.trees.len()));
        }
        for (p, q) in x.trees.iter().zip(&y.trees) {
            if let Some(e) = diff(&p.nospan(), &q.nospan()) {
                return bad(&b.s, o, format!("the tree depends on the layout: {e}"));
            }
        }
    }
    Ok(())
}
fn layout_valid(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    m.feats(cx);
    let mut o = m.o(r);
    o.script = r.p(30);
    same_layout(cx, r, &m.g.toks, &o)
}
fn layout_mutated(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    let mut o = m.o(r);
    o.script = r.p(30);
    let mut v = m.g.toks.clone();
    mutate::tokens(r, &mut v, false);
    same_layout(cx, r, &v, &o)
}
fn layout_script(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (g, _) = script(r, 40);
    let o = O::new(g.cfg.dialect, g.cfg.args).list(g.cfg.list_hack).script();
    same_layout(cx, r, &g.toks, &o)
}

/// Several statements in one text: the generator and their expected trees
pub fn script(r: &mut Rng, limit: usize) -> (G, Vec<N>) {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(2);
    cfg.arg_pct = [10, 40, 80][r.n(3)];
    let mut g = G::new(Rng::new(r.u64()), cfg);
    let n = r.r(1, 6);
    let mut v = Vec::new();
    for i in 0..n {
        let f = loop {
            let f = g.any_fam();
            // A word that begins or ends a block would change what follows
            if !matches!(f, Fam::Begin | Fam::Commit | Fam::Start | Fam::End) || r.p(30) {
                break f;
            }
        };
        g.cfg.limit = g.toks.len() + r.r(3, limit);
        let d = g.cfg.depth;
        v.push(g.statement(f, d, false));
        let _ = i;
        g.op(";");
        while r.p(6) {
            g.op(";");
        }
    }
    (g, v)
}

/// Numbers of the placeholders of an accepted text
fn numbering(text: &str, o: &O, trees: &[D]) -> R {
    let mut got: Vec<(usize, (usize, usize))> = trees.iter().flat_map(|t| t.args()).collect();
    got.sort_by_key(|g| g.1);
    for w in got.windows(2) {
        if w[0].1 == w[1].1 {
            return bad(text, o, format!("the placeholder at {:?} is reported twice", w[0].1));
        }
    }
    let l = lex(text);
    for (k, (num, sp)) in got.iter().enumerate() {
        // Markers before it in the text; list markers are those that are reported
        let marks = l.iter().filter(|x| x.s < sp.0 && x.arg() && x.t != T::Dollar).count();
        let lists = got[..k].iter().filter(|g| l.iter().any(|x| (x.s, x.e) == g.1 && x.t == T::Word)).count();
        let n = marks + lists;
        let Some(x) = l.iter().find(|x| (x.s, x.e) == *sp) else { return bad(text, o, format!("a placeholder at {sp:?}, where there is none")) };
        let want = match (x.t, o.args) {
            (T::Q, Args::Question) | (T::Pct, Args::Percent) => n,
            (T::Word, _) if o.list_hack && x.text(text).eq_ignore_ascii_case("_LIST_") => n,
            (T::Dollar, Args::Dollar) => x.text(text)[1..].parse::<usize>().unwrap() - 1,
            _ => return bad(text, o, format!("{:?} is reported as a placeholder", x.text(text))),
        };
        if *num != want {
            return bad(text, o, format!("the placeholder {:?} at {sp:?} has number {num} instead of {want}", x.text(text)));
        }
    }
    Ok(())
}
/// All placeholders of the text are in the tree
fn all_reported(text: &str, o: &O, trees: &[D], exempt: &[(usize, usize)]) -> R {
    let got: Vec<(usize, usize)> = trees.iter().flat_map(|t| t.args()).map(|a| a.1).collect();
    for x in lex(text) {
        if x.arg() && !got.contains(&(x.s, x.e)) && !exempt.contains(&(x.s, x.e)) {
            return bad(text, o, format!("the placeholder {:?} at {} is not in the tree", x.text(text), x.s));
        }
    }
    Ok(())
}

fn args_script(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (g, _) = script(r, 60);
    let t = render(&g.toks, layout(r), Case::Random, r);
    let o = O::new(g.cfg.dialect, g.cfg.args).list(g.cfg.list_hack).script();
    let v = obs::run(&t.s, &o);
    let n = g.toks.iter().filter(|t| t.k == K::Arg || t.t == "_LIST_").count();
    cx.eval(&t.s, n > 1);
    cx.fs("arg", n as u64);
    cx.max("placeholders", n as u64);
    if !v.ok() {
        return bad(&t.s, &o, format!("valid script is not accepted: {}", v.messages()));
    }
    let ex: Vec<(usize, usize)> = g.toks.iter().zip(&t.at).filter(|t| t.0.ex).map(|t| *t.1).collect();
    if g.toks.iter().any(|t| t.ex && (t.t == "_LIST_" || t.k == K::Arg)) {
        return Ok(()); // markers in parts that are not represented
    }
    all_reported(&t.s, &o, &v.trees, &ex)?;
    numbering(&t.s, &o, &v.trees)
}
fn args_mutated(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (g, _) = script(r, 40);
    let mut k = g.toks.clone();
    mutate::tokens(r, &mut k, false);
    let t = render(&k, layout(r), Case::Random, r);
    let o = O::new(g.cfg.dialect, g.cfg.args).list(g.cfg.list_hack).script();
    let v = obs::run(&t.s, &o);
    if !v.ok() {
        return Ok(());
    }
    if k.iter().any(|t| t.t == "EXCEPTION" || t.t == "FUNCTION") {
        return Ok(()); // may have parts that are not represented
    }
    let n = k.iter().filter(|t| t.k == K::Arg).count();
    cx.eval(&t.s, n > 0);
    cx.f("arg.mutated");
    numbering(&t.s, &o, &v.trees)
}
/// Numbers of the placeholders of a text with errors: those that were skipped do not count
fn args_broken(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (g, _) = script(r, 40);
    let mut k = g.toks.clone();
    for _ in 0..r.r(1, 3) {
        let wild = r.p(50);
        mutate::tokens(r, &mut k, wild);
    }
    let t = render(&k, layout(r), Case::Random, r);
    let o = O::new(g.cfg.dialect, g.cfg.args).list(g.cfg.list_hack).script();
    let v = obs::run(&t.s, &o);
    if o.args == Args::Dollar || v.ok() {
        return Ok(());
    }
    let mut got: Vec<(usize, (usize, usize))> = v.trees.iter().flat_map(|t| t.args()).collect();
    got.sort_by_key(|g| g.1);
    cx.eval(&t.s, got.len() > 1);
    cx.f("arg.broken");
    let l = lex(&t.s);
    for (i, (num, sp)) in got.iter().enumerate() {
        let before = l.iter().filter(|x| x.s < sp.0 && (x.arg() || x.text(&t.s).eq_ignore_ascii_case("_LIST_"))).count();
        if *num > before {
            return bad(&t.s, &o, format!("the placeholder at {sp:?} has number {num}, there are {before} before it"));
        }
        if i > 0 && *num <= got[i - 1].0 {
            return bad(&t.s, &o, format!("the placeholder at {sp:?} has number {num}, the one before it {}", got[i - 1].0));
        }
    }
    Ok(())
}
/// Very many placeholders
fn args_many(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    const FORMS: &[(&str, &str, &str)] = &[
        ("SELECT ", "{}, ", "1;"),
        ("SELECT a IN (", "{}, ", "1);"),
        ("INSERT INTO t (a) VALUES ", "({}, {}), ", "(1);"),
        ("", "SELECT {};\n", ""),
        ("SELECT f(", "- {}, a = {} + 1, ", "2);"),
        ("UPDATE t SET a = 1", ", b = {}", ";"),
        ("", "SELECT a FROM t WHERE b = {} LIMIT {}; ", ""),
        ("SELECT CASE ", "WHEN {} THEN {} ", "END;"),
        ("SELECT 1", " UNION SELECT {}", ";"),
        ("SELECT 1 FROM a", " JOIN b ON {}", ";"),
    ];
    let f = &FORMS[i as usize % FORMS.len()];
    let joins = f.1.contains("JOIN");
    let n = if joins { r.r(60, 1000) } else { [300, 1100, 5000, 33_000, 66_000][r.n(5)] + r.n(300) };
    let mut o = O::new(M, if r.p(50) { Args::Question } else { Args::Percent }).script();
    o.list_hack = r.p(30) && f.1.contains(", ") && !f.1.contains('b');
    let mark = if o.args == Args::Question { "?" } else { "%s" };
    let mut t = f.0.to_string();
    let mut want = Vec::new();
    for _ in 0..n {
        for (k, part) in f.1.split("{}").enumerate() {
            if k > 0 {
                let w = if o.list_hack && r.p(20) { "_LIST_" } else { mark };
                want.push((want.len(), (t.len(), t.len() + w.len())));
                t.push_str(w);
            }
            t.push_str(part);
        }
    }
    t.push_str(f.2);
    // Unlike the other streams, with trees as deep as the text is long
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let v = obs::run(&t, &o);
        let got: Vec<_> = v.trees.iter().flat_map(|d| d.args()).collect();
        (v.ok(), v.messages().chars().take(200).collect::<String>(), got, t)
    });
    let Ok((ok, m, got, t)) = h.unwrap().join() else { return bad(f.1, &o, "parsing many of these panics") };
    cx.eval(&t, true);
    cx.f("arg.many");
    cx.max("placeholders", want.len() as u64);
    let start = t.chars().take(200).collect::<String>();
    if !ok {
        return bad(&start, &o, format!("{} placeholders are not accepted: {m}", want.len()));
    }
    if let Some((g, w)) = got.iter().zip(&want).find(|(g, w)| g != w) {
        return bad(&start, &o, format!("of {} placeholders one is reported as {g:?} instead of {w:?}", want.len()));
    }
    if got.len() != want.len() {
        return bad(&start, &o, format!("{} placeholders are reported instead of {}", got.len(), want.len()));
    }
    Ok(())
}
/// A style that is not enabled
fn args_disabled(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.arg_pct = 40;
    let m = any(r, cfg);
    let Some(_) = m.g.toks.iter().find(|t| t.k == K::Arg && !t.ex) else { return Ok(()) };
    let t = m.text(r);
    let on = m.o(r);
    let mut o = on;
    o.args = loop {
        let a = [Args::None, Args::Question, Args::Percent, Args::Dollar][r.n(4)];
        if a != on.args {
            break a;
        }
    };
    cx.eval(&t.s, true);
    cx.f("arg.disabled");
    let v = obs::run(&t.s, &o);
    if v.ok() {
        return bad(&t.s, &o, format!("a placeholder of style {:?} is accepted", on.args));
    }
    Ok(())
}
/// Placeholders in every style at once, in the smallest places
fn args_dollar(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let n: u128 = match r.n(5) {
        0 => 1 + i as u128 % 300,
        1 => 1u128 << r.n(70),
        2 => u64::MAX as u128 - r.n(3) as u128,
        3 => u64::MAX as u128 + 1 + r.n(100) as u128,
        _ => 1 + r.u64() as u128 % 100_000,
    };
    let t = *r.pick(&["SELECT {}", "SELECT a FROM t WHERE b = {}", "INSERT INTO t VALUES (1, {})", "SELECT a FROM t LIMIT {}", "UPDATE t SET a = {}", "SELECT f({})", "SELECT -{}", "SELECT a FROM t WHERE b IN ({}, 1)"]);
    let text = t.replace("{}", &format!("${n}"));
    let o = O::new(DIALECTS[r.n(3)], Args::Dollar);
    cx.eval(&text, true);
    cx.f("arg.dollar");
    let v = obs::run(&text, &o);
    if n > u64::MAX as u128 {
        return if v.ok() { bad(&text, &o, "a placeholder number that is too large is accepted") } else { Ok(()) };
    }
    if !v.ok() {
        return bad(&text, &o, format!("the placeholder is not accepted: {}", v.messages()));
    }
    all_reported(&text, &o, &v.trees, &[])?;
    numbering(&text, &o, &v.trees)
}

// Operators

#[derive(Clone)]
enum E {
    Operand(N),
    Un(&'static str, u32, S),
    Bin(&'static str, u32, S),
    /// `IS NULL` and the like
    Is(&'static str, S),
    In(bool, Vec<N>, S),
}

/// Independent grouping of a flat sequence by precedence climbing
struct Climb {
    v: Vec<E>,
    i: usize,
}
impl Climb {
    fn at_most(&mut self, max: u32) -> N {
        let mut lhs = match self.v[self.i].clone() {
            E::Operand(n) => {
                self.i += 1;
                n
            }
            E::Un(v, p, s) => {
                self.i += 1;
                let e = self.at_most(p);
                st!(Unary { op: at(v), op_span: s, operand: e })
            }
            _ => panic!("harness: no operand"),
        };
        while self.i < self.v.len() {
            match self.v[self.i].clone() {
                E::Bin(v, p, s) if p <= max => {
                    self.i += 1;
                    let rhs = self.at_most(p - 1);
                    lhs = st!(Binary { op: at(v), op_span: s, lhs: lhs, rhs: rhs });
                }
                E::Is(v, s) if 110 <= max => {
                    self.i += 1;
                    lhs = tu!(Is, lhs, at(v), s);
                }
                E::In(not, rhs, s) if 110 <= max => {
                    self.i += 1;
                    lhs = st!(In { lhs: lhs, rhs: rhs, in_span: s, not_in: not });
                }
                _ => break,
            }
        }
        lhs
    }
}

fn operand(g: &mut G, depth: u32) -> N {
    match g.r.n(9) {
        0 => {
            let i = g.int();
            tu!(Integer, i)
        }
        1 => {
            let s = g.string();
            tu!(String, s)
        }
        2 => g.placeholder(),
        3 if depth > 0 => {
            g.op("(");
            let n = g.r.r(1, 4);
            let e = chain(g, n, None, depth - 1);
            g.op(")");
            e
        }
        4 => {
            let s = g.push(K::Id, "f");
            g.names.push((s.0, true));
            g.op("(");
            let n = g.r.r(1, 2);
            let e = if depth > 0 { chain(g, n, None, depth - 1) } else { g.name_expr() };
            let p = g.op(")");
            let _ = p;
            tu!(Function, tu!(Other, "f"), vec![e], s)
        }
        _ => g.name_expr(),
    }
}

fn oper(g: &mut G, t: &str) -> S {
    if t.as_bytes()[0].is_ascii_alphabetic() {
        g.kw(t)
    } else {
        g.op(t)
    }
}

/// Operators by number: binary, then IS NULL, IN, NOT IN
const NOPS: usize = 26;
fn push_op(g: &mut G, i: usize, v: &mut Vec<E>, depth: u32) -> bool {
    if i < BIN.len() {
        let s = oper(g, BIN[i].t);
        v.push(E::Bin(BIN[i].v, BIN[i].p, s));
        return true;
    }
    if i == BIN.len() {
        let (t, n) = g.pick(IS);
        let s = g.kw(t);
        v.push(E::Is(n, s));
    } else {
        let not = i > BIN.len() + 1;
        let s = g.kw(if not { "NOT IN" } else { "IN" });
        g.op("(");
        let n = g.r.r(1, 2);
        let mut l = Vec::new();
        for k in 0..n {
            if k > 0 {
                g.op(",");
            }
            l.push(operand(g, depth.min(1)));
        }
        g.op(")");
        v.push(E::In(not, l, s));
    }
    false
}
fn prefixed(g: &mut G, v: &mut Vec<E>, depth: u32, pct: usize, not: bool) {
    while g.r.p(pct) {
        let u = &UN[g.r.n(if not { UN.len() } else { UN.len() - 1 })];
        let not_before = matches!(v.last(), Some(E::Un(t, ..)) if *t != "Not");
        if u.v == "Not" && not_before {
            continue;
        }
        let s = oper(g, u.t);
        v.push(E::Un(u.v, u.p, s));
    }
    let o = operand(g, depth);
    v.push(E::Operand(o));
}
/// A random chain with `n` operators, or with exactly those given
fn chain(g: &mut G, n: usize, ops: Option<&[usize]>, depth: u32) -> N {
    let mut v = Vec::new();
    prefixed(g, &mut v, depth, if ops.is_some() { 12 } else { 20 }, true);
    for k in 0..n {
        let i = ops.map(|o| o[k]).unwrap_or_else(|| g.r.n(NOPS));
        if push_op(g, i, &mut v, depth) {
            // NOT only where every dialect allows it
            let logical = i < BIN.len() && BIN[i].p >= 140;
            prefixed(g, &mut v, depth, 15, logical);
        }
    }
    let mut c = Climb { v, i: 0 };
    let e = c.at_most(1000);
    assert!(c.i == c.v.len(), "harness: chain");
    e
}

fn find_tree(n: &N, d: &D, sp: &dyn Fn(S) -> (usize, usize)) -> bool {
    let mut ok = false;
    d.walk(&mut |d| ok = ok || crate::n::same(n, d, sp));
    ok
}

const PLACES: &[(&str, &str)] = &[
    ("SELECT", ""),
    ("SELECT a ,", "AS z FROM t"),
    ("SELECT a FROM t WHERE", "ORDER BY b"),
    ("SELECT a FROM t WHERE", "GROUP BY b"),
    ("UPDATE t SET a =", ", b = 1"),
    ("UPDATE t SET a = 1 WHERE", ""),
    ("INSERT INTO t VALUES ( 1 ,", ", 2 )"),
    ("SELECT f ( a ,", ")"),
    ("SELECT CASE WHEN", "THEN 1 END"),
    ("SELECT a FROM t JOIN u ON", "LEFT JOIN v ON 1"),
    ("SELECT a FROM t GROUP BY b HAVING", "LIMIT 1"),
    ("DELETE FROM t WHERE", ""),
    ("SELECT a FROM t ORDER BY", "DESC"),
    ("SET a =", ""),
    ("RETURN", ""),
    ("SELECT (", ") + 1"),
    ("IF", "THEN SELECT 1 ; END IF"),
    ("SELECT ( SELECT", "FROM t )"),
    ("SELECT a FROM t WHERE b IN (", ", 2 )"),
    ("SELECT EXISTS ( SELECT 1 FROM t WHERE", ")"),
];

fn words_of(g: &mut G, s: &str) {
    for p in s.split(' ').filter(|p| !p.is_empty()) {
        match p.as_bytes()[0] {
            b'a'..=b'z' => g.push(K::Id, p),
            b'A'..=b'Z' => g.kw(p),
            b'0'..=b'9' => g.push(K::Num, p),
            _ => g.op(p),
        };
    }
}

fn operators(cx: &mut Cx, r: &mut Rng, n: usize, ops: Option<&[usize]>) -> R {
    let mut cfg = Cfg::new(r);
    cfg.quoted = 0;
    let mut g = G::new(Rng::new(r.u64()), cfg);
    g.cfg.limit = 10_000;
    let p = r.pick(PLACES);
    words_of(&mut g, p.0);
    // Placeholders before it would be counted
    let depth = if ops.is_some() { 0 } else { r.n(4) as u32 };
    let e = chain(&mut g, n, ops, depth);
    words_of(&mut g, p.1);
    let l = if r.p(70) { Layout::Single } else { layout(r) };
    let t = render(&g.toks, l, Case::Random, r);
    let o = O::new(g.cfg.dialect, g.cfg.args);
    let v = obs::run(&t.s, &o);
    cx.eval(&t.s, true);
    cx.max("operators", n as u64);
    cx.fs("operator", n as u64);
    if !v.ok() {
        return bad(&t.s, &o, format!("valid expression is not accepted: {}", v.messages()));
    }
    if !v.trees.iter().any(|d| find_tree(&e, d, &|s| t.span(s))) {
        return bad(&t.s, &o, format!("the expression is not grouped as {}; found {}", short(&crate::n::to_d(&e, &|s| t.span(s))), crate::dbg::show(&v.trees[0])));
    }
    Ok(())
}
fn op_triples(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let i = i as usize;
    operators(cx, r, 3, Some(&[i % NOPS, i / NOPS % NOPS, i / NOPS / NOPS % NOPS]))
}
fn op_chains(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let n = match r.n(20) {
        0..=12 => r.r(1, 8),
        13..=18 => r.r(5, 20),
        _ => [r.r(20, 40), r.r(40, 200)][(r.n(8) == 0) as usize],
    };
    operators(cx, r, n, None)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "String literals with every short content over a 12-letter alphabet (stream short) and long random contents in up to five adjacent pieces (stream random) are put in 21 places of statements, and all string values of the tree are compared with a reference decoder; in generated statements every reported string must be a literal of the text with its decoded value. A case counts when the literal was not seen before.",
            assumptions: &["The reference decoder in harness/src/props/lexical.rs follows the documented rules of each dialect."],
            streams: vec![stream("short", 6 * (1 + 12 + 144 + 1728 + 20736), 6 * (1 + 12 + 144 + 1728 + 20736 + 248832 + 2985984), str_short), stream("random", 150_000, 6_000_000, str_random), stream("trees", 60_000, 2_000_000, str_trees)],
        },
        Prop {
            id: "C08",
            rule: "Integers around every power of two and ten, with leading zeros, floats with up to 340 digits on either side, integers beyond 64 bits and malformed numbers are put in 29 places of statements; the value must stand in the tree beside the span of the literal, or the text must be rejected. A case counts when the text was not seen before.",
            assumptions: &["The nearest double of a decimal is computed by exact division when it has at most 15 digits, otherwise by Rust's f64 parser."],
            streams: vec![stream("ints", 200_000, 6_000_000, ints), stream("too-large", 100_000, 3_000_000, int_too_large), stream("floats", 150_000, 5_000_000, floats), stream("malformed", 100_000, 3_000_000, malformed_number)],
        },
        Prop {
            id: "C09",
            rule: "Words that are no keyword, words close to keywords, keywords without a role and names of functions are put in 59 places for names, plain or quoted, and must be reported with exactly their spelling at their place; all 251 reserved words are put in all those places unquoted, where they must be rejected. In generated statements every name must be in the tree with its spelling and span. A case counts when the text was not seen before.",
            assumptions: &["The list of reserved words is frozen in harness/data/reserved.txt."],
            streams: vec![stream("plain", 150_000, 5_000_000, names_plain), stream("quoted", 100_000, 3_000_000, names_quoted), stream("reserved", 251 * 59, 251 * 59 * 20, names_reserved), stream("trees", 100_000, 4_000_000, names_trees)],
        },
        Prop {
            id: "C10",
            rule: "The same text is parsed with its keywords in capitals, lower case and random case, for generated statements, mutated statements and every keyword after 23 beginnings of statements; trees, spans and errors must agree. A case counts when the text has more than two tokens and was not seen before.",
            assumptions: &["Names and literals keep their case."],
            streams: vec![stream("valid", 60_000, 3_000_000, case_valid), stream("mutated", 60_000, 3_000_000, case_mutated), stream("words", 40_000, 1_000_000, case_words)],
        },
        Prop {
            id: "C11",
            rule: "The same tokens, of generated statements, scripts and mutated statements, are laid out with single spaces, with as little white space as possible, and with random white space and comments; acceptance and trees (positions aside) must agree. A case counts when the text has more than two tokens and was not seen before.",
            assumptions: &["An independent tokenizer (harness/src/lex.rs) confirms that both texts have the same tokens; other pairs are skipped and counted."],
            streams: vec![stream("valid", 60_000, 3_000_000, layout_valid), stream("mutated", 60_000, 3_000_000, layout_mutated), stream("script", 20_000, 1_000_000, layout_script)],
        },
        Prop {
            id: "C12",
            rule: "Scripts of up to six generated statements full of placeholders, mutated ones that are still accepted, and single dollar placeholders are parsed; numbers and places of the placeholders in the tree are compared with the tokens of the text. Statements with placeholders of another style must be rejected. A case counts when the text has more than one placeholder and was not seen before.",
            assumptions: &["An independent tokenizer (harness/src/lex.rs) finds the placeholders of the text."],
            streams: vec![stream("script", 60_000, 3_000_000, args_script), stream("mutated", 100_000, 4_000_000, args_mutated), stream("broken", 100_000, 4_000_000, args_broken), stream("disabled", 80_000, 3_000_000, args_disabled), stream("dollar", 30_000, 1_000_000, args_dollar), stream("many", 60, 5_000, args_many)],
        },
        Prop {
            id: "C13",
            rule: "All sequences of three of the 26 operators, with random unary operators between them, and random chains of up to 200 operators with parentheses, in 20 places of statements; the tree must contain the grouping that independent precedence climbing gives, with the span of every operator. A case counts when the text was not seen before.",
            assumptions: &["The precedence table in harness/src/gexpr.rs is the documented one."],
            streams: vec![stream("triples", 26 * 26 * 26, 26 * 26 * 26 * 40, op_triples), stream("chains", 150_000, 6_000_000, op_chains)],
        },
    ]
}
