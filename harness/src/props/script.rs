//! C06 and C23: many statements in one text, and the data of COPY.
use super::*;
use crate::dbg::{diff, D};
use crate::lex::{lex, T};
use crate::mutate;
use crate::obs::{Iss, Obs};

/// A piece of a script: text with its own delimiters
struct Unit {
    s: String,
    /// Judged only by what it does to the others
    broken: bool,
}

pub fn shift(d: &D, by: usize) -> D {
    d.map(&|a, b| D::Sp(a + by, b + by), &|a| a)
}
/// Number of every placeholder and whether it is a list marker
fn numbers(d: &D) -> Vec<(usize, bool)> {
    let mut o = Vec::new();
    d.walk(&mut |d| {
        if let D::Tu(n, _) = d {
            if n == "Arg" || n == "ListHack" {
                if let Some(a) = d.args().first() {
                    o.push((a.0, n == "ListHack"))
                }
            }
        }
    });
    o
}
fn unnumbered(d: &D) -> D {
    d.map(&|a, b| D::Sp(a, b), &|_| 0)
}
pub fn shift_issue(i: &Iss, by: usize) -> Iss {
    let m = |s: &(usize, usize)| (s.0 + by, s.1 + by);
    let g = |s: &Option<(usize, usize)>| s.map(|s| (s.0 + by, s.1));
    Iss { err: i.err, msg: i.msg.clone(), span: m(&i.span), seg: g(&i.seg), frags: i.frags.iter().map(|f| (f.0.clone(), m(&f.1), g(&f.2))).collect() }
}

/// The trees and issues of `part` are those of `alone`, moved by `by` bytes
fn same_part(text: &str, o: &O, part: &[&D], issues: &[&Iss], alone: &Obs, by: usize, what: &str) -> R {
    if part.len() != alone.trees.len() {
        return bad(text, o, format!("{what} gives {} statements instead of {}", part.len(), alone.trees.len()));
    }
    let mut by_num = None;
    for (a, b) in part.iter().zip(&alone.trees) {
        let (na, nb) = (numbers(a), numbers(b));
        // Parts made up for what is missing in a broken statement have no position of their own
        let (ua, ub) = if alone.ok() { (unnumbered(a), unnumbered(&shift(b, by))) } else { (unnumbered(&a.nospan()), unnumbered(&b.nospan())) };
        if let Some(d) = diff(&ub, &ua) {
            return bad(text, o, format!("{what} is parsed differently in the script: {d}"));
        }
        for (x, y) in na.iter().zip(&nb) {
            let n = x.0 as i64 - y.0 as i64;
            let ok = if o.args == Args::Dollar && !x.1 { n == 0 } else { *by_num.get_or_insert(n) == n && n >= 0 };
            if !ok {
                return bad(text, o, format!("{what} has its placeholders numbered {na:?}, alone {nb:?}"));
            }
        }
    }
    let want: Vec<Iss> = alone.issues.iter().map(|i| shift_issue(i, by)).collect();
    let got: Vec<Iss> = issues.iter().map(|i| (*i).clone()).collect();
    if want != got {
        let s = |v: &[Iss]| v.iter().map(|i| format!("{}@{:?}", i.msg, i.span)).collect::<Vec<_>>().join("; ");
        return bad(text, o, format!("{what} gives the issues [{}] instead of [{}]", s(&got), s(&want)));
    }
    Ok(())
}

fn within(d: (usize, usize), s: usize, e: usize) -> bool {
    s <= d.0 && d.0 < e.max(s + 1)
}

/// One statement and how it is written, without its delimiter
fn body(r: &mut Rng, cfg: &Cfg, mutated: bool) -> (Made, Vec<Tok>) {
    let mut c = cfg.clone();
    c.limit = if c.limit == 6 { 6 } else { r.r(3, 60) };
    c.depth = c.depth.min(3);
    let m = any(r, c);
    let mut k = m.g.toks.clone();
    if mutated {
        let wild = r.p(30);
        mutate::tokens(r, &mut k, wild);
        if r.p(15) {
            let n = r.r(1, 12);
            k = mutate::soup(r, n)
        }
    }
    (m, k)
}

fn word_in(s: &str, w: &[&str]) -> bool {
    lex(s).iter().any(|l| l.t == T::Word && w.iter().any(|w| l.text(s).eq_ignore_ascii_case(w)))
}
/// Each broken token that could swallow what follows it
fn closed(s: &str, delim: &str) -> bool {
    let t = format!("{s}{delim}\n");
    let l = lex(&t);
    let Some(last) = l.last() else { return false };
    // A token that does not end, or that ends in a way the tokenizer has its own idea about
    if last.s != s.len() || last.text(&t) != delim || l.iter().any(|x| x.t == T::Bad && (x.text(&t).len() > 4 || ["'", "\"", "`", "x'"].iter().any(|q| x.text(&t).to_ascii_lowercase().starts_with(q)))) {
        return false;
    }
    !l[..l.len() - 1].iter().any(|x| x.text(&t) == delim)
}

fn options(r: &mut Rng, cfg: &Cfg) -> O {
    let mut o = O::new(cfg.dialect, cfg.args).list(cfg.list_hack).script();
    o.warn_id = r.p(30);
    o.warn_kw = r.p(30);
    o
}

/// What is parsed between two statements
fn gap(r: &mut Rng, delim: &str) -> String {
    let mut s = String::new();
    for _ in 0..r.n(3) {
        s.push_str(*r.pick(&[" ", "\n", "\n\n", "\t", "\r\n", "/* x; y */", "-- ; SELECT\n", "// '\n", "/* $$ */ "]));
        if r.p(30) {
            s.push_str(delim);
        }
    }
    s
}

fn unit(r: &mut Rng, cfg: &Cfg, delim: &str, broken: bool) -> Option<Unit> {
    if !broken && delim == ";" && r.p(10) {
        let mut g = G::new(Rng::new(r.u64()), cfg.clone());
        g.copy(false);
        let s = render(&g.toks, layout(r), Case::Random, r).s;
        return Some(Unit { s, broken });
    }
    let (_, k) = body(r, cfg, broken);
    let mut s = render(&k, layout(r), Case::Random, r).s;
    if broken && r.p(15) {
        s = mutate::chars(r, &s);
    }
    if broken {
        if !closed(&s, delim) || word_in(&s, &["COPY", "DELIMITER"]) {
            return None;
        }
        // `$$` begins the body of these
        if delim == "$$" && lex(&s).last().map(|l| ["DO", "AS"].iter().any(|w| l.text(&s).eq_ignore_ascii_case(w))).unwrap_or(false) {
            return None;
        }
        // Statements with statements inside go on after a semicolon
        if delim == ";" && (word_in(&s, &["THEN", "ELSE", "BEGIN", "TRIGGER", "FUNCTION"]) || word_in(&s, &["DO"])) {
            return None;
        }
    }
    if !s.ends_with('\n') && r.p(80) {
        s.push_str(*r.pick(&["", " ", "\n", "/* ; */"]));
    }
    if !closed(&s, delim) && broken {
        return None;
    }
    s.push_str(delim);
    Some(Unit { s, broken })
}

fn whole(cx: &mut Cx, r: &mut Rng, with_broken: bool) -> R {
    let mut cfg = Cfg::new(r);
    if r.p(30) {
        cfg.arg_pct = 50;
    }
    let delim = [";", ";", "$$"][r.n(3)];
    let long = r.n(150) == 0;
    let n = if long { r.r(60, 150) } else { r.r(2, 7) };
    if long {
        cx.f("script.long");
        cfg.limit = 6;
    }
    let o = options(r, &cfg);
    let mut units = Vec::new();
    for i in 0..n {
        // Long scripts break late, and seldom
        let b = with_broken && if long { i == n - 3 || r.p(2) } else { i == n / 2 || r.p(20) };
        if let Some(u) = unit(r, &cfg, delim, b) {
            // `$$` inside a statement, such as around the body of a function, would end it
            if delim == "$$" && u.s[..u.s.len() - 2].contains("$$") {
                continue;
            }
            units.push(u);
        }
    }
    let head = if delim == "$$" { "DELIMITER $$\n".to_string() } else { String::new() };
    let mut t = head.clone();
    let mut at = Vec::new();
    for u in &units {
        t.push_str(&gap(r, delim));
        at.push(t.len());
        t.push_str(&u.s);
    }
    let mut tail = None;
    if delim == "$$" && r.p(50) {
        // Back to the ordinary delimiter
        t.push_str("\nDELIMITER ;\n");
        if let Some(u) = unit(r, &cfg, ";", false) {
            tail = Some((t.len(), u.s.clone()));
            t.push_str(&u.s);
        }
    }
    t.push_str(&gap(r, if tail.is_some() { ";" } else { delim }));
    let v = obs::run(&t, &o);
    cx.eval(&t, units.len() > 1);
    cx.fs("statements", units.len() as u64);
    cx.max("statements in a script", units.len() as u64);
    cx.f(if delim == ";" { "delimiter ;" } else { "delimiter $$" });
    // Every tree and every issue belongs to one unit
    let of = |s: (usize, usize)| -> Option<usize> {
        if let Some((p, _)) = &tail {
            if s.0 >= *p {
                return Some(units.len());
            }
        }
        let k = at.partition_point(|p| *p <= s.0);
        if k == 0 {
            return None;
        }
        let (b, e) = (at[k - 1], at[k - 1] + units[k - 1].s.len());
        if within(s, b, e) {
            Some(k - 1)
        } else {
            None
        }
    };
    let m = units.len() + 1;
    let (mut trees, mut issues): (Vec<Vec<&D>>, Vec<Vec<&Iss>>) = (vec![vec![]; m], vec![vec![]; m]);
    let alone: Vec<Obs> = units.iter().map(|u| obs::run(&format!("{head}{}", u.s), &o)).chain(tail.iter().map(|t| obs::run(&t.1, &o))).collect();
    let want: usize = alone.iter().map(|a| a.trees.len()).sum();
    if v.trees.len() != want {
        return bad(&t, &o, format!("{} statements instead of {want}", v.trees.len()));
    }
    let mut rest = v.trees.iter();
    for (k, a) in alone.iter().enumerate() {
        trees[k] = rest.by_ref().take(a.trees.len()).collect();
    }
    for i in &v.issues {
        let Some(k) = of(i.span) else { return bad(&t, &o, format!("the issue {:?} is at {:?}, between the statements", i.msg, i.span)) };
        issues[k].push(i);
    }
    for (k, u) in units.iter().enumerate() {
        let a = &alone[k];
        if u.broken {
            cx.f(if a.ok() { "broken.accepted" } else { "broken.rejected" });
            let e = at[k] + u.s.len();
            for i in &issues[k] {
                if i.span.1 > e {
                    return bad(&t, &o, format!("the issue {:?} at {:?} reaches past the broken statement at {}..{e}", i.msg, i.span, at[k]));
                }
            }
        } else if !a.ok() {
            return bad(&format!("{head}{}", u.s), &o, format!("valid statement is not accepted: {}", a.messages()));
        }
        same_part(&t, &o, &trees[k], &issues[k], a, at[k] - head.len(), &format!("the statement at {}", at[k]))?;
        // A statement is the same with and without its delimiter
        if !u.broken && !u.s.contains("STDIN") && !u.s.to_ascii_uppercase().contains("STDIN") {
            let alone = &u.s[..u.s.len() - delim.len()];
            let s = obs::run(alone, &o.single());
            same_part(&t, &o, &trees[k], &issues[k], &s, at[k], &format!("the statement at {}", at[k]))?;
        }
    }
    if let Some((p, _)) = &tail {
        let a = &alone[units.len()];
        same_part(&t, &o, &trees[units.len()], &issues[units.len()], a, *p, "the statement after DELIMITER ;")?;
    }
    Ok(())
}

/// A script with expected trees, so that a parser wrong both alone and in a script is seen as well
fn expected(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (g, e) = super::lexical::script(r, 40);
    if g.toks.iter().any(|t| t.ex && (t.t == "_LIST_" || t.k == K::Arg)) {
        return Ok(()); // markers in parts that are not represented
    }
    let t = render(&g.toks, layout(r), Case::Random, r);
    let o = O::new(g.cfg.dialect, g.cfg.args).list(g.cfg.list_hack).script();
    let v = obs::run(&t.s, &o);
    cx.eval(&t.s, e.len() > 1);
    cx.max("statements in a script", e.len() as u64);
    if !v.ok() {
        return bad(&t.s, &o, format!("valid script is not accepted: {}", v.messages()));
    }
    if v.trees.len() != e.len() {
        return bad(&t.s, &o, format!("{} statements instead of {}", v.trees.len(), e.len()));
    }
    for (e, d) in e.iter().zip(&v.trees) {
        if let Err(m) = crate::n::compare(e, d, &|s| t.span(s), true) {
            return bad(&t.s, &o, m);
        }
    }
    Ok(())
}

// C23

/// Where the data that starts at `p` ends, and where the text goes on
fn data_end(t: &str, p: usize) -> (usize, usize) {
    let mut i = p;
    loop {
        let rest = &t[i..];
        let (line, n) = match rest.find('\n') {
            Some(k) => (&rest[..k], k + 1),
            None => (rest, rest.len()),
        };
        if line == "\\." {
            return (i, i + n);
        }
        if i + n >= t.len() {
            return (t.len(), t.len());
        }
        i += n;
    }
}

fn hostile_data(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = if r.p(3) { 400 } else { 5 };
    for _ in 0..r.n(n) {
        match r.n(8) {
            0 => {
                let n = r.n(20);
                s.push_str(&mutate::noise(r, n))
            }
            1 => s.push_str(*r.pick(&["\\.\r", " \\.", "\\. ", "\\..", "\\\\.", "\\", ".", "\\.\\.", "\\.x", "\t\\.", "\u{a0}\\.", "\\.\t", "\\N", "\r", "\\.;", "\\\n.", "\\.\u{0}"])),
            2 => {
                let k = mutate::soup(r, 6);
                s.push_str(&render(&k, layout(r), Case::Random, r).s)
            }
            3 => s.push_str(*r.pick(&["SELECT 1;", "DELIMITER $$", "/*", "--", "'", "\"", "`", "COPY t (a) FROM STDIN;", "$$", ";", "END", "日本\té", "😀", "$1 ? %s"])),
            4 => {}
            _ => s.push_str(*r.pick(&["1\t2", "a b c", "x", "\\N\t\\N", "", "0"])),
        }
        s.push('\n');
    }
    if r.p(10) {
        s.pop();
    }
    s
}

fn copy(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(2);
    let o = options(r, &cfg);
    let mut t = String::new();
    let mut want: Vec<(usize, D)> = Vec::new();
    // Trees of the statements, parsed alone
    let add = |t: &mut String, s: &str, want: &mut Vec<(usize, D)>| -> R {
        let v = obs::run(s, &o);
        if !v.ok() || v.trees.len() != 1 {
            return bad(s, &o, format!("valid statement is not accepted: {}", v.messages()));
        }
        want.push((t.len(), v.trees[0].clone()));
        t.push_str(s);
        Ok(())
    };
    let n = r.r(1, 4);
    for i in 0..n {
        for _ in 0..r.n(3) {
            let mut c = cfg.clone();
            c.limit = 12;
            let (_, k) = body(r, &c, false);
            let s = format!("{};", render(&k, layout(r), Case::Random, r).s);
            add(&mut t, &s, &mut want)?;
            t.push('\n');
        }
        let mut g = G::new(Rng::new(r.u64()), cfg.clone());
        let e = g.copy(true);
        let k = g.toks.iter().position(|t| t.k == K::Raw).unwrap();
        let head = render(&g.toks[..k], layout(r), Case::Random, r);
        let at = t.len();
        let d = crate::n::to_d(&e[0], &|s| head.span(s));
        want.push((at, d));
        // A comment after the delimiter would be data
        t.push_str(&head.s[..head.at[k - 1].1]);
        for _ in 0..[0, 0, 1, 1, 2, 3, 4, 9][r.n(8)] {
            t.push(*r.pick(&[' ', ' ', '\t', '\r', '\x0c']));
        }
        t.push('\n');
        let p = t.len();
        let data = hostile_data(r);
        t.push_str(&data);
        if (i + 1 < n || r.p(50)) && data_end(&t, p).0 == t.len() {
            if !t.ends_with('\n') {
                t.push('\n');
            }
            t.push_str("\\.");
            if i + 1 < n || r.p(70) {
                t.push('\n');
            } else {
                cx.f("copy.end_marker_at_eof");
            }
        }
        let (e, next) = data_end(&t, p);
        if e < next {
            // What follows the first end marker is not data
            t.truncate(next);
        } else {
            cx.f("copy.data_to_eof");
        }
        cx.f("copy");
        cx.max("bytes of data", (e - p) as u64);
        want.push((0, D::Tu("Stdin".into(), vec![D::Str(t[p..e].to_string()), D::Sp(p, e)])));
        if e == next || !t.ends_with('\n') {
            break;
        }
        if i + 1 == n && r.p(60) {
            let mut c = cfg.clone();
            c.limit = 12;
            let (_, k) = body(r, &c, false);
            let s = format!("{};", render(&k, layout(r), Case::Random, r).s);
            add(&mut t, &s, &mut want)?;
            cx.f("copy.statement_after");
        }
    }
    let v = obs::run(&t, &o);
    cx.eval(&t, true);
    if !v.ok() {
        return bad(&t, &o, format!("valid script is not accepted: {}", v.messages()));
    }
    if v.trees.len() != want.len() {
        return bad(&t, &o, format!("{} statements instead of {}", v.trees.len(), want.len()));
    }
    for (d, (by, w)) in v.trees.iter().zip(&want) {
        let w = shift(w, *by);
        if let Some(m) = diff(&unnumbered(&w), &unnumbered(d)) {
            return bad(&t, &o, format!("expected / found at {m}"));
        }
    }
    Ok(())
}

/// Statement lists that may hold a COPY
const BODIES: &[&str] = &[
    "CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW BEGIN\u{1} END",
    "CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW BEGIN SELECT 1; IF 1 THEN\u{1} END IF; END",
    "CREATE FUNCTION f() RETURNS INT BEGIN\u{1} END",
    "IF 1 THEN\u{1} END IF",
    "IF 1 THEN SELECT 1; ELSE\u{1} END IF",
    "IF 1 THEN SELECT 1; ELSEIF 2 THEN\u{1} ELSE SELECT 1; END IF",
    "IF 1 THEN IF 2 THEN\u{1} END IF; END IF",
    "CASE 1 WHEN 2 THEN\u{1} END",
    "CASE 1 WHEN 2 THEN SELECT 1; ELSE\u{1} END",
    "CASE WHEN 2 THEN CASE 1 WHEN 2 THEN SELECT 1; WHEN 3 THEN\u{1} END; END",
];
/// COPY inside a list of statements
fn copy_in_body(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let mut o = O::new(M, Args::None);
    o.script = r.p(60);
    let b = BODIES[i as usize % BODIES.len()];
    let (head, tail) = b.split_once('\u{1}').unwrap();
    let mut t = String::new();
    if o.script && r.p(40) {
        t.push_str(*r.pick(&["DELIMITER $$\n", "SELECT 0;\n"]));
    }
    let end = if t.contains('$') { "$$" } else { ";" };
    t.push_str(head);
    t.push(' ');
    let mut want: Vec<(usize, D)> = Vec::new();
    for _ in 0..r.r(1, 3) {
        for _ in 0..r.n(3) {
            let s = *r.pick(&["SELECT 1", "UPDATE t SET a = 1", "DELETE FROM t", "SELECT ';'", "INSERT INTO t (a) VALUES (1)"]);
            want.push((t.len(), obs::run(s, &o0()).trees[0].clone()));
            t.push_str(s);
            t.push_str("; ");
        }
        let s = *r.pick(&["COPY t (a) FROM STDIN", "COPY abc (a, b)\nFROM STDIN"]);
        want.push((t.len(), obs::run(s, &o0()).trees[0].clone()));
        t.push_str(s);
        t.push(';');
        for _ in 0..[0, 0, 1, 2, 3][r.n(5)] {
            t.push(*r.pick(&[' ', '\t', '\r']));
        }
        t.push('\n');
        let p = t.len();
        t.push_str(&hostile_data(r));
        if !t.ends_with('\n') {
            t.push('\n');
        }
        t.push_str("\\.\n");
        let (e, next) = data_end(&t, p);
        t.truncate(next);
        want.push((0, D::Tu("Stdin".into(), vec![D::Str(t[p..e].to_string()), D::Sp(p, e)])));
    }
    if r.p(50) {
        want.push((t.len() + 1, obs::run("SELECT 9", &o0()).trees[0].clone()));
        t.push_str(" SELECT 9;");
    }
    t.push_str(tail);
    if o.script {
        t.push_str(end);
        if r.p(50) {
            t.push_str("\nSELECT 0");
            t.push_str(end);
        }
    }
    let v = obs::run(&t, &o);
    cx.eval(&t, true);
    cx.f("copy.in_body");
    if !v.ok() {
        return bad(&t, &o, format!("COPY in a list of statements is not accepted: {}", v.messages()));
    }
    let mut lists = Vec::new();
    for d in &v.trees {
        d.walk(&mut |d| {
            if let D::Li(l) = d {
                if l.iter().any(|d| matches!(d, D::Tu(n, _) if n == "Stdin")) {
                    lists.push(l)
                }
            }
        });
    }
    if lists.len() != 1 || lists[0].len() != want.len() {
        return bad(&t, &o, format!("{} lists hold data, the first one has {} statements instead of {}", lists.len(), lists.first().map_or(0, |l| l.len()), want.len()));
    }
    for (d, (by, w)) in lists[0].iter().zip(&want) {
        if let Some(m) = diff(&shift(w, *by), d) {
            return bad(&t, &o, format!("expected / found at {m}"));
        }
    }
    Ok(())
}
fn o0() -> O {
    O::new(M, Args::None)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "scripts of at least two statements, valid ones and ones with changed tokens or characters, ended by ; or by $$, with empty statements and comments between them; every statement is compared with the same statement parsed alone",
            assumptions: &["a broken statement holds no unterminated token, no delimiter and, when ; is the delimiter, no statement list of its own"],
            streams: vec![
                stream("scripts", 40_000, 2_000_000, |cx, r, _| whole(cx, r, false)),
                stream("broken", 60_000, 3_000_000, |cx, r, _| whole(cx, r, true)),
                stream("expected", 60_000, 3_000_000, expected),
            ],
        },
        Prop {
            id: "C23",
            rule: "scripts of COPY statements with data of every kind, other statements before and after, at top level and inside bodies; the reported data, its span and all trees are compared with the text",
            assumptions: &["the data of COPY starts on the line after the delimiter"],
            streams: vec![stream("copy", 60_000, 3_000_000, copy), stream("copy_in_body", 20_000, 1_000_000, copy_in_body)],
        },
    ]
}
