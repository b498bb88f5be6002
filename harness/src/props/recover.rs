//! C40: an error inside brackets.
use super::*;
use crate::dbg::D;
use crate::mutate;
use std::collections::BTreeMap;

/// What ends the contents: a closing parenthesis, that or a comma, the word END
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    List,
    End,
    Query,
    /// The first parenthesis
    Paren,
    /// What is created
    What,
}
use Kind::*;

/// Expressions: text up to the contents, contents, text after them
const EXPRS: &[(&str, &str, &str, Kind)] = &[
    ("f(", "1", ")", List),
    ("f(", "1", ", b)", List),
    ("f(a, ", "1", ")", List),
    ("f(a, ", "1", ", b)", List),
    ("CONCAT(a, ", "b", ")", List),
    ("IF(", "a", ", b, d)", List),
    ("COALESCE(a, ", "1", ")", List),
    ("x IN (", "1", ")", List),
    ("x IN (1, ", "2", ", 3)", List),
    ("x NOT IN (1, ", "2", ")", List),
    ("x NOT IN (", "1", ", 2)", List),
    ("CAST(", "a AS INT", ")", Plain),
    ("COUNT(", "a", ")", Plain),
    ("COUNT(DISTINCT ", "a", ")", Plain),
    ("EXTRACT(", "DAY FROM a", ")", Plain),
    ("GROUP_CONCAT(", "a", ")", Plain),
    ("TIMESTAMPADD(", "DAY, 1, a", ")", Plain),
    ("TIMESTAMPDIFF(", "DAY, 1, a", ")", Plain),
    ("CAST(a AS VARCHAR(", "10", "))", Plain),
    ("CASE WHEN ", "a THEN b", " END", End),
    ("CASE WHEN a THEN ", "b", " END", End),
    ("CASE a WHEN b THEN d ", "ELSE e", " END", End),
    ("CASE a WHEN b THEN d ELSE ", "e", " END", End),
];

/// Where an expression can be
const PLACES: &[(&str, &str)] = &[
    ("SELECT ", ""),
    ("SELECT ", ", b, d FROM t WHERE c = 1"),
    ("SELECT b, ", " AS n, d FROM t LEFT JOIN u ON t.c = u.c ORDER BY b DESC LIMIT 3"),
    ("SELECT b FROM t WHERE ", ""),
    ("SELECT b FROM t WHERE d AND ", " AND e = 2 GROUP BY b ORDER BY d"),
    ("SELECT b FROM t JOIN u ON ", " WHERE c = 1"),
    ("SELECT b FROM t GROUP BY ", ", c HAVING d LIMIT 1"),
    ("SELECT b FROM t GROUP BY b HAVING ", " ORDER BY c LIMIT 1"),
    ("SELECT b FROM t ORDER BY ", " DESC, c LIMIT 1"),
    ("SELECT b FROM t WHERE c = (SELECT d FROM u WHERE ", ") AND e = 1"),
    ("SELECT (d + ", ") * c, e FROM t"),
    ("SELECT g(d, ", ", e), h FROM t"),
    ("SELECT CASE WHEN ", " THEN d ELSE e END, g FROM t"),
    ("SELECT b FROM t UNION SELECT ", " FROM u UNION ALL SELECT c FROM v"),
    ("UPDATE t SET d = ", ", e = 2 WHERE c = 1"),
    ("UPDATE t SET d = 1 WHERE ", ""),
    ("DELETE FROM t WHERE ", ""),
    ("DELETE FROM t WHERE ", " OR e = 1"),
    ("INSERT INTO t SET d = ", ", e = 1"),
    ("INSERT INTO t (d) SELECT ", " FROM u ON DUPLICATE KEY UPDATE d = 1"),
    ("INSERT INTO t (d) SELECT 1 FROM u ON DUPLICATE KEY UPDATE d = ", ", e = 3"),
    ("CREATE VIEW v AS SELECT ", " FROM t WHERE c = 1"),
    ("CREATE TRIGGER g BEFORE UPDATE ON t FOR EACH ROW BEGIN UPDATE t SET d = ", " WHERE c; DELETE FROM u; END"),
    ("SET @x = ", ""),
    // With more errors
    ("SELECT f(:), ", ", h(a, :) FROM t WHERE c = 1"),
    ("INSERT INTO t (a, b) VALUES (:), (", ", 1), (:)"),
    ("SELECT a FROM t WHERE x IN (:, ", ") AND COUNT(:) ORDER BY b"),
];

/// What an expression can be part of
const WRAPS: &[(&str, &str)] = &[
    ("g(", ")"),
    ("g(h, ", ", i)"),
    ("CONCAT(h, ", ")"),
    ("CAST(", " AS INT)"),
    ("COUNT(", ")"),
    ("x IN (", ", 1)"),
    ("x NOT IN (h, ", ")"),
    ("CASE WHEN ", " THEN 1 END"),
    ("CASE h WHEN i THEN ", " ELSE j END"),
    ("GROUP_CONCAT(", " ORDER BY h)"),
    ("TIMESTAMPADD(DAY, ", ", h)"),
    ("EXTRACT(DAY FROM ", ")"),
    ("(", ")"),
    ("(h + ", ") * i"),
    ("NOT (", ")"),
    ("EXISTS (SELECT h FROM w WHERE ", ")"),
    ("(SELECT h FROM w WHERE ", " LIMIT 1)"),
    ("(SELECT ", ")"),
];

/// Statements
const STMTS: &[(&str, &str, &str, Kind)] = &[
    ("CREATE TABLE t (", "a INT", ")", List),
    ("CREATE TABLE t (", "a INT", ", b INT NOT NULL, c TEXT) ENGINE=InnoDB", List),
    ("CREATE TABLE t (a INT, ", "b INT NOT NULL", ", c TEXT) COMMENT='x'", List),
    ("CREATE TABLE t (a INT, b INT NOT NULL, ", "c TEXT", ")", List),
    ("CREATE TABLE t (a VARCHAR(", "10", ") NOT NULL, b INT)", Plain),
    ("CREATE TABLE t (a INT(", "10", ") UNSIGNED, b INT)", Plain),
    ("CREATE TABLE t (b INT, a ENUM(", "'a', 'b'", ") NOT NULL, c INT)", Plain),
    ("CREATE TABLE t (b INT, a SET(", "'a', 'b'", ") NOT NULL, c INT)", Plain),
    ("CREATE TABLE t (a INT AS (", "b + 1", ") VIRTUAL, b INT)", Plain),
    ("CREATE TABLE t (a INT CHECK (", "b > 1", "), b INT)", Plain),
    ("ALTER TABLE t ADD INDEX i (", "a, b", "), DROP COLUMN c", Plain),
    ("ALTER TABLE t ADD c INT, ADD UNIQUE INDEX i (", "a, b", "), DROP COLUMN c", Plain),
    ("ALTER TABLE t ADD CONSTRAINT k FOREIGN KEY (", "a, b", ") REFERENCES u (a, b), DROP COLUMN c", Plain),
    ("ALTER TABLE t ADD CONSTRAINT k FOREIGN KEY (a, b) REFERENCES u (", "a, b", ") ON DELETE CASCADE, DROP COLUMN c", Plain),
    ("ALTER TABLE t ADD COLUMN d VARCHAR(", "10", ") NOT NULL, DROP COLUMN c", Plain),
    ("ALTER TABLE t ADD PRIMARY KEY (", "a", "), DROP COLUMN c", Plain),
    ("INSERT INTO t (", "a, b", ") VALUES (1, 2), (3, 4) ON DUPLICATE KEY UPDATE a = 1", Plain),
    ("INSERT INTO t (a, b) VALUES (", "1, 2", "), (3, 4) ON DUPLICATE KEY UPDATE a = 1", Plain),
    ("INSERT INTO t (a, b) VALUES (1, 2), (", "3, 4", "), (5, 6)", Plain),
    ("REPLACE INTO t (a, b) VALUES (1, 2), (", "3, 4", ")", Plain),
    ("SELECT a FROM t USE INDEX (", "i", ", j) WHERE c = 1", List),
    ("SELECT a FROM t FORCE INDEX (i, ", "j", ") JOIN u ON d WHERE c = 1", List),
    ("CREATE FUNCTION f (", "a INT, b INT", ") RETURNS INT RETURN 1", Plain),
    ("CREATE TYPE y AS ENUM (", "'a'", ", 'b')", List),
    ("CREATE TYPE y AS ENUM ('a', ", "'b'", ")", List),
    ("WITH x AS (", "SELECT 1", ") SELECT a FROM x WHERE c = 1", Query),
    ("WITH x AS (SELECT 1), y AS (", "SELECT 1", ") DELETE FROM x WHERE c = 1", Query),
    ("SELECT a FROM (", "SELECT 1", ") AS x WHERE c = 1", Plain),
    ("(", "SELECT 1", ") UNION SELECT b FROM t", Plain),
    ("SELECT b FROM t UNION ALL (", "SELECT 1", ") LIMIT 1", Plain),
    ("COPY t (", "a", ", b) FROM STDIN", List),
    ("COPY t (a, ", "b", ") FROM STDIN", List),
    ("CREATE TABLE ", "t", " (a INT, b TEXT) ENGINE=InnoDB", Paren),
    ("CREATE TABLE t (a INT, b TEXT) ", "ENGINE=InnoDB", "", Plain),
    ("CREATE TABLE t (a INT, b TEXT) ENGINE=InnoDB ", "COMMENT='x'", "", Plain),
    ("ALTER TABLE t ADD COLUMN a INT, ", "DROP COLUMN c", "", Plain),
    ("ALTER TABLE t ADD COLUMN a INT, DROP COLUMN b, ", "DROP COLUMN c", "", Plain),
    ("CREATE ", "TEMPORARY ", "TABLE t (a INT, b TEXT)", What),
    ("CREATE ", "OR REPLACE ", "VIEW v AS SELECT a FROM t", What),
    ("BEGIN SELECT a; ", "SELECT 1; ", "END", End),
    ("BEGIN ", "SELECT 1; ", "END", End),
    ("IF a THEN SELECT b; ELSE ", "SELECT 1; ", "END IF", End),
    ("IF ", "a THEN SELECT 1; ", "END IF", End),
    ("IF a THEN SELECT b; ", "", "END IF", End),
    ("CASE a WHEN b THEN DELETE FROM u; ", "", "END", End),
    ("CASE a WHEN b THEN DELETE FROM u; ELSE ", "SELECT 1; ", "END", End),
];

fn junk(r: &mut Rng, kind: Kind, n: usize, flat: bool, nest: u32) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let t = mutate::token(r).t;
        let t = t.as_str();
        if "()[]{};#".contains(t) || t == "$$" || t == "//" || matches!(t, "'" | "\"" | "`" | "X'" | "--" | "/*") || t.eq_ignore_ascii_case("CASE") || t.eq_ignore_ascii_case("CREATE") || t.eq_ignore_ascii_case("DELIMITER") {
            continue;
        }
        if matches!(kind, End | Query) && (t.eq_ignore_ascii_case("END") || t.eq_ignore_ascii_case("EXCEPTION") || t.eq_ignore_ascii_case("BEGIN") || t.eq_ignore_ascii_case("ALTER") || t.eq_ignore_ascii_case("IF")) {
            continue;
        }
        if kind == What && ["TABLE", "VIEW", "TRIGGER", "FUNCTION", "INDEX", "TYPE"].iter().any(|w| t.eq_ignore_ascii_case(w)) {
            continue;
        }
        s.push_str(t);
        // Nor behind this
        s.push_str(if t == "," && flat { " : " } else { " " });
        if nest > 0 && kind != Paren && r.p(20) {
            let (a, z) = *r.pick(&[("(", ")"), ("(", ")"), ("[", "]"), ("{", "}")]);
            let k = r.n(5);
            let i = junk(r, kind, k, false, nest - 1);
            s.push_str(&format!("{a} {i}{z} "));
        }
    }
    s
}

/// The leaves of a tree that lie outside of a zone, with where they are in the tree
fn outside(d: &D, zone: (usize, usize), by: isize, path: &str, out: &mut BTreeMap<String, isize>, add: isize) {
    let leaf = |v: &[&D], out: &mut BTreeMap<String, isize>| {
        let all: Vec<_> = v.iter().filter_map(|d| if let D::Sp(a, b) = d { Some((*a, *b)) } else { None }).collect();
        // Placeholders of things that are missing have an empty span at 0
        let spans: Vec<_> = all.iter().filter(|s| s.1 != 0 && (s.1 <= zone.0 || s.0 >= zone.1)).collect();
        if spans.is_empty() {
            return;
        }
        let m = |x: usize| if x >= zone.1 { (x as isize + by) as usize } else { x };
        let atoms: Vec<_> = v.iter().filter(|d| (matches!(d, D::At(a) if a != "None") || matches!(d, D::Str(_))) && spans.len() == all.len()).map(|d| crate::dbg::short(d)).collect();
        let spans: Vec<_> = spans.iter().map(|s| (m(s.0), m(s.1))).collect();
        *out.entry(format!("{path} {spans:?} {}", atoms.join(","))).or_insert(0) += add;
    };
    match d {
        D::St(c, v) => {
            leaf(&v.iter().map(|x| &x.1).collect::<Vec<_>>(), out);
            v.iter().for_each(|x| outside(&x.1, zone, by, &format!("{path}.{c}.{}", x.0), out, add))
        }
        D::Tu(c, v) => {
            leaf(&v.iter().collect::<Vec<_>>(), out);
            v.iter().for_each(|x| outside(x, zone, by, &format!("{path}.{c}"), out, add))
        }
        D::Li(v) => {
            for x in v {
                leaf(&[x], out);
                outside(x, zone, by, path, out, add)
            }
        }
        _ => (),
    }
}

fn recover(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let n = EXPRS.len() * PLACES.len();
    let k = (i as usize) % (n + STMTS.len() * 8);
    let (head, body, tail, kind, mut before, after) = if k < n {
        let (a, b, c, kind) = EXPRS[k % EXPRS.len()];
        let (p, q) = PLACES[k / EXPRS.len()];
        let (mut p, mut q) = (p.to_string(), q.to_string());
        for _ in 0..[0, 0, 1, 2, 4][r.n(5)] {
            let (x, y) = r.pick(WRAPS);
            p.push_str(x);
            q.insert_str(0, y);
        }
        (a, b, format!("{c}{q}"), kind, p, "")
    } else {
        let (a, b, c, kind) = STMTS[(k - n) % STMTS.len()];
        (a, b, c.to_string(), kind, String::new(), "")
    };
    // More things in the list, before and after
    let (mut head, mut tail) = (head.to_string(), tail);
    let label: &str = if k < n { EXPRS[k % EXPRS.len()].0 } else { STMTS[(k - n) % STMTS.len()].0 };
    if kind == List && r.p(40) {
        let thing = |i: usize| match label {
            l if l.starts_with("CREATE TYPE") => format!("'w{i}'"),
            l if l.starts_with("CREATE TABLE") => format!("w{i} INT"),
            l if l.contains("INDEX") || l.starts_with("COPY") => format!("w{i}"),
            _ => i.to_string(),
        };
        let [a, z] = [[1, 3, 8, 70][r.n(4)], [0, 1, 3, 70][r.n(4)]];
        for i in 1..=a {
            head.push_str(&format!("{}, ", thing(i)));
        }
        for i in (a + 1..=a + z).rev() {
            tail.insert_str(0, &format!(", {}", thing(i)));
        }
    }
    let script = r.p(40);
    if script {
        before = format!("SELECT 1 FROM z; {before}");
        tail.push_str(after);
        tail.push_str("; DELETE FROM z WHERE y = 2;");
    }
    // The parser does not enter the brackets behind the colon, which is never valid
    let (len, more) = (r.n(4), [r.n(8), r.n(8), r.n(8), 40, 400][r.n(60).saturating_sub(55)]);
    let mut g = junk(r, kind, len, true, 0);
    if r.p(60) || kind == End || g.to_ascii_uppercase().contains("SELECT") {
        let deep = [3, 3, 3, 12][r.n(4)];
        g = g + ": " + &junk(r, kind, more, true, deep);
        if kind != Paren && r.p(3) {
            let n = 1 + r.n(40);
            let (a, z) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("([{", "}])")]);
            g = format!("{g} {} 1, 2 {}", a.repeat(n), z.repeat(n));
        }
    }
    let others = before.matches(':').count() + tail.matches(':').count();
    let valid = format!("{before}{head}{body}{tail}");
    let text = format!("{before}{head}{g}{tail}");
    let zs = before.len();
    let (ze, ge) = (before.len() + head.len() + body.len(), before.len() + head.len() + g.len());
    // The whole construct for expressions, the contents else
    // IF and CASE keep what stands before the part that is not valid only in part
    let whole = k < n && kind != List;
    let start = if whole || kind == End && !head.starts_with("BEGIN") { zs } else { before.len() + head.trim_end_matches('(').len() };
    let close = if whole { EXPRS[k % EXPRS.len()].2.len() } else { 0 };
    for d in [1, 2, 4] {
        let mut o = O::new(d, crate::gen::Args::None);
        if script {
            o = o.script();
        }
        let v = obs::run(&valid, &o);
        if v.errors() != others {
            cx.f("not supported");
            continue;
        }
        let b = obs::run(&text, &o);
        if b.errors() == others {
            cx.f("still valid");
            continue;
        }
        cx.eval(&text, true);
        cx.f(label);
        if b.trees.len() != v.trees.len() {
            return bad(&text, &o, format!("{label:?}: {} statements instead of {}: {}", b.trees.len(), v.trees.len(), b.messages()));
        }
        let by = g.len() as isize - body.len() as isize;
        let m = |x: usize| if x >= ze { (x as isize + by) as usize } else { x };
        let known: Vec<_> = v.err_list().iter().map(|e| (m(e.span.0), m(e.span.1))).collect();
        for e in b.err_list() {
            if !known.contains(&e.span) && (e.span.0 < start || e.span.1 > ge + if matches!(kind, End | What | Paren) { 6 } else { 1 }) {
                return bad(&text, &o, format!("{label:?}: an error outside of {start}..{ge}: {}", b.messages()));
            }
        }
        if let Some(k) = known.iter().find(|k| b.err_list().iter().all(|e| e.span != **k)) {
            return bad(&text, &o, format!("{label:?}: an error at {k:?} is no longer reported: {}", b.messages()));
        }
        let mut parts = BTreeMap::new();
        v.trees.iter().for_each(|t| outside(t, (start, ze + close), by, "", &mut parts, 1));
        b.trees.iter().for_each(|t| outside(t, (start, ge + close), 0, "", &mut parts, -1));
        if let Some(p) = parts.iter().find(|p| *p.1 != 0) {
            return bad(&text, &o, format!("{label:?}: {}: {} (errors: {})", if *p.1 > 0 { "lost" } else { "new" }, p.0, b.messages()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C40",
        rule: "constructs with brackets, in many places of many statements, once with valid contents and once with random tokens between the brackets; the statement and everything outside the brackets must be reported as with valid contents, and every Error must lie between them",
        assumptions: &["brackets that are opened before the first bad token are not part of the contents, and neither are CREATE, ALTER, BEGIN, IF and CASE in a list of statements, which recover on their own", "the forms and places are listed in props/recover.rs"],
        streams: vec![stream("recover", 150_000, 6_000_000, recover)],
    }]
}
