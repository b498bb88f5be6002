//! C01, C02, C03, C26, C27, C28, C29: what must hold for any text at all.
use super::*;
use crate::alloc::measure;
use crate::dbg::D;
use crate::lex::{lex, malformed, Lex, T};
use crate::mutate;
use crate::obs::{budget, record, run, Iss, Obs};
use crate::words;
use sql_parse::{parse_statement, parse_statements, Issues, Spanned, Statement};
use std::time::Duration;

// Workload

/// Options close to those the text was written for
fn near(r: &mut Rng, m: &Made) -> O {
    let mut o = m.o(r);
    if r.p(35) {
        let q = O::random(r);
        if r.p(50) {
            o.dialect = q.dialect
        }
        if r.p(50) {
            o.args = q.args
        }
        o.list_hack = q.list_hack;
    }
    o.warn_id = r.p(30);
    o.warn_kw = r.p(30);
    o.script = r.p(40);
    o
}

fn join(a: &mut Vec<Tok>, b: Vec<Tok>, r: &mut Rng) {
    let sep = [";", ";", "$$", ";"][r.n(4)];
    a.push(Tok { k: K::Op, t: sep.into(), ex: false });
    a.extend(b);
}

/// A text of any kind, and options to parse it with
pub fn hostile(cx: &mut Cx, r: &mut Rng) -> (String, O) {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    match r.n(17) {
        16 => {
            cx.f("text.strings");
            let mut m = any(r, cfg);
            if r.p(30) {
                // An expression that looks into its string
                let unit = *r.pick(&["DAY", "HOUR", "DAY_HOUR", "HOUR_SECOND", "YEAR_MONTH", "MINUTE_MICROSECOND", "MICROSECOND"]);
                for (k, t) in [(K::Kw, "SELECT"), (K::Kw, "INTERVAL"), (K::Str, "''"), (K::Kw, unit)] {
                    let at = if k == K::Str || t == unit || t == "INTERVAL" { r.p(95) } else { r.p(50) };
                    if at {
                        m.g.toks.push(Tok { k, t: t.into(), ex: false });
                    }
                }
                if r.p(60) {
                    let n = m.g.toks.len().saturating_sub(4);
                    m.g.toks.drain(..n);
                }
            }
            mutate::strings(r, &mut m.g.toks);
            let o = near(r, &m);
            (render(&m.g.toks, layout(r), Case::Random, r).s, o)
        }
        0..=4 => {
            cx.f("text.changed_tokens");
            let mut m = any(r, cfg);
            let wild = r.p(60);
            mutate::tokens(r, &mut m.g.toks, wild);
            let o = near(r, &m);
            (render(&m.g.toks, layout(r), Case::Random, r).s, o)
        }
        5 | 6 => {
            cx.f("text.as_written");
            let m = any(r, cfg);
            let mut o = near(r, &m);
            if r.p(50) {
                o = O::random(r);
            }
            (m.text(r).s, o)
        }
        7 | 8 => {
            cx.f("text.changed_characters");
            let m = any(r, cfg);
            let t = m.text(r).s;
            let o = near(r, &m);
            (mutate::chars(r, &t), o)
        }
        9 | 10 => {
            cx.f("text.changed_script");
            let n = r.r(2, 5);
            let mut m = any(r, cfg.clone());
            for _ in 1..n {
                cfg.limit = [8, 20, 40][r.n(3)];
                let b = any(r, cfg.clone());
                join(&mut m.g.toks, b.g.toks, r);
            }
            if r.p(70) {
                mutate::tokens(r, &mut m.g.toks, true);
            }
            if r.p(20) {
                let at = r.n(m.g.toks.len() + 1);
                m.g.toks.insert(at, Tok { k: K::Kw, t: "DELIMITER".into(), ex: false });
            }
            let mut o = near(r, &m);
            o.script = r.p(90);
            (render(&m.g.toks, layout(r), Case::Random, r).s, o)
        }
        11 => {
            cx.f("text.cut");
            let m = any(r, cfg);
            let t = m.text(r).s;
            let mut n = r.n(t.len() + 1);
            while !t.is_char_boundary(n) {
                n -= 1
            }
            (t[..n].to_string(), near(r, &m))
        }
        12 | 13 => {
            cx.f("text.tokens");
            let hi = [3, 8, 20, 60][r.n(4)];
            let n = r.r(0, hi);
            let t = mutate::soup(r, n);
            (render(&t, layout(r), Case::Random, r).s, O::random(r))
        }
        14 => {
            cx.f("text.characters");
            let hi = [4, 12, 40, 120][r.n(4)];
            let n = r.r(0, hi);
            (mutate::noise(r, n), O::random(r))
        }
        _ => {
            cx.f("text.tokens_in_statement");
            // A run of tokens from one statement inside another
            let mut m = any(r, cfg.clone());
            let b = any(r, cfg).g.toks;
            let i = r.n(b.len());
            let k = (i + 1 + r.n(12)).min(b.len());
            let at = r.n(m.g.toks.len() + 1);
            m.g.toks.splice(at..at, b[i..k].to_vec());
            let o = near(r, &m);
            (render(&m.g.toks, layout(r), Case::Random, r).s, o)
        }
    }
}

fn parse<'a>(text: &'a str, o: &O, issues: &mut Issues<'a>) -> Vec<Statement<'a>> {
    let opt = o.options();
    crate::core::set_cur(text, o);
    sql_parse::verif::arm(budget(text.len()));
    let v = if o.script { parse_statements(text, issues, &opt) } else { parse_statement(text, issues, &opt).into_iter().collect() };
    sql_parse::verif::arm(u64::MAX);
    v
}

// C01

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Takes this much
struct Capped(usize);
impl std::fmt::Write for Capped {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

fn exercise(text: &str, o: &O, pretty: bool) -> usize {
    use std::fmt::Write;
    let mut issues = Issues::new(text);
    let v = parse(text, o, &mut issues);
    let mut k = Sink(0);
    for s in &v {
        let sp = s.span();
        k.0 += text.get(sp.start..sp.end).map(|s| s.len()).unwrap_or(0);
        write!(k, "{s:?}").unwrap();
        if pretty {
            // Indenting a deep tree costs the square of its depth for every line
            let _ = write!(Capped(50_000), "{s:#?}");
            for n in super::walk::nodes(s) {
                k.0 += n.span.1
            }
            let _ = v.clone();
        }
    }
    write!(k, "{issues}{issues:?}").unwrap();
    drop(v);
    k.0 + issues.into_vec().len()
}

fn panics(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    cx.eval(&t, t.len() > 3);
    cx.max("text_bytes", t.len() as u64);
    exercise(&t, &o, r.p(10));
    Ok(())
}

/// Every option with every text
fn every_option(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, _) = hostile(cx, r);
    for o in O::all() {
        exercise(&t, &o, false);
    }
    cx.eval(&t, t.len() > 3);
    Ok(())
}

/// All texts of one or two tokens
fn token_list() -> Vec<String> {
    let mut v: Vec<String> = words::keywords().iter().map(|s| s.to_string()).collect();
    v.extend(
        [
            "(", ")", ",", ";", ".", "=", "<", ">", "<=", ">=", "<>", "!=", "<=>", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "!!", "&&", "||", "<<", ">>", ":", "::", "=>", "[", "]", "{", "}", "@", "#", "\\", "$$", "@@GLOBAL", "@@SESSION", "@@", "?", "%s", "$1", "$0", "$", "1", "1.5", ".", "'a'", "\"b\"", "'", "\"", "`q`", "`", "x'12'", "x'", "0x1", "a", "é", "--", "/*", "/", "\u{0}",
        ]
        .iter()
        .map(|s| s.to_string()),
    );
    v
}
fn pairs(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let v = token_list();
    let a = &v[(i as usize) % v.len()];
    let sp = [" ", ""][(i as usize / v.len()) % 2];
    for b in &v {
        let t = format!("{a}{sp}{b}");
        let o = O::random(r);
        exercise(&t, &o, false);
        cx.eval(&t, true);
    }
    // After a few tokens of a statement
    let mut cfg = Cfg::new(r);
    cfg.limit = 30;
    let m = any(r, cfg);
    let l = m.g.toks.len();
    for _ in 0..20 {
        let mut t = m.g.toks[..r.n(l + 1)].to_vec();
        t.push(Tok { k: K::Kw, t: a.clone(), ex: false });
        let o = near(r, &m);
        let s = plain(&t).s;
        exercise(&s, &o, false);
        cx.eval(&s, true);
    }
    Ok(())
}

const NEST: &[(&str, &str, &str, &str)] = &[
    // name, opening, innermost, closing
    ("paren", "(", "1", ")"),
    ("function", "abs(", "1", ")"),
    ("not", "NOT ", "1", ""),
    ("minus", "- ", "1", ""),
    ("bang", "! ", "1", ""),
    ("case", "CASE WHEN a THEN ", "1", " END"),
    ("case_value", "CASE ", "1", " WHEN 1 THEN 2 END"),
    ("case_else", "CASE WHEN a THEN 1 ELSE ", "1", " END"),
    ("in", "a IN (", "1", ")"),
    ("subquery", "(SELECT ", "1", ")"),
    ("exists", "EXISTS (SELECT ", "1", ")"),
    ("cast", "CAST(", "1", " AS CHAR)"),
    ("count", "COUNT(", "1", ")"),
    ("group_concat", "GROUP_CONCAT(", "1", ")"),
    ("extract", "EXTRACT(YEAR FROM ", "a", ")"),
    ("timestampadd", "TIMESTAMPADD(DAY, 1, ", "a", ")"),
    ("from", "(SELECT 1 FROM (SELECT ", "1", ") AS t)"),
    ("where", "(SELECT 1 FROM t WHERE ", "1", ")"),
    ("binary", "1 + (2 * ", "3", ")"),
    ("union", "(SELECT 1 UNION SELECT ", "1", ")"),
    ("over", "lag(", "a", ") OVER (ORDER BY b)"),
];
const NEST_STATEMENT: &[(&str, &str, &str, &str)] = &[
    ("query", "(", "SELECT 1", ")"),
    ("derived", "SELECT 1 FROM (", "SELECT 1", ") AS t"),
    ("if", "IF 1 THEN ", "SELECT 1", "; END IF"),
    ("else", "IF 1 THEN SELECT 1; ELSE ", "SELECT 1", "; END IF"),
    ("case_statement", "CASE 1 WHEN 1 THEN ", "SELECT 1", "; END CASE"),
    ("begin", "BEGIN ", "SELECT 1", "; END"),
    ("do", "DO $$ BEGIN ", "SELECT 1", "; END $$"),
    ("trigger", "CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW ", "SELECT 1", ""),
    ("view", "CREATE VIEW v AS ", "SELECT 1", ""),
    ("with", "WITH a AS (SELECT 1) ", "SELECT 1", ""),
    ("with_block", "WITH a AS (", "SELECT 1", ") SELECT 1"),
    ("explain", "CREATE FUNCTION f() RETURNS INT BEGIN ", "SELECT 1", "; END"),
];

fn nested(r: &mut Rng, n: usize, cut: bool) -> String {
    let (mut a, mut b) = (String::new(), String::new());
    let inner;
    let mixed = r.p(50);
    if r.p(60) {
        let k = r.pick(NEST);
        a.push_str("SELECT ");
        for _ in 0..n {
            let k = if mixed { r.pick(NEST) } else { k };
            a.push_str(k.1);
            b.insert_str(0, k.3);
        }
        inner = k.2;
    } else {
        let k = r.pick(NEST_STATEMENT);
        a.push_str(["", "", "CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW "][r.n(3)]);
        for _ in 0..n {
            let k = if mixed { r.pick(NEST_STATEMENT) } else { k };
            a.push_str(k.1);
            b.insert_str(0, k.3);
        }
        inner = k.2;
    }
    if !cut {
        return format!("{a}{inner}{b}");
    }
    match r.n(3) {
        0 => a,
        1 => format!("{a}{inner}"),
        _ => {
            let mut i = r.n(b.len() + 1);
            while !b.is_char_boundary(i) {
                i -= 1
            }
            format!("{a}{inner}{}", &b[..i])
        }
    }
}

/// Nesting up to 64 deep, on a stack of the usual 8 MiB of a process
fn deep(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let n = [8, 20, 40, 64, 64][r.n(5)];
    let cut = r.p(40);
    let t = nested(r, n, cut);
    let mut o = O::random(r);
    o.script = r.p(50);
    cx.eval(&t, true);
    cx.max("nesting", n as u64);
    let (t2, o2) = (t.clone(), o);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || std::panic::catch_unwind(move || exercise(&t2, &o2, false)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
        .unwrap();
    match h.join() {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(m)) => bad(&t, &o, format!("panic: {m}")),
        Err(_) => bad(&t, &o, "the thread ended"),
    }
}

/// Very deep texts that are known to exhaust the stack: `nest KIND N` in a process of its own
const ABYSS: &[(&str, &str)] = &[("paren", "("), ("case", "CASE "), ("subquery", "(SELECT "), ("chain", "1+")];
pub fn nest_child(kind: &str, n: usize) -> i32 {
    let t = if let Some((_, u)) = ABYSS.iter().find(|k| k.0 == kind) {
        format!("SELECT {}1", u.repeat(n))
    } else if let Some(k) = NEST.iter().find(|k| k.0 == kind) {
        format!("SELECT {}{}{}", k.1.repeat(n), k.2, k.3.repeat(n))
    } else if let Some(k) = NEST_STATEMENT.iter().find(|k| k.0 == kind) {
        format!("{}{}{}", k.1.repeat(n), k.2, k.3.repeat(n))
    } else {
        return 2;
    };
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || exercise(&t, &O::new(1, Args::None), false)).unwrap();
    i32::from(h.join().is_err())
}
/// `kind` of those that end the process
pub fn abyss() -> Vec<(String, String)> {
    let mut v = Vec::new();
    for (k, _) in ABYSS {
        let exe = std::env::current_exe().unwrap();
        let st = std::process::Command::new(exe).args(["nest", k, "200000"]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
        if !st.success() {
            v.push((format!("nest:{k}:200000"), format!("parsing 200000 nested {k:?} on a stack of 2 MiB: {st}")));
        }
    }
    v
}

// C02

fn work(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    let toks = lex(&t).len() as u64;
    let opt = o.options();
    crate::core::set_cur(&t, &o);
    sql_parse::verif::arm(budget(t.len()));
    let ((), u) = measure(|| {
        let mut issues = Issues::new(&t);
        if o.script {
            drop(parse_statements(&t, &mut issues, &opt));
        } else {
            drop(parse_statement(&t, &mut issues, &opt));
        }
    });
    let steps = sql_parse::verif::steps();
    sql_parse::verif::arm(u64::MAX);
    cx.eval(&t, t.len() > 3);
    cx.max("text_bytes", t.len() as u64);
    cx.max("steps_minus_tokens", steps.saturating_sub(toks));
    cx.max("allocated_bytes_per_text_byte_of_128_plus", u.bytes.saturating_sub(16384) / (t.len() as u64 + 128));
    cx.max("peak", u.peak);
    if steps > 2 * toks + 16 {
        return bad(&t, &o, format!("{steps} tokens were asked for, the text has {toks}"));
    }
    if u.bytes > 16384 + 1024 * (t.len() as u64) {
        return bad(&t, &o, format!("{} bytes were allocated for a text of {} bytes", u.bytes, t.len()));
    }
    Ok(())
}

/// Time spent by this thread on a processor
fn cpu() -> Duration {
    #[repr(C)]
    struct Time(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Time) -> i32;
    }
    let mut t = Time(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    let ok = unsafe { clock_gettime(3, &mut t) };
    assert!(ok == 0, "harness: no thread clock");
    Duration::new(t.0 as u64, t.1 as u32)
}

/// name, prefix, repeated, suffix
pub const GROW: &[(&str, &str, &str, &str)] = &[
    ("select_list", "SELECT 1", ", abc", ""),
    ("select_alias", "SELECT 1", ", a.b AS c", ""),
    ("and", "SELECT 1", " AND a=1", ""),
    ("or_in", "SELECT 1", " OR a IN (1,2)", ""),
    ("plus_mul", "SELECT 1", " + 2 * 3", ""),
    ("in_list", "SELECT a IN (1", ",2", ")"),
    ("function_args", "SELECT concat('a'", ",'b'", ")"),
    ("string_parts", "SELECT 'a'", " 'b'", ""),
    ("quoted_parts", "SELECT \"a\"", " \"bcdefgh\"", ""),
    ("mixed_parts", "SELECT 'a'", " \"bcdefgh\" 'xyz'", ""),
    ("escaped_parts", "SELECT 'a'", " 'b\\n' \"\\t\"", ""),
    ("hex_parts", "SELECT x'61'", " , x'62'", ""),
    ("long_hex", "SELECT x'", "61", "'"),
    ("double_quotes", "SELECT \"", "\"\"", "\""),
    ("string", "SELECT '", "x", "'"),
    ("string_quotes", "SELECT '", "''", "'"),
    ("string_escapes", "SELECT '", "\\n", "'"),
    ("string_wide", "SELECT '", "日", "'"),
    ("case", "SELECT CASE", " WHEN 1 THEN 2", " END"),
    ("joins", "SELECT 1 FROM a", " JOIN b ON c=d", ""),
    ("tables", "SELECT 1 FROM a", ", b AS c", ""),
    ("using", "SELECT 1 FROM a JOIN b USING (a", ", c", ")"),
    ("index_hints", "SELECT 1 FROM a", " USE INDEX (b)", ""),
    ("union", "SELECT 1", " UNION ALL SELECT 2", ""),
    ("group_by", "SELECT 1 FROM a GROUP BY b", ", c", ""),
    ("order_by", "SELECT 1 FROM a ORDER BY b", ", c DESC", ""),
    ("with", "WITH a AS (SELECT 1)", ", b AS (SELECT 2)", " SELECT 3"),
    ("values", "INSERT INTO t (a) VALUES (1)", ", (2)", ""),
    ("row", "INSERT INTO t (a) VALUES (1", ", 2", ")"),
    ("columns", "INSERT INTO t (a", ", b", ") VALUES (1)"),
    ("insert_set", "INSERT INTO t SET a=1", ", b=2", ""),
    ("update", "UPDATE t SET a=1", ", b=2", ""),
    ("delete", "DELETE FROM t", ", u", " USING t"),
    ("create_table", "CREATE TABLE t (a INT", ", b VARCHAR(10) NOT NULL", ")"),
    ("column_properties", "CREATE TABLE t (a INT", " NOT NULL", ")"),
    ("enum", "CREATE TABLE t (a ENUM('a'", ", 'b'", "))"),
    ("table_options", "CREATE TABLE t (a INT)", " ENGINE=InnoDB", ""),
    ("create_options", "CREATE", " UNIQUE", " INDEX a ON b (c)"),
    ("alter", "ALTER TABLE t ADD COLUMN a INT", ", ADD COLUMN b INT", ""),
    ("alter_index", "ALTER TABLE t ADD INDEX i (a", ", b", ")"),
    ("drop", "DROP TABLE a", ", b", ""),
    ("rename", "RENAME TABLE a TO b", ", c TO d", ""),
    ("set", "SET a=1", ", b=2", ""),
    ("signal", "SIGNAL SQLSTATE '1' SET message_text='a'", ", message_text='b'", ""),
    ("if", "IF 1 THEN SELECT 1;", " SELECT 2;", " END IF"),
    ("elseif", "IF 1 THEN SELECT 1;", " ELSEIF 2 THEN SELECT 2;", " END IF"),
    ("block", "CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW BEGIN", " SELECT 1;", " END"),
    ("when", "CASE 1", " WHEN 1 THEN SELECT 1;", " END CASE"),
    ("params", "CREATE FUNCTION f(a INT", ", b INT", ") RETURNS INT RETURN 1"),
    ("characteristics", "CREATE FUNCTION f() RETURNS INT", " DETERMINISTIC", " RETURN 1"),
    ("qualified", "SELECT a", ".b", ""),
    ("placeholders", "SELECT ?", ", ?", ""),
    ("scripts", "", "SELECT 1;", ""),
    ("broken_script", "", "SELECT FROM WHERE;", ""),
    ("broken_names", "", "a b c;", ""),
    ("broken_list", "SELECT 1", ", )", ""),
    ("broken_parens", "SELECT 1", " )", ""),
    ("broken_characters", "SELECT 1", " é", ""),
    ("broken_case", "CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW BEGIN", " SELECT (;", " END"),
    ("open_parens_list", "SELECT (1", ", (", ""),
    ("delimiters", "", "DELIMITER ; ", ""),
    ("delimiter_words", "", "DELIMITER a a ", ""),
    ("empty_statements", "", ";", ""),
    ("spaces", "SELECT 1", " ", ""),
    ("newlines", "SELECT 1", "\n", ""),
    ("block_comment", "SELECT 1 /*", "*", "*/"),
    ("block_comments", "SELECT 1", "/**/", ""),
    ("line_comments", "SELECT 1", "--\n", ""),
    ("open_comment", "SELECT 1 /*", " /*", ""),
    ("open_comments", "SELECT 1", " /", " *"),
    ("open_string", "SELECT '", "a b ", ""),
    ("long_name", "SELECT a", "b", ""),
    ("long_quoted", "SELECT `a", "b", "`"),
    ("broken_quoted", "SELECT", " `a", ""),
    ("long_number", "SELECT 0", "0", "1"),
    ("long_fraction", "SELECT 0.", "1", ""),
    ("copy", "COPY t (a) FROM STDIN;\n", "a\tb\n", "\\.\n"),
    ("copies", "", "COPY t (a) FROM STDIN;\na\n\\.\n", ""),
    ("copy_open", "COPY t (a) FROM STDIN;\n", "\\\n", ""),
    ("dollars", "SELECT", " $$", ""),
    ("warnings", "SELECT a", ", a", ""),
    ("warn_keywords", "", "select 1;", ""),
];

fn time(t: &str, o: &O, reps: usize) -> Duration {
    let mut best = Duration::MAX;
    for _ in 0..reps {
        let mut issues = Issues::new(t);
        let opt = o.options();
        crate::core::set_cur(t, o);
        sql_parse::verif::arm(budget(t.len()));
        let c = cpu();
        let v = if o.script { parse_statements(t, &mut issues, &opt) } else { parse_statement(t, &mut issues, &opt).into_iter().collect() };
        best = best.min(cpu() - c);
        sql_parse::verif::arm(u64::MAX);
        // The trees of chains are as deep as the chain is long
        drop(v);
    }
    best
}

fn growth(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let g = &GROW[i as usize % GROW.len()];
    let k = 16;
    let n = if r.p(50) { 1500 } else { 3000 };
    let make = |n: usize| format!("{}{}{}", g.1, g.2.repeat(n), g.3);
    let (a, b) = (make(n), make(n * k));
    let mut o = O::random(r);
    o.script = o.script || g.1.is_empty() || g.0.contains("copy");
    if i < GROW.len() as u64 {
        o = O { dialect: M, args: Args::Question, list_hack: false, warn_id: true, warn_kw: true, script: o.script };
        if g.0.contains("copy") {
            o.dialect = P
        }
    }
    let go = move |a: &str, b: &str, reps: usize| (time(a, &o, reps), time(b, &o, reps));
    let (a2, b2) = (a.clone(), b.clone());
    // Deep chains need a large stack to be freed
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let mut worst = (0.0, 0, 0);
        for reps in [1, 3, 6] {
            let (x, y) = go(&a2, &b2, reps);
            let q = y.as_secs_f64() / x.as_secs_f64().max(2e-5);
            worst = (q, x.as_micros(), y.as_micros());
            if q < 4.0 * k as f64 {
                break;
            }
        }
        let mut issues = Issues::new(&b2);
        let opt = o.options();
        let ((), u) = measure(|| {
            if o.script {
                drop(parse_statements(&b2, &mut issues, &opt));
            } else {
                drop(parse_statement(&b2, &mut issues, &opt));
            }
        });
        let mut issues = Issues::new(&a2);
        let ((), v) = measure(|| {
            if o.script {
                drop(parse_statements(&a2, &mut issues, &opt));
            } else {
                drop(parse_statement(&a2, &mut issues, &opt));
            }
        });
        (worst, u.bytes, v.bytes)
    });
    let Ok((w, big, small)) = h.unwrap().join() else { return bad(&a, &o, format!("panic while parsing many {:?}", g.2)) };
    cx.eval(&a, true);
    cx.f(g.0);
    cx.max("time_ratio_percent_of_linear", (w.0 * 100.0 / k as f64) as u64);
    cx.max("memory_ratio_percent_of_linear", big * 100 / (small.max(4096) * k as u64));
    if w.0 >= 4.0 * k as f64 {
        return bad(&make(20), &o, format!("a text {k} times as long ({} bytes of {:?}) takes {:.0} times as long: {} µs, {} µs", b.len(), g.2, w.0, w.1, w.2));
    }
    if big > small.max(4096) * 4 * k as u64 {
        return bad(&make(20), &o, format!("a text {k} times as long ({} bytes of {:?}) allocates {big} bytes instead of {small}", b.len(), g.2));
    }
    Ok(())
}

/// Brackets, commas and colons of a printed tree, in a stack that deep trees fit in
fn shape(t: &str, o: &O) -> Option<(bool, [usize; 5])> {
    let (t, o) = (t.to_string(), *o);
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        struct Count([usize; 5]);
        impl std::fmt::Write for Count {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                for b in s.bytes() {
                    if let Some(i) = b"{([,:".iter().position(|c| *c == b) {
                        self.0[i] += 1
                    }
                }
                Ok(())
            }
        }
        let mut issues = Issues::new(&t);
        let v = parse(&t, &o, &mut issues);
        let mut c = Count([0; 5]);
        std::fmt::Write::write_fmt(&mut c, format_args!("{v:?}")).unwrap();
        (issues.get().iter().any(|i| i.level == sql_parse::Level::Error), c.0)
    });
    h.unwrap().join().ok()
}

/// However often a part is repeated, each of its repetitions adds the same to the tree
fn long(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let g = &GROW[i as usize % GROW.len()];
    let deep = matches!(g.0, "and" | "or_in" | "plus_mul" | "joins" | "qualified");
    let n = match i / GROW.len() as u64 {
        0 => 300,
        1 if deep => 3000,
        1 => 70_000,
        _ if deep => r.r(10, 4000),
        _ => [r.r(10, 2000), r.r(2000, 40_000)][r.n(2)],
    };
    let make = |n: usize| format!("{}{}{}", g.1, g.2.repeat(n), g.3);
    let (a, b, t) = (make(4), make(5), make(n));
    let mut o = O { dialect: M, args: Args::Question, list_hack: false, warn_id: false, warn_kw: false, script: g.1.is_empty() || g.0.contains("copy") };
    if g.0.contains("copy") {
        o.dialect = P
    }
    if shape(&a, &o).is_some_and(|x| x.0) {
        o.dialect = P
    }
    let what = |m: &str| bad(&a, &o, format!("with {:?} {n} times instead of 4 times {m}", g.2));
    let (Some(x), Some(y), Some(z)) = (shape(&a, &o), shape(&b, &o), shape(&t, &o)) else { return what("parsing panics") };
    if x.0 || y.0 {
        return Ok(()); // the family is about errors
    }
    cx.eval(&t, true);
    cx.f(&format!("long.{}", g.0));
    cx.max("repetitions", n as u64);
    if z.0 {
        return what("there is an Error");
    }
    for k in 0..5 {
        let want = x.1[k] as i64 + (y.1[k] as i64 - x.1[k] as i64) * (n as i64 - 4);
        if z.1[k] as i64 != want {
            return what(&format!("the tree has {} {:?} instead of {want}", z.1[k], b"{([,:"[k] as char));
        }
    }
    Ok(())
}

// C03

fn placeholder_node(d: &D) -> Option<&'static str> {
    let mut f = None;
    d.walk(&mut |d| match d {
        D::Tu(n, _) if n == "Invalid" => f = Some("Invalid"),
        D::Tu(n, v) if n == "Function" && matches!(v.first(), Some(D::At(a)) if a == "Unknown") => f = Some("Function(Unknown)"),
        D::St(n, v) if n == "WindowFunction" && v.iter().any(|(k, d)| k == "function" && matches!(d, D::At(a) if a == "Unknown")) => f = Some("WindowFunction(Unknown)"),
        _ => {}
    });
    f
}

fn invalid(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    let v = run(&t, &o);
    cx.eval(&t, t.len() > 3);
    cx.f(if v.ok() { "accepted" } else { "rejected" });
    if !v.ok() {
        return Ok(());
    }
    if !o.script && v.trees.is_empty() {
        return bad(&t, &o, "nothing is returned and no Error reported");
    }
    for d in &v.trees {
        if let Some(p) = placeholder_node(d) {
            return bad(&t, &o, format!("the tree holds {p}, and no Error is reported"));
        }
    }
    // Nothing but punctuation around the statement
    if !o.script {
        let s = v.spans[0];
        for l in lex(&t) {
            let outside = l.e <= s.0 || l.s >= s.1;
            if outside && !matches!(l.text(&t), "(" | ")") && !opaque(&t) && !(t.to_ascii_uppercase().contains("CONSTRAINT") && l.s >= s.1) {
                let x = l.text(&t).to_ascii_uppercase();
                if !["$$", "EXISTS", "IF"].contains(&x.as_str()) {
                    return bad(&t, &o, format!("{:?} at {} is in no part of the statement at {s:?}", l.text(&t), l.s));
                }
            }
        }
    }
    Ok(())
}

/// Texts with parts that are no SQL, or that are not represented
pub fn opaque(t: &str) -> bool {
    let u = t.to_ascii_uppercase();
    u.contains("COPY") || u.contains("$$") || u.contains("DELIMITER")
}

/// Every keyword in place of, or in front of, one token of a statement
fn words_in_place(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.limit = [8, 12, 20][r.n(3)];
    cfg.depth = cfg.depth.min(2);
    let m = any(r, cfg);
    if m.g.toks.len() > 60 {
        return Ok(());
    }
    let o = m.o(r);
    let at = r.n(m.g.toks.len() + 1);
    let insert = at == m.g.toks.len() || r.p(30);
    let mut toks = m.g.toks.clone();
    if insert {
        toks.insert(at, Tok { k: K::Kw, t: "?".into(), ex: false });
    }
    const MARK: &str = "\u{1}\u{1}";
    toks[at] = Tok { k: K::Kw, t: MARK.into(), ex: false };
    let t = render(&toks, layout(r), Case::Random, r).s;
    let Some(p) = t.find(MARK) else { return Ok(()) };
    let (a, b) = (&t[..p], &t[p + MARK.len()..]);
    let opt = o.options();
    let (mut n, mut yes) = (0, 0);
    for w in words::keywords() {
        let t = format!("{a}{w}{b}");
        let mut issues = Issues::new(&t);
        n += 1;
        crate::core::set_cur(&t, &o);
        sql_parse::verif::arm(budget(t.len()));
        let tree = parse_statement(&t, &mut issues, &opt);
        sql_parse::verif::arm(u64::MAX);
        if !issues.is_ok() {
            continue;
        }
        yes += 1;
        drop(tree);
        let v = run(&t, &o);
        if v.trees.is_empty() {
            return bad(&t, &o, "nothing is returned and no Error reported");
        }
        if let Some(p) = v.trees.iter().find_map(placeholder_node) {
            return bad(&t, &o, format!("the tree holds {p}, and no Error is reported"));
        }
    }
    cx.eval(&t, true);
    cx.f(if insert { "words.inserted" } else { "words.replaced" });
    cx.fs("words.texts", n);
    cx.fs("words.accepted", yes);
    Ok(())
}

fn stray(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.limit = cfg.limit.min(40);
    let mut m = any(r, cfg);
    let o = m.o(r);
    let n = m.g.toks.len();
    let what = match r.n(5) {
        0 => {
            // A token that can continue nothing
            let t = r.pick(&[")", "]", "}", "[", "{", ":", "=>", "\\", "#", "@", "~", "!!", ";"]).to_string();
            m.g.toks.push(Tok { k: K::Op, t: t.clone(), ex: false });
            t
        }
        1 => {
            m.g.toks.push(Tok { k: K::Op, t: ";".into(), ex: false });
            let c = Cfg { limit: 8, ..Cfg::new(r) };
            let b = any(r, c);
            m.g.toks.extend(b.g.toks);
            "a second statement".into()
        }
        2 => {
            let t = r.pick(&["DROP TABLE a", "TRUNCATE TABLE a", "RENAME TABLE a TO b", "ALTER TABLE a DROP COLUMN b", "THEN", "ELSEIF", "TABLE a", "WHEN", "VALUES (1)", "INTO a", "THEN 1"]);
            for w in t.split(' ') {
                m.g.toks.push(Tok { k: K::Kw, t: w.into(), ex: false });
            }
            t.to_string()
        }
        3 => {
            let t = ["'a' 1", "1 1", "? ?", "`a` `b` `c` `d`", "a b c d"][r.n(5)];
            for w in t.split(' ') {
                m.g.toks.push(Tok { k: K::Num, t: w.into(), ex: false });
            }
            t.to_string()
        }
        _ => {
            m.g.toks.insert(0, Tok { k: K::Op, t: r.pick(&[")", ",", ".", "=", "1", "'a'", "?", ";", "*", "@", "a", "`a`", "1.5"]).to_string(), ex: false });
            "a token in front".into()
        }
    };
    let t = render(&m.g.toks, layout(r), Case::Random, r);
    if opaque(&t.s) && n > 0 && what != "a token in front" && m.g.toks.iter().any(|t| t.t == "$$") {
        // The body of a function may hold anything
        return Ok(());
    }
    cx.eval(&t.s, true);
    cx.f(&format!("stray.{what}"));
    if obs::accepts(&t.s, &o) {
        return bad(&t.s, &o, format!("{what:?} added to a statement is not reported"));
    }
    Ok(())
}

fn empty(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let t = render(&[], Layout::Wild, Case::Upper, r);
    let t = if r.p(50) { format!("{}{}", t.s, r.pick(&["", " ", "\n", "--x", "/* */", "//", "--", "\t\r\n"])) } else { t.s };
    let o = O::random(r);
    cx.eval(&t, true);
    let v = run(&t, &o.single());
    if v.ok() || !v.trees.is_empty() {
        return bad(&t, &o.single(), "an empty text is accepted as a statement");
    }
    let v = run(&t, &o.script());
    if !v.issues.is_empty() || !v.trees.is_empty() {
        return bad(&t, &o.script(), format!("an empty script gives {} statements, {}", v.trees.len(), v.messages()));
    }
    Ok(())
}

// C26

fn print(text: &str, o: &O) -> (Vec<String>, Vec<(usize, usize)>, Vec<Iss>, String) {
    let mut issues = Issues::new(text);
    let v = parse(text, o, &mut issues);
    (v.iter().map(|s| format!("{s:?}")).collect(), v.iter().map(|s| s.span()).map(|s| (s.start, s.end)).collect(), record(text, &issues), issues.to_string())
}

fn pure(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    let a = print(&t, &o);
    cx.eval(&t, t.len() > 3);
    let differs = |how: &str, b: &(Vec<String>, Vec<(usize, usize)>, Vec<Iss>, String)| -> R {
        if a.0 != b.0 {
            return bad(&t, &o, format!("{how}: the tree differs"));
        }
        if a.1 != b.1 {
            return bad(&t, &o, format!("{how}: the span differs"));
        }
        if a.2 != b.2 || a.3 != b.3 {
            return bad(&t, &o, format!("{how}: the issues differ"));
        }
        Ok(())
    };
    differs("parsed again", &print(&t, &o))?;
    for _ in 0..r.r(1, 4) {
        let (u, p) = hostile(cx, r);
        print(&u, &p);
        print(&t, &O::random(r));
    }
    differs("parsed after other texts", &print(&t, &o))?;
    // Elsewhere in memory, followed and preceded by other text
    let pre = r.pick(&["", "'", "x", "/*", "SELECT ", "é", "     "]);
    let post = r.pick(&["", "'", "x", "*/", " FROM t", "é", "0"]);
    let big = format!("{pre}{t}{post}");
    differs("as part of a larger buffer", &print(&big[pre.len()..pre.len() + t.len()], &o))?;
    // Into a list in use
    let mut issues = Issues::new(&t);
    let n = r.r(1, 3);
    for _ in 0..n {
        parse(&t, &O::random(r), &mut issues);
    }
    let before = record(&t, &issues);
    let v = parse(&t, &o, &mut issues);
    let all = record(&t, &issues);
    if all[..before.len().min(all.len())] != before[..] || all[before.len()..] != a.2[..] {
        return bad(&t, &o, "the issues differ when the list already holds others");
    }
    if v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>() != a.0 {
        return bad(&t, &o, "the tree differs when the issue list already holds others");
    }
    if v.iter().map(|s| format!("{:?}", s.clone())).collect::<Vec<_>>() != a.0 {
        return bad(&t, &o, "a clone of the tree differs");
    }
    Ok(())
}

/// Texts that differ a little, parsed in every order, now and then from the same buffer
fn siblings(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    let mut v: Vec<(String, O)> = vec![(t.clone(), o)];
    for _ in 0..r.r(3, 6) {
        let mut u = v[r.n(v.len())].0.clone();
        let mut p = o;
        match r.n(9) {
            0 => drop(u.pop()),
            1 | 2 => u.push(*r.pick(&[';', ' ', '1', 'a', ')', '\'', '\n', '?'])),
            3 => u.insert(0, *r.pick(&[';', ' ', '(', '\n', '-'])),
            4 => u = u.chars().map(|c| if c.is_ascii_alphabetic() && r.p(20) { (b'a' + r.n(26) as u8) as char } else { c }).collect(),
            5 => u = u.chars().map(|c| if c.is_ascii_digit() { (b'0' + r.n(10) as u8) as char } else { c }).collect(),
            6 => u = if r.p(50) { u.to_ascii_uppercase() } else { u.to_ascii_lowercase() },
            7 => p = O::random(r),
            _ => u = hostile(cx, r).0,
        }
        v.push((u, p));
    }
    let mut first: Vec<Option<(Vec<String>, Vec<(usize, usize)>, Vec<Iss>, String)>> = vec![None; v.len()];
    let mut buf = String::with_capacity(v.iter().map(|v| v.0.len()).max().unwrap_or(0));
    let same = r.p(50);
    for _ in 0..4 * v.len() {
        let i = r.n(v.len());
        let (t, o) = &v[i];
        buf.clear();
        buf.push_str(t);
        let got = print(if same { &buf } else { t }, o);
        cx.eval(t, t.len() > 3);
        match &first[i] {
            // Places are told as offsets, so that the buffer does not matter
            None => first[i] = Some(got),
            Some(w) if *w != got => return bad(t, o, "the result differs after other texts much like it"),
            Some(_) => cx.f("parsed again among its like"),
        }
    }
    Ok(())
}

/// Many threads on the same and on other texts at once
fn threads(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let texts: Vec<(String, O)> = (0..12).map(|_| hostile(cx, r)).collect();
    let expect: Vec<_> = texts.iter().map(|(t, o)| print(t, o)).collect();
    let seeds: Vec<u64> = (0..6).map(|_| r.u64()).collect();
    let bar = std::sync::Barrier::new(seeds.len());
    let wrong: std::sync::Mutex<Option<usize>> = Default::default();
    std::thread::scope(|sc| {
        for s in &seeds {
            let (texts, expect, bar, wrong) = (&texts, &expect, &bar, &wrong);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let mut r = Rng::new(*s);
                    bar.wait();
                    for _ in 0..40 {
                        let i = r.n(texts.len());
                        let (t, o) = &texts[i];
                        let ok = std::panic::catch_unwind(|| print(t, o) == expect[i]).unwrap_or(false);
                        if !ok {
                            *wrong.lock().unwrap() = Some(i);
                        }
                    }
                })
                .unwrap();
        }
    });
    for (t, _) in &texts {
        cx.eval(t, t.len() > 3);
    }
    cx.fs("parsed_concurrently", 240);
    match wrong.into_inner().unwrap() {
        Some(i) => bad(&texts[i].0, &texts[i].1, "the result differs when other threads are parsing"),
        None => Ok(()),
    }
}

// C27

fn issue_list(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    let mut issues = Issues::new(&t);
    parse(&t, &o, &mut issues);
    let first = record(&t, &issues);
    cx.eval(&t, !first.is_empty());
    cx.fs("issues", first.len() as u64);
    let l = lex(&t);
    // The data of COPY is no tokens, and where a token ends that is not valid is not said
    let mut whole = l.iter().find(|l| l.t == T::Bad).map_or(t.len(), |l| l.s);
    whole = whole.min(t.to_ascii_uppercase().find("STDIN").unwrap_or(whole));
    let (starts, ends): (Vec<usize>, Vec<usize>) = l.iter().map(|l| (l.s, l.e)).unzip();
    let check = |m: &str, sp: (usize, usize), seg: Option<(usize, usize)>| -> R {
        if sp.0 > sp.1 || sp.1 > t.len() || !t.is_char_boundary(sp.0) || !t.is_char_boundary(sp.1) {
            return bad(&t, &o, format!("issue {m:?} has span {sp:?}, which is no piece of the text"));
        }
        if seg != Some((sp.0, sp.1 - sp.0)) {
            return bad(&t, &o, format!("issue {m:?} at {sp:?} shows the text at {seg:?}"));
        }
        if sp.0 == sp.1 && sp.0 != t.len() {
            return bad(&t, &o, format!("issue {m:?} is about nothing at {}, which is not the end of the text", sp.0));
        }
        if sp.1 <= whole && sp.0 < sp.1 && (starts.binary_search(&sp.0).is_err() || ends.binary_search(&sp.1).is_err()) {
            return bad(&t, &o, format!("issue {m:?} at {sp:?} is about parts of tokens"));
        }
        if m.is_empty() {
            return bad(&t, &o, "an issue has no message");
        }
        Ok(())
    };
    let line = |at: usize| t.as_bytes()[..at].iter().filter(|b| **b == b'\n').count() + 1;
    let shown = |v: &[Iss]| -> String {
        if v.is_empty() {
            return "No issues\n".into();
        }
        let mut s = String::from("Issues:\n");
        for i in v {
            s += &format!("  {} {}\n    At line {}, code {}\n", if i.err { "Error" } else { "Warning" }, i.msg, line(i.span.0), &t[i.span.0..i.span.1]);
            for f in &i.frags {
                s += &format!("  {}\n    At line {}, code {}\n", f.0, line(f.1 .0), &t[f.1 .0..f.1 .1]);
            }
        }
        s
    };
    for i in &first {
        cx.f(if i.err { "level.error" } else { "level.warning" });
        check(&i.msg, i.span, i.seg)?;
        for f in &i.frags {
            cx.f("fragments");
            check(&f.0, f.1, f.2)?;
        }
    }
    if issues.to_string() != shown(&first) {
        return bad(&t, &o, format!("the printed list does not show the issues: {:?}", issues.to_string()));
    }
    if issues.is_ok() != first.is_empty() || issues.get().len() != first.len() {
        return bad(&t, &o, "is_ok disagrees with the list");
    }
    if t.is_empty() {
        return Ok(());
    }
    // Issues of a later stage
    let any = |r: &mut Rng| {
        let b: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
        let (x, y) = (b[r.n(b.len())], b[r.n(b.len())]);
        x.min(y)..x.max(y)
    };
    let mut mine = first.clone();
    for k in 0..r.r(1, 3) {
        let sp = any(r);
        let fr = any(r);
        let err = r.p(50);
        let two = r.p(50);
        {
            let h = &mut if err { issues.err(format!("own {k}"), &sp) } else { issues.warn(format!("own {k}"), &sp) };
            if two {
                h.frag("one", &fr).frag("two", &sp);
            }
        }
        let f = |m: &str, s: &std::ops::Range<usize>| (m.to_string(), (s.start, s.end), Some((s.start, s.end - s.start)));
        mine.push(Iss { err, msg: format!("own {k}"), span: (sp.start, sp.end), seg: Some((sp.start, sp.end - sp.start)), frags: if two { vec![f("one", &fr), f("two", &sp)] } else { vec![] } });
    }
    let loose = |v: &[Iss]| v.iter().map(|i| Iss { seg: i.seg.filter(|s| s.1 > 0), frags: i.frags.iter().map(|f| (f.0.clone(), f.1, f.2.filter(|s| s.1 > 0))).collect(), ..i.clone() }).collect::<Vec<_>>();
    if loose(&record(&t, &issues)) != loose(&mine) || issues.to_string() != shown(&mine) {
        return bad(&t, &o, "an issue added to the list is not shown as it was added");
    }
    // Parsing again only appends
    parse(&t, &o, &mut issues);
    mine.extend(first);
    if loose(&record(&t, &issues)) != loose(&mine) || issues.to_string() != shown(&mine) {
        return bad(&t, &o, "parsing changed issues that were already in the list");
    }
    Ok(())
}


// C28

/// Leaves that stand for a piece of text
pub fn leaves(d: &D, out: &mut Vec<(usize, usize)>, lits: &mut Vec<(usize, usize)>) {
    match d {
        D::St(n, v) => {
            for (_, d) in v {
                leaves(d, out, lits)
            }
            if n == "SString" {
                if let Some((_, D::Sp(a, b))) = v.iter().find(|f| f.0 == "span") {
                    lits.push((*a, *b))
                }
            }
        }
        D::Tu(n, v) => {
            let wide = matches!(n.as_str(), "Block" | "Do");
            for d in v {
                if wide && matches!(d, D::Sp(..)) {
                    continue;
                }
                leaves(d, out, lits)
            }
            if matches!(n.as_str(), "Arg" | "ListHack" | "Integer" | "Float") {
                if let Some(D::Tu(_, w)) = v.first() {
                    if let Some(D::Sp(a, b)) = w.get(1) {
                        lits.push((*a, *b))
                    }
                }
            }
        }
        D::Li(v) => {
            for d in v {
                leaves(d, out, lits)
            }
        }
        D::Sp(a, b) => out.push((*a, *b)),
        _ => {}
    }
}

/// Words that have no position in the tree, by design of the tree
const CONNECT: &[&str] = &["AS", "BEGIN", "CHARACTER", "CHARSET", "COLLATE", "COLUMN", "COMMENT", "DEFAULT", "DO", "END", "EXISTS", "OFFSET", "SET", "USING"];

fn dropped(text: &str, o: &O, v: &Obs, exempt: &dyn Fn(&Lex) -> bool) -> R {
    let (mut sp, mut lits) = (Vec::new(), Vec::new());
    for d in &v.trees {
        leaves(d, &mut sp, &mut lits);
    }
    sp.sort();
    // Furthest end of the leaves that start at or before each one
    let mut reach = Vec::with_capacity(sp.len());
    let mut m = 0;
    for s in &sp {
        m = m.max(s.1);
        reach.push(m)
    }
    for l in lex(text) {
        let w = l.text(text);
        let name = l.t == T::Quoted || (l.t == T::Word && !CONNECT.contains(&w.to_ascii_uppercase().as_str()));
        if !(name || l.literal() || l.arg()) || exempt(&l) {
            continue;
        }
        let k = sp.partition_point(|s| s.0 <= l.s);
        if k == 0 || reach[k - 1] < l.e {
            return bad(text, o, format!("{w:?} at {} is in no leaf of the tree", l.s));
        }
    }
    lits.sort();
    for w in lits.windows(2) {
        if w[0].1 > w[1].0 {
            return bad(text, o, format!("two leaves claim the text at {:?} and {:?}", w[0], w[1]));
        }
    }
    Ok(())
}

fn kept(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    let t = m.text(r);
    let o = m.o(r);
    let v = run(&t.s, &o);
    cx.eval(&t.s, m.g.toks.len() > 3);
    if !v.ok() {
        return bad(&t.s, &o, format!("valid text is not accepted: {}", v.messages()));
    }
    let ex: std::collections::HashSet<usize> = m.g.toks.iter().zip(&t.at).filter(|(t, _)| t.ex).map(|(_, a)| a.0).collect();
    let body: Vec<(usize, usize)> = m.g.toks.iter().zip(&t.at).filter(|(t, _)| t.ex).map(|(_, a)| *a).collect();
    dropped(&t.s, &o, &v, &|l| ex.contains(&l.s) || body.iter().any(|b| b.0 <= l.s && l.e <= b.1))
}

/// Words that are written as keywords but are not reserved words of the tokenizer, and parts that
/// are documented as not represented
fn unlisted(text: &str) -> bool {
    let u = text.to_ascii_uppercase();
    ["_OPS", "EXCEPTION", "REFERENCES", "COPY", "DELIMITER", "$$"].iter().any(|w| u.contains(w))
}

fn kept_changed(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let mut m = any(r, cfg);
    mutate::tokens(r, &mut m.g.toks, false);
    let o = near(r, &m);
    let t = render(&m.g.toks, layout(r), Case::Random, r).s;
    let v = run(&t, &o);
    cx.f(if v.ok() { "changed, accepted" } else { "changed, rejected" });
    if !v.ok() || unlisted(&t) {
        return Ok(());
    }
    cx.eval(&t, t.len() > 3);
    dropped(&t, &o, &v, &|_| false)
}

// C29

/// Something close to a token that is none
fn bad_token(r: &mut Rng) -> String {
    if r.p(75) {
        let mut w: Vec<char> = r.pick(&["SESSION", "GLOBAL", "session", "global"]).chars().collect();
        let i = r.n(w.len());
        match r.n(4) {
            0 => {
                w.remove(i);
            }
            1 => w.insert(i, *r.pick(&['x', '_', '@', ' ', 's', 'l', 'é', '`'])),
            2 => w.truncate(i),
            _ => w[i] = *r.pick(&['x', '_', 'X', '1', 'e', 'S', 'o', 'ſ', '.', 'ß']),
        }
        let w: String = w.into_iter().collect();
        return format!("@@{w}");
    }
    r.pick(&["$0", "$", "$x", "$00", "x'12'", "X'zz'", "x'", "$18446744073709551616", "$99999999999999999999999", "@@", "@@@GLOBAL", "``", "`a b`", "`a", "`é`", "'\\'", "\"\\\""]).to_string()
}

fn broken(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let mut m = any(r, cfg);
    let o = m.o(r);
    let ok: Vec<usize> = (0..=m.g.toks.len()).collect();
    let at = ok[r.n(ok.len())];
    let is = |t: &Tok, s: &[&str]| t.k == K::Op && s.contains(&t.t.as_str());
    let pos: Vec<usize> = m.g.toks.iter().enumerate().filter(|(_, t)| is(t, &["(", ")"])).map(|p| p.0).collect();
    let strs: Vec<usize> = m.g.toks.iter().enumerate().filter(|(_, t)| matches!(t.k, K::Str | K::Q)).map(|p| p.0).collect();
    if m.g.toks.iter().any(|t| t.ex || t.t == "$$") {
        return Ok(());
    }
    let op = |t: &str| Tok { k: K::Op, t: t.into(), ex: false };
    let lits: Vec<usize> = m.g.toks.iter().enumerate().filter(|(_, t)| matches!(t.k, K::Str | K::Num) || t.t.starts_with("@@")).map(|p| p.0).collect();
    let what = match r.n(9) {
        8 if !lits.is_empty() => {
            let i = lits[r.n(lits.len())];
            let sys = m.g.toks[i].t.starts_with("@@");
            m.g.toks[i] = op(&bad_token(r));
            if !sys {
                m.g.toks.insert(i + 1, op("."));
                m.g.toks.insert(i + 2, Tok { k: K::Id, t: "a".into(), ex: false });
                if r.p(30) {
                    m.g.toks.drain(i + 1..i + 3);
                }
            }
            "token_damaged"
        }
        0 | 1 if !pos.is_empty() => {
            m.g.toks.remove(pos[r.n(pos.len())]);
            "bracket_removed"
        }
        2 => {
            m.g.toks.insert(at, op(r.pick(&["(", ")", "[", "]", "{", "}"])));
            "bracket_added"
        }
        3 if !strs.is_empty() => {
            let t = &mut m.g.toks[strs[r.n(strs.len())]];
            t.t.pop();
            "quote_removed"
        }
        4 => {
            m.g.toks.insert(at, op(r.pick(&["'", "\"", "`", "`a", "'a", "\"a"])));
            "quote_added"
        }
        5 => {
            m.g.toks.insert(at, op(r.pick(&["/*", "/* a", "/**"])));
            "comment_opened"
        }
        6 => {
            m.g.toks.insert(at, op(r.pick(&["é", "日", "\u{0}", "\u{1}", "😀", "\u{feff}", "\u{a0}", "\u{7f}", "\u{2028}", "\u{ff08}"])));
            "character_added"
        }
        _ => {
            let s = ["(", ")"][r.n(2)];
            m.g.toks.insert(at, op(s));
            let at = r.n(m.g.toks.len() + 1);
            m.g.toks.insert(at, op(["(", ")", "]", "["][r.n(4)]));
            "brackets_added"
        }
    };
    let t = render(&m.g.toks, layout(r), Case::Random, r).s;
    let Some(why) = malformed(&t, &lex(&t)) else { return Ok(()) };
    cx.eval(&t, true);
    cx.f(what);
    let o = if r.p(30) { o.script() } else { o };
    let t = if o.script { format!("{t};") } else { t };
    if malformed(&t, &lex(&t)).is_some() && obs::accepts(&t, &o) {
        return bad(&t, &o, format!("{why}, and no Error is reported"));
    }
    Ok(())
}

fn accepted_is_balanced(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = hostile(cx, r);
    if opaque(&t) {
        return Ok(());
    }
    let ok = obs::accepts(&t, &o);
    let why = malformed(&t, &lex(&t));
    cx.eval(&t, why.is_some());
    if ok {
        if let Some(w) = why {
            return bad(&t, &o, format!("{w}, and no Error is reported"));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "texts of more than three bytes: generated statements and scripts as written, with tokens or characters changed, cut, joined, random tokens, random characters, nesting up to 64 deep on an 8 MiB stack; parsed, printed, measured and freed under random or all options",
            assumptions: &["built with overflow checks and debug assertions", "texts nested deeper than 64 are not explored, apart from the listed findings"],
            streams: vec![
                stream("panics", 220_000, 12_000_000, panics),
                stream("every_option", 3_000, 150_000, every_option),
                stream("pairs", 2 * token_list().len() as u64, 20 * token_list().len() as u64, pairs),
                stream("deep", 4_000, 100_000, deep),
            ],
        },
        Prop {
            id: "C02",
            rule: "the same hostile texts as C01, with the tokens asked for (hook in the tokenizer) against the tokens of the text and the bytes allocated against its length; and texts made of one repeated part, where a 16 times longer text must not take more than 64 times as long",
            assumptions: &["tokens are counted where the tokenizer hands them out", "time is processor time of the parsing thread, the best of up to six runs"],
            streams: vec![stream("growth", GROW.len() as u64, 4 * GROW.len() as u64, growth), stream("work", 200_000, 8_000_000, work)],
        },
        Prop {
            id: "C03",
            rule: "hostile texts of more than three bytes that are accepted, valid statements with something stray before or after them, and empty texts",
            assumptions: &["placeholder nodes are Invalid and Unknown functions in the Debug output"],
            streams: vec![stream("invalid", 160_000, 8_000_000, invalid), stream("stray", 60_000, 2_500_000, stray), stream("words_in_place", 2_000, 200_000, words_in_place), stream("empty", 5_000, 50_000, empty)],
        },
        Prop {
            id: "C26",
            rule: "hostile texts of more than three bytes, parsed again alone, after other texts, after and before texts that differ from them by a character, a number or the options, from a buffer that held another text, from another place in memory, into a used issue list, and on several threads at once; everything reported must be identical",
            assumptions: &["the derived Debug output shows the whole tree"],
            streams: vec![stream("pure", 100_000, 2_000_000, pure), stream("siblings", 40_000, 1_500_000, siblings), stream("threads", 1000, 12_000, threads)],
        },
        Prop {
            id: "C27",
            rule: "hostile texts that give at least one issue; span, segment, fragments, order and the printed list are recomputed from the text",
            assumptions: &["a line ends at a newline character"],
            streams: vec![stream("issue_list", 160_000, 8_000_000, issue_list)],
        },
        Prop {
            id: "C28",
            rule: "generated statements, and changed ones that are still accepted; every name, literal and placeholder the harness's own tokenizer finds must lie in a leaf of the tree",
            assumptions: &["keywords are those of the crate's keyword list", "parts documented as not represented are marked by the generator; changed texts that mention them are not judged"],
            streams: vec![stream("kept", 80_000, 3_000_000, kept), stream("kept_changed", 200_000, 8_000_000, kept_changed), stream("long", 2 * GROW.len() as u64, 20 * GROW.len() as u64, long)],
        },
        Prop {
            id: "C29",
            rule: "valid statements with a bracket, quote, comment opener or foreign character added or removed so that the harness's own tokenizer finds the text malformed, and hostile texts that it finds malformed",
            assumptions: &["the harness's own tokenizer and bracket matcher say what is malformed", "COPY data, function bodies in $$ and texts with DELIMITER are not judged"],
            streams: vec![stream("broken", 150_000, 6_000_000, broken), stream("accepted_is_balanced", 100_000, 5_000_000, accepted_is_balanced)],
        },
    ]
}
