//! C35 to C37: what the value types of the API promise.
extern crate alloc;
use super::*;
use sql_parse::{parse_statement, Identifier, Issues, OptSpanned, ParseOptions, SQLArguments, SQLDialect, SString, Span, Spanned, Statement};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

fn o0() -> O {
    O::new(1, Args::None)
}

/// Smallest span around all of them
fn hull(v: &[Option<Span>]) -> Option<Span> {
    let a = v.iter().flatten().map(|s| s.start).min()?;
    let z = v.iter().flatten().map(|s| s.end).max()?;
    Some(a..z)
}

fn some(r: &mut Rng) -> Span {
    let m = [4, 30, 1000, usize::MAX / 2][r.n(4)];
    let a = r.n(m);
    let l = if r.p(20) { 0 } else { r.n(m) };
    a..a + l
}

struct Hull<'a> {
    cx: &'a mut Cx,
    err: Option<String>,
}

impl Hull<'_> {
    fn is<T: OptSpanned + Debug>(&mut self, what: &str, t: &T, want: Option<Span>) {
        let text = format!("{what} {t:?}");
        self.cx.eval(&text, true);
        self.cx.f(what);
        let got = t.opt_span();
        if got != want && self.err.is_none() {
            self.err = Some(format!("{text}: the span is {got:?}, the smallest one around all parts is {want:?}"));
        }
    }
    /// A part that always has a span
    fn must<T: Spanned + Debug>(&mut self, what: &str, t: &T, want: Span) {
        let got = t.span();
        if got != want && self.err.is_none() {
            self.err = Some(format!("{what} {t:?}: the span is {got:?}, the smallest one around all parts is {want:?}"));
        }
        self.is(what, t, Some(want));
    }
    fn joined<A: OptSpanned + Debug, B: OptSpanned + Debug>(&mut self, what: &str, a: &A, b: &B) {
        let want = hull(&[a.opt_span(), b.opt_span()]);
        let text = format!("{what} {a:?} {b:?}");
        self.cx.eval(&text, true);
        self.cx.f(what);
        for got in [a.opt_join_span(b), b.opt_join_span(a)] {
            if got != want && self.err.is_none() {
                self.err = Some(format!("{text}: joined to {got:?}, the smallest span around both is {want:?}"));
            }
        }
    }
    fn join<A: Spanned + Debug, B: OptSpanned + Debug>(&mut self, what: &str, a: &A, b: &B) {
        let want = hull(&[Some(a.span()), b.opt_span()]);
        let got = Some(a.join_span(b));
        if got != want && self.err.is_none() {
            self.err = Some(format!("{what} {a:?} {b:?}: joined to {got:?}, the smallest span around both is {want:?}"));
        }
        self.joined(what, a, b);
    }
}

fn hulls(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (a, b, c) = (some(r), some(r), some(r));
    let opt = |r: &mut Rng| if r.p(40) { None } else { Some(some(r)) };
    let (p, q) = (opt(r), opt(r));
    let list: Vec<Span> = (0..r.n(6)).map(|_| some(r)).collect();
    let holes: Vec<Option<Span>> = (0..r.n(6)).map(|_| opt(r)).collect();
    let of_list: Vec<Option<Span>> = list.iter().cloned().map(Some).collect();
    let n = r.n(1000);
    let mut h = Hull { cx, err: None };
    h.must("Span", &a, a.clone());
    h.must("Box", &Box::new(b.clone()), b.clone());
    h.is("Option", &p, p.clone());
    h.is("Option", &Some(p.clone()), p.clone());
    h.is("Vec", &list, hull(&of_list));
    h.is("Vec", &holes, hull(&holes));
    let got = holes[..].opt_span();
    if got != hull(&holes) {
        h.err = Some(format!("slice {holes:?}: the span is {got:?}"));
    }
    let got = list[..].opt_span();
    if got != hull(&of_list) {
        h.err = Some(format!("slice {list:?}: the span is {got:?}"));
    }
    h.must("(usize, S)", &(n, a.clone()), a.clone());
    h.must("(usize, usize, S)", &(n, 7usize, a.clone()), a.clone());
    h.must("(u32, S)", &(n as u32, a.clone()), a.clone());
    h.must("(u64, S)", &(n as u64, a.clone()), a.clone());
    h.must("(f64, S)", &(n as f64, a.clone()), a.clone());
    h.must("(bool, S)", &(n > 500, a.clone()), a.clone());
    h.must("(&str, S)", &("text", a.clone()), a.clone());
    h.must("(Cow, S)", &(Cow::Borrowed("text"), a.clone()), a.clone());
    h.must("(S, O)", &(a.clone(), b.clone()), hull(&[Some(a.clone()), Some(b.clone())]).unwrap());
    h.must("(S, O)", &(a.clone(), p.clone()), hull(&[Some(a.clone()), p.clone()]).unwrap());
    let mut all = of_list.clone();
    all.push(Some(a.clone()));
    h.must("(S, O)", &(a.clone(), list.clone()), hull(&all).unwrap());
    h.must("(S, O, O)", &(a.clone(), b.clone(), c.clone()), hull(&[Some(a.clone()), Some(b.clone()), Some(c.clone())]).unwrap());
    h.must("(S, O, O)", &(a.clone(), p.clone(), q.clone()), hull(&[Some(a.clone()), p.clone(), q.clone()]).unwrap());
    let mut all = holes.clone();
    all.extend([Some(c.clone()), q.clone()]);
    h.must("(S, O, O)", &(c.clone(), holes.clone(), q.clone()), hull(&all).unwrap());
    // Of the parts of a tree: names, texts and lists of pairs
    let id = Identifier::new("name", a.clone());
    h.must("Identifier", &id, a.clone());
    h.must("SString", &SString::new("text".into(), b.clone()), b.clone());
    let pairs: Vec<(Identifier, Option<Span>)> = holes.iter().map(|s| (Identifier::new("n", some(r)), s.clone())).collect();
    let all: Vec<Option<Span>> = pairs.iter().flat_map(|(i, s)| [Some(i.span.clone()), s.clone()]).collect();
    h.is("Vec of pairs", &pairs, hull(&all));
    h.is("Option of Vec", &Some(list.clone()), hull(&of_list));
    h.join("join", &a, &b);
    h.join("join", &a, &p);
    h.join("join", &id, &list);
    h.joined("opt_join", &p, &q);
    h.joined("opt_join", &p, &holes);
    h.joined("opt_join", &list, &holes);
    match h.err {
        Some(e) => bad("", &o0(), e),
        None => Ok(()),
    }
}

/// A text, and names cut out of it
fn word(r: &mut Rng) -> String {
    const C: &[&str] = &["a", "A", "b", "z", "_", "0", "9", "é", "ß", "日", "😀", "-", " ", "'", "`", "\n", "İ"];
    let n = if r.p(15) { r.r(5, 70) } else { r.n(5) };
    (0..n).map(|_| if r.p(15) { r.ch().to_string() } else { r.pick(C).to_string() }).collect()
}

fn names(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let words: Vec<String> = (0..2 + r.n(8)).map(|_| word(r)).collect();
    let ids: Vec<Identifier> = words.iter().map(|w| Identifier::new(w, some(r))).collect();
    let e = |m: String| bad("", &o0(), m);
    for (a, x) in ids.iter().zip(&words) {
        let x: &str = x;
        cx.eval(x, !x.is_empty());
        let b: &str = a.borrow();
        if a.as_str() != x || &**a != x || b != x || a.value != x || a.to_string() != x {
            return e(format!("{a:?} does not give back its text"));
        }
        if a.clone() != *a || a.clone().span != a.span {
            return e(format!("{a:?} differs from its copy"));
        }
        let w = r.n(9);
        if format!("[{a:>8}|{a:-<6}|{a:^w$}|{a:.1}|{a:*^7.2}]") != format!("[{x:>8}|{x:-<6}|{x:^w$}|{x:.1}|{x:*^7.2}]") {
            return e(format!("{a:?} is not padded or cut like its text"));
        }
        if a.len() != x.len() || a.to_uppercase() != x.to_uppercase() {
            return e(format!("{a:?} does not act as its text"));
        }
        let s = SString::new(if r.p(50) { Cow::Borrowed(x) } else { Cow::Owned(x.to_string()) }, some(r));
        if s.as_str() != x || &*s != x || s.value != x || s.clone().as_str() != x || s.clone().span != s.span {
            return e(format!("{s:?} does not give back its text"));
        }
        for (b, y) in ids.iter().zip(&words) {
            let y: &str = y;
            cx.f(match x.cmp(y) {
                std::cmp::Ordering::Less => "less",
                std::cmp::Ordering::Equal => "equal",
                std::cmp::Ordering::Greater => "greater",
            });
            if (a == b) != (x == y) || (a != b) != (x != y) || a.cmp(b) != x.cmp(y) || a.partial_cmp(b) != x.partial_cmp(y) {
                return e(format!("{a:?} and {b:?} do not compare like their texts"));
            }
            if (a < b) != (x < y) || (a >= b) != (x >= y) || a.max(b).value != x.max(y) {
                return e(format!("{a:?} and {b:?} are not ordered like their texts"));
            }
        }
    }
    let mut map = BTreeMap::new();
    let mut want = BTreeMap::new();
    for (i, (a, x)) in ids.iter().zip(&words).enumerate() {
        map.insert(a.clone(), i);
        want.insert(x.as_str(), i);
    }
    let set: BTreeSet<Identifier> = ids.iter().cloned().collect();
    let probe = word(r);
    for x in words.iter().chain([&probe]) {
        if map.get(x.as_str()) != want.get(x.as_str()) || set.contains(x.as_str()) != want.contains_key(x.as_str()) {
            return e(format!("{x:?} is looked up as {:?} instead of {:?}", map.get(x.as_str()), want.get(x.as_str())));
        }
    }
    if map.iter().map(|(k, v)| (k.as_str(), *v)).ne(want.iter().map(|(k, v)| (*k, *v))) {
        return e("a map by name is in another order than one by text".into());
    }
    Ok(())
}

/// Names the parser made
fn parsed(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let o = O::random(r).single();
    let names: Vec<String> = (0..2).map(|_| if r.p(50) { format!("n{}", r.n(20)) } else { format!("`n{}`", r.n(20)) }).collect();
    let bare: Vec<&str> = names.iter().map(|n| n.trim_matches('`')).collect();
    let text = format!("TRUNCATE TABLE {}.{}", names[0], names[1]);
    let opt = O { dialect: 1, ..o }.options();
    let mut issues = Issues::new(&text);
    let st = parse_statement(&text, &mut issues, &opt);
    cx.eval(&text, true);
    let Some(Statement::TruncateTable(t)) = st else { return bad(&text, &o, "not a TRUNCATE TABLE") };
    let q = &t.table_name;
    // The text of a name lives as long as the source
    let long: &str = {
        let i = q.identifier.clone();
        i.as_str()
    };
    let all: Vec<&str> = q.prefix.iter().map(|p| p.0.as_str()).chain([long]).collect();
    if all != bare {
        return bad(&text, &o, format!("names {all:?} instead of {bare:?}"));
    }
    if (q.prefix[0].0 == q.identifier) != (bare[0] == bare[1]) || q.prefix[0].0.cmp(&q.identifier) != bare[0].cmp(bare[1]) {
        return bad(&text, &o, "names do not compare like their texts");
    }
    cx.f("parsed");
    Ok(())
}

fn same(a: &ParseOptions, b: &ParseOptions) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

fn dialect(d: u8) -> SQLDialect {
    match d {
        1 => SQLDialect::MariaDB,
        4 => SQLDialect::Sqlite,
        _ => SQLDialect::PostgreSQL,
    }
}

fn arguments(a: Args) -> SQLArguments {
    match a {
        Args::None => SQLArguments::None,
        Args::Question => SQLArguments::QuestionMark,
        Args::Percent => SQLArguments::Percent,
        Args::Dollar => SQLArguments::Dollar,
    }
}

/// Options are what was set last, whatever the order
fn options(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut o = O { list_hack: false, warn_id: false, warn_kw: false, script: r.p(50), ..O::new(1, Args::None) };
    let mut p = if r.p(50) { ParseOptions::new() } else { ParseOptions::default() };
    let mut how = String::new();
    for _ in 0..r.n(9) {
        let w = O::random(r);
        let k = r.n(5);
        how.push_str(["dialect ", "arguments ", "identifiers ", "keywords ", "list "][k]);
        p = match k {
            0 => {
                o.dialect = w.dialect;
                p.dialect(dialect(w.dialect))
            }
            1 => {
                o.args = w.args;
                p.arguments(arguments(w.args))
            }
            2 => {
                o.warn_id = w.warn_id;
                p.warn_unquoted_identifiers(w.warn_id)
            }
            3 => {
                o.warn_kw = w.warn_kw;
                p.warn_none_capital_keywords(w.warn_kw)
            }
            _ => {
                o.list_hack = w.list_hack;
                p.list_hack(w.list_hack)
            }
        };
        if r.p(20) {
            p = p.clone();
        }
    }
    cx.f(&format!("settings.{}", how.split(' ').count() - 1));
    let d = p.get_dialect();
    if (d.is_maria(), d.is_postgresql(), d.is_sqlite()) != (o.dialect == 1, o.dialect == 2, o.dialect == 4) {
        return bad("", &o, format!("the dialect is {d:?} after setting {how}"));
    }
    if !same(&p, &o.options()) {
        return bad("", &o, format!("after setting {how}the options are {p:?} instead of {:?}", o.options()));
    }
    // Each option does what it says and nothing else: seen in the results
    let t = format!("select {}, _LIST_, x", ["1", "?", "%s", "$1", "`a`"][r.n(5)]);
    let t = if o.script { t + ";" } else { t };
    let (x, y) = (obs::run_with(&t, &o, &p), obs::run(&t, &o));
    cx.eval(&format!("{how}{t}"), true);
    if x.trees != y.trees || x.messages() != y.messages() {
        return bad(&t, &o, format!("options set in the order {how}give {} instead of {}", x.messages(), y.messages()));
    }
    let messages = x.messages();
    let list = x.trees.iter().any(|t| format!("{t:?}").contains("ListHack"));
    if x.ok() && list != o.list_hack {
        return bad(&t, &o, format!("_LIST_ is read as a list: {list}, after setting {how}"));
    }
    let warned = |w: (usize, usize)| x.issues.iter().any(|i| !i.err && i.span == w);
    let end = t.trim_end_matches(';').len();
    if x.ok() && warned((end - 1, end)) != o.warn_id || warned((0, 6)) != o.warn_kw {
        return bad(&t, &o, format!("name and keyword warnings are on: {} {}, and the issues are {messages}", o.warn_id, o.warn_kw));
    }
    let arg = match &t[7..8] {
        "?" => Some(o.args == Args::Question),
        "%" => Some(o.args == Args::Percent),
        "$" => Some(o.args == Args::Dollar),
        "`" => Some(o.dialect != 2),
        _ => None,
    };
    if arg.is_some_and(|a| a != x.ok()) {
        return bad(&t, &o, format!("{:?} placeholders are on, and the issues of this one are: {messages}", o.args));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C35",
            rule: "random spans, with empty, nested, touching and huge ones, put together with every container and tuple the library gives a span to, and joined in both orders; each composite counts",
            assumptions: &["spans have start <= end"],
            streams: vec![stream("hulls", 60_000, 1_000_000, hulls)],
        },
        Prop {
            id: "C36",
            rule: "groups of random names, with repetitions, prefixes of each other and characters of all lengths, made by hand and by the parser; each is compared with its own text, with every other one, and looked up in ordered maps and sets by text",
            assumptions: &[],
            streams: vec![stream("names", 40_000, 3_000_000, names), stream("parsed", 10_000, 1_000_000, parsed)],
        },
        Prop {
            id: "C37",
            rule: "random sequences of option settings, with repetitions and copies in between, compared with the settings made once in one order, and with what a probe text parsed with them shows of every option",
            assumptions: &["printing ParseOptions with {:?} shows all of its fields"],
            streams: vec![stream("options", 40_000, 3_000_000, options)],
        },
    ]
}
