//! C34: a part of a statement taken on its own.
use super::*;
use crate::dbg::{self, diff, D};
use crate::lex::{lex, Lex, T};

const KINDS: &[&str] = &[
    "Expression",
    "Expression::Binary",
    "Expression::Unary",
    "Expression::Function",
    "Expression::WindowFunction",
    "Expression::Identifier",
    "Expression::Interval",
    "Expression::Exists",
    "Expression::Extract",
    "Expression::In",
    "Expression::Is",
    "Expression::Case",
    "Expression::Cast",
    "Expression::Count",
    "Expression::GroupConcat",
    "Expression::Variable",
    "Expression::TimestampAdd",
    "Expression::TimestampDiff",
    "Select",
    "Statement",
    "Union",
    "DataType",
    "QualifiedName",
    "TableReference",
];

fn field<'a>(d: &'a D, n: &str) -> Option<&'a D> {
    match d {
        D::St(_, v) => v.iter().find(|f| f.0 == n).map(|f| &f.1),
        D::Tu(_, v) if v.len() == 1 => field(&v[0], n),
        _ => None,
    }
}
fn item(d: &D, i: usize) -> Option<&D> {
    match d {
        D::Li(v) => v.get(i),
        D::Tu(_, v) => v.get(i),
        _ => None,
    }
}
fn inner(d: &D) -> Option<&D> {
    match d {
        D::Tu(n, v) if n != "Some" && v.len() == 1 => Some(&v[0]),
        _ => None,
    }
}

/// Text to put a part into, and where to find the part in the tree of that text
fn frame(kind: &str) -> (&'static str, &'static str, fn(&D) -> Option<&D>) {
    match kind {
        k if k.starts_with("Expression") => ("RETURN ", "", |d| field(d, "expr")),
        "QualifiedName" => ("TRUNCATE TABLE ", "", |d| field(d, "table_name")),
        "TableReference" => ("SELECT 1 FROM ", "", |d| item(item(field(d, "table_references")?, 0)?, 0)),
        "DataType" => ("CREATE TABLE a (b ", ")", |d| item(field(d, "create_definitions")?, 0).and_then(|c| field(c, "data_type"))),
        "Block" => ("CREATE TRIGGER a BEFORE UPDATE ON a FOR EACH ROW ", "", |d| field(d, "statement")),
        "Select" | "Union" => ("", "", inner),
        _ => ("", "", |d| Some(d)),
    }
}

/// Spans do not record parentheses. Moves both ends over the ones that are missing, when they are the next tokens
fn closed(text: &str, toks: &[Lex], kind: &str, bare: bool, (a, z): (usize, usize)) -> Option<(usize, usize)> {
    let i = toks.iter().position(|l| l.s == a)?;
    let j = toks.iter().position(|l| l.e == z)? + 1;
    let (mut open, mut stray) = (0, 0);
    for l in toks.get(i..j)? {
        match l.text(text) {
            "(" if l.t == T::Op => open += 1,
            ")" if l.t == T::Op && open > 0 => open -= 1,
            ")" if l.t == T::Op => stray += 1,
            _ => {}
        }
    }
    let next = |k: usize, c: &str| toks.get(k).filter(|l| l.t == T::Op && l.text(text) == c);
    let mut r = (a, z);
    if bare {
        (open, stray) = (open + 1, stray + 1);
        while kind == "Expression::Exists" && i > stray && next(i - stray - 1, "(").is_some() {
            (open, stray) = (open + 1, stray + 1);
        }
    }
    for k in 0..stray {
        r.0 = next(i.checked_sub(k + 1)?, "(")?.s;
    }
    if stray > 0 && kind.starts_with("Expression") {
        // EXISTS is not recorded either
        if let Some(l) = i.checked_sub(stray + 1).map(|k| &toks[k]).filter(|l| l.t == T::Word && l.text(text).eq_ignore_ascii_case("exists")) {
            r.0 = l.s;
        }
    }
    for k in 0..open {
        r.1 = next(j + k, ")")?.e;
    }
    if open == 0 && kind != "QualifiedName" && next(j, "(").is_some() {
        if let Some(c) = next(j + 1, ")") {
            r.1 = c.e;
        }
    }
    Some(r)
}

fn part(cx: &mut Cx, text: &str, o: &O) -> R {
    let opt = o.options();
    let mut issues = sql_parse::Issues::new(text);
    crate::core::set_cur(text, o);
    let Some(st) = sql_parse::parse_statement(text, &mut issues, &opt) else { return Ok(()) };
    if issues.get().iter().any(|i| i.level == sql_parse::Level::Error) {
        return Ok(());
    }
    let toks = lex(text);
    for n in super::walk::printed(&st, KINDS) {
        if n.dbg.is_empty() {
            continue;
        }
        let d = dbg::parse(&n.dbg).unwrap_or_else(|e| panic!("harness: {e}"));
        let bare = n.name == "Expression::Exists" || n.dbg.starts_with("Query") && field(&d, "as_").is_some_and(|a| matches!(a, D::At(s) if s == "None"));
        let Some((a, z)) = closed(text, &toks, n.name, bare, n.span) else {
            cx.f("skipped");
            continue;
        };
        let (before, after, find) = frame(if n.dbg.starts_with("Block") { "Block" } else { n.name });
        let t = format!("{before}{}{after}", &text[a..z]);
        let v = obs::run(&t, o);
        cx.eval(&t, true);
        cx.f(n.name);
        if !v.ok() {
            return bad(text, o, format!("{} at {a}..{z} is not accepted on its own ({t:?}): {}", n.name, v.messages()));
        }
        let Some(alone) = v.trees.first().and_then(find) else { return bad(text, o, format!("{} at {a}..{z} is something else on its own ({t:?})", n.name)) };
        let plain = |d: &D, by: usize| d.map(&|x, y| D::Sp(x + by, y + by), &|_| 0);
        if let Some(e) = diff(&plain(&d, before.len()), &plain(alone, a)) {
            return bad(text, o, format!("{} at {a}..{z} means something else on its own ({t:?}): {e}", n.name));
        }
    }
    Ok(())
}

fn written(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    let t = render(&m.g.toks, layout(r), Case::Random, r);
    let o = m.o(r).single();
    m.feats(cx);
    part(cx, &t.s, &o)
}

fn changed(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let mut m = any(r, cfg);
    crate::mutate::tokens(r, &mut m.g.toks, false);
    let t = render(&m.g.toks, layout(r), Case::Random, r);
    let o = m.o(r).single();
    part(cx, &t.s, &o)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        rule: "every expression, query, statement, data type, name and table reference of the tree of an accepted text, cut out of the text at its span (with the parentheses and the EXISTS that spans leave out) and parsed on its own in a small frame; a valid or mutated text without errors counts for each of its parts",
        assumptions: &["parts whose missing parentheses are not the next tokens (a comment form or a body in a quoted string in between) are skipped and counted as skipped"],
        streams: vec![stream("written", 8_000, 600_000, written), stream("changed", 20_000, 1_500_000, changed)],
    }]
}
