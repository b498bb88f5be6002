//! C41: what an option changes.
use super::*;
use crate::dbg::diff;

const ARGS: &[(Args, char)] = &[(Args::Question, '?'), (Args::Percent, '%'), (Args::Dollar, '$')];

fn same(text: &str, a: &O, b: &O, x: &obs::Obs, y: &obs::Obs, issues: bool) -> R {
    let f = |m: String| bad(text, b, format!("{m}, compared with {a:?}"));
    if x.trees.len() != y.trees.len() {
        return f(format!("{} statements instead of {}", y.trees.len(), x.trees.len()));
    }
    for (p, q) in x.trees.iter().zip(&y.trees) {
        if let Some(e) = diff(p, q) {
            return f(format!("another tree: {e}"));
        }
    }
    if issues && x.issues != y.issues {
        return f(format!("other issues: {} instead of {}", y.messages(), x.messages()));
    }
    Ok(())
}

fn neutral(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (text, o) = super::robust::hostile(cx, r);
    if text.len() > 5000 {
        return Ok(());
    }
    check(cx, text, o)
}

/// Valid texts with as little as possible that is of one dialect
fn plain(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.quoted = 0;
    cfg.only = 0;
    cfg.list_hack = r.p(10);
    if r.p(80) {
        cfg.arg_pct = 0;
    }
    let m = any(r, cfg);
    let o = m.o(r);
    let text = render(&m.g.toks, layout(r), Case::Random, r).s;
    cx.max("bytes", text.len() as u64);
    check(cx, text.replace('"', "'"), o)
}

/// Long texts of one repeated part
fn long(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let g = &super::robust::GROW[i as usize % super::robust::GROW.len()];
    let top = [10, 300, 3000][r.n(3)];
    let n = r.r(2, top).min(40_000 / g.2.len().max(1));
    let deep = matches!(g.0, "and" | "or_in" | "plus_mul" | "joins" | "qualified");
    let text = format!("{}{}{}", g.1, g.2.repeat(if deep { n.min(300) } else { n }), g.3);
    let mut o = O::random(r);
    o.script = g.1.is_empty() || g.0.contains("copy");
    cx.max("repetitions", n as u64);
    check(cx, text, o)
}

fn check(cx: &mut Cx, text: String, o: O) -> R {
    // Placeholders of a style that is not used
    let base = O { args: Args::None, ..o };
    let v = obs::run(&text, &base);
    for (a, c) in ARGS {
        if !text.contains(*c) {
            let p = O { args: *a, ..o };
            cx.eval(&text, true);
            cx.f("arguments");
            same(&text, &base, &p, &v, &obs::run(&text, &p), true)?;
        }
    }
    if !text.to_ascii_uppercase().contains("_LIST_") {
        cx.f("list hack");
        let p = O { list_hack: !base.list_hack, ..base };
        same(&text, &base, &p, &v, &obs::run(&text, &p), true)?;
    }
    // Escapes, double quotes and REAL mean something else in another dialect
    if text.contains(['\\', '"']) || text.to_ascii_uppercase().contains("REAL") {
        return Ok(());
    }
    // Dialects in which the text is valid
    let all: Vec<_> = [1, 2, 4].iter().map(|d| O { dialect: *d, ..o }).map(|o| (o, obs::run(&text, &o))).filter(|v| v.1.ok() && !v.1.trees.is_empty()).collect();
    for (p, w) in all.iter().skip(1) {
        cx.f(&format!("dialects {} {}", all[0].0.dialect, p.dialect));
        same(&text, &all[0].0, p, &all[0].1, w, true)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C41",
        rule: "texts of every kind, valid and broken: with a style of placeholders whose character is not in the text, and with the list hack turned the other way when _LIST_ is not in it, trees and issues stay the same; and in all dialects in which a text is valid it has the same trees and warnings",
        assumptions: &["texts with a backslash, a double quote or REAL mean something else in another dialect and are not compared between dialects"],
        streams: vec![stream("neutral", 150_000, 6_000_000, neutral), stream("plain", 60_000, 3_000_000, plain), stream("long", 2000, 40_000, long)],
    }]
}
