//! C38: where the first error is.
use super::*;
use crate::{mutate, words};

/// No statement has one of these
const NEVER: &[&str] = &["]", "}", "\\", "$x", "::", "[", "@@foo"];

/// A valid text is left behind at token `p` of `k`. `never`: that token fits nowhere
fn first(cx: &mut Cx, o: &O, t: &Text, k: &[Tok], p: usize, never: bool) -> R {
    let v = obs::run(&t.s, o);
    cx.eval(&t.s, true);
    let errs = v.err_list();
    let Some(e) = errs.first() else {
        cx.f("accepted");
        return if never { bad(&t.s, o, format!("{:?} at {} gives no Error", k[p].t, t.at[p].0)) } else { Ok(()) };
    };
    let at = match t.at.get(p) {
        Some(a) => a.0,
        None => t.at.last().map_or(0, |a| a.1),
    };
    if e.span.0 == at || e.span.0 > at && !never {
        cx.f(if e.span.0 == at { "at the place" } else { "later" });
        return Ok(());
    }
    // An error about something that is there, but may not be
    if !never && e.span.1 > at {
        cx.f("around the place");
        return Ok(());
    }
    // What the word before means depends on what follows it
    if p > 0 && e.span == t.at[p - 1] && (words::is_reserved(&k[p - 1].t) || k[p - 1].t.eq_ignore_ascii_case("TEMPORARY")) {
        cx.f("at the word before");
        return Ok(());
    }
    // DROP INDEX without ON
    if e.span.1 <= at && k.iter().take(p).any(|k| k.t.eq_ignore_ascii_case("INDEX")) && t.s[e.span.0..e.span.1].to_ascii_lowercase().starts_with("drop") {
        cx.f("missing ON");
        return Ok(());
    }
    bad(&t.s, o, format!("the text is right up to {at}, and the first Error is at {}..{}: {}", e.span.0, e.span.1, e.msg))
}

fn one(r: &mut Rng) -> Made {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(4);
    any(r, cfg)
}

/// Function bodies are skipped
fn skipped(m: &Made) -> bool {
    m.g.feats.contains_key("create_function.pg_body")
}

/// Statements before it, and what ends the text
fn finish(r: &mut Rng, m: &Made, mut k: Vec<Tok>, p: usize, done: bool) -> (Vec<Tok>, usize, O) {
    let mut o = m.o(r).single();
    o.warn_id = r.p(20);
    o.warn_kw = r.p(20);
    if !r.p(40) {
        return (k, p, o);
    }
    o = o.script();
    let mut v = Vec::new();
    let semi = Tok { k: K::Op, t: ";".into(), ex: false };
    for _ in 0..r.n(3) {
        let mut c = m.g.cfg.clone();
        c.limit = 20;
        c.depth = 2;
        let b = any(r, c);
        if b.g.mask & o.dialect != 0 && b.g.unk & o.dialect == 0 && !b.g.dialect_value {
            v.extend(b.g.toks);
            v.push(semi.clone());
        }
    }
    let n = v.len();
    v.append(&mut k);
    if done {
        v.push(semi);
    }
    (v, p + n, o)
}

fn stray(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let m = one(r);
    if skipped(&m) {
        return Ok(());
    }
    let mut k = m.g.toks.clone();
    let p = r.n(k.len() + 1);
    let x = Tok { k: K::Op, t: r.pick(NEVER).to_string(), ex: false };
    if p < k.len() && r.p(50) {
        k[p] = x;
    } else {
        k.insert(p, x);
    }
    let (k, p, o) = finish(r, &m, k, p, true);
    let t = render(&k, layout(r), Case::Random, r);
    m.feats(cx);
    first(cx, &o, &t, &k, p, true)
}

fn cut(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let m = one(r);
    let mut k = m.g.toks.clone();
    let p = 1 + r.n(k.len());
    k.truncate(p);
    let (k, p, o) = finish(r, &m, k, p, false);
    let t = render(&k, layout(r), Case::Random, r);
    first(cx, &o, &t, &k, p, false)
}

fn changed(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let m = one(r);
    let mut k = m.g.toks.clone();
    let wild = r.p(50);
    mutate::tokens(r, &mut k, wild);
    let p = k.iter().zip(&m.g.toks).take_while(|(a, b)| a.t == b.t).count();
    let (k, p, o) = finish(r, &m, k, p, true);
    let t = render(&k, layout(r), Case::Random, r);
    first(cx, &o, &t, &k, p, false)
}

fn label(t: &Tok) -> String {
    match t.k {
        K::Kw => t.t.to_uppercase(),
        K::Op => t.t.clone(),
        K::Id | K::Q => "<id>".into(),
        K::Num => "<num>".into(),
        K::Str => "<str>".into(),
        K::Arg => "<arg>".into(),
        _ => "<raw>".into(),
    }
}

/// Words that may turn out to be names are not judged
fn able(t: &Tok, what: &str) -> bool {
    t.k != K::Kw || words::is_reserved(&t.t) || what != "." && !words::is_function(&t.t) && !t.t.eq_ignore_ascii_case("VALUE")
}

/// A comma, a dot, a bracket or a delimiter where it cannot stand
fn misplaced(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let m = one(r);
    if skipped(&m) {
        return Ok(());
    }
    let (what, after) = r.pick(super::pairs::PAIRS);
    let mut k = m.g.toks.clone();
    let fit: Vec<usize> = (0..k.len()).filter(|i| able(&k[*i], what) && after.split(' ').any(|a| a == label(&k[*i]))).collect();
    if fit.is_empty() {
        return Ok(());
    }
    let p = 1 + *r.pick(&fit);
    let x = Tok { k: K::Op, t: what.to_string(), ex: false };
    if p < k.len() && r.p(30) && k[p].t != *what {
        k[p] = x;
    } else {
        k.insert(p, x);
    }
    let (k, p, o) = finish(r, &m, k, p, true);
    if o.script && *what == ";" {
        return Ok(());
    }
    let t = render(&k, layout(r), Case::Random, r);
    cx.f(&format!("misplaced.{what}"));
    first(cx, &o, &t, &k, p, true)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        rule: "a valid statement, alone or after others, with a token that fits nowhere put into it or over one of its tokens, cut after a token, or changed at random; the place of the first Error is compared with the first token that is not the valid statement's",
        assumptions: &["a reserved word used as a function and TEMPORARY are judged by the token after them, and DROP INDEX without ON as a whole: an Error for these may start there", "bodies of PostgreSQL functions are skipped over by the library"],
        streams: vec![stream("stray", 50_000, 4_000_000, stray), stream("misplaced", 60_000, 5_000_000, misplaced), stream("cut", 30_000, 2_000_000, cut), stream("changed", 60_000, 5_000_000, changed)],
    }]
}
