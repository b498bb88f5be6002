//! C04 and C05: positions.
use super::*;
use std::collections::HashSet;

fn exact(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let m = any(r, cfg);
    let l = layout(r);
    let t = render(&m.g.toks, l, [Case::Upper, Case::Lower, Case::Random][r.n(3)], r);
    let o = m.o(r);
    cx.eval(&t.s, m.g.toks.len() > 3);
    m.feats(cx);
    cx.max("tokens", m.g.toks.len() as u64);
    judge(&m, &t, &o, true)
}

/// The parser itself, for the typed tree
fn with_trees<T>(text: &str, o: &O, f: impl FnOnce(&[sql_parse::Statement], bool) -> T) -> T {
    let opt = o.options();
    let mut issues = sql_parse::Issues::new(text);
    crate::core::set_cur(text, o);
    let st = if o.script { sql_parse::parse_statements(text, &mut issues, &opt) } else { sql_parse::parse_statement(text, &mut issues, &opt).into_iter().collect() };
    f(&st, issues.is_ok())
}

/// Spans of the nodes of accepted statements against the positions in them
fn nodes_ok(cx: &mut Cx, text: &str, o: &O, st: &[sql_parse::Statement]) -> R {
    let toks = crate::lex::lex(text);
    let starts: HashSet<usize> = toks.iter().map(|l| l.s).collect();
    let ends: HashSet<usize> = toks.iter().map(|l| l.e).collect();
    let mut last = 0;
    for s in st {
        let v = super::walk::nodes(s);
        let data = matches!(s, sql_parse::Statement::Stdin(..));
        let whole = v[0].span;
        if whole.0 < last {
            return bad(text, o, format!("statement at {whole:?} starts before the previous one ends at {last}"));
        }
        last = whole.1;
        for n in v {
            cx.fs(n.name, 1);
            let (a, b) = n.span;
            if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                return bad(text, o, format!("{} has span {a}..{b}, which is no piece of the text", n.name));
            }
            let Some((p, q)) = n.hull else {
                return bad(text, o, format!("{} records no position at all", n.name));
            };
            if p < a || q > b {
                return bad(text, o, format!("{} at {a}..{b} {:?} has parts at {p}..{q} {:?}", n.name, &text[a..b], text.get(p..q)));
            }
            if a < whole.0 || b > whole.1 {
                return bad(text, o, format!("{} at {a}..{b} lies outside its statement at {whole:?}", n.name));
            }
            if (a, b) != (p, q) {
                return bad(text, o, format!("{} at {a}..{b} {:?} is wider than its parts at {p}..{q} {:?}", n.name, &text[a..b], text.get(p..q)));
            }
            if !data && a != b && (!starts.contains(&a) || !ends.contains(&b)) {
                return bad(text, o, format!("{} at {a}..{b} {:?} does not begin and end at tokens", n.name, &text[a..b]));
            }
        }
    }
    Ok(())
}

fn cover(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let m = any(r, cfg);
    let l = layout(r);
    let t = render(&m.g.toks, l, Case::Random, r);
    let o = m.o(r);
    cx.eval(&t.s, m.g.toks.len() > 3);
    m.feats(cx);
    with_trees(&t.s, &o, |st, ok| {
        if !ok || st.len() != 1 {
            return bad(&t.s, &o, "valid text is not accepted");
        }
        nodes_ok(cx, &t.s, &o, st)?;
        // First and last token of the statement
        let n = super::walk::nodes(&st[0]);
        let _ = n;
        Ok(())
    })
}

/// Changed statements that happen to be accepted
fn mutated(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg::new(r);
    let mut m = any(r, cfg);
    crate::mutate::tokens(r, &mut m.g.toks, false);
    if m.g.toks.iter().any(|t| ["COPY", "DELIMITER"].contains(&t.t.to_uppercase().as_str())) {
        return Ok(());
    }
    let t = render(&m.g.toks, Layout::Single, Case::Upper, r);
    let o = m.o(r);
    with_trees(&t.s, &o, |st, ok| {
        cx.f(if ok { "changed, accepted" } else { "changed, rejected" });
        if ok {
            cx.eval(&t.s, true);
            nodes_ok(cx, &t.s, &o, st)?;
        }
        Ok(())
    })
}

fn scripts(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (g, _) = super::lexical::script(r, 6);
    let l = layout(r);
    let t = render(&g.toks, l, Case::Random, r);
    let o = O::new(g.cfg.dialect, g.cfg.args).list(g.cfg.list_hack).script();
    cx.eval(&t.s, true);
    with_trees(&t.s, &o, |st, ok| {
        if !ok {
            return bad(&t.s, &o, "valid script is not accepted");
        }
        nodes_ok(cx, &t.s, &o, st)
    })
}

/// A statement far behind the start of the text
fn far(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.limit = cfg.limit.min(40);
    let m = any(r, cfg);
    let t = render(&m.g.toks, layout(r), Case::Random, r);
    let mut o = m.o(r);
    o.warn_id = r.p(50);
    o.warn_kw = r.p(50);
    let by = match i % 40 {
        0 => (1 << 24) + r.n(40),
        1..=5 => (1 << 17) - 20 + r.n(200),
        6..=25 => (1 << 16) - t.s.len() / 2 - 20 + r.n(t.s.len() + 40),
        _ => [128, 256, 512, 1024, 4096, 32768][r.n(6)] - r.n(30),
    };
    let pre = match r.n(4) {
        0 => " ".repeat(by),
        1 => "\n".repeat(by),
        2 => format!("/*{}*/", "x".repeat(by - 4)),
        _ => format!("--{}\n", "é".repeat((by - 3) / 2)),
    };
    let text = format!("{pre}{}", t.s);
    let (a, b) = (obs::run(&t.s, &o), obs::run(&text, &o));
    cx.eval(&text, true);
    cx.max("bytes in front", by as u64);
    let what = |m: String| bad(&t.s, &o, format!("behind {} bytes beginning with {:?} {m}", pre.len(), &pre.chars().take(4).collect::<String>()));
    if a.trees.len() != b.trees.len() {
        return what(format!("{} statements are returned instead of {}", b.trees.len(), a.trees.len()));
    }
    for (x, y) in a.trees.iter().zip(&b.trees) {
        if let Some(m) = crate::dbg::diff(&super::script::shift(x, pre.len()), y) {
            return what(format!("the tree differs at {m}"));
        }
    }
    if b.issues != a.issues.iter().map(|i| super::script::shift_issue(i, pre.len())).collect::<Vec<_>>() {
        return what("the issues differ".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "generated statements of every family with more than three tokens, in random layout, case and dialect; every span recorded anywhere in the tree is compared with the extent of the tokens it was generated from; statements behind up to 16 MB of white space or comment",
            assumptions: &["the tokens a span stands for are those written down in the generator", "spans are read from the derived Debug output of the tree"],
            streams: vec![stream("exact", 150_000, 6_000_000, exact), stream("far", 300, 20_000, far)],
        },
        Prop {
            id: "C05",
            rule: "generated and changed statements and scripts that are accepted; the span computed for every node with a public type is compared with the smallest and largest position recorded in that node and with the tokens of the text",
            assumptions: &["positions of a node are those in its derived Debug output", "the harness's own tokenizer says where tokens begin and end"],
            streams: vec![stream("cover", 80_000, 3_000_000, cover), stream("mutated", 80_000, 3_000_000, mutated), stream("scripts", 20_000, 600_000, scripts)],
        },
    ]
}
