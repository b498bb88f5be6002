//! Properties decided by comparing the reported tree with the tree the text was generated from.
use super::*;
use crate::n::N;
use crate::{st, tu, tup};

const RULE: &str = "Statements of the family are generated token by token from the documented grammar together with the tree they mean, in a random layout, letter case and dialect; the reported tree is compared field by field. A case counts when the text has more than three tokens and was not seen before.";
const ASSUME: &[&str] = &["The expected trees are written from the documented grammar in harness/src/g*.rs, independently of the parser.", "The derived Debug output shows every field of the tree."];

fn tree(cx: &mut Cx, r: &mut Rng, tweak: fn(&mut Cfg, &mut Rng), b: Build) -> R {
    let mut cfg = Cfg::new(r);
    tweak(&mut cfg, r);
    let m = build(r, cfg, b);
    let t = m.text(r);
    let mut o = m.o(r);
    o.warn_id = r.p(10);
    o.warn_kw = r.p(10);
    cx.eval(&t.s, m.g.toks.len() > 3);
    cx.max("tokens", m.g.toks.len() as u64);
    m.feats(cx);
    judge(&m, &t, &o, false)
}

fn no(_: &mut Cfg, _: &mut Rng) {}
fn small(c: &mut Cfg, r: &mut Rng) {
    c.limit = [12, 25, 50][r.n(3)];
    c.depth = [1, 1, 2][r.n(3)];
    c.only = 60;
}

macro_rules! p {
    ($id:expr, $v:expr) => {
        Prop { id: $id, rule: RULE, assumptions: ASSUME, streams: $v }
    };
}

/// The operand a select list of one holds
fn select1(g: &mut G, e: impl FnOnce(&mut G) -> N) -> N {
    let s = g.kw("SELECT");
    let e = e(g);
    tu!(
        Select,
        st!(Select { select_span: s, flags: Vec::<N>::new(), select_exprs: vec![st!(SelectExpr { expr: e, as_: crate::n::at("None") })], from_span: crate::n::at("None") })
    )
}

/// Types in every place that has one
fn types(g: &mut G, d: u32) -> N {
    match g.r.n(6) {
        0 => g.create_table(d.min(1)),
        1 => g.alter(d.min(1)),
        2 => g.create_function(d.min(1)),
        _ => select1(g, |g| {
            let s = g.kw("CAST");
            g.op("(");
            let e = g.expr(0);
            let a = g.kw("AS");
            let t = g.data_type(false, false, 0);
            g.op(")");
            g.f("expr.cast");
            st!(Cast { cast_span: s, expr: e, as_span: a, type_: t })
        }),
    }
}

fn list_marker(c: &mut Cfg, r: &mut Rng) {
    small(c, r);
    c.list_hack = true;
    c.arg_pct = 30;
}
/// `_LIST_` as a name when the option is off
fn list_name(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.list_hack = true;
    cfg.limit = 20;
    cfg.args = Args::None;
    let m = build(r, cfg, |g, d| g.query(d, true));
    if !m.g.toks.iter().any(|t| t.t == "_LIST_") || m.g.toks.len() > 4000 {
        return Ok(());
    }
    let t = m.text(r);
    let o = m.o(r).list(false);
    cx.eval(&t.s, true);
    cx.f("list.name");
    let v = obs::run(&t.s, &o);
    if !v.ok() {
        return bad(&t.s, &o, format!("_LIST_ is not accepted as a name: {}", v.messages()));
    }
    let name = |s: S, _: &N| -> N {
        let (a, b) = t.span(s);
        tu!(Identifier, N::Li(vec![tu!(Name, st!(Identifier { value: t.s[a..b].to_string(), span: s }))]))
    };
    let e = replace_list(&m.e, &name);
    crate::n::compare(&e, &v.trees[0], &|s| t.span(s), false).map(|_| ()).or_else(|e| bad(&t.s, &o, e))
}
use crate::n::S;
fn replace_list(n: &N, f: &dyn Fn(S, &N) -> N) -> N {
    match n {
        N::Tu("ListHack", v) => match &v[0] {
            N::Tu(_, w) => match &w[1] {
                N::Sp(s) => f(*s, n),
                _ => n.clone(),
            },
            _ => n.clone(),
        },
        N::Tu(a, v) => N::Tu(a, v.iter().map(|x| replace_list(x, f)).collect()),
        N::St(a, v) => N::St(a, v.iter().map(|(k, x)| (*k, replace_list(x, f))).collect()),
        N::Li(v) => N::Li(v.iter().map(|x| replace_list(x, f)).collect()),
        n => n.clone(),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        p!(
            "C14",
            vec![
                stream("select", 120_000, 6_000_000, |cx, r, _| tree(cx, r, no, |g, d| g.query(d, false))),
                stream("select-small", 120_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| g.query(d, false))),
                stream("select-nested", 40_000, 2_000_000, |cx, r, _| tree(
                    cx,
                    r,
                    |c, r| {
                        c.focus = &[31, 33, 34];
                        c.depth = r.r(2, 5) as u32;
                        c.limit = 160
                    },
                    |g, d| {
                        let f = g.pick(&[Fam::Select, Fam::Insert, Fam::Update, Fam::Delete, Fam::CreateView, Fam::Set, Fam::If]);
                        g.statement(f, d, false)
                    }
                )),
            ]
        ),
        p!(
            "C15",
            vec![
                stream("joins", 150_000, 6_000_000, |cx, r, _| tree(cx, r, no, |g, d| {
                    let s = g.kw("SELECT");
                    let e = g.op("*");
                    let f = g.kw("FROM");
                    let t = g.table_refs(d);
                    let _ = (s, e, f);
                    tu!(Select, st!(Select { select_span: s, flags: Vec::<N>::new(), from_span: Some(f), table_references: Some(N::Li(t)), where_: crate::n::at("None"), limit: crate::n::at("None") }))
                })),
                stream("joins-small", 120_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| {
                    let s = g.kw("SELECT");
                    g.op("*");
                    let f = g.kw("FROM");
                    let t = vec![g.table_ref(d)];
                    let w = g.where_(40, d);
                    tu!(Select, st!(Select { select_span: s, flags: Vec::<N>::new(), from_span: Some(f), table_references: Some(N::Li(t)), where_: w, limit: crate::n::at("None") }))
                })),
                stream("update-delete", 40_000, 2_000_000, |cx, r, _| tree(cx, r, small, |g, d| {
                    let f = g.pick(&[Fam::Update, Fam::Delete]);
                    g.statement(f, d, false)
                })),
            ]
        ),
        p!(
            "C16",
            vec![
                stream("dml", 120_000, 6_000_000, |cx, r, _| tree(cx, r, no, |g, d| {
                    let f = g.pick(&[Fam::Insert, Fam::Insert, Fam::Update, Fam::Delete]);
                    g.statement(f, d, false)
                })),
                stream("dml-small", 150_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| {
                    let f = g.pick(&[Fam::Insert, Fam::Insert, Fam::Update, Fam::Delete]);
                    g.statement(f, d, false)
                })),
            ]
        ),
        p!(
            "C17",
            vec![
                stream("create-table", 120_000, 6_000_000, |cx, r, _| tree(cx, r, no, |g, d| g.create_table(d))),
                stream("create-table-small", 150_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| g.create_table(d))),
            ]
        ),
        p!(
            "C18",
            vec![
                stream("alter", 120_000, 6_000_000, |cx, r, _| tree(cx, r, no, |g, d| g.alter(d))),
                stream("alter-small", 150_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| g.alter(d))),
            ]
        ),
        p!(
            "C19",
            vec![stream("drop", 200_000, 6_000_000, |cx, r, _| tree(cx, r, no, |g, d| {
                let f = g.pick(&[Fam::Drop, Fam::Drop, Fam::Drop, Fam::Truncate, Fam::Rename]);
                g.statement(f, d, false)
            }))]
        ),
        p!("C20", vec![stream("types", 300_000, 8_000_000, |cx, r, _| tree(cx, r, small, types))]),
        p!(
            "C21",
            vec![
                stream("calls", 200_000, 8_000_000, |cx, r, _| tree(
                    cx,
                    r,
                    |c, r| {
                        small(c, r);
                        c.focus = &[11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 26, 27, 29, 30, 31, 33, 35, 36];
                        c.depth = r.r(1, 3) as u32
                    },
                    |g, d| select1(g, |g| g.primary(d))
                )),
                stream("calls-deep", 60_000, 4_000_000, |cx, r, _| tree(
                    cx,
                    r,
                    |c, _| c.focus = &[13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 26, 27, 29, 30, 31, 33, 35],
                    |g, d| {
                        let f = g.pick(&[Fam::Select, Fam::Set, Fam::Insert, Fam::Return, Fam::Update]);
                        g.statement(f, d + 1, false)
                    }
                )),
            ]
        ),
        p!(
            "C22",
            vec![
                stream("compound", 120_000, 5_000_000, |cx, r, _| tree(
                    cx,
                    r,
                    |c, r| c.depth = r.r(1, 6) as u32,
                    |g, d| {
                        let f = g.pick(&[Fam::If, Fam::Case, Fam::Do, Fam::CreateTrigger, Fam::CreateFunction]);
                        g.statement(f, d, false)
                    }
                )),
                stream("compound-small", 100_000, 4_000_000, |cx, r, _| tree(
                    cx,
                    r,
                    |c, r| {
                        small(c, r);
                        c.depth = r.r(1, 4) as u32
                    },
                    |g, d| {
                        let f = g.pick(&[Fam::If, Fam::Case, Fam::Do, Fam::CreateTrigger, Fam::CreateFunction, Fam::Begin, Fam::End, Fam::Commit, Fam::Start]);
                        g.statement(f, d, false)
                    }
                )),
            ]
        ),
        p!(
            "C30",
            vec![
                stream("union", 120_000, 5_000_000, |cx, r, _| tree(cx, r, no, |g, d| g.union(d))),
                stream("union-small", 100_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| g.union(d))),
                stream("with", 60_000, 4_000_000, |cx, r, _| tree(cx, r, |c, _| c.dialect = P, |g, d| g.with(d))),
                stream("nested", 40_000, 2_000_000, |cx, r, _| tree(
                    cx,
                    r,
                    |c, _| c.focus = &[31, 33, 34],
                    |g, d| {
                        let f = g.pick(&[Fam::CreateView, Fam::Union, Fam::Set, Fam::Select]);
                        g.statement(f, d, false)
                    }
                )),
            ]
        ),
        p!(
            "C31",
            vec![
                stream("create", 120_000, 5_000_000, |cx, r, _| tree(cx, r, no, |g, d| {
                    let f = g.pick(&[Fam::CreateView, Fam::CreateIndex, Fam::CreateTrigger, Fam::CreateFunction, Fam::CreateType]);
                    g.statement(f, d, false)
                })),
                stream("create-small", 150_000, 4_000_000, |cx, r, _| tree(cx, r, small, |g, d| {
                    let f = g.pick(&[Fam::CreateView, Fam::CreateIndex, Fam::CreateTrigger, Fam::CreateFunction, Fam::CreateType]);
                    g.statement(f, d, false)
                })),
            ]
        ),
        p!(
            "C32",
            vec![
                stream("set", 150_000, 5_000_000, |cx, r, _| tree(cx, r, small, |g, d| {
                    let f = g.pick(&[Fam::Set, Fam::Signal, Fam::Signal, Fam::Return]);
                    g.statement(f, d, false)
                })),
                stream("set-large", 40_000, 2_000_000, |cx, r, _| tree(cx, r, no, |g, d| {
                    let f = g.pick(&[Fam::Set, Fam::Signal, Fam::Return]);
                    g.statement(f, d, false)
                })),
                stream("list", 60_000, 2_000_000, |cx, r, _| tree(cx, r, list_marker, |g, d| {
                    let f = g.pick(&[Fam::Set, Fam::Select, Fam::Insert, Fam::Update, Fam::Delete]);
                    g.statement(f, d, false)
                })),
                stream("list-name", 60_000, 2_000_000, list_name),
            ]
        ),
    ]
}
