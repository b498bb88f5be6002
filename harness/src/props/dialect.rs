//! C24 and C25: dialects and warnings.
use super::*;
use crate::dbg::diff;
use crate::lex::{lex, T};
use crate::obs::{Iss, Obs};

const DIALECTS: [u8; 3] = [M, L, P];

fn name(d: u8) -> &'static str {
    match d {
        M => "MariaDB",
        L => "Sqlite",
        _ => "PostgreSQL",
    }
}

/// Accepted in the dialects it belongs to, rejected in all others
fn masks(cx: &mut Cx, r: &mut Rng, tiny: bool) -> R {
    let mut cfg = Cfg::new(r);
    cfg.only = 80;
    if tiny || r.p(50) {
        cfg.limit = r.r(3, 25);
        cfg.depth = 1;
        cfg.scale = 0;
    }
    let m = any(r, cfg);
    let t = m.text(r);
    let mut o = O::new(m.g.cfg.dialect, m.g.cfg.args).list(m.g.cfg.list_hack);
    o.warn_id = r.p(25);
    o.warn_kw = r.p(25);
    let mut first = None;
    cx.eval(&t.s, m.g.mask != ALL);
    m.feats(cx);
    for d in DIALECTS {
        o.dialect = d;
        let v = obs::run(&t.s, &o);
        let want = m.g.mask & d != 0;
        cx.f(&format!("{} {}", name(d), if want { "accepts" } else { "rejects" }));
        if v.ok() != want {
            return bad(&t.s, &o, if want { format!("not accepted in {}: {}", name(d), v.messages()) } else { format!("accepted in {}", name(d)) });
        }
        if want && !m.g.dialect_value {
            let (f, _) = &*first.get_or_insert((v.trees[0].clone(), d));
            if let Some(x) = diff(f, &v.trees[0]) {
                return bad(&t.s, &o, format!("reported differently in {}: {x}", name(d)));
            }
        }
    }
    Ok(())
}

// C25

fn id_warning(i: &Iss) -> bool {
    !i.err && i.msg.contains("should be quoted")
}
fn kw_warning(i: &Iss) -> bool {
    !i.err && i.msg.contains("ALL CAPS")
}

/// Runs with all four settings, which have to agree. The last one has both warnings on
fn four(t: &str, o: &O) -> Result<Vec<Obs>, Bad> {
    let mut v: Vec<Obs> = Vec::new();
    for k in 0..4 {
        let mut o = *o;
        o.warn_id = k & 1 != 0;
        o.warn_kw = k & 2 != 0;
        let w = obs::run(t, &o);
        for i in w.issues.iter().filter(|i| !i.err) {
            let l = lex(t).into_iter().find(|l| (l.s, l.e) == i.span);
            if (id_warning(i) && !o.warn_id) || (kw_warning(i) && !o.warn_kw) {
                return bad(t, &o, format!("the warning {:?} is not turned on", i.msg));
            }
            if id_warning(i) || kw_warning(i) {
                let Some(l) = l else { return bad(t, &o, format!("the warning {:?} is at {:?}, which is no token", i.msg, i.span)) };
                let x = l.text(t);
                if l.t != T::Word || !i.msg.contains(x) {
                    return bad(t, &o, format!("the warning {:?} is about {x:?}", i.msg));
                }
                if kw_warning(i) && !(crate::words::is_keyword(x) && x.bytes().any(|c| c.is_ascii_lowercase())) {
                    return bad(t, &o, format!("{x:?} gets the warning {:?}", i.msg));
                }
            }
        }
        for n in ["id", "kw"] {
            let f = |i: &&Iss| if n == "id" { id_warning(i) } else { kw_warning(i) };
            let mut s: Vec<_> = w.issues.iter().filter(f).map(|i| i.span).collect();
            let all = s.len();
            s.sort();
            s.dedup();
            if s.len() != all {
                return bad(t, &o, "a word gets the same warning twice");
            }
        }
        if let Some(f) = v.first() {
            if f.trees.len() != w.trees.len() {
                return bad(t, &o, format!("{} statements instead of {} without warnings", w.trees.len(), f.trees.len()));
            }
            for (a, b) in f.trees.iter().zip(&w.trees) {
                if let Some(d) = diff(a, b) {
                    return bad(t, &o, format!("tree without / with the warnings at {d}"));
                }
            }
            if f.spans != w.spans {
                return bad(t, &o, "spans change with the warnings");
            }
            let off: Vec<&Iss> = f.issues.iter().collect();
            let on: Vec<&Iss> = w.issues.iter().filter(|i| !id_warning(i) && !kw_warning(i)).collect();
            if off != on {
                return bad(t, &o, format!("issues without the warnings: {}, with them: {}", f.messages(), w.messages()));
            }
        }
        v.push(w);
    }
    // Each warning depends on its own option only
    let f = |k: usize, f: fn(&Iss) -> bool| v[k].issues.iter().filter(|i| f(i)).cloned().collect::<Vec<_>>();
    if f(1, id_warning) != f(3, id_warning) || f(2, kw_warning) != f(3, kw_warning) {
        return bad(t, o, "the warnings of one kind change with the option of the other");
    }
    Ok(v)
}

fn valid_warnings(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.quoted = [0, 12, 40, 100][r.n(4)];
    let m = any(r, cfg);
    let case = [Case::Upper, Case::Lower, Case::Random][r.n(3)];
    let t = render(&m.g.toks, layout(r), case, r);
    let o = m.o(r);
    let v = four(&t.s, &o)?;
    cx.eval(&t.s, !m.g.names.is_empty());
    cx.fs("names", m.g.names.len() as u64);
    if !v[3].ok() {
        return bad(&t.s, &o, format!("valid text is not accepted: {}", v[3].messages()));
    }
    let on = O { warn_id: true, ..o };
    let mut got: Vec<_> = v[1].issues.iter().filter(|i| id_warning(i)).map(|i| i.span).collect();
    got.sort();
    for (k, plain) in &m.g.names {
        if m.g.toks[*k].ex {
            continue;
        }
        cx.f(if *plain { "names.plain" } else { "names.quoted" });
        let s = t.at[*k];
        if got.binary_search(&s).is_ok() != *plain {
            return bad(&t.s, &on, format!("the name {} at {s:?} gets {} warning", &t.s[s.0..s.1], if *plain { "no" } else { "a" }));
        }
    }
    let names: Vec<_> = m.g.names.iter().map(|n| t.at[n.0]).collect();
    for s in &got {
        if !names.contains(s) {
            return bad(&t.s, &on, format!("{} at {s:?}, which is no name, gets a warning", &t.s[s.0..s.1]));
        }
    }
    let n = v[3].issues.iter().filter(|i| kw_warning(i)).count();
    cx.fs("keyword warnings", n as u64);
    if case == Case::Upper && n > 0 {
        return bad(&t.s, &O { warn_kw: true, ..o }, "keywords in capitals get warnings");
    }
    Ok(())
}

/// Which keywords get a warning does not depend on which of their letters are small
fn spelled(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let m = any_small(r);
    let t = render(&m.g.toks, layout(r), Case::Lower, r);
    let o = O { warn_kw: true, ..m.o(r) };
    let v = obs::run(&t.s, &o);
    let at = |v: &Obs| v.issues.iter().filter(|i| kw_warning(i)).map(|i| i.span).collect::<Vec<_>>();
    let all = at(&v);
    cx.eval(&t.s, !all.is_empty());
    cx.fs("keyword warnings", all.len() as u64);
    for _ in 0..4 {
        let mut u = t.s.clone().into_bytes();
        let mode = r.n(4);
        let mut capitals = Vec::new();
        for (k, &(a, b)) in m.g.toks.iter().zip(&t.at) {
            if k.k != K::Kw || !all.contains(&(a, b)) {
                continue;
            }
            let p: Vec<usize> = (a..b).filter(|i| u[*i].is_ascii_lowercase()).collect();
            let small = match mode {
                0 => Some(p[0]),
                1 => Some(p[p.len() - 1]),
                2 => Some(p[r.n(p.len())]),
                _ if r.p(50) => None,
                _ => Some(p[r.n(p.len())]),
            };
            p.iter().filter(|i| Some(**i) != small).for_each(|i| u[*i] = u[*i].to_ascii_uppercase());
            if small.is_none() {
                capitals.push((a, b))
            }
            if mode == 0 && r.p(50) && p.len() > 1 {
                // Capital at the front only
                p.iter().for_each(|i| u[*i] = u[*i].to_ascii_lowercase());
                u[p[0]] = u[p[0]].to_ascii_uppercase();
            }
        }
        let u = String::from_utf8(u).unwrap();
        let got = at(&obs::run(&u, &o));
        cx.eval(&u, true);
        let want: Vec<_> = all.iter().filter(|s| !capitals.contains(s)).cloned().collect();
        if let Some(s) = want.iter().find(|s| !got.contains(s)) {
            return bad(&u, &o, format!("{} at {s:?} gets no warning, and {} does", &u[s.0..s.1], &t.s[s.0..s.1]));
        }
        if let Some(s) = got.iter().find(|s| !want.contains(s)) {
            return bad(&u, &o, format!("{} at {s:?} gets a warning, and {} does not", &u[s.0..s.1], &t.s[s.0..s.1]));
        }
    }
    Ok(())
}

fn any_small(r: &mut Rng) -> Made {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    any(r, cfg)
}

fn hostile_warnings(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (t, o) = super::robust::hostile(cx, r);
    let v = four(&t, &o)?;
    cx.eval(&t, v[3].issues.len() > v[0].issues.len());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "valid statements with their names quoted and not, and hostile texts, parsed under all four settings of the warnings; valid ones count when they hold a name, others when there are warnings",
            assumptions: &["which tokens are names is known from the generator"],
            streams: vec![stream("valid", 60_000, 3_000_000, valid_warnings), stream("spelled", 40_000, 2_000_000, spelled), stream("hostile", 40_000, 2_000_000, hostile_warnings)],
        },
        Prop {
        id: "C24",
        rule: "statements of any family, biased to syntax of one dialect, parsed in all three dialects; counts when some dialect has to reject it",
        assumptions: &["which dialects have which syntax is written down in the generator, from the documentation of the crate"],
        streams: vec![stream("masks", 100_000, 6_000_000, |cx, r, _| masks(cx, r, false)), stream("masks-small", 150_000, 6_000_000, |cx, r, _| masks(cx, r, true))],
        },
    ]
}
