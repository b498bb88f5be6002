//! The monitors, one per property.
use crate::core::*;
use crate::gcomp::Fam;
use crate::gen::*;
use crate::n::N;
use crate::obs::{self, O};
use crate::render::*;
use crate::rng::Rng;

mod api;
mod dev;
mod dialect;
mod negative;
mod parts;
mod pairs;
mod place;
mod expect;
mod options;
mod recover;
mod robust;
mod script;
mod spans;
mod lexical;
mod trees;
mod walk;
pub use dev::dev;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(trees::props());
    v.extend(lexical::props());
    v.extend(spans::props());
    v.extend(robust::props());
    v.extend(dialect::props());
    v.extend(script::props());
    v.extend(negative::props());
    v.extend(parts::props());
    v.extend(api::props());
    v.extend(place::props());
    v.extend(expect::props());
    v.extend(options::props());
    v.extend(recover::props());
    v.sort_by_key(|p| p.id);
    v
}

/// Known defects that show now: id and what fails
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    match id {
        "C01" => robust::abyss(),
        _ => vec![],
    }
}

pub fn nest_child(kind: &str, n: usize) -> i32 {
    robust::nest_child(kind, n)
}

pub type Build = fn(&mut G, u32) -> N;

/// A generated text and what it means
pub struct Made {
    pub g: G,
    pub e: N,
}

pub fn fam(r: &mut Rng, cfg: Cfg, f: Fam) -> Made {
    let mut g = G::new(Rng::new(r.u64()), cfg);
    let d = g.cfg.depth;
    let e = g.statement(f, d, false);
    Made { g, e }
}
pub fn any(r: &mut Rng, cfg: Cfg) -> Made {
    let mut g = G::new(Rng::new(r.u64()), cfg);
    let d = g.cfg.depth;
    let f = g.any_fam();
    let e = g.statement(f, d, false);
    Made { g, e }
}
pub fn build(r: &mut Rng, cfg: Cfg, b: Build) -> Made {
    let mut g = G::new(Rng::new(r.u64()), cfg);
    let d = g.cfg.depth;
    let e = b(&mut g, d);
    Made { g, e }
}

impl Made {
    /// Options under which the text is accepted
    pub fn o(&self, r: &mut Rng) -> O {
        let mut dialect = self.g.cfg.dialect;
        if !self.g.dialect_value && r.p(30) {
            loop {
                dialect = 1 << r.n(3);
                if dialect & self.g.mask & !self.g.unk != 0 {
                    break;
                }
            }
        }
        O::new(dialect, self.g.cfg.args).list(self.g.cfg.list_hack)
    }
    pub fn text(&self, r: &mut Rng) -> Text {
        let l = [Layout::Single, Layout::Single, Layout::Tight, Layout::Space, Layout::Wild][r.n(5)];
        render(&self.g.toks, l, [Case::Upper, Case::Random][r.n(2)], r)
    }
    pub fn feats(&self, cx: &mut Cx) {
        for (k, v) in &self.g.feats {
            cx.fs(k, *v)
        }
    }
}

pub fn layout(r: &mut Rng) -> Layout {
    [Layout::Single, Layout::Tight, Layout::Space, Layout::Wild][r.n(4)]
}

/// Expected tree against observed tree
pub fn judge(m: &Made, t: &Text, o: &O, spans: bool) -> R {
    let v = obs::run(&t.s, o);
    if !v.ok() {
        return bad(&t.s, o, format!("valid text is not accepted: {}", v.messages()));
    }
    if v.trees.len() != 1 {
        return bad(&t.s, o, format!("{} statements instead of one", v.trees.len()));
    }
    if let Err(e) = crate::n::compare(&m.e, &v.trees[0], &|s| t.span(s), spans) {
        return bad(&t.s, o, e);
    }
    Ok(())
}
