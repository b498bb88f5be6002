//! Cases, streams, and what a run observed.
use crate::obs::O;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

/// A violation: what was parsed, how, and what was wrong about it
#[derive(Clone, Debug)]
pub struct Bad {
    pub text: String,
    pub o: String,
    pub msg: String,
}

pub type R = Result<(), Bad>;

pub fn bad<T>(text: &str, o: &O, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { text: text.to_string(), o: o.code(), msg: msg.into() })
}

/// What the monitors observed
#[derive(Default)]
pub struct Cx {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub feats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max: BTreeMap<String, u64>,
}

pub fn hash(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

impl Cx {
    /// One execution judged by an oracle. `nontrivial`: counts when not seen before
    pub fn eval(&mut self, text: &str, nontrivial: bool) {
        self.evals += 1;
        // Memory is limited: no thread remembers more than this
        if nontrivial && self.seen.len() < 3_000_000 {
            let n = self.seen.len();
            self.seen.insert(hash(text.as_bytes()));
            if self.seen.len() > n && (self.samples.len() < 2 || (self.samples.len() < 5 && self.evals % 1000 == 0)) {
                self.samples.push(text.chars().take(600).collect());
            }
        }
    }
    pub fn f(&mut self, s: &str) {
        self.fs(s, 1)
    }
    pub fn fs(&mut self, s: &str, n: u64) {
        match self.feats.get_mut(s) {
            Some(v) => *v += n,
            None => {
                self.feats.insert(s.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, s: &str, n: u64) {
        let e = self.max.entry(s.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: Cx) {
        self.evals += o.evals;
        self.seen.extend(o.seen);
        for (k, v) in o.feats {
            *self.feats.entry(k).or_default() += v;
        }
        for (k, v) in o.max {
            let e = self.max.entry(k).or_default();
            *e = (*e).max(v);
        }
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s)
            }
        }
    }
}

pub type CaseFn = fn(&mut Cx, &mut Rng, u64) -> R;

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub streams: Vec<Stream>,
}

pub fn stream(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stream {
    Stream { name, quick, thorough, f }
}

thread_local! {
    /// The text being parsed, for a panic to report
    static CUR: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn set_cur(text: &str, o: &O) {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        c.0.clear();
        c.0.push_str(text);
        c.1 = o.code();
    })
}
pub fn cur() -> (String, String) {
    CUR.with(|c| c.borrow().clone())
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} ({l})"));
    }));
}

/// Outcome of one case
pub enum Out {
    Ok,
    Bad(Bad),
    /// The harness itself failed
    Harness(String),
}

/// Run a closure of the harness, turning a panic of the parser into a violation
pub fn guard(f: impl FnOnce() -> R) -> Out {
    sql_parse::verif::arm(u64::MAX);
    CUR.with(|c| c.borrow_mut().0.clear());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(b)) => Out::Bad(b),
        Err(_) => {
            sql_parse::verif::arm(u64::MAX);
            let m = PANIC.with(|p| p.borrow().clone());
            let (text, o) = cur();
            if m.starts_with("harness") || m.contains("(src/") || m.contains("harness/src/") {
                Out::Harness(format!("{m} on {text:?}"))
            } else {
                Out::Bad(Bad { text, o, msg: format!("panic: {m}") })
            }
        }
    }
}

pub fn run_case(cx: &mut Cx, s: &Stream, seed: u64, i: u64) -> Out {
    let mut r = Rng::case(seed, s.name, i);
    guard(|| (s.f)(cx, &mut r, i))
}
