//! Expected trees: what a text was generated to mean, with spans given as ranges of tokens.

use crate::dbg::{short, D};

/// Range of tokens, `lo..hi`
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct S(pub usize, pub usize);

impl S {
    pub fn to(self, o: S) -> S {
        S(self.0.min(o.0), self.1.max(o.1))
    }
}

#[derive(Clone, Debug)]
pub enum N {
    St(&'static str, Vec<(&'static str, N)>),
    Tu(&'static str, Vec<N>),
    Li(Vec<N>),
    At(String),
    Str(String),
    Sp(S),
    /// A span that carries meaning by itself, compared even when spans are not
    KeySp(S),
}

#[macro_export]
macro_rules! st {
    ($n:ident { $($k:ident : $v:expr),* $(,)? }) => {
        $crate::n::N::St(stringify!($n), vec![$((stringify!($k), $crate::n::N::from($v))),*])
    };
}
#[macro_export]
macro_rules! tu {
    ($n:ident $(, $v:expr)* $(,)?) => { $crate::n::N::Tu(stringify!($n), vec![$($crate::n::N::from($v)),*]) };
}
#[macro_export]
macro_rules! tup {
    ($($v:expr),* $(,)?) => { $crate::n::N::Tu("", vec![$($crate::n::N::from($v)),*]) };
}

impl From<S> for N {
    fn from(s: S) -> N {
        N::Sp(s)
    }
}
impl<T> From<Option<T>> for N
where
    N: From<T>,
{
    fn from(o: Option<T>) -> N {
        match o {
            Some(v) => N::Tu("Some", vec![N::from(v)]),
            None => N::At("None".into()),
        }
    }
}
impl<T> From<Vec<T>> for N
where
    N: From<T>,
{
    fn from(o: Vec<T>) -> N {
        N::Li(o.into_iter().map(N::from).collect())
    }
}
impl From<&str> for N {
    fn from(s: &str) -> N {
        N::Str(s.into())
    }
}
impl From<String> for N {
    fn from(s: String) -> N {
        N::Str(s)
    }
}
macro_rules! num { ($($t:ty)*) => {$(impl From<$t> for N { fn from(v: $t) -> N { N::At(format!("{v:?}")) } })*} }
num!(bool u32 u64 usize i64 f64 i32);

/// Unit variant
pub fn at(s: &str) -> N {
    N::At(s.into())
}

/// Compare the expectation with the tree. `sp` gives the byte span of a token range; spans are
/// only compared when `spans` is set.
pub fn compare(n: &N, d: &D, sp: &dyn Fn(S) -> (usize, usize), spans: bool) -> Result<usize, String> {
    fn go(n: &N, d: &D, sp: &dyn Fn(S) -> (usize, usize), spans: bool, path: &mut Vec<String>, c: &mut usize) -> Result<(), String> {
        *c += 1;
        let bad = |path: &Vec<String>| Err(format!("at {}: expected {} found {}", path.join("."), short_n(n, sp), short(d)));
        match (n, d) {
            (N::St(a, f), D::St(b, g)) if a == b => {
                for (k, v) in f {
                    path.push(k.to_string());
                    match g.iter().find(|(l, _)| l == k) {
                        Some((_, w)) => go(v, w, sp, spans, path, c)?,
                        None => return Err(format!("at {}: no such field in {b}", path.join("."))),
                    }
                    path.pop();
                }
                Ok(())
            }
            (N::Tu(a, f), D::Tu(b, g)) if a == b && f.len() == g.len() => {
                for (i, (v, w)) in f.iter().zip(g).enumerate() {
                    path.push(format!("{a}{i}"));
                    go(v, w, sp, spans, path, c)?;
                    path.pop();
                }
                Ok(())
            }
            (N::Li(f), D::Li(g)) if f.len() == g.len() => {
                for (i, (v, w)) in f.iter().zip(g).enumerate() {
                    path.push(format!("[{i}]"));
                    go(v, w, sp, spans, path, c)?;
                    path.pop();
                }
                Ok(())
            }
            (N::At(a), D::At(b)) if a == b => Ok(()),
            (N::Str(a), D::Str(b)) if a == b => Ok(()),
            (N::Sp(_), D::Sp(..)) if !spans => Ok(()),
            (N::Sp(s) | N::KeySp(s), D::Sp(a, b)) if sp(*s) == (*a, *b) => Ok(()),
            _ => bad(path),
        }
    }
    let mut c = 0;
    go(n, d, sp, spans, &mut Vec::new(), &mut c)?;
    Ok(c)
}

fn short_n(n: &N, sp: &dyn Fn(S) -> (usize, usize)) -> String {
    short(&to_d(n, sp))
}

pub fn to_d(n: &N, sp: &dyn Fn(S) -> (usize, usize)) -> D {
    match n {
        N::St(a, v) => D::St(a.to_string(), v.iter().map(|(k, n)| (k.to_string(), to_d(n, sp))).collect()),
        N::Tu(a, v) => D::Tu(a.to_string(), v.iter().map(|n| to_d(n, sp)).collect()),
        N::Li(v) => D::Li(v.iter().map(|n| to_d(n, sp)).collect()),
        N::At(a) => D::At(a.clone()),
        N::Str(a) => D::Str(a.clone()),
        N::Sp(s) | N::KeySp(s) => {
            let (a, b) = sp(*s);
            D::Sp(a, b)
        }
    }
}

/// Whether the tree is the expected one, spans included
pub fn same(n: &N, d: &D, sp: &dyn Fn(S) -> (usize, usize)) -> bool {
    match (n, d) {
        (N::St(a, f), D::St(b, g)) => a == b && f.iter().all(|(k, v)| g.iter().find(|(l, _)| l == k).map(|(_, w)| same(v, w, sp)).unwrap_or(false)),
        (N::Tu(a, f), D::Tu(b, g)) => a == b && f.len() == g.len() && f.iter().zip(g).all(|(v, w)| same(v, w, sp)),
        (N::Li(f), D::Li(g)) => f.len() == g.len() && f.iter().zip(g).all(|(v, w)| same(v, w, sp)),
        (N::At(a), D::At(b)) => a == b,
        (N::Str(a), D::Str(b)) => a == b,
        (N::Sp(s) | N::KeySp(s), D::Sp(a, b)) => sp(*s) == (*a, *b),
        _ => false,
    }
}
