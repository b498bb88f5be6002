//! Frozen word lists: the keywords of the grammar, those that are reserved, and the known functions.
use std::collections::HashSet;
use std::sync::OnceLock;

fn lines(s: &'static str) -> Vec<&'static str> {
    s.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect()
}
macro_rules! list {
    ($f:ident, $file:expr) => {
        pub fn $f() -> &'static [&'static str] {
            static L: OnceLock<Vec<&'static str>> = OnceLock::new();
            L.get_or_init(|| lines(include_str!($file)))
        }
    };
}
list!(keywords, "../data/keywords.txt");
list!(reserved, "../data/reserved.txt");
list!(expr_idents, "../data/expr_ident.txt");
list!(idle_keywords, "../data/idle_keywords.txt");

pub fn functions() -> &'static [(&'static str, &'static str)] {
    static L: OnceLock<Vec<(&'static str, &'static str)>> = OnceLock::new();
    L.get_or_init(|| {
        lines(include_str!("../data/functions.txt"))
            .into_iter()
            .map(|l| l.split_once(' ').unwrap())
            .collect()
    })
}

fn set(v: &'static [&'static str]) -> HashSet<&'static str> {
    v.iter().copied().collect()
}
pub fn is_keyword(w: &str) -> bool {
    static L: OnceLock<HashSet<&'static str>> = OnceLock::new();
    L.get_or_init(|| set(keywords())).contains(w.to_ascii_uppercase().as_str())
}
pub fn is_reserved(w: &str) -> bool {
    static L: OnceLock<HashSet<&'static str>> = OnceLock::new();
    L.get_or_init(|| set(reserved())).contains(w.to_ascii_uppercase().as_str())
}
pub fn is_function(w: &str) -> bool {
    static L: OnceLock<HashSet<&'static str>> = OnceLock::new();
    L.get_or_init(|| functions().iter().map(|f| f.0).collect()).contains(w.to_ascii_uppercase().as_str())
}
