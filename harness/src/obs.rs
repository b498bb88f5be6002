//! Running the parser and recording everything it reports.
use crate::dbg::{self, D};
use crate::gen::{Args, L, M};
use crate::rng::Rng;
use sql_parse::{parse_statement, parse_statements, Issues, Level, ParseOptions, SQLArguments, SQLDialect, Spanned};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct O {
    pub dialect: u8,
    pub args: Args,
    pub list_hack: bool,
    pub warn_id: bool,
    pub warn_kw: bool,
    /// `parse_statements` instead of `parse_statement`
    pub script: bool,
}

impl O {
    pub fn new(dialect: u8, args: Args) -> O {
        O { dialect, args, list_hack: false, warn_id: false, warn_kw: false, script: false }
    }
    pub fn list(self, list_hack: bool) -> O {
        O { list_hack, ..self }
    }
    pub fn script(self) -> O {
        O { script: true, ..self }
    }
    pub fn single(self) -> O {
        O { script: false, ..self }
    }
    pub fn random(r: &mut Rng) -> O {
        O {
            dialect: 1 << r.n(3),
            args: [Args::None, Args::Question, Args::Percent, Args::Dollar][r.n(4)],
            list_hack: r.p(40),
            warn_id: r.p(50),
            warn_kw: r.p(50),
            script: r.p(60),
        }
    }
    pub fn options(&self) -> ParseOptions {
        ParseOptions::new()
            .dialect(match self.dialect {
                M => SQLDialect::MariaDB,
                L => SQLDialect::Sqlite,
                _ => SQLDialect::PostgreSQL,
            })
            .arguments(match self.args {
                Args::None => SQLArguments::None,
                Args::Question => SQLArguments::QuestionMark,
                Args::Percent => SQLArguments::Percent,
                Args::Dollar => SQLArguments::Dollar,
            })
            .list_hack(self.list_hack)
            .warn_unquoted_identifiers(self.warn_id)
            .warn_none_capital_keywords(self.warn_kw)
    }
    pub fn all() -> Vec<O> {
        let mut v = Vec::new();
        for dialect in [1u8, 2, 4] {
            for args in [Args::None, Args::Question, Args::Percent, Args::Dollar] {
                for b in 0..4 {
                    v.push(O { dialect, args, list_hack: b & 1 != 0, warn_id: b & 2 != 0, warn_kw: b & 2 != 0, script: b == 1 || b == 2 })
                }
            }
        }
        v
    }
    pub fn code(&self) -> String {
        format!("{}-{:?}-{}{}{}{}", self.dialect, self.args, self.list_hack as u8, self.warn_id as u8, self.warn_kw as u8, self.script as u8)
    }
    pub fn decode(s: &str) -> Option<O> {
        let mut p = s.split('-');
        let dialect = p.next()?.parse().ok()?;
        let args = match p.next()? {
            "None" => Args::None,
            "Question" => Args::Question,
            "Percent" => Args::Percent,
            "Dollar" => Args::Dollar,
            _ => return None,
        };
        let b: Vec<bool> = p.next()?.chars().map(|c| c == '1').collect();
        if b.len() != 4 {
            return None;
        }
        Some(O { dialect, args, list_hack: b[0], warn_id: b[1], warn_kw: b[2], script: b[3] })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Iss {
    pub err: bool,
    pub msg: String,
    pub span: (usize, usize),
    /// Offset of the reported segment in the text, and its length, when it is part of it
    pub seg: Option<(usize, usize)>,
    pub frags: Vec<(String, (usize, usize), Option<(usize, usize)>)>,
}

pub struct Obs {
    /// What was returned: the statements of a script, or none or one statement
    pub trees: Vec<D>,
    /// `Spanned::span` of every statement
    pub spans: Vec<(usize, usize)>,
    pub issues: Vec<Iss>,
    pub steps: u64,
}

impl Obs {
    pub fn errors(&self) -> usize {
        self.issues.iter().filter(|i| i.err).count()
    }
    pub fn ok(&self) -> bool {
        self.errors() == 0
    }
    pub fn err_list(&self) -> Vec<&Iss> {
        self.issues.iter().filter(|i| i.err).collect()
    }
    pub fn messages(&self) -> String {
        self.issues.iter().map(|i| format!("{}{} @{}..{}", if i.err { "E:" } else { "W:" }, i.msg, i.span.0, i.span.1)).collect::<Vec<_>>().join("; ")
    }
}

fn seg(text: &str, s: &str) -> Option<(usize, usize)> {
    let o = (s.as_ptr() as usize).wrapping_sub(text.as_ptr() as usize);
    if o <= text.len() && o + s.len() <= text.len() {
        Some((o, s.len()))
    } else {
        None
    }
}

pub fn record(text: &str, issues: &Issues) -> Vec<Iss> {
    issues
        .get()
        .iter()
        .map(|i| Iss {
            err: i.level == Level::Error,
            msg: i.message.to_string(),
            span: (i.span.start, i.span.end),
            seg: seg(text, i.sql_segment),
            frags: i.fragments.iter().map(|f| (f.message.to_string(), (f.span.start, f.span.end), seg(text, f.sql_segment))).collect(),
        })
        .collect()
}

/// Most tokens any text of this length may need
pub fn budget(len: usize) -> u64 {
    2 * len as u64 + 64
}

/// Parse and record. Panics of the parser pass through
pub fn run(text: &str, o: &O) -> Obs {
    run_with(text, o, &o.options())
}

/// The same, with the options made elsewhere
pub fn run_with(text: &str, o: &O, opt: &ParseOptions) -> Obs {
    let mut issues = Issues::new(text);
    crate::core::set_cur(text, o);
    sql_parse::verif::arm(budget(text.len()));
    let st = if o.script { parse_statements(text, &mut issues, opt) } else { parse_statement(text, &mut issues, opt).into_iter().collect() };
    let steps = sql_parse::verif::steps();
    sql_parse::verif::arm(u64::MAX);
    let mut trees = Vec::with_capacity(st.len());
    let mut spans = Vec::with_capacity(st.len());
    for s in &st {
        let d = format!("{s:?}");
        trees.push(dbg::parse(&d).unwrap_or_else(|e| panic!("harness: {e}")));
        let s = s.span();
        spans.push((s.start, s.end));
    }
    Obs { trees, spans, issues: record(text, &issues), steps }
}

/// Only whether there were errors
pub fn accepts(text: &str, o: &O) -> bool {
    let opt = o.options();
    let mut issues = Issues::new(text);
    crate::core::set_cur(text, o);
    sql_parse::verif::arm(budget(text.len()));
    if o.script {
        parse_statements(text, &mut issues, &opt);
    } else {
        parse_statement(text, &mut issues, &opt);
    }
    sql_parse::verif::arm(u64::MAX);
    !issues.get().iter().any(|i| i.level == Level::Error)
}
