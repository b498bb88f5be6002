//! SET, SIGNAL, RETURN, COPY, compound statements, and the choice of a statement
use crate::gen::*;
use crate::n::{at, N, S};
use crate::render::K;
use crate::{st, tu, tup};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fam {
    Select,
    Union,
    With,
    Insert,
    Update,
    Delete,
    CreateTable,
    CreateView,
    CreateIndex,
    CreateType,
    CreateTrigger,
    CreateFunction,
    Alter,
    Drop,
    Truncate,
    Rename,
    Set,
    Signal,
    Return,
    If,
    Case,
    Do,
    Begin,
    End,
    Commit,
    Start,
}
pub const FAMS: &[Fam] = &[
    Fam::Select,
    Fam::Union,
    Fam::With,
    Fam::Insert,
    Fam::Update,
    Fam::Delete,
    Fam::CreateTable,
    Fam::CreateView,
    Fam::CreateIndex,
    Fam::CreateType,
    Fam::CreateTrigger,
    Fam::CreateFunction,
    Fam::Alter,
    Fam::Drop,
    Fam::Truncate,
    Fam::Rename,
    Fam::Set,
    Fam::Signal,
    Fam::Return,
    Fam::If,
    Fam::Case,
    Fam::Do,
    Fam::Begin,
    Fam::End,
    Fam::Commit,
    Fam::Start,
];
/// Those that can be written in every dialect and stand in any list
pub const PLAIN: &[Fam] = &[
    Fam::Select,
    Fam::Select,
    Fam::Union,
    Fam::Insert,
    Fam::Update,
    Fam::Delete,
    Fam::CreateTable,
    Fam::CreateView,
    Fam::CreateIndex,
    Fam::Alter,
    Fam::Drop,
    Fam::Truncate,
    Fam::Rename,
    Fam::Set,
    Fam::Signal,
    Fam::Return,
];

impl G {
    /// Can the family be written in the dialect?
    pub fn can(&self, f: Fam) -> bool {
        match f {
            Fam::With | Fam::CreateType => self.is(P),
            _ => true,
        }
    }
    /// One statement. `list`: it stands in a list of a compound statement
    pub fn statement(&mut self, f: Fam, d: u32, list: bool) -> N {
        match f {
            Fam::Select => self.query(d, false),
            Fam::Union => self.union(d),
            Fam::With if self.is(P) => self.with(d),
            Fam::With => self.query(d, true),
            Fam::Insert => self.insert(d),
            Fam::Update => self.update(d),
            Fam::Delete => self.delete(d),
            Fam::CreateTable => self.create_table(d),
            Fam::CreateView => self.create_view(d),
            Fam::CreateIndex => self.create_index(d),
            Fam::CreateType if self.is(P) => self.create_type(),
            Fam::CreateType => self.create_index(d),
            Fam::CreateTrigger => self.create_trigger(d),
            Fam::CreateFunction => self.create_function(d),
            Fam::Alter => self.alter(d),
            Fam::Drop => self.drop_(),
            Fam::Truncate => self.truncate(),
            Fam::Rename => self.rename(),
            Fam::Set => self.set_(d),
            Fam::Signal => self.signal(d),
            Fam::Return => self.return_(d),
            Fam::If => self.if_(d),
            Fam::Case => self.case_statement(d),
            Fam::Do => self.do_(d),
            Fam::Begin if list => self.block(d),
            Fam::Begin => {
                let s = self.kw("BEGIN");
                self.f("begin");
                tu!(Begin, s)
            }
            Fam::End if list => self.statement(Fam::Commit, d, list),
            Fam::End => {
                let s = self.kw("END");
                self.f("end");
                tu!(End, s)
            }
            Fam::Commit => {
                let s = self.kw("COMMIT");
                self.f("commit");
                tu!(Commit, s)
            }
            Fam::Start => {
                let s = self.kw("START TRANSACTION");
                self.f("start_transaction");
                tu!(StartTransaction, s)
            }
        }
    }
    pub fn any_fam(&mut self) -> Fam {
        loop {
            let f = self.pick(FAMS);
            if self.can(f) {
                return f;
            }
        }
    }
    fn set_(&mut self, d: u32) -> N {
        self.f("set");
        let s = self.kw("SET");
        let v = self.list(1, 4, &mut |g| {
            let n = g.id();
            g.op("=");
            let e = g.expr(d);
            tup!(n, e)
        });
        tu!(Set, st!(Set { set_span: s, values: v }))
    }
    fn signal(&mut self, d: u32) -> N {
        self.f("signal");
        let s = self.kw("SIGNAL");
        let q = self.kw("SQLSTATE");
        let p = self.r.p(40);
        let v = self.kwo(p, "VALUE");
        // Without VALUE the state must not start with a word VALUE
        let e = if v.is_some() || self.r.p(20) {
            if v.is_some() {
                self.expr(d.min(1))
            } else {
                self.paren(|g| g.expr(d.min(1)))
            }
        } else {
            let s = self.string();
            tu!(String, s)
        };
        let (set, sets) = if self.o(60) {
            let s = self.kw("SET");
            let l = self.list(1, 3, &mut |g| {
                let (t, v) = g.pick(&[
                    ("CLASS_ORIGIN", "ClassOrigin"),
                    ("SUBCLASS_ORIGIN", "SubclassOrigin"),
                    ("MESSAGE_TEXT", "MessageText"),
                    ("MYSQL_ERRNO", "MysqlErrno"),
                    ("CONSTRAINT_CATALOG", "ConstraintCatalog"),
                    ("CONSTRAINT_SCHEMA", "ConstraintSchema"),
                    ("CONSTRAINT_NAME", "ConstraintName"),
                    ("CATALOG_NAME", "CatalogName"),
                    ("SCHEMA_NAME", "SchemaName"),
                    ("TABLE_NAME", "TableName"),
                    ("COLUMN_NAME", "ColumnName"),
                    ("CURSOR_NAME", "CursorName"),
                ]);
                let s = g.kw(t);
                g.f("signal.item");
                let eq = g.op("=");
                let e = g.expr(d);
                tup!(N::Tu(v, vec![N::Sp(s)]), eq, e)
            });
            (Some(s), l)
        } else {
            (None, vec![])
        };
        tu!(Signal, st!(Signal { signal_span: s, sqlstate_span: q, value_span: v, sql_state: e, set_span: set, sets: sets }))
    }
    pub fn return_(&mut self, d: u32) -> N {
        self.f("return");
        let s = self.kw("RETURN");
        let e = self.expr(d);
        tu!(Return, st!(Return { return_span: s, expr: e }))
    }
    /// Statement list of a block or branch. Empty only when `empty`
    pub fn stmts(&mut self, d: u32, lo: usize) -> Vec<N> {
        let n = self.times(lo, 3);
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 && !self.more() && i >= lo {
                break;
            }
            while self.o(4) {
                self.op(";");
                self.f("compound.empty_statement");
            }
            v.push(self.inner_statement(d));
            self.op(";");
        }
        v
    }
    fn inner_statement(&mut self, d: u32) -> N {
        let d1 = d.saturating_sub(1);
        if d > 0 && self.o(30) {
            let f = self.pick(&[Fam::If, Fam::Case, Fam::Begin, Fam::If, Fam::Begin, Fam::Start, Fam::Commit]);
            self.f("compound.nested");
            self.statement(f, d1, true)
        } else {
            let f = self.pick(PLAIN);
            self.statement(f, d1.min(2), true)
        }
    }
    /// Body of a trigger or function: any single statement
    pub fn body(&mut self, d: u32) -> N {
        let f = if self.r.p(60) { Fam::Begin } else { self.pick(&[Fam::If, Fam::Case, Fam::Set, Fam::Insert, Fam::Update, Fam::Delete, Fam::Signal, Fam::Select]) };
        self.statement(f, d.saturating_sub(1), true)
    }
    pub fn block_(&mut self, d: u32, exc: bool) -> (Vec<N>, S) {
        self.f("block");
        let s = self.kw("BEGIN");
        let v = self.stmts(d, 0);
        if exc {
            self.f("block.exception");
            self.exempt(|g| {
                g.kw("EXCEPTION");
                let n = g.times(1, 2);
                for _ in 0..n {
                    g.kw("WHEN");
                    g.id();
                    g.kw("THEN");
                    g.inner(0);
                    g.op(";");
                }
            });
        }
        let e = self.kw("END");
        (v, s.to(e))
    }
    pub fn block(&mut self, d: u32) -> N {
        let exc = self.o(5);
        let (v, s) = self.block_(d, exc);
        tu!(Block, v, s)
    }
    pub fn do_(&mut self, d: u32) -> N {
        self.f("do");
        let s = self.kw("DO");
        self.op("$$");
        let exc = self.o(25);
        let (v, _) = self.block_(d, exc);
        let e = self.op("$$");
        tu!(Do, v, s.to(e))
    }
    pub fn if_(&mut self, d: u32) -> N {
        self.f("if");
        let s = self.kw("IF");
        let n = self.times(1, 3);
        let mut c = Vec::new();
        for i in 0..n {
            let ei = if i == 0 { None } else { Some(self.kw("ELSEIF")) };
            let e = self.expr(d.min(2));
            let t = self.kw("THEN");
            let v = self.stmts(d, 0);
            c.push(st!(IfCondition { elseif_span: ei, search_condition: e, then_span: t, then: v }));
        }
        let else_ = if self.r.p(50) {
            let s = self.kw("ELSE");
            let v = self.stmts(d, 0);
            Some(tup!(s, v))
        } else {
            None
        };
        let e = self.kw("END IF");
        tu!(If, st!(If { if_span: s, conditions: c, else_: else_, endif_span: e }))
    }
    pub fn case_statement(&mut self, d: u32) -> N {
        self.f("case_statement");
        let s = self.kw("CASE");
        let value = if self.r.p(50) { Some(self.expr(d.min(2))) } else { None };
        let n = self.times(1, 3);
        let mut w = Vec::new();
        for _ in 0..n {
            let ws = self.kw("WHEN");
            let e = self.expr(d.min(2));
            let t = self.kw("THEN");
            let v = self.stmts(d, 0);
            w.push(st!(WhenStatement { when_span: ws, when: e, then_span: t, then: v }));
        }
        let else_ = if self.r.p(50) {
            let s = self.kw("ELSE");
            let v = self.stmts(d, 0);
            Some(tup!(s, v))
        } else {
            None
        };
        let e = self.kw("END");
        tu!(Case, st!(CaseStatement { case_span: s, value: value, whens: w, else_: else_, end_span: e }))
    }
    /// COPY statement, its delimiter and its data: the two statements it is reported as
    pub fn copy(&mut self, last: bool) -> Vec<N> {
        self.f("copy");
        let s = self.kw("COPY");
        let t = self.id();
        let c = self.paren(|g| g.list(0, 4, &mut |g| g.id()));
        let f = self.kw("FROM");
        let i = self.kw("STDIN");
        let copy = tu!(Copy, st!(Copy { copy_span: s, table: t, columns: c, from_span: f, stdin_span: i }));
        let data = self.copy_data();
        self.op(";");
        // Blanks up to the end of the line
        let mut nl = String::new();
        for _ in 0..[0, 0, 1, 2, 3, 4, 9][self.r.n(7)] {
            nl.push(*self.r.pick(&[' ', ' ', '\t', '\r', '\x0c']));
        }
        nl.push('\n');
        self.push(K::Raw, nl);
        let d = self.push(K::Raw, data.clone());
        if !last || self.r.p(50) {
            let e = self.pick(&["\\.\n", "\\.\n", "\\.\n\n"]);
            let e = if last && self.r.p(30) { "\\." } else { e };
            self.push(K::Raw, e);
        }
        vec![copy, N::Tu("Stdin", vec![N::Str(data), N::Sp(d)])]
    }
    /// Data lines, ending in a line feed
    fn copy_data(&mut self) -> String {
        let n = self.r.r(1, 5);
        let mut o = String::new();
        for _ in 0..n {
            let k = self.r.n(4);
            for j in 0..k {
                if j > 0 {
                    o.push('\t');
                }
                let s = self.pick(&[
                    "1", "a b", "\\N", "'", "\"", "`", ";", "; SELECT 1;", "--", "/*", "*/", "\\\\.", "é", "日本", "😀", "x\\.y", "\\.x", " \\.", "(", ")", "$$", "%s", "?", "\\t", "COPY", "\u{0}", "DELIMITER", "\r",
                ]);
                o.push_str(s);
                if self.r.p(20) {
                    o.push(self.r.ch());
                }
            }
            o.push('\n');
        }
        // The line that ends the data is exactly `\.`
        while o.contains("\n\\.\n") || o.starts_with("\\.\n") {
            o = o.replace("\n\\.\n", "\n");
            if o.starts_with("\\.\n") {
                o = o[3..].to_string();
            }
        }
        if o.is_empty() {
            o.push_str("1\n");
        }
        o
    }
}

pub fn none() -> N {
    at("None")
}
