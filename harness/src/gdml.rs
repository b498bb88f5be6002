//! INSERT, REPLACE, UPDATE, DELETE, WITH, DROP, TRUNCATE, RENAME
use crate::gen::*;
use crate::gselect::Tail;
use crate::n::{at, N};
use crate::{st, tu, tup};

impl G {
    pub fn returning(&mut self, p: usize, d: u32) -> N {
        if self.o(p) {
            let s = self.kw("RETURNING");
            let l = self.list(1, 3, &mut |g| g.select_expr(d));
            self.f("returning");
            N::from(Some(tup!(s, l)))
        } else {
            at("None")
        }
    }
    fn pairs(&mut self, d: u32) -> Vec<N> {
        self.list(1, 3, &mut |g| {
            let c = g.id();
            let e = g.op("=");
            let v = g.expr(d);
            st!(InsertReplaceSetPair { column: c, equal_span: e, value: v })
        })
    }
    fn flags(&mut self, p: usize, v: &[(&'static str, &'static str)]) -> Vec<N> {
        let mut r = Vec::new();
        if self.o(p) {
            let n = self.times(1, 2);
            for _ in 0..n {
                let (t, v) = self.pick(v);
                let s = self.kw(t);
                self.f("dml.flag");
                r.push(N::Tu(v, vec![N::Sp(s)]));
            }
        }
        r
    }
    /// Statement with an INSERT or REPLACE
    pub fn insert(&mut self, d: u32) -> N {
        let rep = self.r.p(30);
        self.f(if rep { "replace" } else { "insert" });
        let (t, flags) = if rep {
            let s = self.kw("REPLACE");
            (tu!(Replace, s), self.flags(30, &[("LOW_PRIORITY", "LowPriority"), ("DELAYED", "Delayed")]))
        } else {
            let s = self.kw("INSERT");
            (
                tu!(Insert, s),
                self.flags(30, &[("LOW_PRIORITY", "LowPriority"), ("HIGH_PRIORITY", "HighPriority"), ("DELAYED", "Delayed"), ("IGNORE", "Ignore")]),
            )
        };
        let p = self.r.p(70);
        let into = self.kwo(p, "INTO");
        let table = self.qname();
        let kind = self.r.n(4);
        let cols = if kind != 3 && self.o(60) { self.paren(|g| g.id_list(1, 4)) } else { vec![] };
        let (mut values, mut select, mut set) = (at("None"), at("None"), at("None"));
        let conflict = if self.og(25, M) {
            1
        } else if self.og(25, P) {
            2
        } else {
            0
        };
        match kind {
            0 | 1 => {
                let p = self.r.p(20);
                let s = self.kw(if p { "VALUE" } else { "VALUES" });
                let rows = self.list(1, 3, &mut |g| {
                    let r = g.paren(|g| g.list(1, 4, &mut |g| g.expr(d)));
                    N::Li(r)
                });
                self.f("insert.values");
                values = N::from(Some(tup!(s, rows)));
            }
            2 => {
                self.f("insert.select");
                let s = if conflict != 0 { self.select_(d, true, Tail::On) } else { self.select(d, false) };
                select = N::from(Some(s));
            }
            _ => {
                self.f("insert.set");
                let s = self.kw("SET");
                let p = self.pairs(d);
                set = N::from(Some(st!(InsertReplaceSet { set_span: s, pairs: p })));
            }
        }
        let (mut dup, mut con) = (at("None"), at("None"));
        if conflict == 1 {
            self.f("insert.on_duplicate");
            let s = self.kw("ON DUPLICATE KEY UPDATE");
            let p = self.pairs(d);
            dup = N::from(Some(st!(InsertReplaceOnDuplicateKeyUpdate { on_duplicate_key_update_span: s, pairs: p })));
        } else if conflict == 2 {
            let s = self.kw("ON CONFLICT");
            let target = match self.r.n(3) {
                0 => {
                    self.f("insert.on_conflict.columns");
                    let v = self.paren(|g| g.id_list(1, 3));
                    st!(Columns { names: v })
                }
                1 => {
                    self.f("insert.on_conflict.constraint");
                    let s = self.kw("ON CONSTRAINT");
                    let n = self.id();
                    st!(OnConstraint { on_constraint_span: s, name: n })
                }
                _ => at("None"),
            };
            let action = if self.r.p(40) {
                let s = self.kw("DO NOTHING");
                tu!(DoNothing, s)
            } else {
                let s = self.kw("DO UPDATE SET");
                let sets = self.list(1, 3, &mut |g| {
                    let n = g.id();
                    g.op("=");
                    let e = g.expr(d);
                    tup!(n, e)
                });
                self.f("insert.on_conflict.update");
                let w = if self.o(40) {
                    let s = self.kw("WHERE");
                    let e = self.expr(d);
                    Some(tup!(s, e))
                } else {
                    None
                };
                st!(DoUpdateSet { do_update_set_span: s, sets: sets, where_: w })
            };
            con = N::from(Some(st!(OnConflict { on_conflict_span: s, target: target, action: action })));
        }
        let ret = self.returning(25, d);
        tu!(
            InsertReplace,
            st!(InsertReplace {
                type_: t,
                flags: flags,
                into_span: into,
                table: table,
                columns: cols,
                values: values,
                select: select,
                set: set,
                on_duplicate_key_update: dup,
                on_conflict: con,
                returning: ret,
            })
        )
    }
    pub fn update(&mut self, d: u32) -> N {
        self.f("update");
        let s = self.kw("UPDATE");
        let flags = self.flags(30, &[("LOW_PRIORITY", "LowPriority"), ("IGNORE", "Ignore")]);
        let tables = self.table_refs(d);
        let set_s = self.kw("SET");
        let set = self.list(1, 4, &mut |g| {
            let mut v = vec![g.id()];
            let n = if g.o(25) { g.times(1, 2) } else { 0 };
            for _ in 0..n {
                g.op(".");
                v.push(g.id());
            }
            g.op("=");
            let e = g.expr(d);
            tup!(v, e)
        });
        let w = self.where_(60, d);
        let ret = if self.og(25, P) { self.returning(100, d) } else { at("None") };
        tu!(Update, st!(Update { update_span: s, flags: flags, tables: tables, set_span: set_s, set: set, where_: w, returning: ret }))
    }
    pub fn delete(&mut self, d: u32) -> N {
        self.f("delete");
        let s = self.kw("DELETE");
        let flags = self.flags(30, &[("LOW_PRIORITY", "LowPriority"), ("QUICK", "Quick"), ("IGNORE", "Ignore")]);
        let (from, tables, using);
        if self.o(30) {
            self.f("delete.multi_from");
            // A first table called like a flag would be one
            tables = self.list(1, 3, &mut |g| g.qname());
            from = self.kw("FROM");
            using = self.table_refs(d);
        } else {
            from = self.kw("FROM");
            tables = self.list(1, 3, &mut |g| g.qname());
            using = if self.o(35) {
                self.f("delete.using");
                self.kw("USING");
                self.table_refs(d)
            } else {
                vec![]
            };
        }
        let w = self.where_(60, d);
        let ret = self.returning(25, d);
        tu!(Delete, st!(Delete { delete_span: s, flags: flags, from_span: from, tables: tables, using: using, where_: w, returning: ret }))
    }
    fn with_part(&mut self, d: u32) -> N {
        match self.r.n(6) {
            0 => self.insert(d),
            1 => self.update(d),
            2 => self.delete(d),
            _ => {
                let s = self.select(d, false);
                tu!(Select, s)
            }
        }
    }
    pub fn with(&mut self, d: u32) -> N {
        self.gate(P);
        self.f("with");
        let s = self.kw("WITH");
        let v = self.list(1, 3, &mut |g| {
            let i = g.id();
            let a = g.kw("AS");
            let l = g.op("(");
            let q = g.with_part(d);
            let r = g.op(")");
            st!(WithBlock { identifier: i, as_span: a, lparen_span: l, statement: q, rparen_span: r })
        });
        let q = self.with_part(d);
        tu!(WithQuery, st!(WithQuery { with_span: s, with_blocks: v, statement: q }))
    }
    pub fn if_exists(&mut self) -> N {
        let p = self.r.p(40);
        N::from(self.kwo(p, "IF EXISTS"))
    }
    pub fn drop_(&mut self) -> N {
        self.f("drop");
        let s = self.kw("DROP");
        macro_rules! q {
            ($kw:expr, $n:ident, $k:ident, $v:ident, $q:expr) => {{
                let k = self.kw($kw);
                let i = self.if_exists();
                let n = $q(self);
                self.f(concat!("drop.", stringify!($n)));
                tu!($n, st!($n { drop_span: s, $k: k, if_exists: i, $v: n }))
            }};
        }
        match self.r.n(12) {
            0 | 1 | 2 => {
                let p = self.r.p(30);
                let t = self.kwo(p, "TEMPORARY");
                let k = self.kw("TABLE");
                let i = self.if_exists();
                let v = self.list(1, 4, &mut |g| g.qname());
                let c = if self.og(30, P) { Some(self.kw("CASCADE")) } else { None };
                self.f("drop.DropTable");
                tu!(DropTable, st!(DropTable { drop_span: s, temporary: t, table_span: k, if_exists: i, tables: v, cascade: c }))
            }
            3 | 4 => {
                let p = self.r.p(30);
                let t = self.kwo(p, "TEMPORARY");
                let k = self.kw("VIEW");
                let i = self.if_exists();
                let v = self.list(1, 4, &mut |g| g.qname());
                self.f("drop.DropView");
                tu!(DropView, st!(DropView { drop_span: s, temporary: t, view_span: k, if_exists: i, views: v }))
            }
            5 => {
                let p = self.r.p(50);
                q!(if p { "DATABASE" } else { "SCHEMA" }, DropDatabase, database_span, database, |g: &mut G| g.id())
            }
            6 => q!("EVENT", DropEvent, event_span, event, |g: &mut G| g.qname()),
            7 => q!("FUNCTION", DropFunction, function_span, function, |g: &mut G| g.qname()),
            8 => q!("PROCEDURE", DropProcedure, procedure_span, procedure, |g: &mut G| g.qname()),
            9 => q!("SERVER", DropServer, server_span, server, |g: &mut G| g.id()),
            10 => q!("TRIGGER", DropTrigger, trigger_span, identifier, |g: &mut G| g.qname()),
            _ => {
                let k = self.kw("INDEX");
                let i = self.if_exists();
                let n = self.id();
                let on = if self.is(M) || (self.is(L) && self.r.p(50)) {
                    self.gate(M | L);
                    let s = self.kw("ON");
                    let q = self.qname();
                    Some(tup!(s, q))
                } else {
                    self.gate(P | L);
                    None
                };
                self.f("drop.DropIndex");
                tu!(DropIndex, st!(DropIndex { drop_span: s, index_span: k, if_exists: i, index_name: n, on: on }))
            }
        }
    }
    pub fn truncate(&mut self) -> N {
        self.f("truncate");
        let s = self.kw("TRUNCATE");
        let p = self.r.p(70);
        let t = self.kwo(p, "TABLE");
        let q = self.qname();
        tu!(TruncateTable, st!(TruncateTable { truncate_span: s, table_span: t, table_name: q }))
    }
    pub fn rename(&mut self) -> N {
        self.f("rename");
        let s = self.kw("RENAME");
        let p = self.r.p(70);
        let t = self.kwo(p, "TABLE");
        let v = self.list(1, 4, &mut |g| {
            let a = g.qname();
            let to = g.kw("TO");
            let b = g.qname();
            st!(TableToTable { table: a, to_span: to, new_table: b })
        });
        tu!(RenameTable, st!(RenameTable { rename_span: s, table_span: t, table_to_tables: v }))
    }
}
