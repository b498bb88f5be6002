//! CREATE and ALTER
use crate::gen::*;
use crate::n::{at, N};
use crate::{st, tu, tup};

const SQL: &str = "SQL";

impl G {
    fn if_not_exists(&mut self) -> N {
        let p = self.r.p(30);
        N::from(self.kwo(p, "IF NOT EXISTS"))
    }
    fn create_options(&mut self, p: usize) -> Vec<N> {
        let mut v = Vec::new();
        if !self.o(p) {
            return v;
        }
        let n = self.times(1, 3);
        for _ in 0..n {
            self.f("create.option");
            v.push(match self.r.n(7) {
                0 => {
                    let s = self.kw("OR REPLACE");
                    tu!(OrReplace, s)
                }
                1 => {
                    let s = self.kw("TEMPORARY");
                    tu!(Temporary, s)
                }
                2 => {
                    let s = self.kw("UNIQUE");
                    tu!(Unique, s)
                }
                3 => {
                    let s = self.kw("ALGORITHM");
                    self.op("=");
                    let (t, v) = self.pick(&[("UNDEFINED", "Undefined"), ("MERGE", "Merge"), ("TEMPTABLE", "TempTable")]);
                    let a = self.kw(t);
                    tu!(Algorithm, s, N::Tu(v, vec![N::Sp(a)]))
                }
                4 => {
                    let s = self.kw("DEFINER");
                    self.op("=");
                    let u = self.id();
                    self.op("@");
                    let h = self.id();
                    st!(Definer { definer_span: s, user: u, host: h })
                }
                5 => {
                    let s = self.kw(&format!("{SQL} SECURITY"));
                    let d = self.kw("DEFINER");
                    tu!(SqlSecurityDefiner, s, d)
                }
                _ => {
                    let s = self.kw(&format!("{SQL} SECURITY"));
                    let d = self.kw("USER");
                    tu!(SqlSecurityUser, s, d)
                }
            });
        }
        v
    }
    fn create_definition(&mut self, d: u32) -> N {
        if self.o(15) {
            self.f("table.constraint");
            let s = self.kw("CONSTRAINT");
            let i = self.id();
            self.exempt(|g| {
                g.kw("FOREIGN KEY");
                g.paren(|g| g.id_list(1, 3));
                g.kw("REFERENCES");
                g.id();
                g.paren(|g| g.id_list(1, 3));
                if g.o(50) {
                    g.kw("ON DELETE");
                    let t = g.pick(&["CASCADE", "RESTRICT", "SET NULL"]);
                    g.kw(t);
                }
            });
            st!(ConstraintDefinition { span: s, identifier: i })
        } else {
            let i = self.id_word();
            let t = self.data_type(true, false, d);
            st!(ColumnDefinition { identifier: i, data_type: t })
        }
    }
    fn table_option(&mut self) -> N {
        macro_rules! o {
            ($k:expr, $v:ident, $s:expr) => {{
                let st = self.toks.len();
                self.kw($k);
                let i = crate::n::S(st, st + 1);
                if self.r.p(60) {
                    self.op("=");
                }
                let v = if $s { self.string() } else { self.id() };
                self.f(concat!("table.option.", stringify!($v)));
                st!($v { identifier: i, value: v })
            }};
        }
        match self.r.n(8) {
            0 => o!("ENGINE", Engine, false),
            1 => o!("DEFAULT CHARSET", DefaultCharSet, false),
            2 => o!("DEFAULT COLLATE", DefaultCollate, false),
            3 => o!("CHARSET", CharSet, false),
            4 => o!("COLLATE", Collate, false),
            5 => o!("ROW_FORMAT", RowFormat, false),
            6 => o!("COMMENT", Comment, true),
            _ => {
                let s = self.kw("STRICT");
                self.f("table.option.Strict");
                st!(Strict { identifier: s })
            }
        }
    }
    pub fn create_table(&mut self, d: u32) -> N {
        self.f("create_table");
        let s = self.kw("CREATE");
        let o = self.create_options(25);
        let t = self.kw("TABLE");
        let i = self.if_not_exists();
        let q = self.qname();
        self.op("(");
        let defs = if self.r.p(3) { vec![] } else { self.list(1, 6, &mut |g| g.create_definition(d)) };
        self.op(")");
        let mut opts = Vec::new();
        if self.o(50) {
            let n = self.times(1, 4);
            for _ in 0..n {
                opts.push(self.table_option());
            }
        }
        tu!(
            CreateTable,
            st!(CreateTable { create_span: s, create_options: o, table_span: t, identifier: q, if_not_exists: i, create_definitions: defs, options: opts })
        )
    }
    pub fn create_view(&mut self, d: u32) -> N {
        self.f("create_view");
        let s = self.kw("CREATE");
        let o = self.create_options(50);
        let v = self.kw("VIEW");
        let i = self.if_not_exists();
        let n = self.qname();
        let a = self.kw("AS");
        let q = self.query(d, true);
        tu!(CreateView, st!(CreateView { create_span: s, create_options: o, view_span: v, if_not_exists: i, name: n, as_span: a, select: q }))
    }
    pub fn create_index(&mut self, d: u32) -> N {
        self.f("create_index");
        let s = self.kw("CREATE");
        let o = self.create_options(40);
        let k = self.kw("INDEX");
        let i = self.if_not_exists();
        let n = self.id();
        let on = self.kw("ON");
        let t = self.qname();
        let mut opts = Vec::new();
        if self.o(30) {
            let s = self.kw("USING GIST");
            self.f("create_index.gist");
            opts.push(tu!(UsingGist, s));
        }
        let l = self.op("(");
        let cols = self.list(1, 4, &mut |g| {
            let i = g.id();
            if g.og(15, P) {
                let t = g.pick(&["TEXT_PATTERN_OPS", "VARCHAR_PATTERN_OPS", "BPCHAR_PATTERN_OPS", "INT8_OPS", "INT4_OPS", "INT2_OPS"]);
                g.f("create_index.opclass");
                g.exempt(|g| g.kw(t));
            }
            i
        });
        let r = self.op(")");
        let w = if self.og(30, P | L) {
            let s = self.kw("WHERE");
            let e = self.expr(d);
            self.f("create_index.where");
            Some(tup!(s, e))
        } else {
            None
        };
        tu!(
            CreateIndex,
            st!(CreateIndex {
                create_span: s,
                create_options: o,
                index_span: k,
                index_name: n,
                if_not_exists: i,
                on_span: on,
                table_name: t,
                index_options: opts,
                l_paren_span: l,
                column_names: cols,
                r_paren_span: r,
                where_: w,
            })
        )
    }
    pub fn create_type(&mut self) -> N {
        self.gate(P);
        self.f("create_type");
        let s = self.kw("CREATE");
        let o = self.create_options(10);
        let t = self.kw("TYPE");
        let n = self.id();
        let a = self.kw("AS ENUM");
        let v = self.paren(|g| g.list(1, 5, &mut |g| g.string()));
        tu!(CreateTypeEnum, st!(CreateTypeEnum { create_span: s, create_options: o, type_span: t, name: n, as_enum_span: a, values: v }))
    }
    pub fn create_trigger(&mut self, d: u32) -> N {
        self.f("create_trigger");
        let s = self.kw("CREATE");
        let o = self.create_options(30);
        let t = self.kw("TRIGGER");
        let i = self.if_not_exists();
        let n = self.id();
        let (k, v) = self.pick(&[("BEFORE", "Before"), ("AFTER", "After")]);
        let ts = self.kw(k);
        let time = N::Tu(v, vec![N::Sp(ts)]);
        let (k, v) = self.pick(&[("UPDATE", "Update"), ("INSERT", "Insert"), ("DELETE", "Delete")]);
        let es = self.kw(k);
        let event = N::Tu(v, vec![N::Sp(es)]);
        let on = self.kw("ON");
        let table = self.id();
        let f = self.kw("FOR EACH ROW");
        let b = self.body(d);
        tu!(
            CreateTrigger,
            st!(CreateTrigger {
                create_span: s,
                create_options: o,
                trigger_span: t,
                if_not_exists: i,
                name: n,
                trigger_time: time,
                trigger_event: event,
                on_span: on,
                table: table,
                for_each_row_span: f,
                statement: b,
            })
        )
    }
    pub fn create_function(&mut self, d: u32) -> N {
        self.f("create_function");
        let s = self.kw("CREATE");
        let o = self.create_options(30);
        let k = self.kw("FUNCTION");
        let i = self.if_not_exists();
        let n = self.id();
        self.op("(");
        let params = self.list(0, 4, &mut |g| {
            let dir = match g.r.n(6) {
                0 => {
                    let s = g.kw("IN");
                    Some(tu!(In, s))
                }
                1 => {
                    let s = g.kw("OUT");
                    Some(tu!(Out, s))
                }
                2 => {
                    let s = g.kw("INOUT");
                    Some(tu!(InOut, s))
                }
                3 => {
                    let s = g.kw("IN OUT");
                    Some(tu!(InOut, s))
                }
                _ => None,
            };
            let n = g.id();
            let t = g.data_type(true, false, 0);
            tup!(dir, n, t)
        });
        self.op(")");
        let rs = self.kw("RETURNS");
        let p = self.r.p(20);
        let rt = self.return_type(p);
        if self.is(P) {
            if self.r.p(70) {
                self.gate(P);
                self.f("create_function.pg_body");
                self.exempt(|g| {
                    g.kw("AS");
                    g.op("$$");
                    g.kw("BEGIN");
                    if g.r.p(50) {
                        g.expr(1);
                        g.op(";");
                    }
                    g.kw("END");
                    g.op("$$");
                });
            }
        }
        let mut ch = Vec::new();
        if self.o(60) {
            let n = self.times(1, 3);
            for _ in 0..n {
                self.f("create_function.characteristic");
                if self.r.p(15) {
                    self.kw("COMMENT");
                    let s = self.string();
                    ch.push(tu!(Comment, s));
                    continue;
                }
                let (t, v) = self.pick(&[
                    ("LANGUAGE SQL", "LanguageSql"),
                    ("LANGUAGE PLPGSQL", "LanguagePlpgsql"),
                    ("NOT DETERMINISTIC", "NotDeterministic"),
                    ("DETERMINISTIC", "Deterministic"),
                    ("CONTAINS SQL", "ContainsSql"),
                    ("NO SQL", "NoSql"),
                    ("READS SQL DATA", "ReadsSqlData"),
                    ("MODIFIES SQL DATA", "ModifiesSqlData"),
                    ("SQL SECURITY DEFINER", "SqlSecurityDefiner"),
                    ("SQL SECURITY USER", "SqlSecurityUser"),
                ]);
                let s = self.kw(t);
                ch.push(N::Tu(v, vec![N::Sp(s)]));
            }
        }
        let body = if self.is(M) {
            self.gate(M);
            N::from(Some(if self.r.p(50) { self.return_(d) } else { self.body(d) }))
        } else {
            // The library reads a body only in MariaDB, and asks for one there
            self.gate(P | L);
            at("None")
        };
        tu!(
            CreateFunction,
            st!(CreateFunction {
                create_span: s,
                create_options: o,
                function_span: k,
                if_not_exists: i,
                name: n,
                params: params,
                returns_span: rs,
                return_type: rt,
                characteristics: ch,
                return_: body,
            })
        )
    }
    /// Return type: its properties must not run into the characteristics
    fn return_type(&mut self, null: bool) -> N {
        let t = self.data_type(false, true, 0);
        match t {
            N::St(n, mut f) => {
                if null {
                    let s = self.kw("NOT NULL");
                    f.last_mut().unwrap().1 = N::Li(vec![tu!(NotNull, s)]);
                }
                N::St(n, f)
            }
            n => n,
        }
    }

    // ALTER

    fn index_type_using(&mut self) -> N {
        self.kw("USING");
        let (t, v) = self.pick(&[("BTREE", "IndexTypeBTree"), ("HASH", "IndexTypeHash"), ("RTREE", "IndexTypeRTree")]);
        let s = self.kw(t);
        self.f("alter.index_type");
        N::Tu(v, vec![N::Sp(s)])
    }
    fn index_cols(&mut self) -> Vec<N> {
        self.paren(|g| {
            g.list(1, 4, &mut |g| {
                let n = g.id();
                let size = if g.o(30) {
                    g.op("(");
                    let (v, s) = g.small(u32::MAX as u64);
                    g.op(")");
                    g.f("alter.index_col_size");
                    Some(tup!(v, s))
                } else {
                    None
                };
                st!(IndexCol { name: n, size: size })
            })
        })
    }
    fn constraint(&mut self) -> N {
        if self.o(40) {
            let s = self.kw("CONSTRAINT");
            let n = if self.r.p(70) { Some(self.id_word()) } else { None };
            self.f("alter.constraint");
            N::from(Some(tup!(s, n)))
        } else {
            at("None")
        }
    }
    fn opt_name(&mut self) -> N {
        if self.o(60) {
            N::from(Some(self.id_word()))
        } else {
            at("None")
        }
    }
    fn alter_spec(&mut self, d: u32) -> N {
        match self.r.n(14) {
            0 | 1 => {
                self.f("alter.add_column");
                let s = self.kw("ADD");
                self.kw("COLUMN");
                let i = if self.og(30, P | L) { N::from(Some(self.kw("IF NOT EXISTS"))) } else { at("None") };
                let n = self.id();
                let t = self.data_type(true, false, d);
                st!(AddColumn { add_span: s, if_not_exists_span: i, identifier: n, data_type: t })
            }
            2..=4 => {
                self.f("alter.add_index");
                let s = self.kw("ADD");
                let c = self.constraint();
                let (k, v) = self.pick(&[
                    ("PRIMARY KEY", "Primary"),
                    ("INDEX", "Index"),
                    ("KEY", "Index"),
                    ("FULLTEXT INDEX", "FullText"),
                    ("FULLTEXT KEY", "FullText"),
                    ("SPATIAL INDEX", "Spatial"),
                    ("SPATIAL KEY", "Spatial"),
                    ("UNIQUE INDEX", "Unique"),
                    ("UNIQUE KEY", "Unique"),
                ]);
                let ks = self.kw(k);
                let i = self.if_not_exists();
                let n = self.opt_name();
                let mut o = Vec::new();
                if self.o(25) {
                    o.push(self.index_type_using());
                }
                let cols = self.index_cols();
                if self.o(35) {
                    let n = self.times(1, 3);
                    for _ in 0..n {
                        if self.r.p(50) {
                            o.push(self.index_type_using());
                        } else {
                            self.kw("COMMENT");
                            let s = self.string();
                            self.f("alter.index_comment");
                            o.push(tu!(Comment, s));
                        }
                    }
                }
                st!(AddIndex {
                    add_span: s,
                    index_type: N::Tu(v, vec![N::Sp(ks)]),
                    if_not_exists: i,
                    name: n,
                    constraint: c,
                    cols: cols,
                    index_options: o,
                })
            }
            5..=7 => {
                self.f("alter.add_foreign_key");
                let s = self.kw("ADD");
                let c = self.constraint();
                let k = self.kw("FOREIGN KEY");
                let i = self.if_not_exists();
                let n = self.opt_name();
                let cols = self.index_cols();
                let rs = self.kw("REFERENCES");
                let rt = self.id();
                let rc = self.paren(|g| g.id_list(1, 3));
                let mut ons = Vec::new();
                let cnt = if self.o(60) { self.times(1, 2) } else { 0 };
                for _ in 0..cnt {
                    let (t, v) = self.pick(&[("ON UPDATE", "Update"), ("ON DELETE", "Delete")]);
                    let ts = self.kw(t);
                    let (a, w) = self.pick(&[("RESTRICT", "Restrict"), ("CASCADE", "Cascade"), ("SET NULL", "SetNull"), ("NO ACTION", "NoAction"), ("SET DEFAULT", "SetDefault")]);
                    let s = self.kw(a);
                    self.f("alter.fk_on");
                    ons.push(st!(ForeignKeyOn { type_: N::Tu(v, vec![N::Sp(ts)]), action: N::Tu(w, vec![N::Sp(s)]) }));
                }
                st!(AddForeignKey {
                    add_span: s,
                    constraint: c,
                    foreign_key_span: k,
                    if_not_exists: i,
                    name: n,
                    cols: cols,
                    references_span: rs,
                    references_table: rt,
                    references_cols: rc,
                    ons: ons,
                })
            }
            8 | 9 => {
                self.f("alter.modify");
                let p = self.r.p(50);
                let s = self.kw(if p { "MODIFY COLUMN" } else { "MODIFY" });
                let i = self.if_exists();
                let c = self.id();
                let t = self.data_type(true, false, d);
                st!(Modify { modify_span: s, if_exists: i, col: c, definition: t })
            }
            10 => {
                self.f("alter.drop_column");
                let s = self.kw("DROP COLUMN");
                let c = self.id();
                let p = self.r.p(40);
                let k = self.kwo(p, "CASCADE");
                st!(DropColumn { drop_column_span: s, column: c, cascade: k })
            }
            11 | 12 => {
                self.f("alter.alter_column");
                let s = self.kw("ALTER COLUMN");
                let c = self.id();
                let a = match self.r.n(5) {
                    0 => {
                        let s = self.kw("SET DEFAULT");
                        let e = self.expr(d);
                        st!(SetDefault { set_default_span: s, value: e })
                    }
                    1 => {
                        let s = self.kw("DROP DEFAULT");
                        st!(DropDefault { drop_default_span: s })
                    }
                    2 => {
                        let s = self.kw("TYPE");
                        let t = self.data_type(true, false, d);
                        st!(Type { type_span: s, type_: t })
                    }
                    3 => {
                        let s = self.kw("SET NOT NULL");
                        st!(SetNotNull { set_not_null_span: s })
                    }
                    _ => {
                        let s = self.kw("DROP NOT NULL");
                        st!(DropNotNull { drop_not_null_span: s })
                    }
                };
                st!(AlterColumn { alter_column_span: s, column: c, alter_column_action: a })
            }
            _ => {
                self.f("alter.owner");
                let s = self.kw("OWNER TO");
                let o = self.id();
                st!(OwnerTo { span: s, owner: o })
            }
        }
    }
    pub fn alter(&mut self, d: u32) -> N {
        self.f("alter");
        let s = self.kw("ALTER");
        let p = self.r.p(25);
        let on = self.kwo(p, "ONLINE");
        let p = self.r.p(25);
        let ig = self.kwo(p, "IGNORE");
        let t = self.kw("TABLE");
        let i = self.if_exists();
        let q = self.qname();
        let v = self.list(1, 4, &mut |g| g.alter_spec(d));
        tu!(AlterTable, st!(AlterTable { alter_span: s, online: on, ignore: ig, table_span: t, if_exists: i, table: q, alter_specifications: v }))
    }
}
