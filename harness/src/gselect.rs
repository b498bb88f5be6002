//! SELECT, UNION and WITH
use crate::gen::*;
use crate::n::{at, N};
use crate::{st, tu, tup};

const FLAGS: &[(&str, &str)] = &[
    ("ALL", "All"),
    ("DISTINCT", "Distinct"),
    ("DISTINCTROW", "DistinctRow"),
    ("HIGH_PRIORITY", "HighPriority"),
    ("STRAIGHT_JOIN", "StraightJoin"),
    ("SQL_SMALL_RESULT", "SqlSmallResult"),
    ("SQL_BIG_RESULT", "SqlBigResult"),
    ("SQL_BUFFER_RESULT", "SqlBufferResult"),
    ("SQL_NO_CACHE", "SqlNoCache"),
    ("SQL_CALC_FOUND_ROWS", "SqlCalcFoundRows"),
];
const JOINS: &[(&str, &str)] = &[
    ("JOIN", "Normal"),
    ("INNER JOIN", "Inner"),
    ("CROSS JOIN", "Cross"),
    ("STRAIGHT_JOIN", "Straight"),
    ("LEFT JOIN", "Left"),
    ("LEFT OUTER JOIN", "Left"),
    ("RIGHT JOIN", "Right"),
    ("RIGHT OUTER JOIN", "Right"),
    ("NATURAL JOIN", "Natural"),
    ("NATURAL INNER JOIN", "NaturalInner"),
    ("NATURAL LEFT JOIN", "NaturalLeft"),
    ("NATURAL LEFT OUTER JOIN", "NaturalLeft"),
    ("NATURAL RIGHT JOIN", "NaturalRight"),
    ("NATURAL RIGHT OUTER JOIN", "NaturalRight"),
];

/// Where a SELECT stands, which decides how it may end
#[derive(Clone, Copy, PartialEq)]
pub enum Tail {
    /// Anything may follow its clauses
    Any,
    /// Part of a union that is not in parentheses: no ORDER BY, LIMIT or locking
    Part,
    /// Followed by ON, so it must not end in a join without a condition
    On,
}

impl G {
    pub fn none() -> N {
        at("None")
    }
    pub fn select_expr(&mut self, d: u32) -> N {
        let e = self.expr(d);
        let as_ = if self.o(30) {
            self.kw("AS");
            self.f("select.as");
            Some(self.id())
        } else {
            None
        };
        st!(SelectExpr { expr: e, as_: as_ })
    }
    fn alias(&mut self) -> (N, N) {
        if self.o(40) {
            if self.r.p(60) {
                let s = self.kw("AS");
                let i = self.id();
                self.f("table.as");
                (N::from(Some(s)), N::from(Some(i)))
            } else {
                let i = self.id_word();
                self.f("table.alias");
                (at("None"), N::from(Some(i)))
            }
        } else {
            (at("None"), at("None"))
        }
    }
    fn index_hint(&mut self) -> N {
        let (t, v) = self.pick(&[("USE", "Use"), ("IGNORE", "Ignore"), ("FORCE", "Force")]);
        let s = self.kw(t);
        let use_ = N::Tu(v, vec![N::Sp(s)]);
        let (t, v) = self.pick(&[("INDEX", "Index"), ("KEY", "Key")]);
        let s = self.kw(t);
        let type_ = N::Tu(v, vec![N::Sp(s)]);
        let for_ = if self.o(50) {
            let s = self.kw("FOR");
            let (t, v) = self.pick(&[("JOIN", "Join"), ("ORDER BY", "OrderBy"), ("GROUP BY", "GroupBy")]);
            let s2 = self.kw(t);
            self.f("table.index_hint_for");
            Some(tup!(s, N::Tu(v, vec![N::Sp(s2)])))
        } else {
            None
        };
        let l = self.op("(");
        let list = self.id_list(1, 3);
        let r = self.op(")");
        self.f("table.index_hint");
        st!(IndexHint { use_: use_, type_: type_, for_: for_, lparen: l, index_list: list, rparen: r })
    }
    pub fn table_factor(&mut self, d: u32) -> N {
        if d > 0 && self.o(12) {
            self.f("table.subquery");
            let q = self.paren(|g| g.query(d - 1, true));
            let (a, b) = self.alias();
            st!(Query { query: q, as_span: a, as_: b })
        } else {
            let q = self.qname_(true);
            let (a, b) = self.alias();
            let mut h = Vec::new();
            if self.og(12, M) {
                let n = self.times(1, 2);
                for _ in 0..n {
                    h.push(self.index_hint());
                }
            }
            st!(Table { identifier: q, as_span: a, as_: b, index_hints: h })
        }
    }
    pub fn table_ref(&mut self, d: u32) -> N {
        let mut t = self.table_factor(d);
        let n = if self.o(40) { self.times(1, 3) } else { 0 };
        for _ in 0..n {
            let (k, v) = self.pick(JOINS);
            let s = self.kw(k);
            self.f("table.join");
            let right = self.table_factor(d);
            let spec = match self.r.n(5) {
                0 | 1 => {
                    let s = self.kw("ON");
                    let e = self.expr(d);
                    self.f("table.on");
                    Some(tu!(On, e, s))
                }
                2 | 3 => {
                    let s = self.kw("USING");
                    let v = self.paren(|g| g.id_list(1, 3));
                    self.f("table.using");
                    Some(tu!(Using, v, s))
                }
                _ => None,
            };
            t = st!(Join { join: N::Tu(v, vec![N::Sp(s)]), left: t, right: right, specification: spec });
        }
        t
    }
    pub fn table_refs(&mut self, d: u32) -> Vec<N> {
        self.list(1, 3, &mut |g| g.table_ref(d))
    }
    pub fn where_(&mut self, p: usize, d: u32) -> N {
        if self.o(p) {
            let s = self.kw("WHERE");
            let e = self.expr(d);
            self.f("where");
            N::from(Some(tup!(e, s)))
        } else {
            at("None")
        }
    }
    pub fn order_by(&mut self, p: usize, d: u32) -> N {
        if self.o(p) {
            let s = self.kw("ORDER BY");
            let l = self.order(d, 3);
            self.f("order_by");
            N::from(Some(tup!(s, l)))
        } else {
            at("None")
        }
    }
    pub fn limit(&mut self, p: usize, d: u32) -> N {
        if self.o(p) {
            let s = self.kw("LIMIT");
            let a = self.inner(d);
            match self.r.n(3) {
                0 => {
                    self.op(",");
                    let b = self.inner(d);
                    self.f("limit.comma");
                    N::from(Some(tup!(s, Some(a), b)))
                }
                1 => {
                    self.kw("OFFSET");
                    let b = self.inner(d);
                    self.f("limit.offset");
                    N::from(Some(tup!(s, Some(b), a)))
                }
                _ => {
                    self.f("limit.count");
                    N::from(Some(tup!(s, at("None"), a)))
                }
            }
        } else {
            at("None")
        }
    }
    fn locking(&mut self, p: usize) -> N {
        if !self.o(p) {
            return at("None");
        }
        self.f("locking");
        let f = self.kw("FOR");
        let st = match self.r.n(if self.is(P) { 4 } else { 2 }) {
            0 => {
                let s = self.kw("UPDATE");
                tu!(Update, s)
            }
            1 => {
                let s = self.kw("SHARE");
                tu!(Share, s)
            }
            2 => {
                self.gate(P);
                let s = self.kw("NO KEY UPDATE");
                tu!(NoKeyUpdate, s)
            }
            _ => {
                self.gate(P);
                let s = self.kw("KEY SHARE");
                tu!(KeyShare, s)
            }
        };
        let of = if self.o(40) {
            let s = self.kw("OF");
            let v = self.id_list(1, 3);
            self.f("locking.of");
            Some(tup!(s, v))
        } else {
            None
        };
        let w = match self.r.n(3) {
            0 => {
                let s = self.kw("NOWAIT");
                tu!(NoWait, s)
            }
            1 => {
                let s = self.kw("SKIP LOCKED");
                tu!(SkipLocket, s)
            }
            _ => at("Default"),
        };
        N::from(Some(st!(Locking { for_span: f, strength: st, of: of, wait: w })))
    }
    pub fn select(&mut self, d: u32, must_from: bool) -> N {
        self.select_(d, must_from, Tail::Any)
    }
    /// The fields of a SELECT
    pub fn select_(&mut self, d: u32, must_from: bool, tail: Tail) -> N {
        let s = self.kw("SELECT");
        self.f("select");
        let mut flags = Vec::new();
        if self.o(20) {
            let n = self.times(1, 3);
            for _ in 0..n {
                let (t, v) = self.pick(FLAGS);
                let s = self.kw(t);
                self.f("select.flag");
                flags.push(N::Tu(v, vec![N::Sp(s)]));
            }
        }
        let exprs = self.list(1, 4, &mut |g| g.select_expr(d));
        if !must_from && (!self.more() || self.r.p(15)) {
            return st!(Select {
                select_span: s,
                flags: flags,
                select_exprs: exprs,
                from_span: at("None"),
                table_references: at("None"),
                where_: at("None"),
                group_by: at("None"),
                having: at("None"),
                window_span: at("None"),
                order_by: at("None"),
                limit: at("None"),
                locking: at("None"),
            });
        }
        let from = self.kw("FROM");
        let refs = self.table_refs(d);
        let where_ = self.where_(if tail == Tail::On { 100 } else { 45 }, d);
        // A following ON would be taken as the condition of the last join
        let where_ = if tail == Tail::On && matches!(&where_, N::At(_)) {
            let s = self.kw("WHERE");
            let e = self.expr(0);
            N::from(Some(tup!(e, s)))
        } else {
            where_
        };
        let group = if self.o(20) {
            let s = self.kw("GROUP BY");
            let l = self.list(1, 3, &mut |g| g.expr(d));
            self.f("select.group_by");
            Some(tup!(s, l))
        } else {
            None
        };
        let having = if self.o(15) {
            let s = self.kw("HAVING");
            let e = self.expr(d);
            self.f("select.having");
            Some(tup!(e, s))
        } else {
            None
        };
        let window = if self.o(2) { Some(self.kw("WINDOW")) } else { None };
        let (ob, l, k) = if tail == Tail::Part {
            (at("None"), at("None"), at("None"))
        } else {
            let ob = self.order_by(25, d);
            let l = self.limit(25, d);
            let k = self.locking(12);
            (ob, l, k)
        };
        st!(Select {
            select_span: s,
            flags: flags,
            select_exprs: exprs,
            from_span: Some(from),
            table_references: Some(N::Li(refs)),
            where_: where_,
            group_by: group,
            having: having,
            window_span: window,
            order_by: ob,
            limit: l,
            locking: k,
        })
    }
    /// Statement: a SELECT or a UNION. `union`: may it be a union
    pub fn query(&mut self, d: u32, union: bool) -> N {
        if union && self.o(15) {
            return self.union(d);
        }
        let s = self.select(d, false);
        tu!(Select, s)
    }
    /// A query that starts with SELECT, as inside the parentheses of an expression
    pub fn plain_query(&mut self, d: u32) -> N {
        if self.o(15) {
            let s = self.select_(d, false, Tail::Part);
            return self.union_rest(tu!(Select, s), d);
        }
        let s = self.select(d, false);
        tu!(Select, s)
    }
    /// `(statement, in parentheses)`
    fn union_part(&mut self, d: u32) -> (N, bool) {
        if self.r.p(40) {
            self.f("union.paren");
            (self.paren(|g| g.query(d.saturating_sub(1), true)), true)
        } else {
            let s = self.select_(d, false, Tail::Part);
            (tu!(Select, s), false)
        }
    }
    pub fn union(&mut self, d: u32) -> N {
        let (left, _) = self.union_part(d);
        self.union_rest(left, d)
    }
    fn union_rest(&mut self, left: N, d: u32) -> N {
        self.f("union");
        let n = self.times(1, 3);
        let mut with = Vec::new();
        for i in 0..n {
            if i > 0 && !self.more() {
                break;
            }
            let s = self.kw("UNION");
            let t = match self.r.n(3) {
                0 => {
                    let s = self.kw("ALL");
                    tu!(All, s)
                }
                1 => {
                    let s = self.kw("DISTINCT");
                    tu!(Distinct, s)
                }
                _ => at("Default"),
            };
            let (q, _) = self.union_part(d);
            with.push(st!(UnionWith { union_span: s, union_type: t, union_statement: q }));
        }
        let ob = self.order_by(35, d);
        let l = self.limit(35, d);
        tu!(Union, st!(Union { left: left, with: with, order_by: ob, limit: l }))
    }
}
