//! Expressions
use crate::gen::*;
use crate::n::{at, N, S};
use crate::render::K;
use crate::words;
use crate::{st, tu, tup};

pub struct Bin {
    pub t: &'static str,
    pub v: &'static str,
    pub p: u32,
}
/// Supported binary operators with the precedence the library documents, loosest last
pub const BIN: &[Bin] = &[
    Bin { t: "*", v: "Mult", p: 60 },
    Bin { t: "/", v: "Divide", p: 60 },
    Bin { t: "+", v: "Add", p: 70 },
    Bin { t: "-", v: "Subtract", p: 70 },
    Bin { t: "<<", v: "ShiftLeft", p: 80 },
    Bin { t: ">>", v: "ShiftRight", p: 80 },
    Bin { t: "&", v: "BitAnd", p: 90 },
    Bin { t: "|", v: "BitOr", p: 100 },
    Bin { t: "=", v: "Eq", p: 110 },
    Bin { t: "<=>", v: "NullSafeEq", p: 110 },
    Bin { t: ">=", v: "GtEq", p: 110 },
    Bin { t: ">", v: "Gt", p: 110 },
    Bin { t: "<=", v: "LtEq", p: 110 },
    Bin { t: "<", v: "Lt", p: 110 },
    Bin { t: "<>", v: "Neq", p: 110 },
    Bin { t: "!=", v: "Neq", p: 110 },
    Bin { t: "LIKE", v: "Like", p: 110 },
    Bin { t: "NOT LIKE", v: "NotLike", p: 110 },
    Bin { t: "AND", v: "And", p: 140 },
    Bin { t: "&&", v: "And", p: 140 },
    Bin { t: "XOR", v: "Xor", p: 150 },
    Bin { t: "OR", v: "Or", p: 160 },
    Bin { t: "||", v: "Or", p: 160 },
];
pub const UN: &[Bin] = &[
    Bin { t: "BINARY", v: "Binary", p: 20 },
    Bin { t: "COLLATE", v: "Collate", p: 20 },
    Bin { t: "!", v: "LogicalNot", p: 30 },
    Bin { t: "-", v: "Minus", p: 40 },
    Bin { t: "NOT", v: "Not", p: 130 },
];
pub const IS: &[(&str, &str)] = &[
    ("IS NULL", "Null"),
    ("IS NOT NULL", "NotNull"),
    ("IS TRUE", "True"),
    ("IS NOT TRUE", "NotTrue"),
    ("IS FALSE", "False"),
    ("IS NOT FALSE", "NotFalse"),
    ("IS UNKNOWN", "Unknown"),
    ("IS NOT UNKNOWN", "NotUnknown"),
];
pub const UNITS: &[(&str, &str)] = &[
    ("MICROSECOND", "Microsecond"),
    ("SECOND", "Second"),
    ("MINUTE", "Minute"),
    ("HOUR", "Hour"),
    ("DAY", "Day"),
    ("WEEK", "Week"),
    ("MONTH", "Month"),
    ("QUARTER", "Quarter"),
    ("YEAR", "Year"),
    ("SECOND_MICROSECOND", "SecondMicrosecond"),
    ("MINUTE_MICROSECOND", "MinuteMicrosecond"),
    ("MINUTE_SECOND", "MinuteSecond"),
    ("HOUR_MICROSECOND", "HourMicrosecond"),
    ("HOUR_SECOND", "HourSecond"),
    ("HOUR_MINUTE", "HourMinute"),
    ("DAY_MICROSECOND", "DayMicrosecond"),
    ("DAY_SECOND", "DaySecond"),
    ("DAY_MINUTE", "DayMinute"),
    ("DAY_HOUR", "DayHour"),
    ("YEAR_MONTH", "YearMonth"),
];
/// Functions that may be written without parentheses
pub const BARE: &[(&str, &str)] = &[
    ("CURRENT_TIMESTAMP", "CurrentTimestamp"),
    ("LOCALTIME", "Now"),
    ("LOCALTIMESTAMP", "Now"),
    ("UTC_TIMESTAMP", "UtcTimeStamp"),
    ("UTC_DATE", "UtcDate"),
    ("UTC_TIME", "UtcTime"),
    ("CURRENT_DATE", "CurDate"),
    ("CURRENT_TIME", "CurTime"),
];

impl G {
    pub fn expr(&mut self, d: u32) -> N {
        self.expr_max(1000, d)
    }
    /// Operator text, keyword or symbol
    fn oper(&mut self, t: &str) -> S {
        if t.as_bytes()[0].is_ascii_alphabetic() {
            self.kw(t)
        } else {
            self.op(t)
        }
    }
    /// Expression whose outermost operator binds at least as tight as `max`
    pub fn expr_max(&mut self, max: u32, d: u32) -> N {
        if d == 0 || !self.more() {
            return self.primary(0);
        }
        match self.r.n(20) {
            0..=7 => {
                let i = self.r.n(BIN.len());
                let b = &BIN[i];
                if b.p > max {
                    self.f("expr.paren");
                    return self.paren(|g| g.expr_max(1000, d - 1));
                }
                let lhs = self.expr_max(b.p, d - 1);
                let s = self.oper(b.t);
                let rhs = self.expr_max(b.p - 1, d - 1);
                self.f("expr.binary");
                st!(Binary { op: at(b.v), op_span: s, lhs: lhs, rhs: rhs })
            }
            8 | 9 => {
                let i = self.r.n(UN.len());
                let u = &UN[i];
                if u.p > max {
                    return self.paren(|g| g.expr_max(1000, d - 1));
                }
                let s = self.oper(u.t);
                let e = self.expr_max(u.p, d - 1);
                self.f("expr.unary");
                st!(Unary { op: at(u.v), op_span: s, operand: e })
            }
            10 if max >= 110 => {
                let e = self.expr_max(110, d - 1);
                let (t, v) = self.pick(IS);
                let s = self.kw(t);
                self.f("expr.is");
                tu!(Is, e, at(v), s)
            }
            11 | 12 if max >= 110 => {
                let lhs = self.expr_max(110, d - 1);
                let not = self.r.p(40);
                let s = self.kw(if not { "NOT IN" } else { "IN" });
                let rhs = self.paren(|g| {
                    if g.o(10) && d > 1 {
                        g.f("expr.in_subquery");
                        let q = g.plain_query(d - 2);
                        vec![tu!(Subquery, q)]
                    } else {
                        g.list(1, 4, &mut |g| g.expr(d - 1))
                    }
                });
                self.f(if not { "expr.not_in" } else { "expr.in" });
                st!(In { lhs: lhs, rhs: rhs, in_span: s, not_in: not })
            }
            13 => {
                self.f("expr.paren");
                self.paren(|g| g.paren_content(d - 1))
            }
            _ => self.primary(d),
        }
    }
    /// What may stand inside parentheses: an expression or a query
    pub fn paren_content(&mut self, d: u32) -> N {
        if d > 0 && self.o(8) {
            self.f("expr.subquery");
            let q = self.plain_query(d);
            tu!(Subquery, q)
        } else {
            self.expr(d)
        }
    }
    /// Arguments of a function
    fn arguments(&mut self, d: u32) -> Vec<N> {
        if self.o(4) {
            vec![self.argument(d)]
        } else {
            self.list(0, 3, &mut |g| g.expr(d))
        }
    }
    /// What may stand as the last argument of a function
    fn argument(&mut self, d: u32) -> N {
        if d > 0 && self.o(4) {
            self.f("expr.bare_subquery");
            let q = self.select(d - 1, false);
            tu!(Subquery, tu!(Select, q))
        } else {
            self.expr(d)
        }
    }
    /// The restricted expressions of LIMIT and DEFAULT
    pub fn inner(&mut self, d: u32) -> N {
        let mut e = self.inner_operand(d);
        while self.o(6) {
            let s = self.op("&");
            let rhs = self.inner_operand(d);
            e = st!(Binary { op: at("BitAnd"), op_span: s, lhs: e, rhs: rhs });
        }
        e
    }
    fn inner_operand(&mut self, d: u32) -> N {
        if self.o(10) {
            let s = self.op("-");
            let e = self.inner_operand(d);
            return st!(Unary { op: at("Minus"), op_span: s, operand: e });
        }
        if self.o(10) && d > 0 {
            return self.paren(|g| g.paren_content(d - 1));
        }
        self.primary_(d, false)
    }
    pub fn name_expr(&mut self) -> N {
        let mut v = vec![tu!(Name, self.id_word())];
        let n = if self.o(25) { self.times(1, 2) } else { 0 };
        for i in 0..n {
            self.op(".");
            if i + 1 == n && self.r.p(12) {
                let s = self.op("*");
                v.push(tu!(Star, s));
                self.f("expr.qualified_star");
            } else {
                v.push(tu!(Name, self.id_word()));
            }
        }
        tu!(Identifier, N::Li(v))
    }
    pub fn unit(&mut self) -> N {
        let (t, v) = self.pick(UNITS);
        let s = self.kw(t);
        tup!(at(v), s)
    }
    pub fn primary(&mut self, d: u32) -> N {
        self.primary_(d, true)
    }
    fn primary_(&mut self, d: u32, star: bool) -> N {
        if self.cfg.args != Args::None && self.r.p(self.cfg.arg_pct) {
            self.f("expr.arg");
            return self.placeholder();
        }
        if self.cfg.list_hack && self.r.p(4) {
            let s = self.kw("_LIST_");
            self.arg += 1;
            self.f("expr.list");
            return tu!(ListHack, tup!(self.arg - 1, s));
        }
        let k = if d == 0 || !self.more() { self.r.n(13) } else if !self.cfg.focus.is_empty() && self.r.p(50) { self.pick(self.cfg.focus) } else { self.r.n(40) };
        match k {
            0..=4 => self.name_expr(),
            5 | 6 => tu!(Integer, self.int()),
            7 | 8 => {
                self.f("lit.string");
                let s = self.string();
                tu!(String, s)
            }
            9 => {
                let (v, t) = self.float_text();
                let s = self.push(K::Num, t);
                self.f("lit.float");
                tu!(Float, tup!(v, s))
            }
            10 => match self.r.n(4) {
                0 => {
                    let s = self.kw("TRUE");
                    tu!(Bool, true, s)
                }
                1 => {
                    let s = self.kw("FALSE");
                    tu!(Bool, false, s)
                }
                _ => {
                    let s = self.kw("NULL");
                    tu!(Null, s)
                }
            },
            11 => {
                let (t, v) = self.pick(BARE);
                let s = self.kw(t);
                self.f("expr.bare_function");
                tu!(Function, at(v), N::Li(vec![]), s)
            }
            12 => {
                if star && self.r.p(10) {
                    let s = self.op("*");
                    tu!(Identifier, N::Li(vec![tu!(Star, s)]))
                } else {
                    self.variable()
                }
            }
            13..=18 => self.function(d),
            19 => {
                self.f("expr.count");
                let s = self.kw("COUNT");
                self.op("(");
                let p = self.r.p(30);
                let ds = self.kwo(p, "DISTINCT");
                let e = if self.r.p(40) {
                    let s = self.op("*");
                    tu!(Identifier, N::Li(vec![tu!(Star, s)]))
                } else {
                    self.argument(d - 1)
                };
                self.op(")");
                st!(Count { count_span: s, distinct_span: ds, expr: e })
            }
            20 => {
                self.f("expr.group_concat");
                let s = self.kw("GROUP_CONCAT");
                self.op("(");
                let p = self.r.p(30);
                let ds = self.kwo(p, "DISTINCT");
                let e = self.argument(d - 1);
                self.op(")");
                st!(GroupConcat { group_concat_span: s, distinct_span: ds, expr: e })
            }
            21 | 22 => self.case(d),
            23 | 24 => {
                self.f("expr.cast");
                let s = self.kw("CAST");
                self.op("(");
                let e = self.expr(d - 1);
                let a = self.kw("AS");
                let t = self.data_type(false, false, 0);
                self.op(")");
                st!(Cast { cast_span: s, expr: e, as_span: a, type_: t })
            }
            25 | 26 => {
                self.f("expr.extract");
                let s = self.kw("EXTRACT");
                self.op("(");
                let u = self.unit();
                let f = self.kw("FROM");
                let e = self.argument(d - 1);
                self.op(")");
                st!(Extract { extract_span: s, time_unit: u, from_span: f, date: e })
            }
            27 | 28 => self.interval(),
            29 => {
                self.f("expr.timestampadd");
                let s = self.kw("TIMESTAMPADD");
                self.op("(");
                let u = self.unit();
                self.op(",");
                let a = self.expr(d - 1);
                self.op(",");
                let b = self.argument(d - 1);
                self.op(")");
                st!(TimestampAdd { timestamp_add_span: s, unit: u, interval: a, datetime: b })
            }
            30 => {
                self.f("expr.timestampdiff");
                let s = self.kw("TIMESTAMPDIFF");
                self.op("(");
                let u = self.unit();
                self.op(",");
                let a = self.expr(d - 1);
                self.op(",");
                let b = self.argument(d - 1);
                self.op(")");
                st!(TimestampDiff { timestamp_diff_span: s, unit: u, e1: a, e2: b })
            }
            31 | 32 => {
                self.f("expr.exists");
                self.kw("EXISTS");
                let q = self.paren(|g| g.query(d - 1, true));
                tu!(Exists, q)
            }
            33 | 34 => {
                self.f("expr.subquery");
                let q = self.paren(|g| g.plain_query(d - 1));
                tu!(Subquery, q)
            }
            35 => self.window(d),
            36 => self.variable(),
            _ => self.name_expr(),
        }
    }
    pub fn variable(&mut self) -> N {
        self.f("expr.variable");
        let g = self.r.p(50);
        let s = self.push(K::Kw, if g { "@@GLOBAL" } else { "@@SESSION" });
        let dot = self.op(".");
        let (v, vs) = if self.r.p(20) {
            let s = self.kw("TIME_ZONE");
            (at("TimeZone"), s)
        } else {
            let w = self.word();
            let s = self.push(K::Id, w.clone());
            (tu!(Other, w), s)
        };
        st!(Variable {
            global: if g { Some(s) } else { None },
            session: if g { None } else { Some(s) },
            dot: Some(dot),
            variable: v,
            variable_span: vs,
        })
    }
    pub fn interval(&mut self) -> N {
        self.f("expr.interval");
        let s = self.kw("INTERVAL");
        let (v, vs): (Vec<i64>, S) = if self.r.p(50) {
            let (v, s) = self.small(i64::MAX as u64);
            (vec![v as i64], s)
        } else {
            let n = self.times(1, 5);
            let mut v = Vec::new();
            let mut t = String::new();
            for i in 0..n {
                if i > 0 {
                    t.push(self.pick(&[':', '!', ',', '.', '-', ' ']));
                }
                let x = self.r.n(1000) as i64;
                t.push_str(&x.to_string());
                v.push(x);
            }
            let q = self.pick(&['\'', '"']);
            let s = self.push(K::Str, format!("{q}{t}{q}"));
            (v, s)
        };
        let u = self.unit();
        st!(Interval { interval_span: s, time_interval: tup!(v, vs), time_unit: u })
    }
    fn case(&mut self, d: u32) -> N {
        self.f("expr.case");
        let s = self.kw("CASE");
        let value = if self.r.p(40) { Some(self.expr(d - 1)) } else { None };
        let n = self.times(1, 3);
        let mut whens = Vec::new();
        for _ in 0..n {
            let w = self.kw("WHEN");
            let a = self.expr(d - 1);
            let t = self.kw("THEN");
            let b = self.expr(d - 1);
            whens.push(st!(When { when_span: w, when: a, then_span: t, then: b }));
        }
        let else_ = if self.r.p(50) {
            let s = self.kw("ELSE");
            let e = self.expr(d - 1);
            Some(tup!(s, e))
        } else {
            None
        };
        let e = self.kw("END");
        st!(Case { case_span: s, value: value, whens: whens, else_: else_, end_span: e })
    }
    /// Name of a function: (expected, span)
    pub fn function_name(&mut self) -> (N, S) {
        if self.r.p(70) {
            let (k, v) = self.pick(words::functions());
            self.f("expr.known_function");
            let s = self.kw(k);
            (at(v), s)
        } else {
            self.f("expr.other_function");
            let w = loop {
                let w = self.word();
                if !words::is_function(&w) {
                    break w;
                }
            };
            let s = self.push(K::Id, w.clone());
            (tu!(Other, w), s)
        }
    }
    pub fn function(&mut self, d: u32) -> N {
        let (f, s) = self.function_name();
        let args = self.paren(|g| g.arguments(d - 1));
        tu!(Function, f, args, s)
    }
    pub fn order(&mut self, d: u32, hi: usize) -> Vec<N> {
        self.list(1, hi, &mut |g| {
            let e = g.expr(d);
            let f = match g.r.n(3) {
                0 => {
                    let s = g.kw("ASC");
                    tu!(Asc, s)
                }
                1 => {
                    let s = g.kw("DESC");
                    tu!(Desc, s)
                }
                _ => at("None"),
            };
            tup!(e, f)
        })
    }
    fn window(&mut self, d: u32) -> N {
        self.f("expr.window");
        let (f, s) = self.function_name();
        let args = self.paren(|g| g.arguments(d - 1));
        let over = self.kw("OVER");
        self.op("(");
        let o = self.kw("ORDER BY");
        let l = self.order(d - 1, 3);
        self.op(")");
        st!(WindowFunction { function: f, args: args, function_span: s, over_span: over, window_spec: st!(WindowSpec { order_by: tup!(o, l) }) })
    }
}
