//! Generator of texts together with the tree they are meant to give.
//!
//! Every method writes tokens and returns what the parser is expected to report for them. The
//! expectation is written from the documented grammar, never from the output of the parser.
use crate::n::{at, N, S};
use crate::render::{Tok, K};
use crate::rng::Rng;
use crate::words;
use crate::{st, tu, tup};
use std::collections::BTreeMap;

pub const M: u8 = 1;
pub const P: u8 = 2;
pub const L: u8 = 4;
pub const ALL: u8 = 7;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Args {
    Question,
    Percent,
    Dollar,
    None,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// One of M, P, L
    pub dialect: u8,
    pub args: Args,
    pub list_hack: bool,
    /// Number of tokens after which only the smallest alternatives are chosen
    pub limit: usize,
    pub depth: u32,
    /// Percentage of names that are quoted
    pub quoted: usize,
    /// Percentage of operands that are placeholders
    pub arg_pct: usize,
    /// Bias towards syntax of the chosen dialect
    pub only: usize,
    /// Now and then up to this many elements in a list, characters in a name or pieces in a string
    pub scale: usize,
    /// Kinds of operand to prefer
    pub focus: &'static [usize],
}

impl Cfg {
    pub fn new(r: &mut Rng) -> Cfg {
        Cfg {
            dialect: [M, M, P, P, L][r.n(5)],
            args: [Args::Question, Args::Percent, Args::Dollar, Args::Question, Args::Percent, Args::Dollar, Args::None][r.n(7)],
            list_hack: r.p(30),
            limit: [8, 20, 40, 80, 160][r.n(5)],
            depth: [1, 2, 3, 4][r.n(4)],
            quoted: 12,
            arg_pct: 10,
            only: 30,
            scale: if r.p(3) { [20, 70, 300, 1000][r.n(4)] } else { 0 },
            focus: &[],
                    }
    }
}

pub struct G {
    pub r: Rng,
    pub cfg: Cfg,
    pub toks: Vec<Tok>,
    /// Dialects that accept the text
    pub mask: u8,
    /// Dialects for which acceptance is not documented
    pub unk: u8,
    pub arg: usize,
    /// Tokens that are names, with "written without quotes"
    pub names: Vec<(usize, bool)>,
    pub feats: BTreeMap<&'static str, u64>,
    ex: bool,
    /// Number of times an expectation depends on the dialect
    pub dialect_value: bool,
}

pub const SHORT: &[&str] = &["a", "b", "c", "t", "u", "x", "y", "id", "foo", "bar", "t1", "Users", "colA", "_z9", "x_y", "val_1", "A", "zZ", "__", "orders_2", "selects", "fromm", "ordr", "x1", "e1", "_utf", "n", "b1", "nul"];

impl G {
    pub fn new(r: Rng, cfg: Cfg) -> G {
        G { r, cfg, toks: Vec::new(), mask: ALL, unk: 0, arg: 0, names: Vec::new(), feats: BTreeMap::new(), ex: false, dialect_value: false }
    }
    pub fn f(&mut self, s: &'static str) {
        *self.feats.entry(s).or_default() += 1;
    }
    /// May more than the smallest alternative be written?
    pub fn more(&self) -> bool {
        self.toks.len() < self.cfg.limit
    }
    /// Write an optional part in `p` percent of the cases
    pub fn o(&mut self, p: usize) -> bool {
        self.more() && self.r.p(p)
    }
    /// Restrict the text to `mask`, when the dialect written for is one of them
    pub fn gate(&mut self, mask: u8) -> bool {
        if mask & self.cfg.dialect != 0 {
            self.mask &= mask;
            true
        } else {
            false
        }
    }
    /// Optional part of the dialects in `mask`
    pub fn og(&mut self, p: usize, mask: u8) -> bool {
        let p = if mask == ALL { p } else { p.max(self.cfg.only.min(p * 3)) };
        self.o(p) && self.gate(mask)
    }
    pub fn is(&self, mask: u8) -> bool {
        self.cfg.dialect & mask != 0
    }
    pub fn push(&mut self, k: K, t: impl Into<String>) -> S {
        self.toks.push(Tok { k, t: t.into(), ex: self.ex });
        S(self.toks.len() - 1, self.toks.len())
    }
    /// One or more keywords, giving the span of all of them
    pub fn kw(&mut self, s: &str) -> S {
        let st = self.toks.len();
        for w in s.split(' ') {
            self.push(K::Kw, w);
        }
        S(st, self.toks.len())
    }
    /// Same, the last of several alternatives
    pub fn kwo(&mut self, yes: bool, s: &str) -> Option<S> {
        if yes {
            Some(self.kw(s))
        } else {
            None
        }
    }
    pub fn op(&mut self, s: &str) -> S {
        self.push(K::Op, s)
    }
    /// Tokens that have no leaf in the tree by design
    pub fn exempt<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        let o = self.ex;
        self.ex = true;
        let r = f(self);
        self.ex = o;
        r
    }
    /// `n` times, separated by commas
    pub fn list(&mut self, lo: usize, hi: usize, f: &mut dyn FnMut(&mut G) -> N) -> Vec<N> {
        let n = if self.more() || self.cfg.scale > 0 { self.times(lo, hi) } else { lo };
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.op(",");
            }
            v.push(f(self));
        }
        v
    }
    /// Should something unusually large be written?
    /// How often something is repeated: mostly up to `hi`, at times more
    pub fn times(&mut self, lo: usize, hi: usize) -> usize {
        if self.big(hi) {
            self.f("size.long_list");
            hi + self.r.n(self.cfg.scale)
        } else if hi > 1 && self.more() && self.r.p(4) {
            self.f("size.longer_list");
            let n = hi + 1 + self.r.n(8);
            self.cfg.limit += 4 * n;
            n
        } else if self.more() {
            self.r.r(lo, hi)
        } else {
            lo
        }
    }
    fn big(&mut self, hi: usize) -> bool {
        self.cfg.scale > 0 && hi > 1 && self.toks.len() < 4 * self.cfg.scale && self.r.p(6)
    }
    pub fn paren<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        self.op("(");
        let r = f(self);
        self.op(")");
        r
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        self.r.pick(v).clone()
    }

    // Names

    pub fn word(&mut self) -> String {
        if self.cfg.scale > 0 && self.r.p(3) {
            self.f("size.long_name");
            let n = self.r.n(self.cfg.scale) + 10;
            let a = self.pick(SHORT);
            return format!("{a}_{}", "xY_3".repeat(n / 4 + 1));
        }
        match self.r.n(10) {
            0..=5 => self.pick(SHORT).to_string(),
            6 | 7 => loop {
                let n = self.r.n(8);
                let mut s = String::new();
                s.push(*self.r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") as char);
                for _ in 0..n {
                    s.push(*self.r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") as char);
                }
                if !words::is_keyword(&s) {
                    return s;
                }
            },
            8 => {
                let w = self.pick(words::idle_keywords());
                match self.r.n(3) {
                    0 => w.to_string(),
                    1 => w.to_ascii_lowercase(),
                    _ => w.chars().map(|c| if self.r.p(50) { c.to_ascii_lowercase() } else { c }).collect(),
                }
            }
            _ => loop {
                // Close to a keyword
                let w = self.pick(words::keywords());
                let s = match self.r.n(4) {
                    0 => format!("{w}_"),
                    1 => format!("_{w}"),
                    2 => format!("{}1", w.to_ascii_lowercase()),
                    _ => w[..w.len() - 1].to_ascii_lowercase(),
                };
                if !s.is_empty() && !words::is_keyword(&s) {
                    return s;
                }
            },
        }
    }
    pub fn quoted_word(&mut self) -> String {
        match self.r.n(5) {
            0 => self.pick(words::reserved()).to_string(),
            1 => self.pick(words::keywords()).to_ascii_lowercase(),
            2 => self.pick(&["1", "42x", "a-b", "-", "x--y", "0", "_", "1-2", "selects", "123"]).to_string(),
            _ => self.word(),
        }
    }
    fn name(&mut self, value: String, quote: &str) -> N {
        let s = if quote.is_empty() {
            self.push(K::Id, value.clone())
        } else {
            self.push(K::Q, format!("{quote}{value}{quote}"))
        };
        self.names.push((s.0, quote.is_empty()));
        st!(Identifier { value: value, span: s })
    }
    fn backtick(&mut self) -> bool {
        self.cfg.quoted > 0 && self.is(M | L) && self.r.p(self.cfg.quoted) && self.gate(M | L)
    }
    /// A name where the parser wants a single word, such as an alias without AS
    pub fn id_word(&mut self) -> N {
        if self.backtick() {
            let w = self.quoted_word();
            self.name(w, "`")
        } else {
            let w = self.word();
            self.name(w, "")
        }
    }
    /// Any other name
    pub fn id(&mut self) -> N {
        if self.is(P) && self.r.p(self.cfg.quoted) && self.gate(P) {
            self.f("name.pg_quoted");
            let w = match self.r.n(4) {
                3 => (0..self.r.r(1, 6)).map(|_| self.r.ch()).filter(|c| !matches!(c, '"' | '\\')).collect::<String>() + "x",
                0 => self.pick(&["Two Words", "é日本", "a.b", "it's", "semi;colon", "-- no", "/* no */", "(", "`", "%s ? $1"]).to_string(),
                _ => self.quoted_word(),
            };
            return self.name(w, "\"");
        }
        self.id_word()
    }
    pub fn id_list(&mut self, lo: usize, hi: usize) -> Vec<N> {
        self.list(lo, hi, &mut |g| g.id())
    }
    /// Qualified name. `first_word`: the first part must be a plain word
    pub fn qname_(&mut self, first_word: bool) -> N {
        let n = if self.o(20) { self.times(1, 2) } else { 0 };
        let mut prefix = Vec::new();
        let mut cur = if first_word { self.id_word() } else { self.id() };
        for _ in 0..n {
            let dot = self.op(".");
            prefix.push(tup!(cur, dot));
            cur = self.id();
        }
        if n > 0 {
            self.f("name.qualified");
        }
        st!(QualifiedName { prefix: prefix, identifier: cur })
    }
    pub fn qname(&mut self) -> N {
        self.qname_(false)
    }

    // Literals

    pub fn int_text(&mut self) -> (u64, String) {
        let v: u64 = match self.r.n(10) {
            0..=4 => self.r.n(20) as u64,
            5 => self.r.n(100_000) as u64,
            6 => [u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 32, (1 << 32) - 1, 1 << 53, 10_000_000_000_000_000_000][self.r.n(8)],
            7 => self.r.u64(),
            8 => 1u64 << self.r.n(64),
            _ => 0,
        };
        let t = if self.r.p(10) { format!("{}{v}", "0".repeat(self.r.r(1, 30))) } else { v.to_string() };
        (v, t)
    }
    pub fn int(&mut self) -> N {
        let (v, t) = self.int_text();
        let s = self.push(K::Num, t);
        tup!(v, s)
    }
    /// A number no larger than `max`
    pub fn small(&mut self, max: u64) -> (u64, S) {
        let v = match self.r.n(4) {
            0 => max,
            1 => 0,
            _ => self.r.u64() % (max.min(300) + 1),
        };
        let t = if self.r.p(5) { format!("00{v}") } else { v.to_string() };
        let s = self.push(K::Num, t);
        (v, s)
    }
    pub fn float_text(&mut self) -> (f64, String) {
        let i = match self.r.n(5) {
            0 => String::new(),
            1 => "0".into(),
            2 => self.r.u64().to_string(),
            _ => self.r.n(1000).to_string(),
        };
        let f = match self.r.n(5) {
            0 if !i.is_empty() => String::new(),
            1 => "0".into(),
            2 => format!("{}{}", "0".repeat(self.r.n(25)), self.r.u64()),
            3 => ["1", "25", "5", "125", "333333333333333333333"][self.r.n(5)].into(),
            _ => self.r.n(100).to_string(),
        };
        let t = format!("{i}.{f}");
        let v: f64 = format!("0{i}.{f}0").parse().unwrap();
        (v, t)
    }
    /// Content of one string literal: (source between the quotes, value)
    fn string_piece(&mut self, quote: char) -> (String, String) {
        let other = if quote == '\'' { '"' } else { '\'' };
        let n = match self.r.n(6) {
            0 => 0,
            1..=3 => self.r.n(3),
            _ if self.cfg.scale > 0 => self.r.n(self.cfg.scale),
            _ => self.r.n(7),
        };
        let (mut src, mut val) = (String::new(), String::new());
        for _ in 0..n {
            match self.r.n(14) {
                0 => {
                    src.push(quote);
                    src.push(quote);
                    val.push(quote);
                }
                1 => {
                    src.push(other);
                    val.push(other);
                    if self.r.p(50) {
                        src.push(other);
                        val.push(other);
                    }
                }
                2 | 3 => {
                    let c = self.pick(&['0', 'b', 'n', 'r', 't', 'Z', '%', '_', '\\', '\'', '"', 'a', 'x', 'N', 'é', ' ', '\n', 'z', 'B', '1', '日']);
                    src.push('\\');
                    src.push(c);
                    self.dialect_value = true;
                    if self.is(M) {
                        match c {
                            '0' => val.push('\0'),
                            'b' => val.push('\u{8}'),
                            'n' => val.push('\n'),
                            'r' => val.push('\r'),
                            't' => val.push('\t'),
                            'Z' => val.push('\u{1a}'),
                            '%' | '_' => {
                                val.push('\\');
                                val.push(c)
                            }
                            c => val.push(c),
                        }
                    } else {
                        val.push('\\');
                        val.push(c);
                    }
                }
                4 => {
                    let c = self.r.ch();
                    if c != quote && c != '\\' {
                        src.push(c);
                        val.push(c);
                    }
                }
                _ => {
                    let s = self.pick(&[
                        "a", "x y", "1", "é", "日本", "😀", "\n", "\t", "-- no", "/* no */", "//", "#", ";", "%s", "?", "$1", "(", ")", "`", "%", "_", "\r\n", "SELECT", "a.b", "\u{0}", "\u{7f}", "ß", "=", "DELIMITER $$", "$$",
                    ]);
                    src.push_str(s);
                    val.push_str(s);
                }
            }
        }
        (src, val)
    }
    /// String literal, possibly in several adjacent pieces
    pub fn string(&mut self) -> N {
        let n = if self.o(10) { self.times(2, 4) } else { 1 };
        let st = self.toks.len();
        let mut val = String::new();
        for _ in 0..n {
            let q = if self.r.p(70) { '\'' } else { '"' };
            let (s, v) = self.string_piece(q);
            self.push(K::Str, format!("{q}{s}{q}"));
            val.push_str(&v);
        }
        if n > 1 {
            self.f("lit.adjacent");
        }
        st!(SString { value: val, span: S(st, st + n) })
    }
    /// Text of a string literal with the given quote
    pub fn string_with(&mut self, q: char) -> (String, String) {
        let (s, v) = self.string_piece(q);
        (format!("{q}{s}{q}"), v)
    }
    pub fn placeholder(&mut self) -> N {
        match self.cfg.args {
            Args::Question => {
                let s = self.push(K::Arg, "?");
                self.arg += 1;
                tu!(Arg, tup!(self.arg - 1, s))
            }
            Args::Percent => {
                let s = self.push(K::Arg, "%s");
                self.arg += 1;
                tu!(Arg, tup!(self.arg - 1, s))
            }
            Args::Dollar => {
                let i = match self.r.n(4) {
                    0 => self.r.r(1, 1000),
                    _ => self.r.r(1, 12),
                };
                let s = self.push(K::Arg, format!("${i}"));
                tu!(Arg, tup!(i - 1, s))
            }
            Args::None => {
                let s = self.kw("NULL");
                tu!(Null, s)
            }
        }
    }

    // Types

    fn width(&mut self, p: usize) -> N {
        if self.o(p) {
            self.f("type.width");
            self.op("(");
            let (v, s) = self.small(u32::MAX as u64);
            self.op(")");
            N::from(Some(tup!(v, s)))
        } else {
            at("None")
        }
    }
    fn strings(&mut self) -> Vec<N> {
        self.op("(");
        let v = self.list(1, 4, &mut |g| g.string());
        self.op(")");
        v
    }
    /// `no_as`: no generated column expression; `props`: with properties
    pub fn data_type(&mut self, props: bool, no_as: bool, d: u32) -> N {
        let k = self.r.n(36);
        let st = self.toks.len();
        macro_rules! w {
            ($k:expr, $v:ident) => {{
                let i = self.kw($k);
                let w = self.width(40);
                self.f(concat!("type.", stringify!($v)));
                (i, N::Tu(stringify!($v), vec![w]))
            }};
        }
        macro_rules! u {
            ($k:expr, $v:ident) => {{
                let i = self.kw($k);
                self.f(concat!("type.", stringify!($v)));
                (i, at(stringify!($v)))
            }};
        }
        let (identifier, type_) = match k {
            0 => u!("BOOLEAN", Boolean),
            1 => w!("TINYINT", TinyInt),
            2 => w!("SMALLINT", SmallInt),
            3 => w!("INTEGER", Integer),
            4 | 5 => w!("INT", Int),
            6 => w!("BIGINT", BigInt),
            7 => u!("INET4", Inet4),
            8 => u!("INET6", Inet6),
            9 => w!("TINYTEXT", TinyText),
            10 => w!("CHAR", Char),
            11 => w!("TEXT", Text),
            12 => w!("MEDIUMTEXT", MediumText),
            13 => w!("LONGTEXT", LongText),
            14 | 15 => w!("VARCHAR", VarChar),
            16 => w!("TINYBLOB", TinyBlob),
            17 => w!("BLOB", Blob),
            18 => w!("MEDIUMBLOB", MediumBlob),
            19 => w!("LONGBLOB", LongBlob),
            20 => {
                let i = self.kw("VARBINARY");
                self.op("(");
                let (v, s) = self.small(u32::MAX as u64);
                self.op(")");
                self.f("type.VarBinary");
                (i, tu!(VarBinary, tup!(v, s)))
            }
            21 => w!("BINARY", Binary),
            22 => u!("FLOAT8", Float8),
            23 => {
                let i = self.kw("REAL");
                self.f("type.Real");
                self.dialect_value = true;
                if self.is(L) {
                    (i, tu!(Double, at("None")))
                } else {
                    (i, tu!(Float, at("None")))
                }
            }
            24 => {
                let i = self.kw("FLOAT");
                self.f("type.Float");
                (i, tu!(Float, at("None")))
            }
            25 => {
                let i = if self.is(P) {
                    self.gate(P);
                    self.kw("DOUBLE PRECISION")
                } else {
                    self.gate(M | L);
                    self.kw("DOUBLE")
                };
                self.f("type.Double");
                (i, tu!(Double, at("None")))
            }
            26 => {
                let i = self.kw("NUMERIC");
                let a = self.op("(");
                let (v1, _) = self.small(u32::MAX as u64);
                self.op(",");
                let (v2, _) = self.small(u32::MAX as u64);
                let b = self.op(")");
                self.f("type.Numeric");
                (i, tu!(Numeric, v1, v2, a.to(b)))
            }
            27 => w!("DATETIME", DateTime),
            28 => w!("TIME", Time),
            29 => u!("TIMESTAMPTZ", Timestamptz),
            30 => {
                let i = self.kw("TIMESTAMP");
                let w = self.width(40);
                let z = self.o(40);
                let z = self.kwo(z, "WITH TIME ZONE");
                self.f("type.Timestamp");
                (i, tu!(Timestamp, st!(Timestamp { width: w, with_time_zone: z })))
            }
            31 => u!("DATE", Date),
            32 => {
                let i = self.kw("ENUM");
                self.f("type.Enum");
                (i, tu!(Enum, self.strings()))
            }
            33 => {
                let i = self.kw("SET");
                self.f("type.Set");
                (i, tu!(Set, self.strings()))
            }
            34 => match self.r.n(3) {
                0 => u!("JSON", Json),
                1 => u!("BYTEA", Bytea),
                _ => {
                    let i = self.kw("BIT");
                    self.op("(");
                    let (v, s) = self.small(u32::MAX as u64);
                    self.op(")");
                    self.f("type.Bit");
                    (i, tu!(Bit, v, s))
                }
            },
            _ => {
                if self.gate(P) {
                    let w = self.word();
                    let s = self.push(K::Id, w);
                    self.f("type.Named");
                    (s, tu!(Named, N::KeySp(s)))
                } else {
                    u!("DATE", Date)
                }
            }
        };
        let _ = st;
        let mut p = Vec::new();
        if props {
            let n = if self.o(60) { self.times(1, 4) } else { 0 };
            for _ in 0..n {
                p.push(self.property(no_as, d));
            }
        }
        st!(DataType { identifier: identifier, type_: type_, properties: p })
    }
    fn property(&mut self, no_as: bool, d: u32) -> N {
        macro_rules! k {
            ($k:expr, $v:ident) => {{
                let i = self.kw($k);
                self.f(concat!("prop.", stringify!($v)));
                N::Tu(stringify!($v), vec![N::Sp(i)])
            }};
        }
        match self.r.n(20) {
            0 => k!("SIGNED", Signed),
            1 => k!("UNSIGNED", Unsigned),
            2 => k!("ZEROFILL", Zerofill),
            3 => k!("NULL", Null),
            4 | 5 => k!("NOT NULL", NotNull),
            6 => k!("VIRTUAL", Virtual),
            7 => k!("PERSISTENT", Persistent),
            8 => k!("STORED", Stored),
            9 => k!("UNIQUE", Unique),
            10 => k!("UNIQUE KEY", UniqueKey),
            11 => k!("AUTO_INCREMENT", AutoIncrement),
            12 => k!("PRIMARY KEY", PrimaryKey),
            13 => {
                if self.is(P) {
                    self.gate(P);
                    k!("GENERATED ALWAYS AS IDENTITY", GeneratedAlways)
                } else {
                    self.gate(M | L);
                    k!("GENERATED ALWAYS", GeneratedAlways)
                }
            }
            14 => {
                self.kw("DEFAULT");
                self.f("prop.Default");
                let e = self.inner(d);
                tu!(Default, e)
            }
            15 => {
                self.kw("COMMENT");
                self.f("prop.Comment");
                let s = self.string();
                tu!(Comment, s)
            }
            16 => {
                self.kw("CHARACTER SET");
                self.f("prop.Charset");
                let s = self.id();
                tu!(Charset, s)
            }
            17 => {
                self.kw("COLLATE");
                self.f("prop.Collate");
                let s = self.id();
                tu!(Collate, s)
            }
            18 if !no_as => {
                let s = self.kw("AS");
                self.f("prop.As");
                let e = self.paren(|g| g.expr(d));
                tu!(As, tup!(s, e))
            }
            _ => {
                let s = self.kw("CHECK");
                self.f("prop.Check");
                let e = self.paren(|g| g.expr(d));
                tu!(Check, tup!(s, e))
            }
        }
    }
}
