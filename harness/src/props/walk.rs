//! Every node with a public type in a tree, with the span it computes and the positions printed in it.
use sql_parse::*;
use std::fmt::Debug;

/// Name, computed span, smallest and largest position recorded anywhere in the node
pub struct Node {
    pub name: &'static str,
    pub span: (usize, usize),
    pub hull: Option<(usize, usize)>,
    /// `{:?}` of the node, when asked for
    pub dbg: String,
}

#[derive(Default)]
pub struct V {
    pub nodes: Vec<Node>,
    /// Kinds of node to print
    pub print: &'static [&'static str],
}

/// Smallest and largest position printed in `{:?}`. String contents are skipped
fn hull(s: &str) -> Option<(usize, usize)> {
    let b = s.as_bytes();
    let mut h: Option<(usize, usize)> = None;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            i += 1;
            while b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
        } else if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            if b.get(i) == Some(&b'.') && b.get(i + 1) == Some(&b'.') {
                let a: usize = s[st..i].parse().unwrap();
                let e = i + 2;
                i = e;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                let z: usize = s[e..i].parse().unwrap();
                h = Some(h.map_or((a, z), |(p, q)| (p.min(a), q.max(z))));
            }
        } else {
            i += 1
        }
    }
    h
}

impl V {
    fn node<T: Spanned + Debug>(&mut self, name: &'static str, t: &T) {
        let s = t.span();
        let d = format!("{t:?}");
        let hull = hull(&d);
        self.nodes.push(Node { name, span: (s.start, s.end), hull, dbg: if self.print.contains(&name) { d } else { String::new() } });
    }
    fn opt<T: OptSpanned + Debug>(&mut self, name: &'static str, t: &T) {
        if let Some(s) = t.opt_span() {
            self.nodes.push(Node { name, span: (s.start, s.end), hull: hull(&format!("{t:?}")), dbg: String::new() });
        }
    }
    fn order<T: OptSpanned + Debug>(&mut self, o: &[(Expression, T)]) {
        for (e, f) in o {
            e.w(self);
            self.opt("OrderFlag", f);
        }
    }
    fn order_by<T: OptSpanned + Debug>(&mut self, o: &Option<(Span, Vec<(Expression, T)>)>) {
        if let Some((_, o)) = o {
            self.order(o)
        }
    }
}

pub trait W {
    fn w(&self, v: &mut V);
}

macro_rules! none {
    ($($t:ty),*) => {$(impl W for $t { fn w(&self, _: &mut V) {} })*};
}
none!(Span, usize, u32, u64, i64, f64, bool, &str, Function<'_>, Variable<'_>, Is, TimeUnit, BinaryOperator, UnaryOperator);

impl<T: W> W for Vec<T> {
    fn w(&self, v: &mut V) {
        for i in self {
            i.w(v)
        }
    }
}
impl<T: W> W for Option<T> {
    fn w(&self, v: &mut V) {
        if let Some(i) = self {
            i.w(v)
        }
    }
}
impl<T: W> W for Box<T> {
    fn w(&self, v: &mut V) {
        (**self).w(v)
    }
}
impl<A: W, B: W> W for (A, B) {
    fn w(&self, v: &mut V) {
        self.0.w(v);
        self.1.w(v);
    }
}
impl<A: W, B: W, C: W> W for (A, B, C) {
    fn w(&self, v: &mut V) {
        self.0.w(v);
        self.1.w(v);
        self.2.w(v);
    }
}

macro_rules! st {
    ($($t:ident $n:literal: $($f:ident)*;)*) => {$(impl W for $t<'_> {
        fn w(&self, v: &mut V) {
            v.node($n, self);
            $(self.$f.w(v);)*
        }
    })*};
}
macro_rules! leaf {
    ($($t:ty, $n:literal;)*) => {$(impl W for $t { fn w(&self, v: &mut V) { v.node($n, self) } })*};
}
leaf! {
    Identifier<'_>, "Identifier";
    SString<'_>, "SString";
    IndexOption<'_>, "IndexOption";
    IndexType, "IndexType";
    ForeignKeyOnType, "ForeignKeyOnType";
    ForeignKeyOnAction, "ForeignKeyOnAction";
    CreateAlgorithm, "CreateAlgorithm";
    CreateOption<'_>, "CreateOption";
    TableOption<'_>, "TableOption";
    DeleteFlag, "DeleteFlag";
    InsertReplaceFlag, "InsertReplaceFlag";
    InsertReplaceType, "InsertReplaceType";
    JoinType, "JoinType";
    IndexHintUse, "IndexHintUse";
    IndexHintType, "IndexHintType";
    IndexHintFor, "IndexHintFor";
    SelectFlag, "SelectFlag";
    UpdateFlag, "UpdateFlag";
}
impl W for ForeignKeyOn {
    fn w(&self, v: &mut V) {
        v.node("ForeignKeyOn", self);
        self.type_.w(v);
        self.action.w(v);
    }
}
impl W for UnionType {
    fn w(&self, v: &mut V) {
        v.opt("UnionType", self)
    }
}
st! {
    IndexCol "IndexCol": name;
    AlterTable "AlterTable": table alter_specifications;
    CreateTable "CreateTable": create_options identifier create_definitions options;
    CreateView "CreateView": create_options name select;
    CreateTrigger "CreateTrigger": create_options name table statement;
    DataType "DataType": type_ properties;
    Delete "Delete": flags tables using where_ returning;
    DropTable "DropTable": tables;
    DropView "DropView": views;
    DropDatabase "DropDatabase": database;
    DropEvent "DropEvent": event;
    DropFunction "DropFunction": function;
    DropProcedure "DropProcedure": procedure;
    DropServer "DropServer": server;
    DropTrigger "DropTrigger": identifier;
    DropIndex "DropIndex": index_name on;
    When "When": when then;
    OnConflict "OnConflict": target action;
    InsertReplaceSetPair "InsertReplaceSetPair": column value;
    InsertReplaceSet "InsertReplaceSet": pairs;
    InsertReplaceOnDuplicateKeyUpdate "InsertReplaceOnDuplicateKeyUpdate": pairs;
    InsertReplace "InsertReplace": type_ flags table columns values select set on_duplicate_key_update on_conflict returning;
    QualifiedName "QualifiedName": prefix identifier;
    TableToTable "TableToTable": table new_table;
    RenameTable "RenameTable": table_to_tables;
    SelectExpr "SelectExpr": expr as_;
    IndexHint "IndexHint": use_ type_ for_ index_list;
    UnionWith "UnionWith": union_type union_statement;
    TruncateTable "TruncateTable": table_name;
    Update "Update": flags tables set where_ returning;
    WithBlock "WithBlock": identifier statement;
    WithQuery "WithQuery": with_blocks statement;
}
impl W for CreateFunction<'_> {
    fn w(&self, v: &mut V) {
        v.node("CreateFunction", self);
        self.create_options.w(v);
        self.name.w(v);
        for (d, n, t) in &self.params {
            if let Some(d) = d {
                v.node("FunctionParamDirection", d)
            }
            n.w(v);
            t.w(v);
        }
        self.return_type.w(v);
        for c in &self.characteristics {
            v.node("FunctionCharacteristic", c)
        }
        self.return_.w(v);
    }
}
impl W for Select<'_> {
    fn w(&self, v: &mut V) {
        v.node("Select", self);
        self.flags.w(v);
        self.select_exprs.w(v);
        self.table_references.w(v);
        self.where_.w(v);
        self.group_by.w(v);
        self.having.w(v);
        v.order_by(&self.order_by);
        self.limit.w(v);
        if let Some(l) = &self.locking {
            v.node("Locking", l);
            v.node("LockStrength", &l.strength);
            v.opt("LockWait", &l.wait);
            l.of.w(v);
        }
    }
}
impl W for Union<'_> {
    fn w(&self, v: &mut V) {
        v.node("Union", self);
        self.left.w(v);
        self.with.w(v);
        v.order_by(&self.order_by);
        self.limit.w(v);
    }
}
impl W for OnConflictTarget<'_> {
    fn w(&self, v: &mut V) {
        v.opt("OnConflictTarget", self);
        match self {
            OnConflictTarget::Columns { names } => names.w(v),
            OnConflictTarget::OnConstraint { name, .. } => name.w(v),
            _ => {}
        }
    }
}
impl W for OnConflictAction<'_> {
    fn w(&self, v: &mut V) {
        v.node("OnConflictAction", self);
        if let OnConflictAction::DoUpdateSet { sets, where_, .. } = self {
            sets.w(v);
            where_.w(v);
        }
    }
}
impl W for Type<'_> {
    fn w(&self, v: &mut V) {
        v.opt("Type", self)
    }
}
impl W for DataTypeProperty<'_> {
    fn w(&self, v: &mut V) {
        v.node("DataTypeProperty", self);
        match self {
            DataTypeProperty::Default(e) => e.w(v),
            DataTypeProperty::As((_, e)) | DataTypeProperty::Check((_, e)) => e.w(v),
            DataTypeProperty::Comment(s) => s.w(v),
            DataTypeProperty::Charset(i) | DataTypeProperty::Collate(i) => i.w(v),
            _ => {}
        }
    }
}
impl W for AlterColumnAction<'_> {
    fn w(&self, v: &mut V) {
        v.node("AlterColumnAction", self);
        match self {
            AlterColumnAction::SetDefault { value, .. } => value.w(v),
            AlterColumnAction::Type { type_, .. } => type_.w(v),
            _ => {}
        }
    }
}
impl W for AlterSpecification<'_> {
    fn w(&self, v: &mut V) {
        use AlterSpecification::*;
        v.node("AlterSpecification", self);
        match self {
            AddColumn { identifier, data_type, .. } => {
                identifier.w(v);
                data_type.w(v);
            }
            AddIndex { index_type, name, constraint, cols, index_options, .. } => {
                index_type.w(v);
                name.w(v);
                constraint.w(v);
                cols.w(v);
                index_options.w(v);
            }
            AddForeignKey { constraint, name, cols, references_table, references_cols, ons, .. } => {
                constraint.w(v);
                name.w(v);
                cols.w(v);
                references_table.w(v);
                references_cols.w(v);
                ons.w(v);
            }
            Modify { col, definition, .. } => {
                col.w(v);
                definition.w(v);
            }
            DropColumn { column, .. } => column.w(v),
            AlterColumn { column, alter_column_action, .. } => {
                column.w(v);
                alter_column_action.w(v);
            }
            OwnerTo { owner, .. } => owner.w(v),
        }
    }
}
impl W for CreateDefinition<'_> {
    fn w(&self, v: &mut V) {
        v.node("CreateDefinition", self);
        match self {
            CreateDefinition::ColumnDefinition { identifier, data_type } => {
                identifier.w(v);
                data_type.w(v);
            }
            CreateDefinition::ConstraintDefinition { identifier, .. } => identifier.w(v),
        }
    }
}
impl W for IdentifierPart<'_> {
    fn w(&self, v: &mut V) {
        v.node("IdentifierPart", self)
    }
}
impl W for JoinSpecification<'_> {
    fn w(&self, v: &mut V) {
        v.node("JoinSpecification", self);
        match self {
            JoinSpecification::On(e, _) => e.w(v),
            JoinSpecification::Using(i, _) => i.w(v),
        }
    }
}
impl W for TableReference<'_> {
    fn w(&self, v: &mut V) {
        v.node("TableReference", self);
        match self {
            TableReference::Table { identifier, as_, index_hints, .. } => {
                identifier.w(v);
                as_.w(v);
                index_hints.w(v);
            }
            TableReference::Query { query, as_, .. } => {
                query.w(v);
                as_.w(v);
            }
            TableReference::Join { join, left, right, specification } => {
                join.w(v);
                left.w(v);
                right.w(v);
                specification.w(v);
            }
        }
    }
}
impl W for Expression<'_> {
    fn w(&self, v: &mut V) {
        use Expression::*;
        let name = match self {
            Binary { .. } => "Expression::Binary",
            Unary { .. } => "Expression::Unary",
            Subquery(_) => "Expression::Subquery",
            Function(..) => "Expression::Function",
            WindowFunction { .. } => "Expression::WindowFunction",
            Identifier(_) => "Expression::Identifier",
            Interval { .. } => "Expression::Interval",
            Exists(_) => "Expression::Exists",
            Extract { .. } => "Expression::Extract",
            In { .. } => "Expression::In",
            Is(..) => "Expression::Is",
            Case { .. } => "Expression::Case",
            Cast { .. } => "Expression::Cast",
            Count { .. } => "Expression::Count",
            GroupConcat { .. } => "Expression::GroupConcat",
            Variable { .. } => "Expression::Variable",
            TimestampAdd { .. } => "Expression::TimestampAdd",
            TimestampDiff { .. } => "Expression::TimestampDiff",
            _ => "Expression",
        };
        v.node(name, self);
        match self {
            Binary { lhs, rhs, .. } => {
                lhs.w(v);
                rhs.w(v);
            }
            Unary { operand, .. } => operand.w(v),
            Subquery(s) | Exists(s) => s.w(v),
            String(s) => s.w(v),
            Function(_, a, _) => a.w(v),
            WindowFunction { args, window_spec, .. } => {
                args.w(v);
                v.node("WindowSpec", window_spec);
                v.order(&window_spec.order_by.1);
            }
            Identifier(i) => i.w(v),
            Extract { date, .. } => date.w(v),
            In { lhs, rhs, .. } => {
                lhs.w(v);
                rhs.w(v);
            }
            Is(e, ..) => e.w(v),
            Case { value, whens, else_, .. } => {
                value.w(v);
                whens.w(v);
                else_.w(v);
            }
            Cast { expr, type_, .. } => {
                expr.w(v);
                type_.w(v);
            }
            Count { expr, .. } | GroupConcat { expr, .. } => expr.w(v),
            TimestampAdd { interval, datetime, .. } => {
                interval.w(v);
                datetime.w(v);
            }
            TimestampDiff { e1, e2, .. } => {
                e1.w(v);
                e2.w(v);
            }
            _ => {}
        }
    }
}
impl W for Statement<'_> {
    fn w(&self, v: &mut V) {
        use Statement::*;
        v.node("Statement", self);
        match self {
            CreateIndex(s) => {
                v.node("CreateIndex", s);
                s.create_options.w(v);
                s.index_name.w(v);
                s.table_name.w(v);
                for o in &s.index_options {
                    v.node("CreateIndexOption", o)
                }
                s.column_names.w(v);
                s.where_.w(v);
            }
            CreateTable(s) => s.w(v),
            CreateView(s) => s.w(v),
            CreateTrigger(s) => {
                v.node("TriggerTime", &s.trigger_time);
                v.node("TriggerEvent", &s.trigger_event);
                s.w(v)
            }
            CreateFunction(s) => s.w(v),
            Select(s) => s.w(v),
            Delete(s) => s.w(v),
            InsertReplace(s) => s.w(v),
            Update(s) => s.w(v),
            DropIndex(s) => s.w(v),
            DropTable(s) => s.w(v),
            DropFunction(s) => s.w(v),
            DropProcedure(s) => s.w(v),
            DropEvent(s) => s.w(v),
            DropDatabase(s) => s.w(v),
            DropServer(s) => s.w(v),
            DropTrigger(s) => s.w(v),
            DropView(s) => s.w(v),
            Set(s) => {
                v.node("Set", s);
                s.values.w(v);
            }
            Signal(s) => {
                v.node("Signal", s);
                s.sql_state.w(v);
                for (n, _, e) in &s.sets {
                    v.node("SignalConditionInformationName", n);
                    e.w(v);
                }
            }
            AlterTable(s) => s.w(v),
            Block(s, _) | Do(s, _) => s.w(v),
            If(s) => {
                v.node("If", s);
                for c in &s.conditions {
                    v.node("IfCondition", c);
                    c.search_condition.w(v);
                    c.then.w(v);
                }
                s.else_.w(v);
            }
            Union(s) => s.w(v),
            Case(s) => {
                v.node("CaseStatement", s);
                s.value.w(v);
                for c in &s.whens {
                    v.node("WhenStatement", c);
                    c.when.w(v);
                    c.then.w(v);
                }
                s.else_.w(v);
            }
            Copy(s) => {
                v.node("Copy", s);
                s.table.w(v);
                s.columns.w(v);
            }
            CreateTypeEnum(s) => {
                v.node("CreateTypeEnum", s);
                s.create_options.w(v);
                s.name.w(v);
                s.values.w(v);
            }
            TruncateTable(s) => s.w(v),
            RenameTable(s) => s.w(v),
            WithQuery(s) => s.w(v),
            Return(s) => {
                v.node("Return", s);
                s.expr.w(v);
            }
            _ => {}
        }
    }
}

pub fn nodes(s: &Statement) -> Vec<Node> {
    let mut v = V::default();
    s.w(&mut v);
    v.nodes
}

/// The same, with the `{:?}` of some kinds of node
pub fn printed(s: &Statement, print: &'static [&'static str]) -> Vec<Node> {
    let mut v = V { print, ..V::default() };
    s.w(&mut v);
    v.nodes
}
