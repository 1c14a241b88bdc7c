//! Lexer and parser for the part of PostgreSQL's SQL the stand-in server understands.

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    QId(String),
    Str(String),
    Num(String),
    Param(usize),
    Op(String),
    Body(String),
}

/// Why a statement is not run.
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// PostgreSQL would refuse it: SQLSTATE and message.
    Sql(&'static str, String),
    /// The stand-in does not know it: nothing can be concluded from the case.
    Unsupported(String),
}
pub type R<T> = Result<T, Fail>;
pub fn syntax<T>(m: impl Into<String>) -> R<T> {
    Err(Fail::Sql("42601", format!("syntax error: {}", m.into())))
}
pub fn unsupported<T>(m: impl Into<String>) -> R<T> {
    Err(Fail::Unsupported(m.into()))
}

pub fn lex(s: &str) -> R<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let string = |mut i: usize, escapes: bool| -> R<(String, usize)> {
        let mut t = String::new();
        loop {
            match c.get(i) {
                None => return syntax("unterminated string"),
                Some('\'') if c.get(i + 1) == Some(&'\'') => {
                    t.push('\'');
                    i += 2;
                }
                Some('\'') => return Ok((t, i + 1)),
                Some('\\') if escapes => {
                    t.push(match c.get(i + 1) {
                        Some('n') => '\n',
                        Some('t') => '\t',
                        Some(x) => *x,
                        None => return syntax("unterminated string"),
                    });
                    i += 2;
                }
                Some(x) => {
                    t.push(*x);
                    i += 1;
                }
            }
        }
    };
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '-' && at(i + 1) == '-' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '\'' {
            let (t, j) = string(i + 1, false)?;
            out.push(Tok::Str(t));
            i = j;
        } else if (x == 'e' || x == 'E') && at(i + 1) == '\'' {
            let (t, j) = string(i + 2, true)?;
            out.push(Tok::Str(t));
            i = j;
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return syntax("unterminated quoted identifier"),
                    Some('"') if at(i + 1) == '"' => {
                        t.push('"');
                        i += 2;
                    }
                    Some('"') => break,
                    Some(y) => {
                        t.push(*y);
                        i += 1;
                    }
                }
            }
            i += 1;
            out.push(Tok::QId(t));
        } else if x == '$' && at(i + 1).is_ascii_digit() {
            let mut j = i + 1;
            while at(j).is_ascii_digit() {
                j += 1;
            }
            let n: String = c[i + 1..j].iter().collect();
            out.push(Tok::Param(n.parse().map_err(|_| Fail::Sql("42601", "bad parameter".into()))?));
            i = j;
        } else if x == '$' {
            let mut j = i + 1;
            while at(j).is_alphanumeric() || at(j) == '_' {
                j += 1;
            }
            if at(j) != '$' {
                return syntax("stray $");
            }
            let tag: Vec<char> = c[i..=j].to_vec();
            let start = j + 1;
            let mut k = start;
            while k < c.len() && !c[k..].starts_with(&tag) {
                k += 1;
            }
            if k >= c.len() {
                return syntax("unterminated dollar-quoted string");
            }
            out.push(Tok::Body(c[start..k].iter().collect()));
            i = k + tag.len();
        } else if x.is_ascii_digit() || (x == '.' && at(i + 1).is_ascii_digit()) {
            let mut j = i;
            while at(j).is_ascii_digit() || at(j) == '.' {
                j += 1;
            }
            if (at(j) == 'e' || at(j) == 'E') && (at(j + 1).is_ascii_digit() || (at(j + 1) == '-' && at(j + 2).is_ascii_digit())) {
                j += 2;
                while at(j).is_ascii_digit() {
                    j += 1;
                }
            }
            out.push(Tok::Num(c[i..j].iter().collect()));
            i = j;
        } else if x.is_alphabetic() || x == '_' {
            let mut j = i;
            while at(j).is_alphanumeric() || at(j) == '_' || at(j) == '$' {
                j += 1;
            }
            out.push(Tok::Id(c[i..j].iter().collect::<String>().to_lowercase()));
            i = j;
        } else {
            let three: String = c[i..(i + 3).min(c.len())].iter().collect();
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            if three == "->>" {
                out.push(Tok::Op(three));
                i += 3;
            } else if ["::", "<=", ">=", "<>", "!=", "@>", "<@", "&&", "||", ":=", "->"].contains(&two.as_str()) {
                out.push(Tok::Op(if two == "!=" { "<>".into() } else { two }));
                i += 2;
            } else if "+-*/%<>=(),.;[]".contains(x) {
                out.push(Tok::Op(x.to_string()));
                i += 1;
            } else {
                if "~!@#^&|?`{}:".contains(x) {
                    return unsupported(format!("operator with {x:?}"));
                }
                return syntax(format!("at or near {x:?}"));
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------ types

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Bool,
    Bytea,
    Char,
    Int8,
    Int4,
    Int2,
    Text,
    Varchar,
    Name,
    Oid,
    Regtype,
    Json,
    Jsonb,
    Float8,
    Timestamp,
    Timestamptz,
    Interval,
    Void,
    Unknown,
    /// index into the database's enum types
    Enum(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ty {
    pub b: B,
    pub arr: bool,
}
pub const fn t(b: B) -> Ty {
    Ty { b, arr: false }
}
pub const fn ta(b: B) -> Ty {
    Ty { b, arr: true }
}
/// A type as written: resolved against the database later.
#[derive(Clone, Debug, PartialEq)]
pub struct TyName {
    pub name: String,
    pub arr: bool,
}

/// A SELECT from a subquery, as a plain SELECT where that is easily the same.
fn flatten(outer: Select, sub: Select, alias: &str) -> R<Select> {
    // what a column of the subquery stands for
    let column = |e: &Expr| -> R<Expr> {
        let Expr::Col(q, c) = e else { return unsupported("expression over a subquery") };
        if q.as_deref().is_some_and(|q| q != alias) {
            return unsupported("column over a subquery");
        }
        for it in &sub.items {
            match it {
                Item::Star => return Ok(Expr::Col(None, c.clone())),
                Item::Expr(e, Some(a)) if a == c => return Ok(e.clone()),
                Item::Expr(Expr::Col(q, d), None) if d == c => return Ok(Expr::Col(q.clone(), d.clone())),
                _ => {}
            }
        }
        unsupported("column of a subquery")
    };
    let mut items = vec![];
    for it in &outer.items {
        match it {
            Item::Star => items.extend(sub.items.iter().cloned()),
            Item::Expr(e, a) => {
                let name = a.clone().or(if let Expr::Col(_, c) = e { Some(c.clone()) } else { None });
                items.push(Item::Expr(column(e)?, name));
            }
        }
    }
    let plain = outer.filter.is_none() && outer.order.is_empty() && outer.limit.is_none() && outer.offset.is_none() && outer.lock.is_none();
    if plain {
        return Ok(Select { items, ..sub });
    }
    let bare = sub.order.is_empty() && sub.limit.is_none() && sub.offset.is_none() && sub.lock.is_none();
    let same = sub.items.iter().all(|i| matches!(i, Item::Star | Item::Expr(Expr::Col(None, _), None)));
    let text = format!("{:?}{:?}", outer.filter, outer.order);
    if bare && same && !text.contains("Col(Some") {
        let filter = match (sub.filter, outer.filter) {
            (Some(a), Some(b)) => Some(Expr::Bin("and".into(), Box::new(a), Box::new(b))),
            (a, b) => a.or(b),
        };
        return Ok(Select { items, from: sub.from, filter, order: outer.order, limit: outer.limit, offset: outer.offset, lock: outer.lock });
    }
    unsupported("subquery in FROM")
}

// ------------------------------------------------------------------ syntax trees

#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Col(Option<String>, String),
    Param(usize),
    Str(String),
    Num(String),
    Null,
    Bool(bool),
    Not(Box<Expr>),
    Neg(Box<Expr>),
    Bin(String, Box<Expr>, Box<Expr>),
    Cast(Box<Expr>, TyName),
    Func(String, Vec<Expr>),
    CountStar,
    Case(Option<Box<Expr>>, Vec<(Expr, Expr)>, Option<Box<Expr>>),
    In(Box<Expr>, Vec<Expr>, bool),
    InSub(Box<Expr>, Box<Select>, bool),
    /// operator, left, right (array), all?
    Quant(String, Box<Expr>, Box<Expr>, bool),
    QuantSub(String, Box<Expr>, Box<Select>, bool),
    IsNull(Box<Expr>, bool),
    IsBool(Box<Expr>, bool, bool),
    IsDistinct(Box<Expr>, Box<Expr>, bool),
    Exists(Box<Select>),
    Sub(Box<Select>),
    Array(Vec<Expr>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Star,
    Expr(Expr, Option<String>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    pub e: Expr,
    pub desc: bool,
    pub nulls_first: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LockMode {
    Wait,
    Skip,
    NoWait,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Select {
    pub items: Vec<Item>,
    pub from: Option<(String, Option<String>)>,
    pub filter: Option<Expr>,
    pub order: Vec<Order>,
    pub limit: Option<Expr>,
    pub offset: Option<Expr>,
    pub lock: Option<LockMode>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Select(Select),
    Insert { table: String, cols: Vec<String>, rows: Vec<Vec<Option<Expr>>>, returning: Vec<Item> },
    Update { table: String, alias: Option<String>, sets: Vec<(String, Option<Expr>)>, filter: Option<Expr>, returning: Vec<Item> },
    Delete { table: String, alias: Option<String>, filter: Option<Expr>, returning: Vec<Item> },
    Begin,
    Commit,
    Rollback,
    Savepoint,
    Listen(String),
    Unlisten(Option<String>),
    Notify(String, String),
    CreateTable { name: String, if_not_exists: bool, cols: Vec<ColDef> },
    CreateType { name: String, labels: Vec<String> },
    /// the statements of a DO block; errors of the given kind are swallowed
    Do { body: Vec<Stmt>, swallow_duplicate: bool },
    CreateFunction { name: String, body: Vec<PStmt> },
    CreateTrigger { name: String, table: String, events: Vec<String>, when: Option<Expr>, func: String },
    DropTrigger { name: String, table: String, if_exists: bool },
    Nothing(&'static str),
    Empty,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ColDef {
    pub name: String,
    pub ty: TyName,
    pub not_null: bool,
    pub default: Option<Expr>,
    pub serial: bool,
    pub key: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum PStmt {
    If(Vec<(Expr, Vec<PStmt>)>, Vec<PStmt>),
    Assign(String, Expr),
    Perform(Expr),
    Return,
    Null,
}

pub struct P {
    t: Vec<Tok>,
    i: usize,
    /// the common table expressions in scope
    ctes: Vec<(String, Select)>,
}

const RESERVED: &[&str] = &[
    "select", "from", "where", "order", "limit", "offset", "for", "returning", "set", "and", "or", "not", "in", "is", "case", "when", "then", "else", "end",
    "group", "having", "union", "as", "on", "values", "into", "desc", "asc", "any", "all", "some", "between", "like", "ilike", "join", "using", "fetch", "window", "intersect", "except", "with", "distinct", "default", "null", "true", "false", "array", "exists", "inner", "left", "right", "full", "cross", "lateral", "collate",
];

impl P {
    pub fn new(s: &str) -> R<P> {
        Ok(P { t: lex(s)?, i: 0, ctes: vec![] })
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> Option<Tok> {
        let x = self.t.get(self.i).cloned();
        self.i += 1;
        x
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == k)
    }
    fn kw_at(&self, n: usize, k: &str) -> bool {
        matches!(self.peek_at(n), Some(Tok::Id(x)) if x == k)
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        if self.kw(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn op(&self, k: &str) -> bool {
        matches!(self.peek(), Some(Tok::Op(x)) if x == k)
    }
    fn eat_op(&mut self, k: &str) -> bool {
        if self.op(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn here<T>(&self) -> R<T> {
        match self.peek() {
            Some(Tok::Id(k)) if ["group", "having", "union", "join", "window", "fetch", "intersect", "except", "with", "lateral", "over", "filter", "inner", "left", "cross", "using", "distinct", "collate", "similar", "at", "row", "grouping", "rollup", "overlaps", "escape"].contains(&k.as_str()) => {
                unsupported(format!("{k} (token {})", self.i))
            }
            Some(Tok::Op(k)) if k == "[" => unsupported("subscript"),
            Some(x) => syntax(format!("at or near {x:?}")),
            None => syntax("at end of input"),
        }
    }
    fn need_kw(&mut self, k: &str) -> R<()> {
        if self.eat_kw(k) { Ok(()) } else { self.here() }
    }
    fn need_op(&mut self, k: &str) -> R<()> {
        if self.eat_op(k) { Ok(()) } else { self.here() }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Id(x)) if !RESERVED.contains(&x.as_str()) => {
                let x = x.clone();
                self.i += 1;
                Ok(x)
            }
            Some(Tok::QId(x)) => {
                let x = x.clone();
                self.i += 1;
                Ok(x)
            }
            _ => self.here(),
        }
    }
    /// A possibly schema-qualified name; the schema is dropped.
    fn qname(&mut self) -> R<String> {
        let mut n = self.ident()?;
        while self.eat_op(".") {
            if n != "public" && n != "pg_catalog" {
                return unsupported(format!("schema {n}"));
            }
            n = self.ident()?;
        }
        Ok(n)
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }

    // -------------------------------------------------------------- expressions
    pub fn expr(&mut self) -> R<Expr> {
        let mut l = self.and_expr()?;
        while self.eat_kw("or") {
            l = Expr::Bin("or".into(), Box::new(l), Box::new(self.and_expr()?));
        }
        Ok(l)
    }
    fn and_expr(&mut self) -> R<Expr> {
        let mut l = self.not_expr()?;
        while self.eat_kw("and") {
            l = Expr::Bin("and".into(), Box::new(l), Box::new(self.not_expr()?));
        }
        Ok(l)
    }
    fn not_expr(&mut self) -> R<Expr> {
        if self.eat_kw("not") {
            return Ok(Expr::Not(Box::new(self.not_expr()?)));
        }
        self.is_expr()
    }
    fn is_expr(&mut self) -> R<Expr> {
        let mut l = self.cmp_expr()?;
        loop {
            if self.eat_kw("is") {
                let neg = self.eat_kw("not");
                l = if self.eat_kw("null") {
                    Expr::IsNull(Box::new(l), neg)
                } else if self.eat_kw("true") {
                    Expr::IsBool(Box::new(l), true, neg)
                } else if self.eat_kw("false") {
                    Expr::IsBool(Box::new(l), false, neg)
                } else if self.eat_kw("distinct") {
                    self.need_kw("from")?;
                    let r = self.cmp_expr()?;
                    Expr::IsDistinct(Box::new(l), Box::new(r), neg)
                } else {
                    return self.here();
                };
            } else if self.eat_kw("isnull") {
                l = Expr::IsNull(Box::new(l), false);
            } else if self.eat_kw("notnull") {
                l = Expr::IsNull(Box::new(l), true);
            } else {
                return Ok(l);
            }
        }
    }
    fn cmp_expr(&mut self) -> R<Expr> {
        let l = self.range_expr()?;
        for o in ["<=", ">=", "<>", "<", ">", "="] {
            if self.eat_op(o) {
                if self.kw("any") || self.kw("some") || self.kw("all") {
                    let all = self.kw("all");
                    self.i += 1;
                    self.need_op("(")?;
                    let e = if self.kw("select") {
                        Expr::QuantSub(o.into(), Box::new(l), Box::new(self.select()?), all)
                    } else {
                        Expr::Quant(o.into(), Box::new(l), Box::new(self.expr()?), all)
                    };
                    self.need_op(")")?;
                    return Ok(e);
                }
                let r = self.range_expr()?;
                let e = Expr::Bin(o.into(), Box::new(l), Box::new(r));
                for o in ["<=", ">=", "<>", "<", ">", "="] {
                    if self.op(o) {
                        return self.here();
                    }
                }
                return Ok(e);
            }
        }
        Ok(l)
    }
    fn range_expr(&mut self) -> R<Expr> {
        let l = self.other_expr()?;
        let neg = self.kw("not") && (self.kw_at(1, "in") || self.kw_at(1, "between") || self.kw_at(1, "like") || self.kw_at(1, "ilike"));
        if neg {
            self.i += 1;
        }
        if self.eat_kw("in") {
            self.need_op("(")?;
            let e = if self.kw("select") {
                Expr::InSub(Box::new(l), Box::new(self.select()?), neg)
            } else {
                let mut v = vec![self.expr()?];
                while self.eat_op(",") {
                    v.push(self.expr()?);
                }
                Expr::In(Box::new(l), v, neg)
            };
            self.need_op(")")?;
            return Ok(e);
        }
        if self.eat_kw("between") {
            let a = self.other_expr()?;
            self.need_kw("and")?;
            let b = self.other_expr()?;
            let e = Expr::Bin(
                "and".into(),
                Box::new(Expr::Bin(">=".into(), Box::new(l.clone()), Box::new(a))),
                Box::new(Expr::Bin("<=".into(), Box::new(l), Box::new(b))),
            );
            return Ok(if neg { Expr::Not(Box::new(e)) } else { e });
        }
        if self.kw("like") || self.kw("ilike") {
            let o = if self.kw("like") { "like" } else { "ilike" };
            self.i += 1;
            let r = self.other_expr()?;
            let e = Expr::Bin(o.into(), Box::new(l), Box::new(r));
            return Ok(if neg { Expr::Not(Box::new(e)) } else { e });
        }
        Ok(l)
    }
    fn other_expr(&mut self) -> R<Expr> {
        let mut l = self.add_expr()?;
        'l: loop {
            for o in ["@>", "<@", "&&", "||", "->>", "->"] {
                if self.eat_op(o) {
                    let r = self.add_expr()?;
                    l = Expr::Bin(o.into(), Box::new(l), Box::new(r));
                    continue 'l;
                }
            }
            return Ok(l);
        }
    }
    fn add_expr(&mut self) -> R<Expr> {
        let mut l = self.mul_expr()?;
        loop {
            let o = if self.op("+") { "+" } else if self.op("-") { "-" } else { return Ok(l) };
            self.i += 1;
            l = Expr::Bin(o.into(), Box::new(l), Box::new(self.mul_expr()?));
        }
    }
    fn mul_expr(&mut self) -> R<Expr> {
        let mut l = self.unary()?;
        loop {
            let o = if self.op("*") { "*" } else if self.op("/") { "/" } else if self.op("%") { "%" } else { return Ok(l) };
            self.i += 1;
            l = Expr::Bin(o.into(), Box::new(l), Box::new(self.unary()?));
        }
    }
    fn unary(&mut self) -> R<Expr> {
        if self.eat_op("-") {
            return Ok(Expr::Neg(Box::new(self.unary()?)));
        }
        if self.eat_op("+") {
            return self.unary();
        }
        let mut e = self.primary()?;
        while self.eat_op("::") {
            e = Expr::Cast(Box::new(e), self.tyname()?);
        }
        if self.kw("at") && self.kw_at(1, "time") && self.kw_at(2, "zone") {
            self.i += 3;
            let z = self.primary()?;
            e = Expr::Func("timezone".into(), vec![z, e]);
        }
        Ok(e)
    }
    fn args(&mut self) -> R<Vec<Expr>> {
        let mut v = vec![];
        if self.eat_op(")") {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if self.eat_op(")") {
                return Ok(v);
            }
            self.need_op(",")?;
        }
    }
    fn primary(&mut self) -> R<Expr> {
        match self.peek().cloned() {
            Some(Tok::Param(n)) => {
                self.i += 1;
                Ok(Expr::Param(n))
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(Expr::Str(s))
            }
            Some(Tok::Num(s)) => {
                self.i += 1;
                Ok(Expr::Num(s))
            }
            Some(Tok::Op(o)) if o == "(" => {
                self.i += 1;
                let e = if self.kw("select") { Expr::Sub(Box::new(self.select()?)) } else { self.expr()? };
                self.need_op(")")?;
                Ok(e)
            }
            Some(Tok::Id(k)) => match k.as_str() {
                "null" => {
                    self.i += 1;
                    Ok(Expr::Null)
                }
                "true" | "false" => {
                    self.i += 1;
                    Ok(Expr::Bool(k == "true"))
                }
                "case" => {
                    self.i += 1;
                    let operand = if self.kw("when") { None } else { Some(Box::new(self.expr()?)) };
                    let mut whens = vec![];
                    while self.eat_kw("when") {
                        let c = self.expr()?;
                        self.need_kw("then")?;
                        whens.push((c, self.expr()?));
                    }
                    let els = if self.eat_kw("else") { Some(Box::new(self.expr()?)) } else { None };
                    self.need_kw("end")?;
                    if whens.is_empty() {
                        return syntax("CASE without WHEN");
                    }
                    Ok(Expr::Case(operand, whens, els))
                }
                "cast" => {
                    self.i += 1;
                    self.need_op("(")?;
                    let e = self.expr()?;
                    self.need_kw("as")?;
                    let ty = self.tyname()?;
                    self.need_op(")")?;
                    Ok(Expr::Cast(Box::new(e), ty))
                }
                "array" => {
                    self.i += 1;
                    self.need_op("[")?;
                    let mut v = vec![];
                    if !self.eat_op("]") {
                        loop {
                            v.push(self.expr()?);
                            if self.eat_op("]") {
                                break;
                            }
                            self.need_op(",")?;
                        }
                    }
                    Ok(Expr::Array(v))
                }
                "exists" => {
                    self.i += 1;
                    self.need_op("(")?;
                    let s = self.select()?;
                    self.need_op(")")?;
                    Ok(Expr::Exists(Box::new(s)))
                }
                "current_timestamp" => {
                    self.i += 1;
                    Ok(Expr::Func("now".into(), vec![]))
                }
                "interval" if matches!(self.peek_at(1), Some(Tok::Str(_))) => {
                    self.i += 1;
                    let Some(Tok::Str(s)) = self.next() else { unreachable!() };
                    Ok(Expr::Cast(Box::new(Expr::Str(s)), TyName { name: "interval".into(), arr: false }))
                }
                _ => {
                    let n = self.ident()?;
                    self.name_tail(n)
                }
            },
            Some(Tok::QId(_)) => {
                let n = self.ident()?;
                self.name_tail(n)
            }
            _ => self.here(),
        }
    }
    fn name_tail(&mut self, n: String) -> R<Expr> {
        if self.eat_op("(") {
            if n == "count" && self.eat_op("*") {
                self.need_op(")")?;
                return Ok(Expr::CountStar);
            }
            let a = self.args()?;
            if self.kw("over") || self.kw("filter") {
                return self.here();
            }
            return Ok(Expr::Func(n, a));
        }
        if self.eat_op(".") {
            let c = self.ident()?;
            if self.eat_op("(") {
                return Ok(Expr::Func(c, self.args()?));
            }
            if self.op(".") {
                self.i += 1;
                let d = self.ident()?;
                return Ok(Expr::Col(Some(c), d));
            }
            return Ok(Expr::Col(Some(n), c));
        }
        Ok(Expr::Col(None, n))
    }
    pub fn tyname(&mut self) -> R<TyName> {
        let mut name = self.qname()?;
        if name == "character" && self.eat_kw("varying") {
            name = "varchar".into();
        }
        if name == "double" && self.eat_kw("precision") {
            name = "float8".into();
        }
        if name == "timestamp" {
            if self.eat_kw("with") {
                self.need_kw("time")?;
                self.need_kw("zone")?;
                name = "timestamptz".into();
            } else if self.eat_kw("without") {
                self.need_kw("time")?;
                self.need_kw("zone")?;
            }
        }
        if self.op("(") {
            return unsupported(format!("length of type {name}"));
        }
        let mut arr = false;
        while self.eat_op("[") {
            self.need_op("]")?;
            arr = true;
        }
        Ok(TyName { name, arr })
    }

    // -------------------------------------------------------------- statements
    fn items(&mut self) -> R<Vec<Item>> {
        let mut v = vec![];
        loop {
            if self.eat_op("*") {
                v.push(Item::Star);
            } else {
                let e = self.expr()?;
                let alias = if self.eat_kw("as") {
                    match self.next() {
                        Some(Tok::Id(x)) | Some(Tok::QId(x)) => Some(x),
                        _ => {
                            self.i -= 1;
                            return self.here();
                        }
                    }
                } else if matches!(self.peek(), Some(Tok::QId(_))) || matches!(self.peek(), Some(Tok::Id(x)) if !RESERVED.contains(&x.as_str())) {
                    Some(self.ident()?)
                } else {
                    None
                };
                v.push(Item::Expr(e, alias));
            }
            if !self.eat_op(",") {
                return Ok(v);
            }
        }
    }
    fn alias(&mut self) -> R<Option<String>> {
        if self.eat_kw("as") {
            return Ok(Some(self.ident()?));
        }
        if matches!(self.peek(), Some(Tok::QId(_))) || matches!(self.peek(), Some(Tok::Id(x)) if !RESERVED.contains(&x.as_str())) {
            return Ok(Some(self.ident()?));
        }
        Ok(None)
    }
    pub fn select(&mut self) -> R<Select> {
        self.need_kw("select")?;
        if self.kw("distinct") {
            return self.here();
        }
        let items = self.items()?;
        let mut s = Select { items, from: None, filter: None, order: vec![], limit: None, offset: None, lock: None };
        let mut inner = None;
        if self.eat_kw("from") {
            if let Some((sub, alias)) = self.source()? {
                inner = Some((sub, alias));
            } else {
                let n = self.qname()?;
                if self.op("(") {
                    return unsupported("function in FROM");
                }
                s.from = Some((n, self.alias()?));
            }
            if self.op("(") {
                return unsupported("column aliases in FROM");
            }
            if self.op(",") {
                return unsupported("several tables in FROM");
            }
        }
        if self.eat_kw("where") {
            s.filter = Some(self.expr()?);
        }
        if self.kw("group") || self.kw("having") || self.kw("union") || self.kw("join") || self.kw("window") || self.kw("intersect") || self.kw("except") {
            return self.here();
        }
        if self.eat_kw("order") {
            self.need_kw("by")?;
            loop {
                let e = self.expr()?;
                let desc = if self.eat_kw("desc") { true } else { self.eat_kw("asc") && false };
                let mut nulls_first = desc;
                if self.eat_kw("nulls") {
                    nulls_first = if self.eat_kw("first") {
                        true
                    } else {
                        self.need_kw("last")?;
                        false
                    };
                }
                s.order.push(Order { e, desc, nulls_first });
                if !self.eat_op(",") {
                    break;
                }
            }
        }
        loop {
            if self.kw("limit") && s.limit.is_none() {
                self.i += 1;
                if !self.eat_kw("all") {
                    s.limit = Some(self.expr()?);
                }
            } else if self.kw("offset") && s.offset.is_none() {
                self.i += 1;
                s.offset = Some(self.expr()?);
                let _ = self.eat_kw("rows") || self.eat_kw("row");
            } else {
                break;
            }
        }
        if self.eat_kw("for") {
            if self.eat_kw("no") {
                self.need_kw("key")?;
            }
            self.need_kw("update")?;
            s.lock = Some(LockMode::Wait);
            if self.eat_kw("of") {
                self.ident()?;
            }
            if self.eat_kw("skip") {
                self.need_kw("locked")?;
                s.lock = Some(LockMode::Skip);
            } else if self.eat_kw("nowait") {
                s.lock = Some(LockMode::NoWait);
            }
        }
        match inner {
            None => Ok(s),
            Some((sub, alias)) => flatten(s, sub, &alias),
        }
    }
    /// A subquery or a common table expression as the source of a FROM or USING, with its name.
    fn source(&mut self) -> R<Option<(Select, String)>> {
        if self.op("(") {
            self.i += 1;
            let sub = self.select()?;
            self.need_op(")")?;
            let alias = self.alias()?.unwrap_or_default();
            return Ok(Some((sub, alias)));
        }
        if let Some(Tok::Id(n) | Tok::QId(n)) = self.peek().cloned() {
            if let Some((_, sub)) = self.ctes.iter().rev().find(|(c, _)| *c == n) {
                let sub = sub.clone();
                self.i += 1;
                let alias = self.alias()?.unwrap_or(n);
                return Ok(Some((sub, alias)));
            }
        }
        Ok(None)
    }
    /// `t.c = source.d [AND ...]` of an UPDATE ... FROM or DELETE ... USING as `t.c IN (SELECT d ...)`.
    fn joined(&mut self, source: Option<(Select, String)>, filter: Option<Expr>) -> R<Option<Expr>> {
        let Some((sub, name)) = source else { return Ok(filter) };
        let mut parts = vec![];
        let mut todo: Vec<Expr> = filter.into_iter().collect();
        while let Some(e) = todo.pop() {
            match e {
                Expr::Bin(op, a, b) if op == "and" => todo.extend([*a, *b]),
                e => parts.push(e),
            }
        }
        let of = |e: &Expr| matches!(e, Expr::Col(Some(q), _) if *q == name);
        let mut found = None;
        let mut rest = vec![];
        for e in parts {
            match e {
                Expr::Bin(op, a, b) if op == "=" && found.is_none() && of(&a) != of(&b) => {
                    found = Some(if of(&a) { (*a, *b) } else { (*b, *a) });
                }
                e if format!("{e:?}").contains(&format!("Col(Some({name:?})")) => return unsupported("join condition"),
                e => rest.push(e),
            }
        }
        let Some((inner, outer)) = found else { return unsupported("join without an equality") };
        let pick = Select { items: vec![Item::Expr(inner, None)], from: None, filter: None, order: vec![], limit: None, offset: None, lock: None };
        let sub = flatten(pick, sub, &name)?;
        let mut all = Expr::InSub(Box::new(outer), Box::new(sub), false);
        for e in rest {
            all = Expr::Bin("and".into(), Box::new(all), Box::new(e));
        }
        Ok(Some(all))
    }
    fn returning(&mut self) -> R<Vec<Item>> {
        if self.eat_kw("returning") { self.items() } else { Ok(vec![]) }
    }
    fn insert(&mut self) -> R<Stmt> {
        self.need_kw("insert")?;
        self.need_kw("into")?;
        let table = self.qname()?;
        let mut cols = vec![];
        if self.eat_op("(") {
            loop {
                cols.push(self.ident()?);
                if self.eat_op(")") {
                    break;
                }
                self.need_op(",")?;
            }
        }
        if self.kw("select") {
            return unsupported("INSERT ... SELECT");
        }
        self.need_kw("values")?;
        let mut rows = vec![];
        loop {
            self.need_op("(")?;
            let mut row = vec![];
            loop {
                row.push(if self.eat_kw("default") { None } else { Some(self.expr()?) });
                if self.eat_op(")") {
                    break;
                }
                self.need_op(",")?;
            }
            rows.push(row);
            if !self.eat_op(",") {
                break;
            }
        }
        if self.kw("on") {
            return unsupported("ON CONFLICT");
        }
        Ok(Stmt::Insert { table, cols, rows, returning: self.returning()? })
    }
    fn update(&mut self) -> R<Stmt> {
        self.need_kw("update")?;
        let table = self.qname()?;
        let alias = self.alias()?;
        self.need_kw("set")?;
        let mut sets = vec![];
        loop {
            if self.op("(") {
                return unsupported("multiple-column SET");
            }
            let c = self.ident()?;
            self.need_op("=")?;
            sets.push((c, if self.eat_kw("default") { None } else { Some(self.expr()?) }));
            if !self.eat_op(",") {
                break;
            }
        }
        let mut source = None;
        if self.eat_kw("from") {
            source = self.source()?;
            if source.is_none() || self.op(",") {
                return unsupported("UPDATE ... FROM a table");
            }
        }
        let filter = if self.eat_kw("where") { Some(self.expr()?) } else { None };
        let filter = self.joined(source, filter)?;
        Ok(Stmt::Update { table, alias, sets, filter, returning: self.returning()? })
    }
    fn delete(&mut self) -> R<Stmt> {
        self.need_kw("delete")?;
        self.need_kw("from")?;
        let table = self.qname()?;
        let alias = self.alias()?;
        let mut source = None;
        if self.eat_kw("using") {
            source = self.source()?;
            if source.is_none() || self.op(",") {
                return unsupported("DELETE ... USING a table");
            }
        }
        let filter = if self.eat_kw("where") { Some(self.expr()?) } else { None };
        let filter = self.joined(source, filter)?;
        Ok(Stmt::Delete { table, alias, filter, returning: self.returning()? })
    }
    fn skip_statement(&mut self) {
        while !self.done() && !self.op(";") {
            self.i += 1;
        }
    }
    fn create(&mut self) -> R<Stmt> {
        self.need_kw("create")?;
        if self.eat_kw("or") {
            self.need_kw("replace")?;
        }
        if self.eat_kw("type") {
            let name = self.qname()?;
            self.need_kw("as")?;
            self.need_kw("enum")?;
            self.need_op("(")?;
            let mut labels = vec![];
            loop {
                match self.next() {
                    Some(Tok::Str(s)) => labels.push(s),
                    _ => return syntax("enum label"),
                }
                if self.eat_op(")") {
                    break;
                }
                self.need_op(",")?;
            }
            return Ok(Stmt::CreateType { name, labels });
        }
        if self.eat_kw("table") {
            let mut if_not_exists = false;
            if self.eat_kw("if") {
                self.need_kw("not")?;
                self.need_kw("exists")?;
                if_not_exists = true;
            }
            let name = self.qname()?;
            self.need_op("(")?;
            let mut cols = vec![];
            loop {
                if self.kw("primary") || self.kw("unique") || self.kw("constraint") || self.kw("check") || self.kw("foreign") {
                    return unsupported("table constraint");
                }
                let cname = self.ident()?;
                let mut ty = self.tyname()?;
                let serial = ty.name == "serial" || ty.name == "bigserial";
                if serial {
                    ty.name = if ty.name == "serial" { "int4".into() } else { "int8".into() };
                }
                let mut c = ColDef { name: cname, ty, not_null: serial, default: None, serial, key: false };
                loop {
                    if self.eat_kw("not") {
                        self.need_kw("null")?;
                        c.not_null = true;
                    } else if self.eat_kw("null") {
                    } else if self.eat_kw("default") {
                        c.default = Some(self.other_expr()?);
                    } else if self.eat_kw("primary") {
                        self.need_kw("key")?;
                        c.not_null = true;
                        c.key = true;
                    } else if self.op(",") || self.op(")") {
                        break;
                    } else {
                        return unsupported("column constraint");
                    }
                }
                cols.push(c);
                if self.eat_op(")") {
                    break;
                }
                self.need_op(",")?;
            }
            return Ok(Stmt::CreateTable { name, if_not_exists, cols });
        }
        if self.eat_kw("unique") {
            return unsupported("unique index");
        }
        if self.eat_kw("index") {
            self.skip_statement();
            return Ok(Stmt::Nothing("CREATE INDEX"));
        }
        if self.eat_kw("function") {
            let name = self.qname()?;
            self.need_op("(")?;
            self.need_op(")")?;
            self.need_kw("returns")?;
            self.need_kw("trigger")?;
            let mut body = None;
            while !self.done() && !self.op(";") {
                if let Some(Tok::Body(b)) = self.next() {
                    body = Some(b);
                }
            }
            let Some(b) = body else { return unsupported("function body") };
            let body = P::new(&b)?.plpgsql()?;
            return Ok(Stmt::CreateFunction { name, body });
        }
        let _ = self.eat_kw("constraint");
        if self.eat_kw("trigger") {
            let name = self.ident()?;
            if self.kw("before") || self.kw("instead") {
                return unsupported("BEFORE trigger");
            }
            self.need_kw("after")?;
            let mut events = vec![];
            loop {
                events.push(self.ident()?);
                if self.kw("of") {
                    return unsupported("column trigger");
                }
                if !self.eat_kw("or") {
                    break;
                }
            }
            self.need_kw("on")?;
            let table = self.qname()?;
            self.need_kw("for")?;
            let _ = self.eat_kw("each");
            if self.kw("statement") {
                return unsupported("statement trigger");
            }
            self.need_kw("row")?;
            let when = if self.eat_kw("when") {
                self.need_op("(")?;
                let e = self.expr()?;
                self.need_op(")")?;
                Some(e)
            } else {
                None
            };
            self.need_kw("execute")?;
            let _ = self.eat_kw("function") || self.eat_kw("procedure");
            let func = self.qname()?;
            self.need_op("(")?;
            self.need_op(")")?;
            return Ok(Stmt::CreateTrigger { name, table, events, when, func });
        }
        unsupported("CREATE of this kind")
    }
    fn plpgsql(&mut self) -> R<Vec<PStmt>> {
        if self.eat_kw("declare") {
            while !self.kw("begin") {
                if self.done() {
                    return syntax("DECLARE without BEGIN");
                }
                self.i += 1;
            }
        }
        self.need_kw("begin")?;
        let v = self.pstmts()?;
        self.need_kw("end")?;
        let _ = self.eat_op(";");
        if !self.done() {
            return self.here();
        }
        Ok(v)
    }
    fn pstmts(&mut self) -> R<Vec<PStmt>> {
        let mut v = vec![];
        loop {
            if self.kw("end") || self.kw("else") || self.kw("elsif") || self.kw("elseif") {
                return Ok(v);
            }
            if self.eat_kw("if") {
                let mut arms = vec![];
                let c = self.expr()?;
                self.need_kw("then")?;
                arms.push((c, self.pstmts()?));
                let mut els = vec![];
                loop {
                    if self.eat_kw("elsif") || self.eat_kw("elseif") {
                        let c = self.expr()?;
                        self.need_kw("then")?;
                        arms.push((c, self.pstmts()?));
                    } else if self.eat_kw("else") {
                        els = self.pstmts()?;
                    } else {
                        self.need_kw("end")?;
                        self.need_kw("if")?;
                        self.need_op(";")?;
                        break;
                    }
                }
                v.push(PStmt::If(arms, els));
            } else if self.eat_kw("perform") {
                let e = self.expr()?;
                self.need_op(";")?;
                v.push(PStmt::Perform(e));
            } else if self.eat_kw("return") {
                let _ = self.expr()?;
                self.need_op(";")?;
                v.push(PStmt::Return);
            } else if self.eat_kw("null") {
                self.need_op(";")?;
                v.push(PStmt::Null);
            } else {
                let n = self.ident()?;
                if !self.eat_op(":=") && !self.eat_op("=") {
                    return unsupported(format!("plpgsql statement {n}"));
                }
                let e = self.expr()?;
                self.need_op(";")?;
                v.push(PStmt::Assign(n, e));
            }
        }
    }
    fn statement(&mut self) -> R<Stmt> {
        let Some(Tok::Id(k)) = self.peek().cloned() else { return self.here() };
        match k.as_str() {
"with" => {
                self.i += 1;
                let had = self.ctes.len();
                loop {
                    let n = self.ident()?;
                    self.need_kw("as")?;
                    if self.eat_kw("not") {
                        self.need_kw("materialized")?;
                    } else {
                        self.eat_kw("materialized");
                    }
                    self.need_op("(")?;
                    if !self.kw("select") {
                        return unsupported("common table expression that is no SELECT");
                    }
                    let sub = self.select()?;
                    self.need_op(")")?;
                    self.ctes.push((n, sub));
                    if !self.eat_op(",") {
                        break;
                    }
                }
                let r = self.statement();
                self.ctes.truncate(had);
                r
            }
            "select" => Ok(Stmt::Select(self.select()?)),
            "insert" => self.insert(),
            "update" => self.update(),
            "delete" => self.delete(),
            "begin" | "start" => {
                self.i += 1;
                let _ = self.eat_kw("transaction") || self.eat_kw("work");
                if !self.done() && !self.op(";") {
                    return unsupported("transaction modes");
                }
                Ok(Stmt::Begin)
            }
            "commit" | "end" => {
                self.i += 1;
                let _ = self.eat_kw("transaction") || self.eat_kw("work");
                Ok(Stmt::Commit)
            }
            "rollback" | "abort" => {
                self.i += 1;
                let _ = self.eat_kw("transaction") || self.eat_kw("work");
                if self.kw("to") {
                    return unsupported("savepoints");
                }
                Ok(Stmt::Rollback)
            }
            "savepoint" | "release" => unsupported("savepoints"),
            "listen" => {
                self.i += 1;
                Ok(Stmt::Listen(self.ident()?))
            }
            "unlisten" => {
                self.i += 1;
                if self.eat_op("*") { Ok(Stmt::Unlisten(None)) } else { Ok(Stmt::Unlisten(Some(self.ident()?))) }
            }
            "notify" => {
                self.i += 1;
                let c = self.ident()?;
                let mut p = String::new();
                if self.eat_op(",") {
                    match self.next() {
                        Some(Tok::Str(s)) => p = s,
                        _ => return syntax("NOTIFY payload"),
                    }
                }
                Ok(Stmt::Notify(c, p))
            }
            "create" => self.create(),
            "drop" if self.kw_at(1, "trigger") => {
                self.i += 2;
                let if_exists = self.eat_kw("if");
                if if_exists {
                    self.need_kw("exists")?;
                }
                let name = self.ident()?;
                self.need_kw("on")?;
                let table = self.qname()?;
                Ok(Stmt::DropTrigger { name, table, if_exists })
            }
            "do" => {
                self.i += 1;
                if self.eat_kw("language") {
                    self.ident()?;
                }
                let Some(Tok::Body(b)) = self.next() else { return unsupported("DO") };
                let mut p = P::new(&b)?;
                p.need_kw("begin")?;
                let mut body = vec![];
                while !p.kw("exception") && !p.kw("end") {
                    body.push(p.statement()?);
                    p.need_op(";")?;
                }
                let mut swallow_duplicate = false;
                if p.eat_kw("exception") {
                    p.need_kw("when")?;
                    swallow_duplicate = p.ident()? == "duplicate_object";
                    if !swallow_duplicate {
                        return unsupported("exception handler");
                    }
                }
                Ok(Stmt::Do { body, swallow_duplicate })
            }
            "set" | "reset" | "deallocate" | "discard" | "analyze" => unsupported(k),
            "truncate" | "lock" | "alter" | "drop" | "merge" | "copy" | "explain" | "call" | "table" | "values" | "comment" | "grant" | "vacuum" => unsupported(k),
            _ => self.here(),
        }
    }
    pub fn script(s: &str) -> R<Vec<Stmt>> {
        let mut p = P::new(s)?;
        let mut v = vec![];
        loop {
            while p.eat_op(";") {}
            if p.done() {
                return Ok(v);
            }
            v.push(p.statement()?);
            if !p.done() && !p.op(";") {
                return p.here();
            }
        }
    }
}
