//! An in-process stand-in for PostgreSQL: values, static typing of statements, and execution under
//! READ COMMITTED with row locks, advisory locks, row triggers and NOTIFY.
#![allow(dead_code)]
use crate::sql::*;
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{Notify, mpsc};

// ------------------------------------------------------------------ values

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Text(String),
    Json(Value),
    /// microseconds since 2000-01-01 UTC
    Ts(i64),
    /// microseconds
    Iv(i64),
    Bytes(Vec<u8>),
    Arr(Vec<Val>),
    /// enum type, position of the label
    En(usize, usize),
}
pub const PG_EPOCH_US: i64 = 946_684_800_000_000;
const TS_MIN: i64 = -211_813_488_000_000_000;
const TS_MAX: i64 = 9_223_371_331_200_000_000;

pub fn sql<T>(code: &'static str, m: impl Into<String>) -> R<T> {
    Err(Fail::Sql(code, m.into()))
}

fn json_eq(a: &Value, b: &Value) -> bool {
    json_cmp(a, b) == Ordering::Equal
}
fn json_cmp(a: &Value, b: &Value) -> Ordering {
    fn rank(v: &Value) -> u8 {
        match v {
            Value::Null => 0,
            Value::String(_) => 1,
            Value::Number(_) => 2,
            Value::Bool(_) => 3,
            Value::Array(_) => 4,
            Value::Object(_) => 5,
        }
    }
    match (a, b) {
        (Value::Bool(x), Value::Bool(y)) => x.cmp(y),
        (Value::String(x), Value::String(y)) => x.cmp(y),
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(p), Some(q)) = (x.as_i128(), y.as_i128()) {
                return p.cmp(&q);
            }
            x.as_f64().partial_cmp(&y.as_f64()).unwrap_or(Ordering::Equal)
        }
        (Value::Array(x), Value::Array(y)) => x.len().cmp(&y.len()).then_with(|| x.iter().zip(y).map(|(p, q)| json_cmp(p, q)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal)),
        (Value::Object(x), Value::Object(y)) => x.len().cmp(&y.len()).then_with(|| {
            let p: BTreeMap<_, _> = x.iter().collect();
            let q: BTreeMap<_, _> = y.iter().collect();
            p.iter()
                .zip(q.iter())
                .map(|((k, v), (l, w))| k.cmp(l).then_with(|| json_cmp(v, w)))
                .find(|o| *o != Ordering::Equal)
                .unwrap_or(Ordering::Equal)
        }),
        _ => rank(a).cmp(&rank(b)),
    }
}
trait AsI128 {
    fn as_i128(&self) -> Option<i128>;
}
impl AsI128 for serde_json::Number {
    fn as_i128(&self) -> Option<i128> {
        self.as_i64().map(i128::from).or(self.as_u64().map(i128::from))
    }
}
fn json_contains(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => y.iter().all(|(k, v)| x.get(k).is_some_and(|w| json_contains(w, v))),
        (Value::Array(x), Value::Array(y)) => y.iter().all(|v| x.iter().any(|w| json_contains(w, v))),
        (Value::Array(x), y) if !y.is_object() => x.iter().any(|w| json_eq(w, y)),
        _ => json_eq(a, b),
    }
}
/// None: unknown (a null is involved).
pub fn cmp(a: &Val, b: &Val) -> Option<Ordering> {
    Some(match (a, b) {
        (Val::Null, _) | (_, Val::Null) => return None,
        (Val::Bool(x), Val::Bool(y)) => x.cmp(y),
        (Val::Int(x), Val::Int(y)) => x.cmp(y),
        (Val::Int(x), Val::Float(y)) => (*x as f64).partial_cmp(y)?,
        (Val::Float(x), Val::Int(y)) => x.partial_cmp(&(*y as f64))?,
        (Val::Float(x), Val::Float(y)) => x.partial_cmp(y)?,
        (Val::Text(x), Val::Text(y)) => x.cmp(y),
        (Val::Json(x), Val::Json(y)) => json_cmp(x, y),
        (Val::Ts(x), Val::Ts(y)) => x.cmp(y),
        (Val::Iv(x), Val::Iv(y)) => x.cmp(y),
        (Val::Bytes(x), Val::Bytes(y)) => x.cmp(y),
        (Val::En(_, x), Val::En(_, y)) => x.cmp(y),
        (Val::Arr(x), Val::Arr(y)) => {
            for (p, q) in x.iter().zip(y) {
                // nulls inside arrays compare equal to each other and greater than anything else
                let o = match (p, q) {
                    (Val::Null, Val::Null) => Ordering::Equal,
                    (Val::Null, _) => Ordering::Greater,
                    (_, Val::Null) => Ordering::Less,
                    _ => cmp(p, q)?,
                };
                if o != Ordering::Equal {
                    return Some(o);
                }
            }
            x.len().cmp(&y.len())
        }
        _ => panic!("harness: values of different types compared: {a:?} {b:?}"),
    })
}
fn op_holds(op: &str, o: Ordering) -> bool {
    match op {
        "=" => o == Ordering::Equal,
        "<>" => o != Ordering::Equal,
        "<" => o == Ordering::Less,
        "<=" => o != Ordering::Greater,
        ">" => o == Ordering::Greater,
        ">=" => o != Ordering::Less,
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ types

#[derive(Clone, Debug)]
pub struct EnumTy {
    pub name: String,
    pub labels: Vec<String>,
}
pub const ENUM_OID: u32 = 16384;
pub fn oid_of(ty: Ty) -> u32 {
    let pair = match ty.b {
        B::Bool => (16, 1000),
        B::Bytea => (17, 1001),
        B::Char => (18, 1002),
        B::Name => (19, 1003),
        B::Int8 => (20, 1016),
        B::Int2 => (21, 1005),
        B::Int4 => (23, 1007),
        B::Text => (25, 1009),
        B::Oid => (26, 1028),
        B::Regtype => (2206, 2211),
        B::Json => (114, 199),
        B::Jsonb => (3802, 3807),
        B::Float8 => (701, 1022),
        B::Varchar => (1043, 1015),
        B::Timestamp => (1114, 1115),
        B::Timestamptz => (1184, 1185),
        B::Interval => (1186, 1187),
        B::Void => (2278, 0),
        B::Unknown => (25, 1009),
        B::Enum(i) => (ENUM_OID + 2 * i as u32, ENUM_OID + 2 * i as u32 + 1),
    };
    if ty.arr { pair.1 } else { pair.0 }
}
pub fn ty_of_oid(oid: u32, enums: usize) -> R<Ty> {
    if oid == 0 || oid == 705 {
        return Ok(t(B::Unknown));
    }
    for b in [B::Bool, B::Bytea, B::Char, B::Name, B::Int8, B::Int2, B::Int4, B::Text, B::Oid, B::Regtype, B::Json, B::Jsonb, B::Float8, B::Varchar, B::Timestamp, B::Timestamptz, B::Interval, B::Void] {
        if oid_of(t(b)) == oid {
            return Ok(t(b));
        }
        if oid_of(ta(b)) == oid {
            return Ok(ta(b));
        }
    }
    if oid >= ENUM_OID && oid < ENUM_OID + 2 * enums as u32 {
        let k = oid - ENUM_OID;
        return Ok(Ty { b: B::Enum(k as usize / 2), arr: k % 2 == 1 });
    }
    unsupported(format!("type oid {oid}"))
}
const UNKNOWN: Ty = t(B::Unknown);
fn is_num(ty: Ty) -> bool {
    !ty.arr && matches!(ty.b, B::Int2 | B::Int4 | B::Int8 | B::Float8 | B::Oid | B::Regtype)
}
fn is_text(ty: Ty) -> bool {
    !ty.arr && matches!(ty.b, B::Text | B::Varchar | B::Name | B::Char)
}
fn is_ts(ty: Ty) -> bool {
    !ty.arr && matches!(ty.b, B::Timestamp | B::Timestamptz)
}
fn wider(a: Ty, b: Ty) -> Ty {
    let rank = |x: Ty| match x.b {
        B::Int2 => 0,
        B::Int4 => 1,
        B::Int8 => 2,
        _ => 3,
    };
    if rank(a) >= rank(b) { a } else { b }
}

// ------------------------------------------------------------------ text input and output

pub fn ts_text(us: i64, t: bool, zone: bool) -> String {
    let d = chrono::DateTime::from_timestamp_micros(us + PG_EPOCH_US).expect("timestamp in range");
    let mut s = d.format(if t { "%Y-%m-%dT%H:%M:%S" } else { "%Y-%m-%d %H:%M:%S" }).to_string();
    let f = us.rem_euclid(1_000_000);
    if f != 0 {
        s.push_str(format!(".{f:06}").trim_end_matches('0'));
    }
    if zone {
        s.push_str(if t { "+00:00" } else { "+00" });
    }
    s
}
fn iv_text(us: i64) -> String {
    let neg = us < 0;
    let a = us.unsigned_abs();
    let (h, m, s, f) = (a / 3_600_000_000, a / 60_000_000 % 60, a / 1_000_000 % 60, a % 1_000_000);
    let mut o = format!("{}{h:02}:{m:02}:{s:02}", if neg { "-" } else { "" });
    if f != 0 {
        o.push_str(format!(".{f:06}").trim_end_matches('0'));
    }
    o
}
fn iv_input(s: &str) -> R<Val> {
    let bad = || Fail::Sql("22007", format!("invalid input syntax for type interval: {s:?}"));
    let mut total = 0f64;
    let toks: Vec<&str> = s.split_whitespace().collect();
    if toks.is_empty() {
        return Err(bad());
    }
    let mut i = 0;
    while i < toks.len() {
        let w = toks[i];
        if w.contains(':') {
            let neg = w.starts_with('-');
            let p: Vec<&str> = w.trim_start_matches(['-', '+']).split(':').collect();
            let n = |x: &str| x.parse::<f64>().map_err(|_| bad());
            let v = match p.len() {
                2 => n(p[0])? * 3600.0 + n(p[1])? * 60.0,
                3 => n(p[0])? * 3600.0 + n(p[1])? * 60.0 + n(p[2])?,
                _ => return Err(bad()),
            };
            total += if neg { -v } else { v };
            i += 1;
            continue;
        }
        let digits = w.find(|c: char| c.is_alphabetic()).unwrap_or(w.len());
        let n: f64 = w[..digits].parse().map_err(|_| bad())?;
        let unit = if digits < w.len() {
            w[digits..].to_string()
        } else if i + 1 < toks.len() && !toks[i + 1].contains(':') {
            i += 1;
            toks[i].to_string()
        } else {
            "s".into()
        };
        let unit = unit.to_lowercase();
        total += n * match unit.trim_end_matches('s') {
            "" | "sec" | "second" => 1.0,
            "m" if unit != "ms" => 60.0,
            "m" | "msec" | "millisecond" => 0.001,
            "u" | "usec" | "microsecond" => 0.000001,
            "min" | "minute" => 60.0,
            "h" | "hr" | "hour" => 3600.0,
            "d" | "day" => 86400.0,
            "w" | "week" => 604800.0,
            _ => return unsupported(format!("interval unit {unit}")),
        };
        i += 1;
    }
    Ok(Val::Iv((total * 1e6).round() as i64))
}
fn ts_input(s: &str) -> R<Val> {
    use chrono::{DateTime, NaiveDate, NaiveDateTime};
    let st = s.trim();
    let us = if let Ok(d) = DateTime::parse_from_rfc3339(st) {
        d.timestamp_micros()
    } else if let Ok(d) = DateTime::parse_from_str(&format!("{st}00"), "%Y-%m-%d %H:%M:%S%.f%z") {
        d.timestamp_micros()
    } else if let Ok(d) = NaiveDateTime::parse_from_str(st, "%Y-%m-%d %H:%M:%S%.f") {
        d.and_utc().timestamp_micros()
    } else if let Ok(d) = NaiveDate::parse_from_str(st, "%Y-%m-%d") {
        d.and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp_micros()
    } else if ["infinity", "-infinity", "now", "epoch", "today", "tomorrow", "yesterday"].contains(&st) {
        return unsupported(format!("timestamp {st}"));
    } else {
        return sql("22007", format!("invalid input syntax for type timestamp: {s:?}"));
    };
    Ok(Val::Ts(us - PG_EPOCH_US))
}
fn no_nul(v: &Value) -> bool {
    match v {
        Value::String(s) => !s.contains('\0'),
        Value::Array(a) => a.iter().all(no_nul),
        Value::Object(o) => o.iter().all(|(k, v)| !k.contains('\0') && no_nul(v)),
        _ => true,
    }
}
pub fn json_input(s: &str, ty: B) -> R<Val> {
    match serde_json::from_str::<Value>(s) {
        Ok(v) if ty == B::Json || no_nul(&v) => Ok(Val::Json(v)),
        Ok(_) => sql("22P05", "unsupported Unicode escape sequence: \\u0000 cannot be converted to text"),
        Err(e) => sql("22P02", format!("invalid input syntax for type json: {e}")),
    }
}
impl Db {
    pub fn input(&self, ty: Ty, s: &str) -> R<Val> {
        let bad = |n: &str| Fail::Sql("22P02", format!("invalid input syntax for type {n}: {s:?}"));
        if ty.arr {
            let body = s.trim();
            if !body.starts_with('{') || !body.ends_with('}') {
                return sql("22P02", format!("malformed array literal: {s:?}"));
            }
            let body = &body[1..body.len() - 1];
            if body.trim().is_empty() {
                return Ok(Val::Arr(vec![]));
            }
            if body.contains(['"', '\\', '{']) {
                return unsupported("quoted array literal");
            }
            return Ok(Val::Arr(
                body.split(',')
                    .map(|x| if x.trim().eq_ignore_ascii_case("null") { Ok(Val::Null) } else { self.input(t(ty.b), x.trim()) })
                    .collect::<R<_>>()?,
            ));
        }
        Ok(match ty.b {
            B::Bool => match s.trim().to_lowercase().as_str() {
                "t" | "true" | "yes" | "on" | "1" | "y" => Val::Bool(true),
                "f" | "false" | "no" | "off" | "0" | "n" => Val::Bool(false),
                _ => return Err(bad("boolean")),
            },
            B::Int2 => Val::Int(s.trim().parse::<i16>().map_err(|_| bad("smallint"))? as i64),
            B::Int4 => Val::Int(s.trim().parse::<i32>().map_err(|_| bad("integer"))? as i64),
            B::Int8 => Val::Int(s.trim().parse::<i64>().map_err(|_| bad("bigint"))?),
            B::Oid => Val::Int(s.trim().parse::<u32>().map_err(|_| bad("oid"))? as i64),
            B::Float8 => Val::Float(s.trim().parse().map_err(|_| bad("double precision"))?),
            B::Text | B::Varchar | B::Name | B::Unknown | B::Char => Val::Text(s.into()),
            B::Json | B::Jsonb => json_input(s, ty.b)?,
            B::Timestamp | B::Timestamptz => ts_input(s)?,
            B::Interval => iv_input(s)?,
            B::Regtype => match self.enums.iter().position(|e| e.name == s.trim_matches('"') || format!("public.{}", e.name) == s) {
                Some(i) => Val::Int(oid_of(t(B::Enum(i))) as i64),
                None => match self.type_by_name(s) {
                    Ok(ty) => Val::Int(oid_of(ty) as i64),
                    Err(_) => return sql("42704", format!("type {s:?} does not exist")),
                },
            },
            B::Enum(i) => match self.enums[i].labels.iter().position(|l| l == s) {
                Some(k) => Val::En(i, k),
                None => return sql("22P02", format!("invalid input value for enum {}: {s:?}", self.enums[i].name)),
            },
            B::Bytea | B::Void => return unsupported("bytea text input"),
        })
    }
    pub fn output(&self, v: &Val, ty: Ty) -> String {
        match v {
            Val::Null => String::new(),
            Val::Bool(b) => if *b { "t" } else { "f" }.into(),
            Val::Int(i) => {
                if ty.b == B::Regtype && *i >= ENUM_OID as i64 {
                    let k = (*i - ENUM_OID as i64) as usize;
                    return format!("{}{}", self.enums[k / 2].name, if k % 2 == 1 { "[]" } else { "" });
                }
                i.to_string()
            }
            Val::Float(f) => f.to_string(),
            Val::Text(s) => s.clone(),
            Val::Json(j) => j.to_string(),
            Val::Ts(u) => ts_text(*u, false, ty.b == B::Timestamptz),
            Val::Iv(u) => iv_text(*u),
            Val::Bytes(b) => format!("\\x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
            Val::En(i, k) => self.enums[*i].labels[*k].clone(),
            Val::Arr(a) => {
                let e = t(ty.b);
                let p: Vec<String> = a
                    .iter()
                    .map(|v| match v {
                        Val::Null => "NULL".into(),
                        v => {
                            let s = self.output(v, e);
                            if s.is_empty() || s.eq_ignore_ascii_case("null") || s.contains(['"', '\\', '{', '}', ',', ' ']) {
                                format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
                            } else {
                                s
                            }
                        }
                    })
                    .collect();
                format!("{{{}}}", p.join(","))
            }
        }
    }
    fn to_json(&self, v: &Val, ty: Ty) -> Value {
        match v {
            Val::Null => Value::Null,
            Val::Bool(b) => json!(b),
            Val::Int(i) => json!(i),
            Val::Float(f) => json!(f),
            Val::Json(j) => j.clone(),
            Val::Ts(u) => json!(ts_text(*u, true, ty.b == B::Timestamptz)),
            Val::Arr(a) => Value::Array(a.iter().map(|x| self.to_json(x, t(ty.b))).collect()),
            v => json!(self.output(v, ty)),
        }
    }
    pub fn type_by_name(&self, n: &str) -> R<Ty> {
        if let Some(i) = self.enums.iter().position(|e| e.name == n) {
            return Ok(t(B::Enum(i)));
        }
        Ok(t(match n {
            "bool" | "boolean" => B::Bool,
            "bytea" => B::Bytea,
            "int8" | "bigint" => B::Int8,
            "int4" | "int" | "integer" => B::Int4,
            "int2" | "smallint" => B::Int2,
            "text" => B::Text,
            "varchar" => B::Varchar,
            "name" => B::Name,
            "oid" => B::Oid,
            "regtype" => B::Regtype,
            "json" => B::Json,
            "jsonb" => B::Jsonb,
            "float8" => B::Float8,
            "timestamp" => B::Timestamp,
            "timestamptz" => B::Timestamptz,
            "interval" => B::Interval,
            "numeric" | "decimal" | "real" | "float4" | "uuid" | "date" | "time" | "character" | "char" | "bpchar" => return unsupported(format!("type {n}")),
            _ => return sql("42704", format!("type {n:?} does not exist")),
        }))
    }
    fn type_named(&self, n: &TyName) -> R<Ty> {
        Ok(Ty { b: self.type_by_name(&n.name)?.b, arr: n.arr })
    }
    fn type_text(&self, ty: Ty) -> String {
        match ty.b {
            B::Enum(i) => format!("{}{}", self.enums[i].name, if ty.arr { "[]" } else { "" }),
            b => format!("{b:?}{}", if ty.arr { "[]" } else { "" }).to_lowercase(),
        }
    }
}

// ------------------------------------------------------------------ typed trees

#[derive(Clone, Debug)]
pub enum T {
    Const(Val),
    /// levels up, column
    Col(usize, usize),
    Param(usize),
    Var(String),
    Not(Box<T>),
    And(Box<T>, Box<T>),
    Or(Box<T>, Box<T>),
    Cmp(String, Box<T>, Box<T>),
    Contains(Box<T>, Box<T>),
    Overlaps(Box<T>, Box<T>),
    Concat(Ty, Box<T>, Ty, Box<T>, Ty),
    Get(Box<T>, Box<T>, bool),
    Like(Box<T>, Box<T>, bool),
    Arith(String, Ty, Box<T>, Box<T>),
    Cast(Box<T>, Ty, Ty),
    Func(String, Vec<(T, Ty)>),
    Case(Vec<(T, T)>, Option<Box<T>>),
    Coalesce(Vec<T>),
    /// position of the subplan
    InSub(Box<T>, usize, bool),
    Quant(String, Box<T>, Box<T>, bool),
    QuantSub(String, Box<T>, usize, bool),
    IsNull(Box<T>, bool),
    IsBool(Box<T>, bool, bool),
    IsDistinct(Box<T>, Box<T>, bool),
    Exists(usize),
    Sub(usize),
    Array(Vec<T>),
    Agg(String, Option<Box<T>>),
}
#[derive(Clone, Debug)]
pub struct SelPlan {
    pub table: Option<String>,
    pub filter: Option<T>,
    pub order: Vec<(T, bool, bool)>,
    pub limit: Option<T>,
    pub offset: Option<T>,
    pub lock: Option<LockMode>,
    pub items: Vec<(String, T, Ty)>,
    pub aggregate: bool,
    pub correlated: bool,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Select(SelPlan),
    Insert { table: String, rows: Vec<Vec<(usize, T)>>, ret: Vec<(String, T, Ty)>, conflict_skip: bool },
    Update { table: String, sets: Vec<(usize, T)>, filter: Option<T>, ret: Vec<(String, T, Ty)> },
    Delete { table: String, filter: Option<T>, ret: Vec<(String, T, Ty)> },
    Other(Stmt),
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub kind: Kind,
    pub subs: Vec<SelPlan>,
    pub params: Vec<Ty>,
    pub cols: Vec<(String, Ty)>,
    pub text: String,
}
impl Plan {
    pub fn touches(&self, table: &str) -> bool {
        match &self.kind {
            Kind::Select(s) => s.table.as_deref() == Some(table),
            Kind::Insert { table: x, .. } | Kind::Update { table: x, .. } | Kind::Delete { table: x, .. } => x == table,
            Kind::Other(_) => false,
        }
    }
    pub fn writes(&self) -> bool {
        !matches!(self.kind, Kind::Select(_))
    }
}

#[derive(Clone)]
struct Scope {
    names: Vec<String>,
    cols: Vec<(String, Ty)>,
}
struct Ck<'a> {
    db: &'a Db,
    params: Vec<Ty>,
    subs: Vec<SelPlan>,
    scopes: Vec<Scope>,
    vars: HashMap<String, Ty>,
    /// the deepest scope reached out of the current select
    reach: usize,
    aggs: bool,
    agg_seen: bool,
}
impl<'a> Ck<'a> {
    fn no_op<X>(&self, op: &str, a: Ty, b: Ty) -> R<X> {
        sql("42883", format!("operator does not exist: {} {op} {}", self.db.type_text(a), self.db.type_text(b)))
    }
    fn param(&mut self, n: usize) -> R<Ty> {
        if n == 0 {
            return sql("42P02", "there is no parameter $0");
        }
        while self.params.len() < n {
            self.params.push(UNKNOWN);
        }
        Ok(self.params[n - 1])
    }
    /// Gives an unknown literal or parameter a type.
    fn known(&mut self, e: T, from: Ty, to: Ty) -> R<T> {
        if from != UNKNOWN || to == UNKNOWN {
            return Ok(e);
        }
        match e {
            T::Const(Val::Text(s)) => Ok(T::Const(self.db.input(to, &s)?)),
            T::Const(Val::Null) => Ok(T::Const(Val::Null)),
            T::Param(n) => {
                self.params[n - 1] = to;
                Ok(T::Param(n))
            }
            e => Ok(T::Cast(Box::new(e), t(B::Text), to)),
        }
    }
    /// Brings both sides of a comparison to comparable types.
    fn unify(&mut self, op: &str, a: T, ta_: Ty, b: T, tb: Ty) -> R<(T, T, Ty)> {
        if ta_ == UNKNOWN && tb == UNKNOWN {
            let x = self.known(a, ta_, t(B::Text))?;
            let y = self.known(b, tb, t(B::Text))?;
            return Ok((x, y, t(B::Text)));
        }
        if ta_ == UNKNOWN {
            let x = self.known(a, ta_, tb)?;
            return Ok((x, b, tb));
        }
        if tb == UNKNOWN {
            let y = self.known(b, tb, ta_)?;
            return Ok((a, y, ta_));
        }
        if ta_ == tb || (is_text(ta_) && is_text(tb)) {
            if ta_.b == B::Json && !ta_.arr {
                return self.no_op(op, ta_, tb);
            }
            return Ok((a, b, ta_));
        }
        if is_num(ta_) && is_num(tb) {
            return Ok((a, b, wider(ta_, tb)));
        }
        if is_ts(ta_) && is_ts(tb) {
            return Ok((a, b, t(B::Timestamptz)));
        }
        self.no_op(op, ta_, tb)
    }
    fn boolean(&mut self, e: &Expr, what: &str) -> R<T> {
        let (x, ty) = self.expr(e)?;
        if ty == UNKNOWN {
            return self.known(x, ty, t(B::Bool));
        }
        if ty != t(B::Bool) {
            return sql("42804", format!("argument of {what} must be type boolean, not type {}", self.db.type_text(ty)));
        }
        Ok(x)
    }
    /// Assignment to a column.
    fn assign(&mut self, x: T, from: Ty, to: Ty, col: &str) -> R<T> {
        if from == UNKNOWN {
            return self.known(x, from, to);
        }
        if from == to {
            return Ok(x);
        }
        let ok = (is_num(from) && is_num(to))
            || is_ts(from) && is_ts(to)
            || (!from.arr && is_text(to))
            || (from.arr && to.arr && is_text(t(from.b)) && is_text(t(to.b)))
            || (from.arr && to.arr && is_num(t(from.b)) && is_num(t(to.b)))
            || (!from.arr && !to.arr && matches!((from.b, to.b), (B::Json, B::Jsonb) | (B::Jsonb, B::Json)));
        if !ok {
            return sql("42804", format!("column {col:?} is of type {} but expression is of type {}", self.db.type_text(to), self.db.type_text(from)));
        }
        Ok(T::Cast(Box::new(x), from, to))
    }
    fn as_ty(&mut self, e: &Expr, want: Ty) -> R<T> {
        let (x, ty) = self.expr(e)?;
        if ty == UNKNOWN {
            return self.known(x, ty, want);
        }
        if ty == want || (is_text(ty) && is_text(want)) || (is_num(ty) && is_num(want) && wider(ty, want) == want) || (is_ts(ty) && is_ts(want)) {
            return Ok(if ty == want { x } else { T::Cast(Box::new(x), ty, want) });
        }
        sql("42883", format!("function argument of type {} where {} is expected", self.db.type_text(ty), self.db.type_text(want)))
    }
    /// The common type of several results (CASE, COALESCE, ARRAY, IN).
    fn common(&mut self, xs: Vec<(T, Ty)>, what: &str) -> R<(Vec<T>, Ty)> {
        let mut ty = UNKNOWN;
        for (_, x) in &xs {
            if *x == UNKNOWN {
                continue;
            }
            ty = if ty == UNKNOWN || ty == *x {
                *x
            } else if is_num(ty) && is_num(*x) {
                wider(ty, *x)
            } else if is_text(ty) && is_text(*x) {
                t(B::Text)
            } else if is_ts(ty) && is_ts(*x) {
                t(B::Timestamptz)
            } else {
                return sql("42804", format!("{what} types {} and {} cannot be matched", self.db.type_text(ty), self.db.type_text(*x)));
            };
        }
        if ty == UNKNOWN {
            ty = t(B::Text);
        }
        let mut out = vec![];
        for (e, x) in xs {
            out.push(if x == UNKNOWN { self.known(e, x, ty)? } else if x != ty { T::Cast(Box::new(e), x, ty) } else { e });
        }
        Ok((out, ty))
    }
    fn expr(&mut self, e: &Expr) -> R<(T, Ty)> {
        let bx = Box::new;
        Ok(match e {
            Expr::Null => (T::Const(Val::Null), UNKNOWN),
            Expr::Bool(b) => (T::Const(Val::Bool(*b)), t(B::Bool)),
            Expr::Str(s) => (T::Const(Val::Text(s.clone())), UNKNOWN),
            Expr::Num(s) => match s.parse::<i64>() {
                Ok(i) => (T::Const(Val::Int(i)), t(if i32::try_from(i).is_ok() { B::Int4 } else { B::Int8 })),
                Err(_) => (T::Const(Val::Float(s.parse().map_err(|_| Fail::Sql("42601", format!("number {s}")))?)), t(B::Float8)),
            },
            Expr::Param(n) => {
                let ty = self.param(*n)?;
                (T::Param(*n), ty)
            }
            Expr::Col(q, c) => {
                for (up, s) in self.scopes.iter().rev().enumerate() {
                    if q.as_ref().is_some_and(|q| !s.names.contains(q)) {
                        continue;
                    }
                    if let Some(i) = s.cols.iter().position(|x| x.0 == *c) {
                        let ty = s.cols[i].1;
                        let depth = self.scopes.len() - 1 - up;
                        self.reach = self.reach.min(depth);
                        return Ok((T::Col(up, i), ty));
                    }
                }
                if let (None, Some(ty)) = (q, self.vars.get(c)) {
                    return Ok((T::Var(c.clone()), *ty));
                }
                return sql("42703", format!("column {c:?} does not exist"));
            }
            Expr::Not(x) => (T::Not(bx(self.boolean(x, "NOT")?)), t(B::Bool)),
            Expr::Neg(x) => {
                let (y, ty) = self.expr(x)?;
                if !is_num(ty) && ty != t(B::Interval) {
                    return self.no_op("-", UNKNOWN, ty);
                }
                let zero = if ty == t(B::Interval) { Val::Iv(0) } else { Val::Int(0) };
                (T::Arith("-".into(), ty, bx(T::Const(zero)), bx(y)), ty)
            }
            Expr::Bin(op, l, r) if op == "and" || op == "or" => {
                let what = if op == "and" { "AND" } else { "OR" };
                let (a, b) = (bx(self.boolean(l, what)?), bx(self.boolean(r, what)?));
                (if op == "and" { T::And(a, b) } else { T::Or(a, b) }, t(B::Bool))
            }
            Expr::Bin(op, l, r) => {
                let (a, tya) = self.expr(l)?;
                let (b, tyb) = self.expr(r)?;
                match op.as_str() {
                    "=" | "<>" | "<" | "<=" | ">" | ">=" => {
                        let (a, b, _) = self.unify(op, a, tya, b, tyb)?;
                        (T::Cmp(op.clone(), bx(a), bx(b)), t(B::Bool))
                    }
                    "@>" | "<@" | "&&" => {
                        let (a, b, ty) = self.unify(op, a, tya, b, tyb)?;
                        // text and varchar arrays are different types to these operators
                        if !(ty.arr && (tya == tyb || tya == UNKNOWN || tyb == UNKNOWN)) && !(ty == t(B::Jsonb) && op != "&&") {
                            return self.no_op(op, tya, tyb);
                        }
                        let (a, b) = (bx(a), bx(b));
                        (
                            match op.as_str() {
                                "@>" => T::Contains(a, b),
                                "<@" => T::Contains(b, a),
                                _ => T::Overlaps(a, b),
                            },
                            t(B::Bool),
                        )
                    }
                    "||" => {
                        if tya.arr || tyb.arr {
                            let arr = if tya.arr { tya } else { tyb };
                            let a = if tya == UNKNOWN { self.known(a, tya, arr)? } else { a };
                            let b = if tyb == UNKNOWN { self.known(b, tyb, arr)? } else { b };
                            let (xa, xb) = (if tya == UNKNOWN { arr } else { tya }, if tyb == UNKNOWN { arr } else { tyb });
                            if xa.b != xb.b {
                                return self.no_op(op, tya, tyb);
                            }
                            (T::Concat(arr, bx(a), xa, bx(b), xb), arr)
                        } else if tya == t(B::Jsonb) || tyb == t(B::Jsonb) {
                            return unsupported("jsonb concatenation");
                        } else {
                            let a = self.known(a, tya, t(B::Text))?;
                            let b = self.known(b, tyb, t(B::Text))?;
                            if !(is_text(tya) || tya == UNKNOWN || is_text(tyb) || tyb == UNKNOWN) {
                                return self.no_op(op, tya, tyb);
                            }
                            (T::Concat(t(B::Text), bx(a), if tya == UNKNOWN { t(B::Text) } else { tya }, bx(b), if tyb == UNKNOWN { t(B::Text) } else { tyb }), t(B::Text))
                        }
                    }
                    "->" | "->>" => {
                        if !matches!(tya.b, B::Json | B::Jsonb) || tya.arr {
                            return self.no_op(op, tya, tyb);
                        }
                        let b = if tyb == UNKNOWN { self.known(b, tyb, t(B::Text))? } else { b };
                        (T::Get(bx(a), bx(b), op == "->>"), if op == "->>" { t(B::Text) } else { tya })
                    }
                    "like" | "ilike" => {
                        let a = self.known(a, tya, t(B::Text))?;
                        let b = self.known(b, tyb, t(B::Text))?;
                        if !(is_text(tya) || tya == UNKNOWN) || !(is_text(tyb) || tyb == UNKNOWN) {
                            return self.no_op(op, tya, tyb);
                        }
                        (T::Like(bx(a), bx(b), op == "ilike"), t(B::Bool))
                    }
                    "+" | "-" | "*" | "/" | "%" => {
                        let iv = t(B::Interval);
                        let (mut a, mut b, mut x, mut y) = (a, b, tya, tyb);
                        if x == UNKNOWN && y == UNKNOWN {
                            return sql("42725", format!("operator is not unique: unknown {op} unknown"));
                        }
                        // unknown: assumed to be of the other side's type, except timestamp + 'interval'
                        if x == UNKNOWN {
                            x = if is_ts(y) && op == "+" { iv } else { y };
                            a = self.known(a, UNKNOWN, x)?;
                        }
                        if y == UNKNOWN {
                            y = if is_ts(x) && op == "+" { iv } else { x };
                            b = self.known(b, UNKNOWN, y)?;
                        }
                        let ty = if is_num(x) && is_num(y) {
                            wider(x, y)
                        } else if is_ts(x) && is_ts(y) && op == "-" {
                            iv
                        } else if is_ts(x) && y == iv && (op == "+" || op == "-") {
                            x
                        } else if x == iv && is_ts(y) && op == "+" {
                            y
                        } else if x == iv && y == iv && (op == "+" || op == "-") {
                            iv
                        } else if x == iv && is_num(y) && (op == "*" || op == "/") {
                            iv
                        } else if is_num(x) && y == iv && op == "*" {
                            iv
                        } else {
                            return self.no_op(op, tya, tyb);
                        };
                        (T::Arith(op.clone(), ty, bx(a), bx(b)), ty)
                    }
                    _ => return unsupported(format!("operator {op}")),
                }
            }
            Expr::Cast(x, n) => {
                let to = self.db.type_named(n)?;
                let (y, from) = self.expr(x)?;
                if from == UNKNOWN {
                    return Ok((self.known(y, from, to)?, to));
                }
                if from == to {
                    return Ok((y, to));
                }
                self.castable(from, to)?;
                (T::Cast(bx(y), from, to), to)
            }
            Expr::CountStar => {
                if !self.aggs {
                    return sql("42803", "aggregate functions are not allowed here");
                }
                self.agg_seen = true;
                (T::Agg("count".into(), None), t(B::Int8))
            }
            Expr::Func(n, args) => return self.func(n, args),
            Expr::Case(op, whens, els) => {
                let mut conds = vec![];
                let mut outs = vec![];
                for (c, r) in whens {
                    let c = match op {
                        None => self.boolean(c, "CASE/WHEN")?,
                        Some(o) => {
                            let (a, x) = self.expr(o)?;
                            let (b, y) = self.expr(c)?;
                            let (a, b, _) = self.unify("=", a, x, b, y)?;
                            T::Cmp("=".into(), bx(a), bx(b))
                        }
                    };
                    conds.push(c);
                    outs.push(self.expr(r)?);
                }
                let has_else = els.is_some();
                if let Some(e) = els {
                    outs.push(self.expr(e)?);
                }
                let (mut outs, ty) = self.common(outs, "CASE")?;
                let last = if has_else { outs.pop().map(bx) } else { None };
                (T::Case(conds.into_iter().zip(outs).collect(), last), ty)
            }
            Expr::In(x, list, neg) => {
                let (a, ty) = self.expr(x)?;
                let mut acc: Option<T> = None;
                for i in list {
                    let (b, tb) = self.expr(i)?;
                    let (p, q, _) = self.unify("=", a.clone(), ty, b, tb)?;
                    let c = T::Cmp("=".into(), bx(p), bx(q));
                    acc = Some(match acc {
                        None => c,
                        Some(o) => T::Or(bx(o), bx(c)),
                    });
                }
                let e = acc.unwrap();
                (if *neg { T::Not(bx(e)) } else { e }, t(B::Bool))
            }
            Expr::InSub(x, s, neg) => {
                let (a, ty) = self.expr(x)?;
                let (k, out) = self.sub(s)?;
                if out.len() != 1 {
                    return sql("42601", "subquery has too many columns");
                }
                let (a, _, _) = self.unify("=", a, ty, T::Const(Val::Null), out[0])?;
                (T::InSub(bx(a), k, *neg), t(B::Bool))
            }
            Expr::Quant(op, x, arr, all) => {
                let (a, ty) = self.expr(x)?;
                let (b, mut tb) = self.expr(arr)?;
                let b = if tb == UNKNOWN {
                    if ty == UNKNOWN || ty.arr {
                        return unsupported("ANY of unknown type");
                    }
                    tb = ta(ty.b);
                    self.known(b, UNKNOWN, tb)?
                } else {
                    b
                };
                if !tb.arr {
                    return sql("42809", "op ANY/ALL (array) requires array on right side");
                }
                let (a, _, _) = self.unify(op, a, ty, T::Const(Val::Null), t(tb.b))?;
                (T::Quant(op.clone(), bx(a), bx(b), *all), t(B::Bool))
            }
            Expr::QuantSub(op, x, s, all) => {
                let (a, ty) = self.expr(x)?;
                let (k, out) = self.sub(s)?;
                if out.len() != 1 {
                    return sql("42601", "subquery has too many columns");
                }
                let (a, _, _) = self.unify(op, a, ty, T::Const(Val::Null), out[0])?;
                (T::QuantSub(op.clone(), bx(a), k, *all), t(B::Bool))
            }
            Expr::IsNull(x, neg) => {
                let (a, ty) = self.expr(x)?;
                let a = self.known(a, ty, t(B::Text))?;
                (T::IsNull(bx(a), *neg), t(B::Bool))
            }
            Expr::IsBool(x, v, neg) => (T::IsBool(bx(self.boolean(x, "IS TRUE")?), *v, *neg), t(B::Bool)),
            Expr::IsDistinct(l, r, neg) => {
                let (a, x) = self.expr(l)?;
                let (b, y) = self.expr(r)?;
                let (a, b, _) = self.unify("=", a, x, b, y)?;
                (T::IsDistinct(bx(a), bx(b), *neg), t(B::Bool))
            }
            Expr::Exists(s) => {
                let (k, _) = self.sub(s)?;
                (T::Exists(k), t(B::Bool))
            }
            Expr::Sub(s) => {
                let (k, out) = self.sub(s)?;
                if out.len() != 1 {
                    return sql("42601", "subquery must return only one column");
                }
                (T::Sub(k), out[0])
            }
            Expr::Array(v) => {
                if v.is_empty() {
                    return Ok((T::Const(Val::Arr(vec![])), UNKNOWN_ARR));
                }
                let xs = v.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?;
                let (xs, ty) = self.common(xs, "ARRAY")?;
                if ty.arr {
                    return unsupported("nested arrays");
                }
                (T::Array(xs), ta(ty.b))
            }
        })
    }
    fn castable(&self, from: Ty, to: Ty) -> R<()> {
        if from == UNKNOWN_ARR && to.arr {
            return Ok(());
        }
        let no = || sql("42846", format!("cannot cast type {} to {}", self.db.type_text(from), self.db.type_text(to)));
        if from.arr != to.arr {
            return if (is_text(from) || is_text(to)) && !(from.arr && to.arr) { Ok(()) } else { no() };
        }
        let (f, g) = (t(from.b), t(to.b));
        if f == g || is_text(f) || is_text(g) {
            return Ok(());
        }
        let ok = (is_num(f) && is_num(g))
            || (is_ts(f) && is_ts(g))
            || matches!((f.b, g.b), (B::Json, B::Jsonb) | (B::Jsonb, B::Json) | (B::Int4, B::Bool) | (B::Bool, B::Int4) | (B::Jsonb, B::Int4) | (B::Jsonb, B::Int8) | (B::Jsonb, B::Bool));
        if ok { Ok(()) } else { no() }
    }
    fn sub(&mut self, s: &Select) -> R<(usize, Vec<Ty>)> {
        let keep = (self.reach, self.aggs, self.agg_seen);
        self.reach = usize::MAX;
        let p = self.select(s)?;
        let inner = self.reach;
        self.reach = keep.0.min(inner);
        self.aggs = keep.1;
        self.agg_seen = keep.2;
        let tys = p.items.iter().map(|i| i.2).collect();
        self.subs.push(p);
        Ok((self.subs.len() - 1, tys))
    }
    fn items(&mut self, items: &[Item]) -> R<Vec<(String, T, Ty)>> {
        let mut out = vec![];
        for i in items {
            match i {
                Item::Star => {
                    let Some(s) = self.scopes.last().cloned() else { return sql("42601", "SELECT * with no tables specified is not valid") };
                    if s.names.is_empty() {
                        return sql("42601", "SELECT * with no tables specified is not valid");
                    }
                    for (k, (n, ty)) in s.cols.iter().enumerate() {
                        out.push((n.clone(), T::Col(0, k), *ty));
                    }
                }
                Item::Expr(e, alias) => {
                    let (x, ty) = self.expr(e)?;
                    let x = self.known(x, ty, t(B::Text))?;
                    let ty = if ty == UNKNOWN { t(B::Text) } else { ty };
                    let name = alias.clone().unwrap_or_else(|| match e {
                        Expr::Col(_, c) => c.clone(),
                        Expr::Func(f, _) => f.clone(),
                        Expr::CountStar => "count".into(),
                        Expr::Case(..) => "case".into(),
                        Expr::Cast(_, n) => n.name.clone(),
                        Expr::Exists(_) => "exists".into(),
                        _ => "?column?".into(),
                    });
                    out.push((name, x, ty));
                }
            }
        }
        Ok(out)
    }
    fn scope_of(&self, table: &str, alias: Option<&String>) -> R<Scope> {
        let Some(tb) = self.db.tables.get(table) else { return sql("42P01", format!("relation {table:?} does not exist")) };
        Ok(Scope { names: vec![alias.cloned().unwrap_or(table.into())], cols: tb.cols.iter().map(|c| (c.name.clone(), c.ty)).collect() })
    }
    fn select(&mut self, s: &Select) -> R<SelPlan> {
        let sc = match &s.from {
            Some((n, a)) => self.scope_of(n, a.as_ref())?,
            None => Scope { names: vec![], cols: vec![] },
        };
        self.scopes.push(sc);
        let depth = self.scopes.len() - 1;
        self.aggs = false;
        let filter = s.filter.as_ref().map(|f| self.boolean(f, "WHERE")).transpose()?;
        self.aggs = true;
        self.agg_seen = false;
        let items = self.items(&s.items)?;
        let aggregate = self.agg_seen;
        let mut order = vec![];
        for o in &s.order {
            let by_item = match &o.e {
                Expr::Num(n) => n.parse::<usize>().ok().and_then(|k| items.get(k.wrapping_sub(1))).map(|i| (i.1.clone(), i.2)),
                Expr::Col(None, c) => s
                    .items
                    .iter()
                    .position(|i| matches!(i, Item::Expr(_, Some(a)) if a == c))
                    .map(|k| (items[k].1.clone(), items[k].2)),
                _ => None,
            };
            let (x, ty) = match by_item {
                Some(x) => x,
                None => self.expr(&o.e)?,
            };
            let x = self.known(x, ty, t(B::Text))?;
            if ty == t(B::Json) {
                return sql("42883", "could not identify an ordering operator for type json");
            }
            order.push((x, o.desc, o.nulls_first));
        }
        let num = |me: &mut Self, e: &Option<Expr>| -> R<Option<T>> {
            match e {
                None => Ok(None),
                Some(e) => Ok(Some(me.as_ty(e, t(B::Int8))?)),
            }
        };
        let limit = num(self, &s.limit)?;
        let offset = num(self, &s.offset)?;
        self.scopes.pop();
        if aggregate && (s.lock.is_some() || !order.is_empty()) {
            return unsupported("aggregate with ordering or locking");
        }
        let correlated = self.reach < depth;
        if correlated && s.lock.is_some() {
            return unsupported("locking correlated subquery");
        }
        Ok(SelPlan { table: s.from.as_ref().map(|f| f.0.clone()), filter, order, limit, offset, lock: s.lock, items, aggregate, correlated })
    }
    fn func(&mut self, n: &str, args: &[Expr]) -> R<(T, Ty)> {
        let bx = Box::new;
        let none = |k: usize, me: &Self| -> R<()> {
            let _ = me;
            if args.len() == k { Ok(()) } else { sql("42883", format!("function {n} with {} arguments does not exist", args.len())) }
        };
        let f = |a: Vec<(T, Ty)>, ty: Ty| Ok((T::Func(n.to_string(), a), ty));
        match n {
            "now" | "transaction_timestamp" | "statement_timestamp" | "clock_timestamp" => {
                none(0, self)?;
                f(vec![], t(B::Timestamptz))
            }
            "current_database" | "current_user" | "version" => {
                none(0, self)?;
                f(vec![], t(B::Name))
            }
            "timezone" => {
                none(2, self)?;
                let z = self.as_ty(&args[0], t(B::Text))?;
                let (x, ty) = self.expr(&args[1])?;
                let (x, ty) = if ty == UNKNOWN { (self.known(x, ty, t(B::Timestamptz))?, t(B::Timestamptz)) } else { (x, ty) };
                if !is_ts(ty) {
                    return sql("42883", "function timezone does not exist for these arguments");
                }
                f(vec![(z, t(B::Text)), (x, ty)], t(if ty.b == B::Timestamptz { B::Timestamp } else { B::Timestamptz }))
            }
            "array_append" | "array_prepend" | "array_remove" => {
                none(2, self)?;
                let (mut a, mut ta_) = self.expr(&args[0])?;
                let (mut b, mut tb) = self.expr(&args[1])?;
                if n == "array_prepend" {
                    std::mem::swap(&mut a, &mut b);
                    std::mem::swap(&mut ta_, &mut tb);
                }
                if !ta_.arr {
                    return unsupported(format!("{n} of a non-array"));
                }
                let b = if tb == UNKNOWN { self.known(b, tb, t(ta_.b))? } else { b };
                if tb != UNKNOWN && t(ta_.b) != tb {
                    // anycompatible: text and varchar meet as text
                    if !(is_text(t(ta_.b)) && is_text(tb)) {
                        return sql("42883", format!("function {n}({}, {}) does not exist", self.db.type_text(ta_), self.db.type_text(tb)));
                    }
                    ta_ = ta(B::Text);
                }
                f(vec![(a, ta_), (b, t(ta_.b))], ta_)
            }
            "cardinality" => {
                none(1, self)?;
                let (a, x) = self.expr(&args[0])?;
                if !x.arr {
                    return sql("42883", "function cardinality does not exist for this type");
                }
                f(vec![(a, x)], t(B::Int4))
            }
            "array_length" => {
                none(2, self)?;
                let (a, x) = self.expr(&args[0])?;
                if !x.arr {
                    return sql("42883", "function array_length does not exist for this type");
                }
                let d = self.as_ty(&args[1], t(B::Int4))?;
                f(vec![(a, x), (d, t(B::Int4))], t(B::Int4))
            }
            "jsonb_build_object" | "json_build_object" | "jsonb_build_array" | "json_build_array" => {
                if n.ends_with("object") && args.len() % 2 != 0 {
                    return sql("22023", "argument list must have even number of elements");
                }
                let mut v = vec![];
                for a in args {
                    let (x, ty) = self.expr(a)?;
                    if ty == UNKNOWN {
                        if matches!(x, T::Param(_)) {
                            return sql("42P18", "could not determine data type of parameter");
                        }
                        v.push((x, t(B::Text)));
                    } else {
                        v.push((x, ty));
                    }
                }
                f(v, t(if n.starts_with("jsonb") { B::Jsonb } else { B::Json }))
            }
            "to_jsonb" | "to_json" => {
                none(1, self)?;
                let (x, ty) = self.expr(&args[0])?;
                f(vec![(x, if ty == UNKNOWN { t(B::Text) } else { ty })], t(if n == "to_jsonb" { B::Jsonb } else { B::Json }))
            }
            "coalesce" | "greatest" | "least" => {
                let xs = args.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?;
                let (xs, ty) = self.common(xs, "COALESCE")?;
                if n == "coalesce" {
                    return Ok((T::Coalesce(xs), ty));
                }
                f(xs.into_iter().map(|x| (x, ty)).collect(), ty)
            }
            "nullif" => {
                none(2, self)?;
                let (a, x) = self.expr(&args[0])?;
                let (b, y) = self.expr(&args[1])?;
                let (a, b, ty) = self.unify("=", a, x, b, y)?;
                Ok((T::Case(vec![(T::Cmp("=".into(), bx(a.clone()), bx(b)), T::Const(Val::Null))], Some(bx(a))), if x == UNKNOWN { ty } else { x }))
            }
            "lower" | "upper" => {
                none(1, self)?;
                let a = self.as_ty(&args[0], t(B::Text))?;
                f(vec![(a, t(B::Text))], t(B::Text))
            }
            "length" | "char_length" => {
                none(1, self)?;
                let a = self.as_ty(&args[0], t(B::Text))?;
                f(vec![(a, t(B::Text))], t(B::Int4))
            }
            "concat" => {
                let mut v = vec![];
                for a in args {
                    let (x, ty) = self.expr(a)?;
                    v.push((self.known(x, ty, t(B::Text))?, if ty == UNKNOWN { t(B::Text) } else { ty }));
                }
                f(v, t(B::Text))
            }
            "abs" => {
                none(1, self)?;
                let (a, x) = self.expr(&args[0])?;
                if !is_num(x) {
                    return sql("42883", "function abs does not exist for this type");
                }
                f(vec![(a, x)], x)
            }
            "pg_notify" => {
                none(2, self)?;
                let a = self.as_ty(&args[0], t(B::Text))?;
                let b = self.as_ty(&args[1], t(B::Text))?;
                f(vec![(a, t(B::Text)), (b, t(B::Text))], t(B::Void))
            }
            "pg_advisory_lock" | "pg_advisory_xact_lock" | "pg_try_advisory_lock" | "pg_try_advisory_xact_lock" | "pg_advisory_unlock" => {
                let ty = match args.len() {
                    1 => t(B::Int8),
                    2 => t(B::Int4),
                    _ => return sql("42883", format!("function {n} does not exist")),
                };
                let mut v = vec![];
                for a in args {
                    v.push((self.as_ty(a, ty)?, ty));
                }
                f(v, t(if n == "pg_advisory_lock" || n == "pg_advisory_xact_lock" { B::Void } else { B::Bool }))
            }
            "date_trunc" => {
                none(2, self)?;
                let unit = self.as_ty(&args[0], t(B::Text))?;
                let (a, x) = self.expr(&args[1])?;
                if !is_ts(x) {
                    return unsupported("date_trunc of something else than a timestamp");
                }
                f(vec![(unit, t(B::Text)), (a, x)], x)
            }
            "hashtextextended" => {
                none(2, self)?;
                let a = self.as_ty(&args[0], t(B::Text))?;
                let b = self.as_ty(&args[1], t(B::Int8))?;
                f(vec![(a, t(B::Text)), (b, t(B::Int8))], t(B::Int8))
            }
            "hashtext" => {
                none(1, self)?;
                let a = self.as_ty(&args[0], t(B::Text))?;
                f(vec![(a, t(B::Text))], t(B::Int4))
            }
            "count" | "min" | "max" => {
                none(1, self)?;
                if !self.aggs {
                    return sql("42803", "aggregate functions are not allowed here");
                }
                self.aggs = false;
                let (a, x) = self.expr(&args[0])?;
                self.aggs = true;
                self.agg_seen = true;
                Ok((T::Agg(n.into(), Some(bx(a))), if n == "count" { t(B::Int8) } else { x }))
            }
            "sum" | "avg" | "array_agg" | "string_agg" | "unnest" | "generate_series" | "random" | "to_char" | "extract" | "make_interval" | "pg_sleep" | "jsonb_set" | "array_cat" | "array_position" | "substring" | "trim" | "replace" | "split_part" | "set_config" | "current_setting" | "md5" | "gen_random_uuid" | "date_part" | "to_timestamp" | "round" | "floor" | "ceil" | "power" | "row_number" | "rank" | "row_to_json" | "jsonb_agg" | "json_agg" | "bool_and" | "bool_or" | "nextval" | "pg_backend_pid" => {
                unsupported(format!("function {n}"))
            }
            _ => sql("42883", format!("function {n} does not exist")),
        }
    }
}
const UNKNOWN_ARR: Ty = ta(B::Unknown);

// ------------------------------------------------------------------ the database

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub not_null: bool,
    pub key: bool,
    pub serial: bool,
    pub default: Option<T>,
}
pub type Row = Vec<Val>;
#[derive(Clone, Debug)]
pub struct Slot {
    pub committed: Option<Arc<Row>>,
    /// the transaction that locked the row
    pub lock: Option<u64>,
    /// what the locking transaction made of it (None inside: deleted)
    pub pending: Option<Option<Arc<Row>>>,
    pub version: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Table {
    pub cols: Vec<Col>,
    pub rows: Vec<Slot>,
    pub serial: i64,
    pub triggers: Vec<Trigger>,
}
#[derive(Clone, Debug)]
pub struct Trigger {
    pub name: String,
    pub events: Vec<String>,
    pub when: Option<Expr>,
    pub func: String,
}
#[derive(Default, Debug)]
pub struct Tx {
    pub start: i64,
    pub explicit: bool,
    pub failed: bool,
    touched: Vec<(String, usize)>,
    notifies: Vec<(String, String)>,
    listens: Vec<(bool, Option<String>)>,
    /// tables before this transaction's DDL
    undo: Option<(BTreeMap<String, Table>, Vec<EnumTy>, BTreeMap<String, Vec<PStmt>>)>,
}
#[derive(Debug)]
pub enum Push {
    Note { channel: String, payload: String, pid: i32 },
    /// close the connection
    Kill,
}
pub struct Conn {
    pub tx: Option<u64>,
    pub listens: BTreeSet<String>,
    pub out: mpsc::UnboundedSender<Push>,
}
#[derive(Default)]
pub struct Db {
    pub tables: BTreeMap<String, Table>,
    pub enums: Vec<EnumTy>,
    pub funcs: BTreeMap<String, Vec<PStmt>>,
    pub txs: HashMap<u64, Tx>,
    pub conns: HashMap<u64, Conn>,
    /// key -> holding connection, session count, transaction count
    adv: HashMap<i64, (u64, u32, u32)>,
    waits: HashMap<u64, u64>,
    next: u64,
    rng: u64,
    pub statements: u64,
    pub notes: Vec<(String, String)>,
    /// notifications to be lost, by index
    pub lose: BTreeSet<usize>,
    pub lost: usize,
    /// when notifications were lost, microseconds since 2000
    pub lost_at: Vec<i64>,
    pub waited: usize,
    /// every committed change of a row, in order
    pub history: Vec<Change>,
}
#[derive(Clone, Debug)]
pub struct Change {
    /// microseconds since 2000
    pub t: i64,
    pub table: String,
    pub conn: u64,
    pub old: Option<Arc<Row>>,
    pub new: Option<Arc<Row>>,
}
#[derive(Clone)]
pub struct Shared {
    pub db: Arc<Mutex<Db>>,
    pub changed: Arc<Notify>,
}
#[derive(Debug, Default, Clone)]
pub struct Out {
    pub rows: Vec<Row>,
    pub tag: String,
}
pub fn now_us() -> i64 {
    chrono::Utc::now().timestamp_micros() - PG_EPOCH_US
}

/// What an expression is evaluated against.
struct Cx<'a> {
    db: &'a Db,
    rows: Vec<&'a [Val]>,
    params: &'a [Val],
    now: i64,
    subs: &'a [SelPlan],
    done: &'a HashMap<usize, Vec<Row>>,
    tx: u64,
    vars: &'a HashMap<String, (Val, Ty)>,
    notify: &'a Mutex<Vec<(String, String)>>,
    group: Option<&'a [Arc<Row>]>,
}
fn tri(v: Val) -> Option<bool> {
    match v {
        Val::Bool(b) => Some(b),
        Val::Null => None,
        v => panic!("harness: {v:?} used as a truth value"),
    }
}
fn tv(o: Option<bool>) -> Val {
    o.map_or(Val::Null, Val::Bool)
}
impl<'a> Cx<'a> {
    fn with<'b>(&'b self, row: &'b [Val]) -> Cx<'b> {
        let mut rows: Vec<&'b [Val]> = self.rows.to_vec();
        rows.push(row);
        Cx { rows, db: self.db, params: self.params, now: self.now, subs: self.subs, done: self.done, tx: self.tx, vars: self.vars, notify: self.notify, group: None }
    }
    fn holds(&self, e: &Option<T>) -> R<bool> {
        match e {
            None => Ok(true),
            Some(e) => Ok(tri(self.eval(e)?) == Some(true)),
        }
    }
    fn sub(&self, k: usize) -> R<Vec<Row>> {
        if let Some(r) = self.done.get(&k) {
            return Ok(r.clone());
        }
        let s = &self.subs[k];
        let found = self.db.scan(s, self)?;
        self.db.project(s, found.into_iter().map(|f| f.2).collect(), self)
    }
    fn any(&self, op: &str, a: &Val, list: impl Iterator<Item = Val>, all: bool) -> Option<bool> {
        let mut unknown = false;
        for b in list {
            match cmp(a, &b).map(|o| op_holds(op, o)) {
                None => unknown = true,
                Some(x) if x != all => return Some(!all),
                _ => {}
            }
        }
        if unknown { None } else { Some(all) }
    }
    fn eval(&self, e: &T) -> R<Val> {
        Ok(match e {
            T::Const(v) => v.clone(),
            T::Col(up, i) => self.rows[self.rows.len() - 1 - up][*i].clone(),
            T::Param(n) => match self.params.get(n - 1) {
                Some(v) => v.clone(),
                None => return sql("08P01", format!("parameter ${n} was not bound")),
            },
            T::Var(n) => self.vars[n].0.clone(),
            T::Not(x) => tv(tri(self.eval(x)?).map(|b| !b)),
            T::And(a, b) => {
                let x = tri(self.eval(a)?);
                if x == Some(false) {
                    return Ok(Val::Bool(false));
                }
                let y = tri(self.eval(b)?);
                tv(match (x, y) {
                    (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                })
            }
            T::Or(a, b) => {
                let x = tri(self.eval(a)?);
                if x == Some(true) {
                    return Ok(Val::Bool(true));
                }
                let y = tri(self.eval(b)?);
                tv(match (x, y) {
                    (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                })
            }
            T::Cmp(op, a, b) => tv(cmp(&self.eval(a)?, &self.eval(b)?).map(|o| op_holds(op, o))),
            T::Contains(a, b) => match (self.eval(a)?, self.eval(b)?) {
                (Val::Arr(x), Val::Arr(y)) => Val::Bool(y.iter().all(|p| x.iter().any(|q| cmp(p, q) == Some(Ordering::Equal)))),
                (Val::Json(x), Val::Json(y)) => Val::Bool(json_contains(&x, &y)),
                _ => Val::Null,
            },
            T::Overlaps(a, b) => match (self.eval(a)?, self.eval(b)?) {
                (Val::Arr(x), Val::Arr(y)) => Val::Bool(y.iter().any(|p| x.iter().any(|q| cmp(p, q) == Some(Ordering::Equal)))),
                _ => Val::Null,
            },
            T::Concat(ty, a, ta_, b, tb) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                if ty.arr {
                    let l = |v: Val, t: &Ty| match v {
                        Val::Arr(v) => v,
                        Val::Null if t.arr => vec![],
                        v => vec![v],
                    };
                    let mut v = l(x, ta_);
                    v.extend(l(y, tb));
                    return Ok(Val::Arr(v));
                }
                if x == Val::Null || y == Val::Null {
                    return Ok(Val::Null);
                }
                Val::Text(self.db.output(&x, *ta_) + &self.db.output(&y, *tb))
            }
            T::Get(a, b, text) => {
                let v = match (self.eval(a)?, self.eval(b)?) {
                    (Val::Json(Value::Object(o)), Val::Text(k)) => o.get(&k).cloned(),
                    (Val::Json(Value::Array(o)), Val::Int(k)) if k >= 0 => o.get(k as usize).cloned(),
                    _ => None,
                };
                match (v, text) {
                    (None, _) | (Some(Value::Null), true) => Val::Null,
                    (Some(Value::String(s)), true) => Val::Text(s),
                    (Some(v), true) => Val::Text(v.to_string()),
                    (Some(v), false) => Val::Json(v),
                }
            }
            T::Like(a, b, i) => match (self.eval(a)?, self.eval(b)?) {
                (Val::Text(x), Val::Text(p)) => {
                    let (x, p) = if *i { (x.to_lowercase(), p.to_lowercase()) } else { (x, p) };
                    Val::Bool(like(&x.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>()))
                }
                _ => Val::Null,
            },
            T::Arith(op, ty, a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                if x == Val::Null || y == Val::Null {
                    return Ok(Val::Null);
                }
                let over = || Fail::Sql("22003", "value out of range".into());
                let fl = |v: &Val| match v {
                    Val::Int(i) => *i as f64,
                    Val::Float(f) => *f,
                    _ => unreachable!(),
                };
                match (&x, &y) {
                    (Val::Int(p), Val::Int(q)) => {
                        let r = match op.as_str() {
                            "+" => p.checked_add(*q),
                            "-" => p.checked_sub(*q),
                            "*" => p.checked_mul(*q),
                            _ if *q == 0 => return sql("22012", "division by zero"),
                            "/" => p.checked_div(*q),
                            _ => p.checked_rem(*q),
                        }
                        .ok_or_else(over)?;
                        in_range(r, ty.b)?
                    }
                    (Val::Int(_) | Val::Float(_), Val::Int(_) | Val::Float(_)) => {
                        let (p, q) = (fl(&x), fl(&y));
                        Val::Float(match op.as_str() {
                            "+" => p + q,
                            "-" => p - q,
                            "*" => p * q,
                            "/" if q == 0.0 => return sql("22012", "division by zero"),
                            "/" => p / q,
                            _ => return unsupported("float %"),
                        })
                    }
                    (Val::Ts(p), Val::Ts(q)) => Val::Iv(p.checked_sub(*q).ok_or_else(over)?),
                    (Val::Ts(p), Val::Iv(q)) => ts_range(if op == "+" { p.checked_add(*q) } else { p.checked_sub(*q) })?,
                    (Val::Iv(p), Val::Ts(q)) => ts_range(p.checked_add(*q))?,
                    (Val::Iv(p), Val::Iv(q)) => Val::Iv(if op == "+" { p.checked_add(*q) } else { p.checked_sub(*q) }.ok_or_else(over)?),
                    (Val::Iv(p), q) => Val::Iv(if op == "*" { *p as f64 * fl(q) } else { *p as f64 / fl(q) } as i64),
                    (q, Val::Iv(p)) => Val::Iv((*p as f64 * fl(q)) as i64),
                    _ => panic!("harness: {x:?} {op} {y:?}"),
                }
            }
            T::Cast(x, from, to) => {
                let v = self.eval(x)?;
                self.db.cast(v, *from, *to)?
            }
            T::Coalesce(v) => {
                for x in v {
                    let y = self.eval(x)?;
                    if y != Val::Null {
                        return Ok(y);
                    }
                }
                Val::Null
            }
            T::Case(w, els) => {
                for (c, r) in w {
                    if tri(self.eval(c)?) == Some(true) {
                        return self.eval(r);
                    }
                }
                match els {
                    Some(e) => self.eval(e)?,
                    None => Val::Null,
                }
            }
            T::InSub(a, k, neg) => {
                let x = self.eval(a)?;
                let rows = self.sub(*k)?;
                let r = self.any("=", &x, rows.into_iter().map(|r| r.into_iter().next().unwrap()), false);
                tv(if *neg { r.map(|b| !b) } else { r })
            }
            T::QuantSub(op, a, k, all) => {
                let x = self.eval(a)?;
                let rows = self.sub(*k)?;
                tv(self.any(op, &x, rows.into_iter().map(|r| r.into_iter().next().unwrap()), *all))
            }
            T::Quant(op, a, b, all) => {
                let x = self.eval(a)?;
                match self.eval(b)? {
                    Val::Null => Val::Null,
                    Val::Arr(v) => tv(self.any(op, &x, v.into_iter(), *all)),
                    v => panic!("harness: ANY of {v:?}"),
                }
            }
            T::IsNull(x, neg) => Val::Bool((self.eval(x)? == Val::Null) != *neg),
            T::IsBool(x, v, neg) => Val::Bool((tri(self.eval(x)?) == Some(*v)) != *neg),
            T::IsDistinct(a, b, neg) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                let d = match (&x, &y) {
                    (Val::Null, Val::Null) => false,
                    (Val::Null, _) | (_, Val::Null) => true,
                    _ => cmp(&x, &y) != Some(Ordering::Equal),
                };
                Val::Bool(d != *neg)
            }
            T::Exists(k) => Val::Bool(!self.sub(*k)?.is_empty()),
            T::Sub(k) => {
                let mut rows = self.sub(*k)?;
                match rows.len() {
                    0 => Val::Null,
                    1 => rows.remove(0).remove(0),
                    _ => return sql("21000", "more than one row returned by a subquery used as an expression"),
                }
            }
            T::Array(v) => Val::Arr(v.iter().map(|x| self.eval(x)).collect::<R<_>>()?),
            T::Agg(n, x) => {
                let Some(g) = self.group else { panic!("harness: aggregate without a group") };
                let mut vals = vec![];
                for r in g {
                    vals.push(match x {
                        None => Val::Bool(true),
                        Some(x) => self.with(r).eval(x)?,
                    });
                }
                vals.retain(|v| *v != Val::Null);
                match n.as_str() {
                    "count" => Val::Int(vals.len() as i64),
                    "min" => vals.into_iter().reduce(|a, b| if cmp(&b, &a) == Some(Ordering::Less) { b } else { a }).unwrap_or(Val::Null),
                    _ => vals.into_iter().reduce(|a, b| if cmp(&b, &a) == Some(Ordering::Greater) { b } else { a }).unwrap_or(Val::Null),
                }
            }
            T::Func(n, args) => {
                let v: Vec<Val> = args.iter().map(|a| self.eval(&a.0)).collect::<R<_>>()?;
                match n.as_str() {
                    "now" | "transaction_timestamp" | "statement_timestamp" => Val::Ts(self.now),
                    "clock_timestamp" => Val::Ts(now_us()),
                    "current_database" => Val::Text("rx".into()),
                    "current_user" => Val::Text("rx".into()),
                    "version" => Val::Text("PostgreSQL 16.0 (stand-in)".into()),
                    "timezone" => {
                        if let Val::Text(z) = &v[0] {
                            if !["utc", "gmt", "z", "etc/utc"].contains(&z.to_lowercase().as_str()) {
                                return unsupported(format!("time zone {z}"));
                            }
                        }
                        if v[0] == Val::Null { Val::Null } else { v[1].clone() }
                    }
                    "array_append" | "array_prepend" => {
                        let mut a = match &v[0] {
                            Val::Arr(a) => a.clone(),
                            _ => vec![],
                        };
                        a.insert(if n == "array_append" { a.len() } else { 0 }, v[1].clone());
                        Val::Arr(a)
                    }
                    "array_remove" => match &v[0] {
                        Val::Arr(a) => Val::Arr(a.iter().filter(|x| cmp(x, &v[1]) != Some(Ordering::Equal)).cloned().collect()),
                        _ => Val::Null,
                    },
                    "cardinality" => match &v[0] {
                        Val::Arr(a) => Val::Int(a.len() as i64),
                        _ => Val::Null,
                    },
                    "array_length" => match &v[0] {
                        Val::Arr(a) if !a.is_empty() && v[1] == Val::Int(1) => Val::Int(a.len() as i64),
                        _ => Val::Null,
                    },
                    "jsonb_build_object" | "json_build_object" => {
                        let mut m = serde_json::Map::new();
                        for i in (0..v.len()).step_by(2) {
                            if v[i] == Val::Null {
                                return sql("22023", "argument: key must not be null");
                            }
                            m.insert(self.db.output(&v[i], args[i].1), self.db.to_json(&v[i + 1], args[i + 1].1));
                        }
                        Val::Json(Value::Object(m))
                    }
                    "jsonb_build_array" | "json_build_array" => Val::Json(Value::Array(v.iter().zip(args).map(|(x, a)| self.db.to_json(x, a.1)).collect())),
                    "to_jsonb" | "to_json" => {
                        if v[0] == Val::Null { Val::Null } else { Val::Json(self.db.to_json(&v[0], args[0].1)) }
                    }
                    "greatest" | "least" => {
                        let want = if n == "least" { Ordering::Less } else { Ordering::Greater };
                        v.into_iter().filter(|x| *x != Val::Null).reduce(|a, b| if cmp(&b, &a) == Some(want) { b } else { a }).unwrap_or(Val::Null)
                    }
                    "concat" => Val::Text(v.iter().zip(args).filter(|(x, _)| **x != Val::Null).map(|(x, a)| self.db.output(x, a.1)).collect()),
                    _ if v.contains(&Val::Null) && n != "pg_notify" => Val::Null,
                    "lower" => Val::Text(self.db.output(&v[0], t(B::Text)).to_lowercase()),
                    "upper" => Val::Text(self.db.output(&v[0], t(B::Text)).to_uppercase()),
                    "length" | "char_length" => Val::Int(self.db.output(&v[0], t(B::Text)).chars().count() as i64),
                    "abs" => match &v[0] {
                        Val::Int(i) => Val::Int(i.abs()),
                        Val::Float(x) => Val::Float(x.abs()),
                        _ => unreachable!(),
                    },
                    "date_trunc" => {
                        let (Val::Text(u), Val::Ts(us)) = (&v[0], &v[1]) else { return unsupported("date_trunc of this") };
                        let n: i64 = match u.to_lowercase().trim_end_matches('s') {
                            "microsecond" => 1,
                            "millisecond" => 1_000,
                            "second" => 1_000_000,
                            "minute" => 60_000_000,
                            "hour" => 3_600_000_000,
                            "day" => 86_400_000_000,
                            _ => return unsupported(format!("date_trunc to {u}")),
                        };
                        Val::Ts(us - us.rem_euclid(n))
                    }
                    "hashtextextended" => {
                        let (s, Val::Int(n)) = (self.db.output(&v[0], t(B::Text)), &v[1]) else { unreachable!() };
                        Val::Int(s.bytes().fold(0xcbf2_9ce4_8422_2325u64 ^ *n as u64, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3)) as i64)
                    }
                    "hashtext" => {
                        // some hash: only its being a function of the text matters
                        let s = self.db.output(&v[0], t(B::Text));
                        let h = s.bytes().fold(0x811c_9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x0100_0193));
                        Val::Int(h as i32 as i64)
                    }
                    "pg_notify" => {
                        let (Val::Text(c), p) = (&v[0], &v[1]) else { return sql("22023", "channel name cannot be empty") };
                        if c.is_empty() {
                            return sql("22023", "channel name cannot be empty");
                        }
                        if c.len() >= 64 {
                            return sql("22023", "channel name too long");
                        }
                        let p = if let Val::Text(p) = p { p.clone() } else { String::new() };
                        if p.len() >= 8000 {
                            return sql("22023", "payload string too long");
                        }
                        self.notify.lock().unwrap().push((c.clone(), p));
                        Val::Text(String::new())
                    }
                    f if f.starts_with("pg_") => return unsupported(format!("{f} inside an expression")),
                    f => panic!("harness: function {f} not evaluated"),
                }
            }
        })
    }
}
fn like(s: &[char], p: &[char]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some(('%', r)) => (0..=s.len()).any(|k| like(&s[k..], r)),
        Some(('_', r)) => !s.is_empty() && like(&s[1..], r),
        Some(('\\', r)) => match r.split_first() {
            Some((c, r)) => s.first() == Some(c) && like(&s[1..], r),
            None => false,
        },
        Some((c, r)) => s.first() == Some(c) && like(&s[1..], r),
    }
}
fn in_range(i: i64, b: B) -> R<Val> {
    let ok = match b {
        B::Int2 => i16::try_from(i).is_ok(),
        B::Int4 => i32::try_from(i).is_ok(),
        B::Oid | B::Regtype => u32::try_from(i).is_ok(),
        _ => true,
    };
    if ok { Ok(Val::Int(i)) } else { sql("22003", format!("{b:?} out of range")) }
}
pub fn ts_range(x: Option<i64>) -> R<Val> {
    match x {
        Some(u) if (TS_MIN..TS_MAX).contains(&u) => Ok(Val::Ts(u)),
        _ => sql("22008", "timestamp out of range"),
    }
}

impl Db {
    fn cast(&self, v: Val, from: Ty, to: Ty) -> R<Val> {
        if v == Val::Null || from == to {
            return Ok(v);
        }
        if let Val::Arr(a) = v {
            if to.arr {
                return Ok(Val::Arr(a.into_iter().map(|x| self.cast(x, t(from.b), t(to.b))).collect::<R<_>>()?));
            }
            return Ok(Val::Text(self.output(&Val::Arr(a), from)));
        }
        if is_num(from) && is_num(to) {
            return match (v, to.b) {
                (Val::Int(i), B::Float8) => Ok(Val::Float(i as f64)),
                (Val::Float(f), b) if b != B::Float8 => in_range(f.round_ties_even() as i64, b),
                (Val::Int(i), b) => in_range(i, b),
                (v, _) => Ok(v),
            };
        }
        if is_ts(from) && is_ts(to) {
            return Ok(v);
        }
        if is_text(to) {
            return Ok(match v {
                Val::Json(Value::String(s)) if false => Val::Text(s),
                v => Val::Text(self.output(&v, from)),
            });
        }
        if is_text(from) {
            let Val::Text(s) = &v else { unreachable!() };
            return self.input(to, s);
        }
        match (&v, to.b) {
            (Val::Json(_), B::Json) => Ok(v),
            (Val::Json(j), B::Jsonb) if no_nul(j) => Ok(v),
            (Val::Json(_), B::Jsonb) => sql("22P05", "unsupported Unicode escape sequence"),
            (Val::Int(i), B::Bool) => Ok(Val::Bool(*i != 0)),
            (Val::Bool(b), _) => Ok(Val::Int(*b as i64)),
            (Val::Json(Value::Number(n)), B::Int4 | B::Int8) if n.as_i64().is_some() => in_range(n.as_i64().unwrap(), to.b),
            _ => unsupported(format!("cast of {v:?} to {to:?}")),
        }
    }
    fn rand(&mut self, n: usize) -> usize {
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.rng >> 33) as usize) % n.max(1)
    }
    pub fn seed(&mut self, s: u64) {
        self.rng = s ^ 0x9e37_79b9_7f4a_7c15;
    }
    /// Rows as a statement of this transaction sees them, in no particular order.
    fn visible(&self, table: &str, tx: u64) -> Vec<(usize, u64, Arc<Row>)> {
        let tb = &self.tables[table];
        let mut v: Vec<(usize, u64, Arc<Row>)> = tb
            .rows
            .iter()
            .enumerate()
            .filter_map(|(i, s)| {
                let row = if s.lock == Some(tx) && s.pending.is_some() { s.pending.clone().unwrap() } else { s.committed.clone() };
                row.map(|r| (i, s.version, r))
            })
            .collect();
        // physical order means nothing
        let mut h = self.rng;
        for i in (1..v.len()).rev() {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.swap(i, (h >> 33) as usize % (i + 1));
        }
        v
    }
    /// The matching rows, ordered; limit and offset are applied only when no lock is taken.
    fn scan(&self, s: &SelPlan, cx: &Cx) -> R<Vec<(usize, u64, Arc<Row>)>> {
        let Some(table) = &s.table else {
            let c = cx.with(&[]);
            return Ok(if c.holds(&s.filter)? { vec![(usize::MAX, 0, Arc::new(vec![]))] } else { vec![] });
        };
        let mut out = vec![];
        for (i, ver, row) in self.visible(table, cx.tx) {
            if cx.with(&row).holds(&s.filter)? {
                out.push((i, ver, row));
            }
        }
        let mut keyed = vec![];
        for o in out {
            let c = cx.with(&o.2);
            let k: Vec<Val> = s.order.iter().map(|(e, _, _)| c.eval(e)).collect::<R<_>>()?;
            keyed.push((k, o));
        }
        keyed.sort_by(|a, b| {
            for (i, (_, desc, nf)) in s.order.iter().enumerate() {
                let o = match (&a.0[i], &b.0[i]) {
                    (Val::Null, Val::Null) => Ordering::Equal,
                    (Val::Null, _) => if *nf { Ordering::Less } else { Ordering::Greater },
                    (_, Val::Null) => if *nf { Ordering::Greater } else { Ordering::Less },
                    (x, y) => {
                        let o = cmp(x, y).unwrap_or(Ordering::Equal);
                        if *desc { o.reverse() } else { o }
                    }
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            Ordering::Equal
        });
        let out: Vec<_> = keyed.into_iter().map(|k| k.1).collect();
        if s.lock.is_some() || s.aggregate {
            return Ok(out);
        }
        let (off, lim) = self.bounds(s, cx)?;
        Ok(out.into_iter().skip(off).take(lim).collect())
    }
    fn bounds(&self, s: &SelPlan, cx: &Cx) -> R<(usize, usize)> {
        let n = |e: &Option<T>, dflt: usize, what: &str| -> R<usize> {
            match e {
                None => Ok(dflt),
                Some(e) => match cx.eval(e)? {
                    Val::Null => Ok(dflt),
                    Val::Int(i) if i < 0 => sql("2201W", format!("{what} must not be negative")),
                    Val::Int(i) => Ok(i as usize),
                    v => panic!("harness: {what} {v:?}"),
                },
            }
        };
        Ok((n(&s.offset, 0, "OFFSET")?, n(&s.limit, usize::MAX, "LIMIT")?))
    }
    fn project(&self, s: &SelPlan, rows: Vec<Arc<Row>>, cx: &Cx) -> R<Vec<Row>> {
        if s.aggregate {
            let mut c = cx.with(&[]);
            c.rows.pop();
            c.group = Some(&rows);
            return Ok(vec![s.items.iter().map(|i| c.eval(&i.1)).collect::<R<Row>>()?]);
        }
        rows.iter().map(|r| { let c = cx.with(r); s.items.iter().map(|i| c.eval(&i.1)).collect::<R<Row>>() }).collect()
    }

    // -------------------------------------------------------------- transactions
    pub fn begin(&mut self, conn: u64, explicit: bool) -> u64 {
        self.next += 1;
        let id = self.next;
        self.txs.insert(id, Tx { start: now_us(), explicit, ..Default::default() });
        self.conns.get_mut(&conn).unwrap().tx = Some(id);
        id
    }
    pub fn finish(&mut self, conn: u64, commit: bool) {
        let Some(id) = self.conns.get_mut(&conn).and_then(|c| c.tx.take()) else { return };
        let tx = self.txs.remove(&id).unwrap();
        let commit = commit && !tx.failed;
        for (tb, i) in &tx.touched {
            let Some(table) = self.tables.get_mut(tb) else { continue };
            let s = &mut table.rows[*i];
            if s.lock == Some(id) {
                s.lock = None;
                if let Some(p) = s.pending.take() {
                    if commit {
                        self.history.push(Change { t: now_us(), table: tb.clone(), conn, old: s.committed.clone(), new: p.clone() });
                        s.committed = p;
                        s.version += 1;
                    }
                }
            }
        }
        self.adv.retain(|_, (c, sess, x)| {
            if *c == conn {
                *x = 0;
            }
            *sess + *x > 0
        });
        self.waits.remove(&id);
        if !commit {
            if let Some((tables, enums, funcs)) = tx.undo {
                self.tables = tables;
                self.enums = enums;
                self.funcs = funcs;
            }
            return;
        }
        for (on, ch) in tx.listens {
            let c = self.conns.get_mut(&conn).unwrap();
            match (on, ch) {
                (true, Some(ch)) => {
                    c.listens.insert(ch);
                }
                (false, Some(ch)) => {
                    c.listens.remove(&ch);
                }
                _ => c.listens.clear(),
            }
        }
        let mut seen = BTreeSet::new();
        for n in tx.notifies {
            if !seen.insert(n.clone()) {
                continue;
            }
            self.post(&n.0, &n.1, conn);
        }
    }
    pub fn post(&mut self, channel: &str, payload: &str, from: u64) {
        let k = self.notes.len();
        self.notes.push((channel.into(), payload.into()));
        if self.lose.contains(&k) {
            self.lost += 1;
            self.lost_at.push(now_us());
            return;
        }
        for c in self.conns.values() {
            if c.listens.contains(channel) {
                let _ = c.out.send(Push::Note { channel: channel.into(), payload: payload.into(), pid: from as i32 });
            }
        }
    }
    pub fn close(&mut self, conn: u64) {
        self.finish(conn, false);
        self.adv.retain(|_, (c, _, _)| *c != conn);
        self.conns.remove(&conn);
    }
    /// Would waiting for `on` close a cycle?
    fn deadlock(&self, me: u64, on: u64) -> bool {
        let mut x = on;
        for _ in 0..64 {
            if x == me {
                return true;
            }
            match self.waits.get(&x) {
                Some(y) => x = *y,
                None => return false,
            }
        }
        false
    }
    fn undo_point(&mut self, tx: u64) {
        if self.txs[&tx].undo.is_none() {
            let u = (self.tables.clone(), self.enums.clone(), self.funcs.clone());
            self.txs.get_mut(&tx).unwrap().undo = Some(u);
        }
    }

    // -------------------------------------------------------------- planning
    pub fn plan(&self, st: &Stmt, oids: &[u32], text: &str) -> R<Plan> {
        let params = oids.iter().map(|o| ty_of_oid(*o, self.enums.len())).collect::<R<Vec<_>>>()?;
        let mut ck = Ck { db: self, params, subs: vec![], scopes: vec![], vars: HashMap::new(), reach: usize::MAX, aggs: false, agg_seen: false };
        let mut cols = vec![];
        let kind = match st {
            Stmt::Select(s) => {
                let p = ck.select(s)?;
                cols = p.items.iter().map(|i| (i.0.clone(), i.2)).collect();
                Kind::Select(p)
            }
            Stmt::Insert { table, cols: names, rows, returning } => {
                let sc = ck.scope_of(table, None)?;
                let tb = &self.tables[table];
                let names: Vec<String> = if names.is_empty() { tb.cols.iter().map(|c| c.name.clone()).collect() } else { names.clone() };
                let mut idx = vec![];
                for n in &names {
                    match tb.cols.iter().position(|c| c.name == *n) {
                        Some(i) if idx.contains(&i) => return sql("42701", format!("column {n:?} specified more than once")),
                        Some(i) => idx.push(i),
                        None => return sql("42703", format!("column {n:?} of relation {table:?} does not exist")),
                    }
                }
                let mut out = vec![];
                for r in rows {
                    if r.len() > idx.len() {
                        return sql("42601", "INSERT has more expressions than target columns");
                    }
                    if r.len() < idx.len() {
                        return sql("42601", "INSERT has more target columns than expressions");
                    }
                    let mut v = vec![];
                    for (i, e) in idx.iter().zip(r) {
                        let Some(e) = e else { continue };
                        let (x, ty) = ck.expr(e)?;
                        v.push((*i, ck.assign(x, ty, tb.cols[*i].ty, &tb.cols[*i].name)?));
                    }
                    out.push(v);
                }
                ck.scopes.push(sc);
                let ret = ck.items(returning)?;
                cols = ret.iter().map(|i| (i.0.clone(), i.2)).collect();
                Kind::Insert { table: table.clone(), rows: out, ret, conflict_skip: false }
            }
            Stmt::Update { table, alias, sets, filter, returning } => {
                let sc = ck.scope_of(table, alias.as_ref())?;
                let tb = &self.tables[table];
                ck.scopes.push(sc);
                let mut out: Vec<(usize, T)> = vec![];
                for (n, e) in sets {
                    let Some(i) = tb.cols.iter().position(|c| c.name == *n) else {
                        return sql("42703", format!("column {n:?} of relation {table:?} does not exist"));
                    };
                    if out.iter().any(|o| o.0 == i) {
                        return sql("42601", format!("multiple assignments to same column {n:?}"));
                    }
                    let x = match e {
                        None => tb.cols[i].default.clone().unwrap_or(T::Const(Val::Null)),
                        Some(e) => {
                            let (x, ty) = ck.expr(e)?;
                            ck.assign(x, ty, tb.cols[i].ty, n)?
                        }
                    };
                    out.push((i, x));
                }
                let filter = filter.as_ref().map(|f| ck.boolean(f, "WHERE")).transpose()?;
                let ret = ck.items(returning)?;
                cols = ret.iter().map(|i| (i.0.clone(), i.2)).collect();
                Kind::Update { table: table.clone(), sets: out, filter, ret }
            }
            Stmt::Delete { table, alias, filter, returning } => {
                let sc = ck.scope_of(table, alias.as_ref())?;
                ck.scopes.push(sc);
                let filter = filter.as_ref().map(|f| ck.boolean(f, "WHERE")).transpose()?;
                let ret = ck.items(returning)?;
                cols = ret.iter().map(|i| (i.0.clone(), i.2)).collect();
                Kind::Delete { table: table.clone(), filter, ret }
            }
            s => Kind::Other(s.clone()),
        };
        // correlation of nested subqueries is judged by their depth; an unresolved parameter is text
        let params = ck.params.iter().map(|p| if *p == UNKNOWN { t(B::Text) } else { *p }).collect();
        Ok(Plan { kind, subs: ck.subs, params, cols, text: text.into() })
    }
    fn triggers(&self, table: &str, event: &str, new: Option<&Arc<Row>>, old: Option<&Arc<Row>>, cx0: &Cx) -> R<()> {
        let tb = &self.tables[table];
        for tr in tb.triggers.iter().filter(|x| x.events.iter().any(|e| e == event)) {
            let Some(body) = self.funcs.get(&tr.func) else { return sql("42883", format!("function {} does not exist", tr.func)) };
            let mut env = Env { db: self, table, new: new.cloned(), old: old.cloned(), vars: HashMap::new(), cx: cx0 };
            if let Some(w) = &tr.when {
                if tri(env.eval(w)?.0) != Some(true) {
                    continue;
                }
            }
            env.run(body)?;
        }
        Ok(())
    }
    pub fn col(&self, table: &str, name: &str) -> usize {
        self.tables[table].cols.iter().position(|c| c.name == name).unwrap_or_else(|| panic!("harness: no column {name} in {table}"))
    }
    /// Alters a stored row, outside any transaction.
    pub fn patch(&mut self, table: &str, id: i64, vals: &[(&str, Val)]) {
        let key = self.col(table, "id");
        let cols: Vec<usize> = vals.iter().map(|(n, _)| self.col(table, n)).collect();
        let tb = self.tables.get_mut(table).unwrap();
        let slot = tb.rows.iter_mut().find(|s| s.committed.as_ref().is_some_and(|r| r[key] == Val::Int(id))).unwrap_or_else(|| panic!("harness: no row {id} in {table}"));
        let mut row = (**slot.committed.as_ref().unwrap()).clone();
        for (c, (_, v)) in cols.iter().zip(vals) {
            row[*c] = v.clone();
        }
        slot.committed = Some(Arc::new(row));
        slot.version += 1;
    }
    /// Stores a row as it is, outside any transaction; returns its serial number.
    pub fn inject(&mut self, table: &str, vals: &[(&str, Val)]) -> i64 {
        let cols = self.tables[table].cols.clone();
        let none = HashMap::new();
        let vars = HashMap::new();
        let notify = Mutex::new(vec![]);
        let mut row: Row = cols
            .iter()
            .map(|c| match &c.default {
                Some(d) => Cx { db: self, rows: vec![], params: &[], now: now_us(), subs: &[], done: &none, tx: 0, vars: &vars, notify: &notify, group: None }.eval(d).expect("default"),
                None => Val::Null,
            })
            .collect();
        for (n, v) in vals {
            let i = self.col(table, n);
            row[i] = v.clone();
        }
        let tb = self.tables.get_mut(table).unwrap();
        tb.serial += 1;
        for (i, c) in cols.iter().enumerate() {
            if c.serial {
                row[i] = Val::Int(tb.serial);
            }
        }
        tb.rows.push(Slot { committed: Some(Arc::new(row)), lock: None, pending: None, version: 1 });
        tb.serial
    }
}

/// One run of a trigger function.
struct Env<'a> {
    db: &'a Db,
    table: &'a str,
    new: Option<Arc<Row>>,
    old: Option<Arc<Row>>,
    vars: HashMap<String, (Val, Ty)>,
    cx: &'a Cx<'a>,
}
impl<'a> Env<'a> {
    fn eval(&self, e: &Expr) -> R<(Val, Ty)> {
        let cols: Vec<(String, Ty)> = self.db.tables[self.table].cols.iter().map(|c| (c.name.clone(), c.ty)).collect();
        let mut scopes = vec![];
        let mut rows: Vec<&[Val]> = vec![];
        if let Some(o) = &self.old {
            scopes.push(Scope { names: vec!["old".into()], cols: cols.clone() });
            rows.push(o);
        }
        if let Some(n) = &self.new {
            scopes.push(Scope { names: vec!["new".into()], cols });
            rows.push(n);
        }
        // plain names are variables, never columns
        fn plain(e: &Expr) -> Option<&str> {
            match e {
                Expr::Col(None, c) => Some(c),
                _ => None,
            }
        }
        let vars: HashMap<String, Ty> = self.vars.iter().map(|(k, v)| (k.clone(), v.1)).collect();
        if let Some(c) = plain(e) {
            if let Some(v) = self.vars.get(c) {
                return Ok(v.clone());
            }
        }
        let mut ck = Ck { db: self.db, params: vec![], subs: vec![], scopes, vars, reach: usize::MAX, aggs: false, agg_seen: false };
        let (x, ty) = ck.expr(e)?;
        let x = ck.known(x, ty, t(B::Text))?;
        if !ck.subs.is_empty() {
            return unsupported("subquery in a trigger function");
        }
        let none = HashMap::new();
        let cx = Cx { db: self.db, rows, params: &[], now: self.cx.now, subs: &[], done: &none, tx: self.cx.tx, vars: &self.vars, notify: self.cx.notify, group: None };
        Ok((cx.eval(&x)?, if ty == UNKNOWN { t(B::Text) } else { ty }))
    }
    /// true: returned
    fn run(&mut self, body: &[PStmt]) -> R<bool> {
        for s in body {
            match s {
                PStmt::Null => {}
                PStmt::Return => return Ok(true),
                PStmt::Perform(e) => {
                    self.eval(e)?;
                }
                PStmt::Assign(n, e) => {
                    let v = self.eval(e)?;
                    self.vars.insert(n.clone(), v);
                }
                PStmt::If(arms, els) => {
                    let mut taken = false;
                    for (c, b) in arms {
                        if tri(self.eval(c)?.0) == Some(true) {
                            taken = true;
                            if self.run(b)? {
                                return Ok(true);
                            }
                            break;
                        }
                    }
                    if !taken && self.run(els)? {
                        return Ok(true);
                    }
                }
            }
        }
        Ok(false)
    }
}

// ------------------------------------------------------------------ running statements

impl Shared {
    pub fn new(seed: u64) -> Self {
        let mut db = Db::default();
        db.seed(seed);
        Shared { db: Arc::new(Mutex::new(db)), changed: Arc::new(Notify::new()) }
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, Db> {
        self.db.lock().unwrap()
    }
    /// Tries until `f` says it is done; it says whom it waits for otherwise.
    async fn until<X>(&self, tx: u64, mut f: impl FnMut(&mut Db) -> R<Result<X, u64>>) -> R<X> {
        loop {
            let wake = self.changed.notified();
            tokio::pin!(wake);
            wake.as_mut().enable();
            {
                let mut db = self.lock();
                match f(&mut db)? {
                    Ok(x) => {
                        db.waits.remove(&tx);
                        return Ok(x);
                    }
                    Err(on) => {
                        if db.deadlock(tx, on) {
                            db.waits.remove(&tx);
                            return sql("40P01", "deadlock detected");
                        }
                        db.waits.insert(tx, on);
                        db.waited += 1;
                    }
                }
            }
            wake.await;
        }
    }
    /// Locks the row for the transaction and returns its current contents if the filter still holds.
    async fn take(&self, tx: u64, table: &str, slot: usize, seen: u64, mode: LockMode, recheck: &(dyn Fn(&Db, &Arc<Row>) -> R<bool> + Sync)) -> R<Option<Arc<Row>>> {
        self.until(tx, |db| {
            let s = &mut db.tables.get_mut(table).unwrap().rows[slot];
            match s.lock {
                Some(o) if o != tx => match mode {
                    LockMode::Skip => return Ok(Ok(None)),
                    LockMode::NoWait => return sql("55P03", "could not obtain lock on row"),
                    LockMode::Wait => return Ok(Err(o)),
                },
                _ => {}
            }
            let mine = s.lock == Some(tx);
            let cur = if mine && s.pending.is_some() { s.pending.clone().unwrap() } else { s.committed.clone() };
            let Some(row) = cur else { return Ok(Ok(None)) };
            let version = s.version;
            if version != seen && !recheck(db, &row)? {
                return Ok(Ok(None));
            }
            let s = &mut db.tables.get_mut(table).unwrap().rows[slot];
            if !mine {
                s.lock = Some(tx);
                db.txs.get_mut(&tx).unwrap().touched.push((table.into(), slot));
            }
            Ok(Ok(Some(row)))
        })
        .await
    }
    /// Runs a planned statement inside the connection's transaction.
    pub async fn run(&self, conn: u64, plan: &Plan, params: &[Val], mid: Duration) -> R<Out> {
        let (tx, now) = {
            let mut db = self.lock();
            db.statements += 1;
            let r = db.rng;
            db.rng = r.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let tx = db.conns[&conn].tx.expect("a transaction");
            (tx, db.txs[&tx].start)
        };
        let vars = HashMap::new();
        let notify = Mutex::new(vec![]);
        let mut done: HashMap<usize, Vec<Row>> = HashMap::new();
        macro_rules! cx {
            ($db:expr, $done:expr) => {
                Cx { db: $db, rows: vec![], params, now, subs: &plan.subs, done: $done, tx, vars: &vars, notify: &notify, group: None }
            };
        }
        // what the statement sees of the tables is fixed here
        let mut found: HashMap<usize, Vec<(usize, u64, Arc<Row>)>> = HashMap::new();
        {
            let db = self.lock();
            for (k, s) in plan.subs.iter().enumerate() {
                if s.correlated {
                    continue;
                }
                let f = db.scan(s, &cx!(&db, &done))?;
                if s.lock.is_none() {
                    let rows = db.project(s, f.into_iter().map(|x| x.2).collect(), &cx!(&db, &done))?;
                    done.insert(k, rows);
                } else {
                    found.insert(k, f);
                }
            }
        }
        let main: Option<Vec<(usize, u64, Arc<Row>)>> = {
            let db = self.lock();
            match &plan.kind {
                Kind::Select(s) => Some(db.scan(s, &cx!(&db, &done)).or_else(|e| if found.is_empty() { Err(e) } else { Ok(vec![]) })?),
                Kind::Update { table, .. } | Kind::Delete { table, .. } => Some(db.visible(table, tx)),
                _ => None,
            }
        };
        if !mid.is_zero() {
            tokio::time::sleep(mid).await;
        }
        // subqueries that lock
        for (k, s) in plan.subs.iter().enumerate() {
            let Some(f) = found.remove(&k) else { continue };
            let rows = self.lock_rows(s, f, conn, tx, now, plan, params, &done).await?;
            done.insert(k, rows);
        }
        let out = match &plan.kind {
            Kind::Select(s) => {
                if let [(_, T::Func(f, args), _)] = s.items.as_slice() {
                    if f.contains("advisory") {
                        if s.table.is_some() {
                            return unsupported("advisory lock over a table");
                        }
                        let keys = {
                            let db = self.lock();
                            let c = cx!(&db, &done);
                            args.iter().map(|a| c.with(&[]).eval(&a.0)).collect::<R<Vec<_>>>()?
                        };
                        let key = match keys.as_slice() {
                            [Val::Int(k)] => *k,
                            [Val::Int(a), Val::Int(b)] => (a << 32) | (b & 0xffff_ffff) ^ 0x5555,
                            _ => return Ok(Out { rows: vec![vec![Val::Null]], tag: "SELECT 1".into() }),
                        };
                        let v = self.advisory(conn, tx, f, key).await?;
                        return Ok(Out { rows: vec![vec![v]], tag: "SELECT 1".into() });
                    }
                }
                let f = main.unwrap();
                let rows = if s.lock.is_some() {
                    self.lock_rows(s, f, conn, tx, now, plan, params, &done).await?
                } else if plan.subs.iter().any(|x| x.lock.is_some()) {
                    let db = self.lock();
                    let c = cx!(&db, &done);
                    let f = db.scan(s, &c)?;
                    db.project(s, f.into_iter().map(|x| x.2).collect(), &c)?
                } else {
                    let db = self.lock();
                    db.project(s, f.into_iter().map(|x| x.2).collect(), &cx!(&db, &done))?
                };
                let tag = format!("SELECT {}", rows.len());
                Out { rows, tag }
            }
            Kind::Insert { table, rows, ret, .. } => {
                let mut out = vec![];
                let mut db = self.lock();
                let n = rows.len();
                for r in rows {
                    let serial = {
                        let tb = db.tables.get_mut(table).unwrap();
                        tb.serial += 1;
                        tb.serial
                    };
                    let tb = db.tables[table].clone();
                    let mut row: Row = vec![];
                    for (i, c) in tb.cols.iter().enumerate() {
                        let v = match r.iter().find(|x| x.0 == i) {
                            Some((_, e)) => cx!(&db, &done).eval(e)?,
                            None if c.serial => Val::Int(serial),
                            None => match &c.default {
                                Some(d) => cx!(&db, &done).eval(d)?,
                                None => Val::Null,
                            },
                        };
                        row.push(v);
                    }
                    check_row(&tb, table, &row)?;
                    for (i, c) in tb.cols.iter().enumerate().filter(|x| x.1.key) {
                        if tb.rows.iter().any(|s| s.committed.iter().chain(s.pending.iter().flatten()).any(|x| x[i] == row[i])) {
                            return sql("23505", format!("duplicate key value violates unique constraint on {}", c.name));
                        }
                    }
                    let row = Arc::new(row);
                    {
                        let t = db.tables.get_mut(table).unwrap();
                        t.rows.push(Slot { committed: None, lock: Some(tx), pending: Some(Some(row.clone())), version: 0 });
                        let k = t.rows.len() - 1;
                        db.txs.get_mut(&tx).unwrap().touched.push((table.clone(), k));
                    }
                    let c = cx!(&db, &done);
                    db.triggers(table, "insert", Some(&row), None, &c)?;
                    let c = c.with(&row);
                    out.push(ret.iter().map(|i| c.eval(&i.1)).collect::<R<Row>>()?);
                }
                Out { rows: if ret.is_empty() { vec![] } else { out }, tag: format!("INSERT 0 {n}") }
            }
            Kind::Update { table, filter, ret, .. } | Kind::Delete { table, filter, ret } => {
                let sets = if let Kind::Update { sets, .. } = &plan.kind { Some(sets) } else { None };
                let cand = {
                    let db = self.lock();
                    let c = cx!(&db, &done);
                    let mut v = vec![];
                    for x in main.unwrap() {
                        if c.with(&x.2).holds(filter)? {
                            v.push(x);
                        }
                    }
                    v
                };
                let mut out = vec![];
                let mut n = 0;
                for (slot, seen, _) in cand {
                    let recheck = |db: &Db, row: &Arc<Row>| -> R<bool> { cx!(db, &done).with(row).holds(filter) };
                    let Some(old) = self.take(tx, table, slot, seen, LockMode::Wait, &recheck).await? else { continue };
                    let mut db = self.lock();
                    n += 1;
                    let new = match sets {
                        None => None,
                        Some(sets) => {
                            let mut row = (*old).clone();
                            {
                                let c = cx!(&db, &done);
                                let c = c.with(&old);
                                for (i, e) in sets {
                                    row[*i] = c.eval(e)?;
                                }
                            }
                            check_row(&db.tables[table], table, &row)?;
                            Some(Arc::new(row))
                        }
                    };
                    db.tables.get_mut(table).unwrap().rows[slot].pending = Some(new.clone());
                    let c = cx!(&db, &done);
                    db.triggers(table, if sets.is_some() { "update" } else { "delete" }, new.as_ref(), Some(&old), &c)?;
                    let shown = new.unwrap_or(old);
                    let c = c.with(&shown);
                    out.push(ret.iter().map(|i| c.eval(&i.1)).collect::<R<Row>>()?);
                }
                Out { rows: if ret.is_empty() { vec![] } else { out }, tag: format!("{} {n}", if sets.is_some() { "UPDATE" } else { "DELETE" }) }
            }
            Kind::Other(s) => self.other(conn, tx, s)?,
        };
        let notes = notify.into_inner().unwrap();
        self.lock().txs.get_mut(&tx).unwrap().notifies.extend(notes);
        Ok(out)
    }
    #[allow(clippy::too_many_arguments)]
    async fn lock_rows(&self, s: &SelPlan, f: Vec<(usize, u64, Arc<Row>)>, _conn: u64, tx: u64, now: i64, plan: &Plan, params: &[Val], done: &HashMap<usize, Vec<Row>>) -> R<Vec<Row>> {
        let Some(table) = &s.table else { return sql("0A000", "FOR UPDATE without a table") };
        let vars = HashMap::new();
        let notify = Mutex::new(vec![]);
        let mk = |db: &Db, row: Option<&Arc<Row>>| -> R<(bool, (usize, usize))> {
            let cx = Cx { db, rows: vec![], params, now, subs: &plan.subs, done, tx, vars: &vars, notify: &notify, group: None };
            match row {
                Some(r) => Ok((cx.with(r).holds(&s.filter)?, (0, 0))),
                None => Ok((false, db.bounds(s, &cx)?)),
            }
        };
        let (off, lim) = mk(&self.lock(), None)?.1;
        let mut got = vec![];
        let mut skipped = 0;
        if lim == 0 {
            return Ok(vec![]);
        }
        for (slot, seen, _) in f {
            let recheck = |db: &Db, row: &Arc<Row>| -> R<bool> { Ok(mk(db, Some(row))?.0) };
            if let Some(row) = self.take(tx, table, slot, seen, s.lock.unwrap(), &recheck).await? {
                if skipped < off {
                    skipped += 1;
                    continue;
                }
                got.push(row);
                if got.len() >= lim {
                    break;
                }
            }
        }
        let db = self.lock();
        let cx = Cx { db: &db, rows: vec![], params, now, subs: &plan.subs, done, tx, vars: &vars, notify: &notify, group: None };
        db.project(s, got, &cx)
    }
    async fn advisory(&self, conn: u64, tx: u64, f: &str, key: i64) -> R<Val> {
        if f == "pg_advisory_unlock" {
            let mut db = self.lock();
            let ok = match db.adv.get_mut(&key) {
                Some((c, sess, _)) if *c == conn && *sess > 0 => {
                    *sess -= 1;
                    true
                }
                _ => false,
            };
            db.adv.retain(|_, v| v.1 + v.2 > 0);
            drop(db);
            self.changed.notify_waiters();
            return Ok(Val::Bool(ok));
        }
        let xact = f.contains("xact");
        let attempt = f.contains("try");
        self.until(tx, |db| {
            let e = db.adv.entry(key).or_insert((conn, 0, 0));
            if e.0 != conn {
                if attempt {
                    return Ok(Ok(Val::Bool(false)));
                }
                let holder = e.0;
                return Ok(Err(db.conns.get(&holder).and_then(|c| c.tx).unwrap_or(u64::MAX)));
            }
            if xact {
                e.2 += 1;
            } else {
                e.1 += 1;
            }
            Ok(Ok(if attempt { Val::Bool(true) } else { Val::Text(String::new()) }))
        })
        .await
    }
    fn other(&self, conn: u64, tx: u64, s: &Stmt) -> R<Out> {
        let mut db = self.lock();
        let tag = |x: &str| Ok(Out { rows: vec![], tag: x.into() });
        let _ = conn;
        match s {
            Stmt::Listen(c) => {
                db.txs.get_mut(&tx).unwrap().listens.push((true, Some(c.clone())));
                tag("LISTEN")
            }
            Stmt::Unlisten(c) => {
                db.txs.get_mut(&tx).unwrap().listens.push((false, c.clone()));
                tag("UNLISTEN")
            }
            Stmt::Notify(c, p) => {
                db.txs.get_mut(&tx).unwrap().notifies.push((c.clone(), p.clone()));
                tag("NOTIFY")
            }
            Stmt::Nothing(x) => tag(x),
            Stmt::Empty => tag(""),
            Stmt::CreateType { name, labels } => {
                db.undo_point(tx);
                if db.enums.iter().any(|e| e.name == *name) {
                    return sql("42710", format!("type {name:?} already exists"));
                }
                db.enums.push(EnumTy { name: name.clone(), labels: labels.clone() });
                tag("CREATE TYPE")
            }
            Stmt::CreateTable { name, if_not_exists, cols } => {
                db.undo_point(tx);
                if db.tables.contains_key(name) {
                    return if *if_not_exists { tag("CREATE TABLE") } else { sql("42P07", format!("relation {name:?} already exists")) };
                }
                let mut out = vec![];
                for c in cols {
                    let ty = db.type_named(&c.ty)?;
                    let default = match &c.default {
                        None => None,
                        Some(e) => {
                            let mut ck = Ck { db: &db, params: vec![], subs: vec![], scopes: vec![], vars: HashMap::new(), reach: usize::MAX, aggs: false, agg_seen: false };
                            let (x, from) = ck.expr(e)?;
                            Some(ck.assign(x, from, ty, &c.name)?)
                        }
                    };
                    out.push(Col { name: c.name.clone(), ty, not_null: c.not_null, key: c.key, serial: c.serial, default });
                }
                db.tables.insert(name.clone(), Table { cols: out, ..Default::default() });
                tag("CREATE TABLE")
            }
            Stmt::Do { body, swallow_duplicate } => {
                drop(db);
                for b in body {
                    match self.other(conn, tx, b) {
                        Err(Fail::Sql("42710", _)) if *swallow_duplicate => break,
                        r => {
                            r?;
                        }
                    }
                }
                tag("DO")
            }
            Stmt::CreateFunction { name, body } => {
                db.undo_point(tx);
                db.funcs.insert(name.clone(), body.clone());
                tag("CREATE FUNCTION")
            }
            Stmt::CreateTrigger { name, table, events, when, func } => {
                db.undo_point(tx);
                let Some(tb) = db.tables.get_mut(table) else { return sql("42P01", format!("relation {table:?} does not exist")) };
                if tb.triggers.iter().any(|x| x.name == *name) {
                    return sql("42710", format!("trigger {name:?} already exists"));
                }
                tb.triggers.push(Trigger { name: name.clone(), events: events.clone(), when: when.clone(), func: func.clone() });
                tb.triggers.sort_by(|a, b| a.name.cmp(&b.name));
                tag("CREATE TRIGGER")
            }
            Stmt::DropTrigger { name, table, if_exists } => {
                db.undo_point(tx);
                let Some(tb) = db.tables.get_mut(table) else { return sql("42P01", format!("relation {table:?} does not exist")) };
                let n = tb.triggers.len();
                tb.triggers.retain(|x| x.name != *name);
                if n == tb.triggers.len() && !if_exists {
                    return sql("42704", format!("trigger {name:?} does not exist"));
                }
                tag("DROP TRIGGER")
            }
            s => unsupported(format!("{s:?} here")),
        }
    }
}
fn check_row(tb: &Table, table: &str, row: &Row) -> R<()> {
    for (c, v) in tb.cols.iter().zip(row) {
        if c.not_null && *v == Val::Null {
            return sql("23502", format!("null value in column {:?} of relation {table:?} violates not-null constraint", c.name));
        }
    }
    Ok(())
}
