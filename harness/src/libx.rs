//! Thin, observing wrappers around the library's public API.
use crate::refp::{Dt, Off, St, Tm, Val, V};
use crate::sem::Kids;
use std::borrow::Cow;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use tomllib::types::{Children, Date, DateTime, ParseError, ParseResult, PosNeg, StrType, Time, TimeOffset, TimeOffsetAmount, Value};
use tomllib::TOMLParser;

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic '{}' at {}", msg, loc));
    }));
}
/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{}: {}", what, LAST_PANIC.with(|p| p.borrow().clone())))
}

fn v(x: V) -> Val { Val { v: x, span: (0, 0) } }

pub fn st_of(t: StrType) -> St {
    match t { StrType::Basic => St::Basic, StrType::MLBasic => St::MlBasic, StrType::Literal => St::Lit, StrType::MLLiteral => St::MlLit }
}
pub fn st_to(t: St) -> StrType {
    match t { St::Basic => StrType::Basic, St::MlBasic => StrType::MLBasic, St::Lit => StrType::Literal, St::MlLit => StrType::MLLiteral }
}
pub fn from_lib(x: &Value) -> V {
    match x {
        Value::Integer(s) => V::Int(s.to_string()),
        Value::Float(s) => V::Float(s.to_string()),
        Value::Boolean(b) => V::Bool(*b),
        Value::DateTime(d) => V::Dt(dt_from(d)),
        Value::String(s, t) => V::Str(s.to_string(), st_of(*t)),
        Value::Array(a) => V::Arr(a.iter().map(|e| v(from_lib(e))).collect()),
        Value::InlineTable(t) => V::Inl(t.iter().map(|(k, e)| (k.to_string(), v(from_lib(e)))).collect()),
    }
}
pub fn dt_from(d: &DateTime) -> Dt {
    Dt {
        year: d.date.year.to_string(), month: d.date.month.to_string(), day: d.date.day.to_string(),
        time: d.time.as_ref().map(|t| Tm {
            h: t.hour.to_string(), m: t.minute.to_string(), s: t.second.to_string(),
            frac: t.fraction.as_ref().map(|f| f.to_string()),
            off: t.offset.as_ref().map(|o| match o {
                TimeOffset::Zulu => Off::Z,
                TimeOffset::Time(a) => Off::Amt { neg: a.pos_neg == PosNeg::Neg, h: a.hour.to_string(), m: a.minute.to_string() },
            }),
        }),
    }
}
pub fn dt_to(d: &Dt) -> DateTime<'static> {
    let c = |s: &String| -> Cow<'static, str> { Cow::Owned(s.clone()) };
    DateTime {
        date: Date { year: c(&d.year), month: c(&d.month), day: c(&d.day) },
        time: d.time.as_ref().map(|t| Time {
            hour: c(&t.h), minute: c(&t.m), second: c(&t.s), fraction: t.frac.as_ref().map(c),
            offset: t.off.as_ref().map(|o| match o {
                Off::Z => TimeOffset::Zulu,
                Off::Amt { neg, h, m } => TimeOffset::Time(TimeOffsetAmount { pos_neg: if *neg { PosNeg::Neg } else { PosNeg::Pos }, hour: c(h), minute: c(m) }),
            }),
        }),
    }
}
pub fn to_lib(x: &V) -> Value<'static> {
    match x {
        V::Int(s) => Value::Integer(Cow::Owned(s.clone())),
        V::Float(s) => Value::Float(Cow::Owned(s.clone())),
        V::Bool(b) => Value::Boolean(*b),
        V::Dt(d) => Value::DateTime(dt_to(d)),
        V::Str(s, t) => Value::String(Cow::Owned(s.clone()), st_to(*t)),
        V::Arr(a) => Value::Array(Rc::new(a.iter().map(|e| to_lib(&e.v)).collect())),
        V::Inl(t) => Value::InlineTable(Rc::new(t.iter().map(|(k, e)| (Cow::Owned(k.clone()), to_lib(&e.v))).collect())),
    }
}
thread_local! { static TEXTS: RefCell<(std::collections::HashSet<&'static str>, usize)> = RefCell::new((Default::default(), 0)); }
/// the text as a borrowed one (kept for ever, so only up to a limit)
fn lend(s: &str) -> Cow<'static, str> {
    TEXTS.with(|t| {
        let t = &mut *t.borrow_mut();
        if let Some(x) = t.0.get(s) { return Cow::Borrowed(*x); }
        if t.1 > 8_000_000 { return Cow::Owned(s.to_string()); }
        t.1 += s.len() + 32;
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.0.insert(x);
        Cow::Borrowed(x)
    })
}
fn lend_all(v: Value<'static>) -> Value<'static> {
    let l = |c: Cow<'static, str>| lend(&c);
    match v {
        Value::Integer(s) => Value::Integer(l(s)),
        Value::Float(s) => Value::Float(l(s)),
        Value::Boolean(b) => Value::Boolean(b),
        Value::String(s, t) => Value::String(l(s), t),
        Value::DateTime(mut d) => {
            d.date.year = l(d.date.year); d.date.month = l(d.date.month); d.date.day = l(d.date.day);
            if let Some(t) = &mut d.time { t.hour = lend(&t.hour); t.minute = lend(&t.minute); t.second = lend(&t.second); if let Some(f) = &mut t.fraction { *f = lend(f); } }
            Value::DateTime(d)
        }
        Value::Array(a) => Value::Array(Rc::new(a.iter().map(|e| lend_all(e.clone())).collect())),
        Value::InlineTable(t) => Value::InlineTable(Rc::new(t.iter().map(|(k, e)| (lend(k), lend_all(e.clone()))).collect())),
    }
}
/// the value built from borrowed texts
pub fn to_lib_lent(x: &V) -> Value<'static> { lend_all(to_lib(x)) }
/// the value with equal containers inside it being one shared object
pub fn to_lib_shared(x: &V) -> Value<'static> {
    fn go(x: &V, seen: &mut Vec<(V, Value<'static>)>) -> Value<'static> {
        if !matches!(x, V::Arr(_) | V::Inl(_)) { return to_lib(x); }
        if let Some(s) = seen.iter().find(|s| s.0 == *x) { return s.1.clone(); }
        let v = match x {
            V::Arr(a) => Value::Array(Rc::new(a.iter().map(|e| go(&e.v, seen)).collect())),
            V::Inl(t) => Value::InlineTable(Rc::new(t.iter().map(|(k, e)| (Cow::Owned(k.clone()), go(&e.v, seen))).collect())),
            _ => unreachable!(),
        };
        seen.push((x.clone(), v.clone()));
        v
    }
    go(x, &mut vec![])
}
pub fn kids_of(c: &Children) -> Kids {
    match c {
        Children::Count(n) => Kids::Count(n.get()),
        Children::Keys(k) => Kids::Keys(k.borrow().clone()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum LErr {
    Dup { key: String, line: usize, col: usize, val: V },
    Mixed { key: String, line: usize, col: usize },
    BadDt { key: String, line: usize, col: usize, text: String },
    /// key/values sorted by key
    BadTable { key: String, line: usize, col: usize, kvs: Vec<(String, V)> },
    Other(String),
}
impl LErr {
    pub fn line(&self) -> usize {
        match self { LErr::Dup { line, .. } | LErr::Mixed { line, .. } | LErr::BadDt { line, .. } | LErr::BadTable { line, .. } => *line, LErr::Other(_) => 0 }
    }
    pub fn col(&self) -> usize {
        match self { LErr::Dup { col, .. } | LErr::Mixed { col, .. } | LErr::BadDt { col, .. } | LErr::BadTable { col, .. } => *col, LErr::Other(_) => 0 }
    }
}
fn conv_err(e: &ParseError) -> LErr {
    match e {
        ParseError::MixedArray(k, l, c) => LErr::Mixed { key: k.clone(), line: *l, col: *c },
        ParseError::DuplicateKey(k, l, c, v) => LErr::Dup { key: k.clone(), line: *l, col: *c, val: from_lib(v) },
        ParseError::InvalidTable(k, l, c, m) => {
            let mut kvs: Vec<(String, V)> = m.borrow().iter().map(|(k, v)| (k.clone(), from_lib(v))).collect();
            kvs.sort_by(|a, b| a.0.cmp(&b.0));
            LErr::BadTable { key: k.clone(), line: *l, col: *c, kvs }
        }
        ParseError::InvalidDateTime(k, l, c, t) => LErr::BadDt { key: k.clone(), line: *l, col: *c, text: t.to_string() },
        other => LErr::Other(format!("{:?}", other)),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Full, FullError, Partial, PartialError, Failure }
#[derive(Clone, Debug, PartialEq)]
pub struct Res { pub kind: Kind, pub leftover: String, pub line: usize, pub col: usize, pub errors: Vec<LErr> }

pub fn conv_res(r: &ParseResult) -> Res {
    let ev = |e: &Rc<RefCell<Vec<ParseError>>>| e.borrow().iter().map(conv_err).collect::<Vec<_>>();
    match r {
        ParseResult::Full => Res { kind: Kind::Full, leftover: String::new(), line: 0, col: 0, errors: vec![] },
        ParseResult::FullError(e) => Res { kind: Kind::FullError, leftover: String::new(), line: 0, col: 0, errors: ev(e) },
        ParseResult::Partial(s, l, c) => Res { kind: Kind::Partial, leftover: s.to_string(), line: *l, col: *c, errors: vec![] },
        ParseResult::PartialError(s, l, c, e) => Res { kind: Kind::PartialError, leftover: s.to_string(), line: *l, col: *c, errors: ev(e) },
        ParseResult::Failure(l, c) => Res { kind: Kind::Failure, leftover: String::new(), line: *l, col: *c, errors: vec![] },
    }
}

/// A live parser under observation.
pub struct Live<'a> { pub p: TOMLParser<'a>, pub res: Res }
impl<'a> Live<'a> {
    pub fn parse(src: &'a str) -> Result<Live<'a>, String> {
        guard("parse", || { let (p, r) = TOMLParser::new().parse(src); let res = conv_res(&r); Live { p, res } })
    }
    pub fn text(&self) -> Result<String, String> { guard("Display of the parser", || format!("{}", self.p)) }
    pub fn get(&self, k: &str) -> Result<Option<V>, String> {
        guard(&format!("get_value({:?})", k), || self.p.get_value(k).map(|v| from_lib(&v)))
    }
    pub fn kids(&self, k: &str) -> Result<Option<Kids>, String> {
        guard(&format!("get_children({:?})", k), || self.p.get_children(k).map(kids_of))
    }
    pub fn set(&mut self, k: &str, v: &V) -> Result<bool, String> { self.hand(k, v, to_lib(v)) }
    pub fn hand(&mut self, k: &str, v: &V, lv: Value<'a>) -> Result<bool, String> {
        let p = &mut self.p;
        guard(&format!("set_value({:?}, {:?})", k, v), move || p.set_value(k, lv))
    }
}
