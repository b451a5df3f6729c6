//! Metamorphic monitors: equality of public values, layout that carries no meaning, unrelated parts of
//! a document that do not disturb each other.  The library is compared with itself, the reference side
//! only supplies the statements to rearrange.
use super::common::*;
use crate::cx::{Cx, R};
use crate::driver::{Prop, Run, Stage};
use crate::ensure;
use crate::gen;
use crate::libx::{self, from_lib, guard, to_lib, LErr, Live};
use crate::refp::{self, Dt, Expr, Item, Off, St, Tm, Val, V};
use crate::rng::Rng;
use crate::sem;
use std::cell::{Cell, RefCell};
use tomllib::types::{Children, Value};
use tomllib::TOMLParser;

fn st(name: &'static str, quick: u64, thorough: u64, g: fn(&mut Rng, u64) -> String, f: fn(&mut Cx, &str) -> R) -> Stage { Stage { name, quick, thorough, run: Run::Doc(g, f) } }

// ---- C25: equality --------------------------------------------------------------------------
fn v(x: V) -> Val { Val { v: x, span: (0, 0) } }
fn leaves() -> Vec<V> {
    let s = |x: &str| x.to_string();
    let mut out = vec![V::Bool(true), V::Bool(false)];
    for t in ["0", "1", "+1", "-1", "10", "1_0", "01", "", "1.0", "true"] { out.push(V::Int(s(t))); out.push(V::Float(s(t))); }
    for t in ["", "a", "A", "a ", "b", "ab", "\\n", "\n", "1", "true", "\u{e9}", "e\u{301}", "1979-05-27"] { for k in [St::Basic, St::MlBasic, St::Lit, St::MlLit] { out.push(V::Str(s(t), k)); } }
    let mut times: Vec<Option<Tm>> = vec![None];
    let offs = [None, Some(Off::Z), Some(Off::Amt { neg: false, h: s("00"), m: s("00") }), Some(Off::Amt { neg: true, h: s("00"), m: s("00") }), Some(Off::Amt { neg: true, h: s("00"), m: s("30") }), Some(Off::Amt { neg: false, h: s("01"), m: s("30") })];
    for (h, m, sec) in [("00", "00", "00"), ("00", "00", "01"), ("00", "01", "00"), ("01", "00", "00")] {
        for f in [None, Some(""), Some("0"), Some("5"), Some("50")] {
            for o in &offs { times.push(Some(Tm { h: s(h), m: s(m), s: s(sec), frac: f.map(s), off: o.clone() })); }
        }
    }
    for t in times { out.push(V::Dt(Dt { year: s("1979"), month: s("05"), day: s("27"), time: t })); }
    for (y, m, d) in [("1980", "05", "27"), ("1979", "06", "27"), ("1979", "05", "28"), ("1979", "27", "05"), ("", "", "")] { out.push(V::Dt(Dt { year: s(y), month: s(m), day: s(d), time: None })); }
    out
}
fn pool() -> Vec<V> {
    let mut out = leaves();
    let i = |t: &str| v(V::Int(t.to_string()));
    let k = |t: &str| t.to_string();
    let conts = vec![
        V::Arr(vec![]), V::Inl(vec![]), V::Arr(vec![i("1")]), V::Arr(vec![i("1"), i("1")]), V::Arr(vec![i("1"), i("2")]), V::Arr(vec![i("2"), i("1")]), V::Arr(vec![v(V::Arr(vec![]))]), V::Arr(vec![v(V::Inl(vec![]))]), V::Arr(vec![v(V::Arr(vec![i("1")]))]),
        V::Arr(vec![i("1"), v(V::Arr(vec![]))]), V::Arr(vec![v(V::Float("1".into()))]), V::Arr(vec![v(V::Str("1".into(), St::Basic))]), V::Arr(vec![v(V::Str("1".into(), St::Lit))]),
        V::Inl(vec![(k("a"), i("1"))]), V::Inl(vec![(k("\"a\""), i("1"))]), V::Inl(vec![(k("b"), i("1"))]), V::Inl(vec![(k("a"), i("2"))]), V::Inl(vec![(k("a"), i("1")), (k("b"), i("2"))]), V::Inl(vec![(k("b"), i("2")), (k("a"), i("1"))]),
        V::Inl(vec![(k("a"), i("2")), (k("b"), i("1"))]), V::Inl(vec![(k("a"), i("1")), (k("a"), i("1"))]), V::Inl(vec![(k("a"), v(V::Inl(vec![])))]), V::Inl(vec![(k("a"), v(V::Arr(vec![])))]), V::Inl(vec![(k("a"), v(V::Arr(vec![i("1")])))]),
    ];
    out.extend(conts);
    out
}
fn eq_pair(cx: &mut Cx, a: &V, b: &V, la: &Value, lb: &Value) -> R {
    let want = a == b;
    cx.evals += 1;
    cx.hit(if want { "pairs written the same" } else { "pairs written differently" });
    let (x, y, n) = guard("==", || (la == lb, lb == la, la != lb))?;
    ensure!(x == want && y == want && n != want, "{:?} and {:?}: a == b is {}, b == a is {}, a != b is {}; they are {}", a, b, x, y, n, if want { "written the same" } else { "written differently" });
    if let (Value::DateTime(da), Value::DateTime(db), V::Dt(ra), V::Dt(rb)) = (la, lb, a, b) {
        let wd = (&ra.year, &ra.month, &ra.day) == (&rb.year, &rb.month, &rb.day);
        ensure!((da.date == db.date) == wd, "Date: {:?} == {:?} is {}", ra, rb, da.date == db.date);
        ensure!((da.time == db.time) == (ra.time == rb.time), "Time: {:?} == {:?} is {}", ra.time, rb.time, da.time == db.time);
        if let (Some(ta), Some(tb), Some(qa), Some(qb)) = (&da.time, &db.time, &ra.time, &rb.time) {
            ensure!((ta.offset == tb.offset) == (qa.off == qb.off), "TimeOffset: {:?} == {:?} is {}", qa.off, qb.off, ta.offset == tb.offset);
            if let (Some(tomllib::types::TimeOffset::Time(oa)), Some(tomllib::types::TimeOffset::Time(ob))) = (&ta.offset, &tb.offset) {
                ensure!((oa == ob) == (qa.off == qb.off), "TimeOffsetAmount: {:?} == {:?} is {}", qa.off, qb.off, oa == ob);
            }
            cx.hit("time parts compared");
        }
    }
    Ok(())
}
/// one value against every other of the pool
fn eq_row(cx: &mut Cx, _: &mut Rng, i: u64) -> R {
    let p = pool();
    let a = &p[i as usize % p.len()];
    cx.input = format!("{:?} against the whole pool", a);
    let la = to_lib(a);
    let c = guard("clone", || la.clone())?;
    eq_pair(cx, a, a, &la, &c)?;
    for b in &p { eq_pair(cx, a, b, &la, &to_lib(b))?; cx.seen(&(format!("{:?}", a), format!("{:?}", b))); }
    Ok(())
}
/// changes exactly one thing somewhere in the value
pub fn tweak(r: &mut Rng, x: &V) -> V {
    match x {
        V::Arr(a) if !a.is_empty() => {
            let mut a = a.clone();
            let i = r.below(a.len());
            match r.below(6) { 0 => { a.remove(i); } 1 => { let e = a[i].clone(); a.insert(i, e); } 2 => { let j = r.below(a.len()); a.swap(i, j); } _ => a[i] = v(tweak(r, &a[i].v)) }
            V::Arr(a)
        }
        V::Inl(t) if !t.is_empty() => {
            let mut t = t.clone();
            let i = r.below(t.len());
            match r.below(7) { 0 => { t.remove(i); } 1 => { let e = t[i].clone(); t.insert(i, e); } 2 => { let j = r.below(t.len()); t.swap(i, j); } 3 => t[i].0 = format!("\"{}\"", t[i].0.trim_matches('"')), _ => t[i].1 = v(tweak(r, &t[i].1.v)) }
            V::Inl(t)
        }
        V::Int(s) if r.pct(70) => V::Int(if r.pct(50) { format!("{}0", s) } else { format!("+{}", s.trim_start_matches('+')) }),
        V::Float(s) if r.pct(70) => V::Float(format!("{}0", s)),
        V::Bool(b) => V::Bool(!b),
        V::Str(s, k) => match r.below(4) { 0 => V::Str(format!("{} ", s), *k), 1 => V::Str(s.chars().skip(1).collect(), *k), 2 => V::Str(s.to_uppercase(), *k), _ => V::Str(s.clone(), *r.one(&[St::Basic, St::MlBasic, St::Lit, St::MlLit])) },
        V::Dt(d) => {
            let mut d = d.clone();
            let p = |s: &mut String| { let l = s.pop(); s.push(if l == Some('1') { '2' } else { '1' }); };
            match (r.below(9), &mut d.time) {
                (0, _) => p(&mut d.year), (1, _) => p(&mut d.month), (2, _) => p(&mut d.day), (3, t) => *t = None,
                (4, Some(t)) => p(&mut t.h), (5, Some(t)) => p(&mut t.m), (6, Some(t)) => p(&mut t.s), (7, Some(t)) => t.frac = match &t.frac { None => Some("0".into()), Some(f) => if r.pct(50) { None } else { Some(format!("{}0", f)) } },
                (_, Some(t)) => t.off = match &t.off { None => Some(Off::Z), Some(Off::Z) => None, Some(Off::Amt { neg, h, m }) => Some(if r.pct(50) { Off::Amt { neg: !neg, h: h.clone(), m: m.clone() } } else { Off::Amt { neg: *neg, h: m.clone(), m: h.clone() } }) },
                (_, None) => p(&mut d.day),
            }
            V::Dt(d)
        }
        _ => V::Arr(vec![]),
    }
}
fn eq_near(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let o = vary(r);
    let (a, text) = gen::value(r, &o, 3, 7);
    let b = if r.pct(10) { a.clone() } else { tweak(r, &a) };
    let c = if r.pct(50) { tweak(r, &b) } else { tweak(r, &a) };
    cx.input = format!("{:?} / {:?} / {:?}", a, b, c);
    let (la, lb, lc) = (to_lib(&a), to_lib(&b), to_lib(&c));
    eq_pair(cx, &a, &b, &la, &lb)?;
    eq_pair(cx, &b, &c, &lb, &lc)?;
    eq_pair(cx, &a, &c, &la, &lc)?;
    eq_pair(cx, &b, &b, &lb, &guard("clone", || lb.clone())?)?;
    // borrowed from a document or owned makes no difference
    let doc = format!("k = {}\n", text);
    let (p, _) = guard("parse", || TOMLParser::new().parse(&doc))?;
    if let Some(read) = guard("get_value", || p.get_value("k"))? {
        let ra = from_lib(&read);
        cx.hit("values read from a document");
        eq_pair(cx, &ra, &a, &read, &la)?;
        eq_pair(cx, &ra, &b, &read, &lb)?;
        let again = guard("get_value", || p.get_value("k"))?.ok_or("the second read of k gave None")?;
        eq_pair(cx, &ra, &ra, &read, &again)?;
    }
    cx.seen(&(format!("{:?}", a), format!("{:?}", b)));
    cx.sample(&cx.input.clone());
    Ok(())
}
/// results, errors and children listings of two documents
fn eq_results(cx: &mut Cx, t: &str) -> R {
    let mut r = Rng::new(cx.seed, "eq_results", t.len() as u64);
    let other = if r.pct(25) { t.to_string() } else { any_edit(&mut r, t) };
    let (pa, ra) = guard("parse", || TOMLParser::new().parse(t))?;
    let (pb, rb) = guard("parse", || TOMLParser::new().parse(&other))?;
    let (ca, cb) = (libx::conv_res(&ra), libx::conv_res(&rb));
    let want = ca == cb;
    cx.evals += 1;
    cx.hit(if want { "equal results" } else { "different results" });
    let (x, y) = guard("== of results", || (ra == rb, rb == ra))?;
    ensure!(x == want && y == want, "the results {:?} and {:?} compare {} / {}", ca, cb, x, y);
    let c = guard("clone of a result", || ra.clone())?;
    ensure!(c == ra && libx::conv_res(&c) == ca, "a cloned result differs from {:?}", ca);
    let (ma, mb) = (pa.get_children(""), pb.get_children(""));
    if let (Some(ma), Some(mb)) = (ma, mb) {
        let w = libx::kids_of(ma) == libx::kids_of(mb);
        ensure!((ma == mb) == w, "the children {:?} and {:?} compare {}", ma, mb, ma == mb);
        let cl = ma.clone();
        ensure!(&cl == ma, "cloned children differ from {:?}", ma);
        cx.hit("children compared");
    }
    cx.seen(&(t, other));
    Ok(())
}
fn eq_children(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mk = |r: &mut Rng| if r.pct(30) { sem::Kids::Count(r.below(3)) } else { let n = r.below(3); sem::Kids::Keys((0..n).map(|_| r.pick(&["a", "b", "\"a\"", ""]).to_string()).collect()) };
    let lib = |k: &sem::Kids| match k { sem::Kids::Count(n) => Children::Count(Cell::new(*n)), sem::Kids::Keys(k) => Children::Keys(RefCell::new(k.clone())) };
    let (a, b) = (mk(r), mk(r));
    cx.input = format!("{:?} / {:?}", a, b);
    let x = guard("== of children", || lib(&a) == lib(&b))?;
    cx.evals += 1;
    cx.seen(&cx.input.clone());
    cx.hit(if a == b { "equal children" } else { "different children" });
    ensure!(x == (a == b), "children {:?} == {:?} is {}", a, b, x);
    Ok(())
}

// ---- rearranging a document -----------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Lay { crlf: usize, ws: usize, gaps: usize, comments: usize }
fn lay_of(r: &mut Rng) -> Lay { Lay { crlf: *r.one(&[0, 0, 50, 100]), ws: *r.one(&[0, 30, 90]), gaps: *r.one(&[0, 20, 70]), comments: *r.one(&[0, 10, 50]) } }
fn ws(r: &mut Rng, l: Lay) -> String { if r.pct(l.ws) { (0..r.range(1, 3)).map(|_| *r.one(&[' ', '\t'])).collect() } else { String::new() } }
fn nl(r: &mut Rng, l: Lay) -> &'static str { if r.pct(l.crlf) { "\r\n" } else { "\n" } }
fn gap(r: &mut Rng, l: Lay) -> String {
    let mut s = ws(r, l);
    while r.pct(l.gaps.min(60)) { if r.pct(l.comments) { s += &gen::comment(r); } s += nl(r, l); s += &ws(r, l); }
    s
}
pub fn lay_val(r: &mut Rng, l: Lay, src: &str, x: &Val) -> String {
    match &x.v {
        V::Arr(a) => {
            let mut s = format!("[{}", gap(r, l));
            for (i, e) in a.iter().enumerate() {
                s += &lay_val(r, l, src, e);
                if i + 1 < a.len() || r.pct(8) { s += &ws(r, l); s.push(','); }
                s += &gap(r, l);
            }
            s.push(']');
            s
        }
        V::Inl(t) => {
            let mut s = format!("{{{}", ws(r, l));
            for (i, (k, e)) in t.iter().enumerate() {
                s += k; s += &ws(r, l); s.push('='); s += &ws(r, l); s += &lay_val(r, l, src, e);
                let comma = i + 1 < t.len() || r.pct(8);
                if comma { s += &ws(r, l); s.push(','); }
                if comma && i + 1 < t.len() { s += &gap(r, l); } else { s += &ws(r, l); }
            }
            s.push('}');
            s
        }
        _ => src[x.span.0..x.span.1].to_string(),
    }
}
/// one statement in another layout, without its line end
fn lay_expr(r: &mut Rng, l: Lay, src: &str, x: &Expr, name: &dyn Fn(&str, bool) -> String, root: bool) -> String {
    let mut s = ws(r, l);
    match &x.item {
        Item::Blank => {}
        Item::KeyVal { key, val } => { s += &name(key, root); s += &ws(r, l); s.push('='); s += &ws(r, l); s += &lay_val(r, l, src, val); }
        Item::Std(ks) | Item::Aot(ks) => {
            let aot = matches!(x.item, Item::Aot(_));
            s += if aot { "[[" } else { "[" };
            for (i, k) in ks.iter().enumerate() {
                s += &ws(r, l);
                if i > 0 { s.push('.'); s += &ws(r, l); }
                s += &name(k, i == 0);
            }
            s += &ws(r, l);
            s += if aot { "]]" } else { "]" };
        }
    }
    s += &ws(r, l);
    if r.pct(l.comments) { s += &gen::comment(r); }
    s
}
fn fillers(r: &mut Rng, l: Lay, out: &mut String) { while r.pct(l.gaps.min(60)) { *out += &ws(r, l); if r.pct(l.comments) { *out += &gen::comment(r); } *out += nl(r, l); } }
fn bare_line(e: &LErr) -> LErr {
    let mut e = e.clone();
    match &mut e { LErr::Dup { line, col, .. } | LErr::Mixed { line, col, .. } | LErr::BadDt { line, col, .. } | LErr::BadTable { line, col, .. } => { *line = 0; *col = 0; } LErr::Other(_) => {} }
    e
}
fn shows(e: &[LErr]) -> String { e.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join("; ") }
/// the keys to compare two views by
fn keys_of(r: &mut Rng, m: &sem::Model, text: &str) -> Vec<String> {
    let map = sem::flatten(m);
    let mut ks: Vec<String> = map.iter().map(|e| e.0.clone()).collect();
    ks.extend(absent(r, &map, 8));
    // what is reported must be invisible (or the first value) in both
    for e in &m.errors {
        match &e.e { sem::SErr::Dup { key, .. } | sem::SErr::Mixed { key } | sem::SErr::BadDt { key, .. } => ks.push(key.clone()), sem::SErr::BadTable { key, kvs, .. } => { ks.push(key.clone()); for (k, _) in kvs { ks.push(sem::join(key, k)); } } }
    }
    let _ = text;
    ks.sort();
    ks.dedup();
    ks
}

// ---- C26: layout carries no meaning ---------------------------------------------------------
fn c26(cx: &mut Cx, t: &str) -> R {
    let doc = refp::parse(t);
    if doc.consumed != t.len() || doc.exprs.iter().all(|x| matches!(x.item, Item::Blank)) { cx.hit("texts not covered by the grammar, not judged"); return Ok(()); }
    let mut r = Rng::new(cx.seed, "c26", t.len() as u64);
    let a = Live::parse(t)?;
    let model = sem::eval(t, &doc);
    let keys = keys_of(&mut r, &model, t);
    let id = |k: &str, _: bool| k.to_string();
    for _ in 0..2 {
        let l = lay_of(&mut r);
        let mut b = String::new();
        let stmts: Vec<&Expr> = doc.exprs.iter().filter(|x| !matches!(x.item, Item::Blank)).collect();
        for (i, x) in stmts.iter().enumerate() {
            fillers(&mut r, l, &mut b);
            b += &lay_expr(&mut r, l, t, x, &id, false);
            if i + 1 < stmts.len() || r.pct(70) { b += nl(&mut r, l); }
        }
        if b.ends_with('\n') { fillers(&mut r, l, &mut b); }
        // the rewriting itself is checked: same statements in the same order
        let d2 = refp::parse(&b);
        let flat = |d: &refp::Doc| d.exprs.iter().filter_map(|x| match &x.item { Item::Blank => None, Item::KeyVal { key, val } => Some(format!("{} {:?}", key, val.v)), o => Some(format!("{:?}", o)) }).map(|s| unspan(&s)).collect::<Vec<_>>();
        if d2.consumed != b.len() || flat(&doc) != flat(&d2) { cx.hit("rewriting went wrong (harness)"); continue; }
        cx.evals += 1;
        cx.seen(&(t, &b));
        cx.hit("layouts compared");
        cx.add("statements laid out anew", stmts.len() as u64);
        let lb = Live::parse(&b)?;
        ensure!(a.res.kind == lb.res.kind, "the result is {:?}, in another layout it is {:?} (leftover {:?}):\n{}", a.res.kind, lb.res.kind, lb.res.leftover, b);
        let (ea, eb): (Vec<_>, Vec<_>) = (a.res.errors.iter().map(bare_line).collect(), lb.res.errors.iter().map(bare_line).collect());
        cx.add("errors compared", ea.len() as u64);
        ensure!(ea == eb, "the errors are {}, in another layout they are {}:\n{}", shows(&ea), shows(&eb), b);
        for k in &keys {
            let (x, y) = (a.get(k)?, lb.get(k)?);
            cx.hit("lookups compared");
            ensure!(x == y, "get_value({:?}) is {}, in another layout {}:\n{}", k, sh(&x), sh(&y), b);
            let (x, y) = (a.kids(k)?, lb.kids(k)?);
            ensure!(x == y, "get_children({:?}) is {:?}, in another layout {:?}:\n{}", k, x, y, b);
        }
    }
    Ok(())
}
/// spans in debug texts
fn unspan(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("span: (") { out += &rest[..i]; rest = &rest[i..]; let j = rest.find(')').unwrap_or(0); rest = &rest[j..]; }
    out + rest
}

// ---- C27: unrelated parts do not disturb each other -------------------------------------------
const CUT: &str = "#--8<--\n";
fn g_two(r: &mut Rng, i: u64) -> String {
    let one = |r: &mut Rng| match r.below(8) { 0 => g_tables(r, i), 1 => g_ladder(r, i), 2 | 3 => g_errors(r, i), 4 => g_headers(r, i), 5 => g_dups(r, i), 6 => small_doc(r.u64() % small_total(4)), _ => g_valid(r, i) };
    let a = one(r);
    // both parts with the same texts, or nearly: what is remembered of the first may be taken for the second
    let b = match r.below(10) {
        0..=2 => a.clone(),
        3 => { let mut l: Vec<&str> = a.split_inclusive('\n').collect(); if !l.is_empty() { let i = r.below(l.len()); l.remove(i); } l.concat() }
        _ => one(r),
    };
    format!("{}{}{}{}", a, if a.is_empty() || a.ends_with('\n') { "" } else { "\n" }, CUT, b)
}
struct Part { texts: Vec<String>, roots: usize, model: sem::Model, alone: String }
/// How top-level keys are renamed apart: by beginning, or by end (one key may then be the beginning of another part's key)
#[derive(Clone, Copy)]
struct Tag { pre: &'static str, post: &'static str }
const TAGS: [[Tag; 2]; 3] = [
    [Tag { pre: "yy-", post: "" }, Tag { pre: "zz_", post: "" }],
    [Tag { pre: "", post: "-y" }, Tag { pre: "", post: "-y-z" }],
    [Tag { pre: "", post: "1" }, Tag { pre: "", post: "0" }],
];
impl Tag {
    fn name(self, k: &str) -> String {
        match k.strip_prefix('"') { Some(q) => format!("\"{}{}{}\"", self.pre, &q[..q.len() - 1], self.post), None => format!("{}{}{}", self.pre, k, self.post) }
    }
    /// does this path start with a top-level key of this part?
    fn mine(self, path: &str) -> bool {
        let top = if let Some(q) = path.strip_prefix('"') {
            let b = q.as_bytes();
            let mut i = 0;
            while i < b.len() && b[i] != b'"' { i += if b[i] == b'\\' { 2 } else { 1 }; }
            q.get(..i.min(q.len())).unwrap_or("")
        } else { &path[..path.find(|c| c == '.' || c == '[').unwrap_or(path.len())] };
        top.starts_with(self.pre) && top.ends_with(self.post) && top.len() > self.pre.len() + self.post.len()
    }
}
/// the statements of a document with every top-level key renamed; grouped by header
fn part(r: &mut Rng, t: &str, tag: Tag) -> Option<Part> {
    let doc = refp::parse(t);
    if doc.consumed != t.len() { return None; }
    let l = lay_of(r);
    let name = |k: &str, top: bool| if top { tag.name(k) } else { k.to_string() };
    let mut texts: Vec<String> = vec![];
    let mut roots = 0;
    let mut header = false;
    for x in doc.exprs.iter().filter(|x| !matches!(x.item, Item::Blank)) {
        let is_kv = matches!(x.item, Item::KeyVal { .. });
        let mut s = String::new();
        fillers(r, l, &mut s);
        s += &lay_expr(r, l, t, x, &name, !header);
        s += nl(r, l);
        if !is_kv { header = true; texts.push(s); }
        else if header { texts.last_mut().unwrap().push_str(&s); }
        else { roots += 1; texts.push(s); }
    }
    let alone: String = texts.concat();
    let d = refp::parse(&alone);
    if d.consumed != alone.len() { return None; }
    let model = sem::eval(&alone, &d);
    Some(Part { texts, roots, model, alone })
}
fn key_of(e: &LErr) -> &str { match e { LErr::Dup { key, .. } | LErr::Mixed { key, .. } | LErr::BadDt { key, .. } | LErr::BadTable { key, .. } => key, LErr::Other(s) => s } }
fn c27(cx: &mut Cx, t: &str) -> R {
    let (ta, tb) = match t.find(CUT) { Some(i) => (&t[..i], &t[i + CUT.len()..]), None => return Ok(()) };
    let mut r = Rng::new(cx.seed, "c27", t.len() as u64);
    let mut tags = *r.one(&TAGS);
    if r.pct(50) { tags.swap(0, 1); }
    let (pa, pb) = match (part(&mut r, ta, tags[0]), part(&mut r, tb, tags[1])) { (Some(a), Some(b)) => (a, b), _ => { cx.hit("texts not covered by the grammar, not judged"); return Ok(()); } };
    let parts = [(tags[0], &pa), (tags[1], &pb)];
    let mut alone = vec![];
    for (_, p) in &parts { alone.push(Live::parse(&p.alone)?); }
    let mut ways: Vec<String> = vec![];
    for way in 0..3 {
        // one after the other, the other way round, or interleaved; key/values of the root come first
        let mut text = String::new();
        let (mut at, ends) = ([0, 0], [[pa.roots, pb.roots], [pa.texts.len(), pb.texts.len()]]);
        for end in ends.iter() {
            while at[0] < end[0] || at[1] < end[1] {
                let w = if at[0] >= end[0] { 1 } else if at[1] >= end[1] { 0 } else { match way { 0 => 0, 1 => 1, _ => r.below(2) } };
                text += &parts[w].1.texts[at[w]];
                at[w] += 1;
            }
        }
        ways.push(text);
    }
    for text in &ways {
        let mut joint = Live::parse(text)?;
        cx.evals += 1;
        cx.hit("joined documents");
        cx.seen(text);
        for round in 0..2 {
            for (w, (tag, p)) in parts.iter().enumerate() {
                let lone = &alone[w];
                if round == 0 {
                    let (ea, eb): (Vec<_>, Vec<_>) = (lone.res.errors.iter().map(bare_line).collect(), joint.res.errors.iter().filter(|e| tag.mine(key_of(e))).map(bare_line).collect());
                    cx.add("errors compared", ea.len() as u64);
                    ensure!(ea == eb, "alone the errors are {}, joined with an unrelated document they are {}:\n{}", shows(&ea), shows(&eb), text);
                    ensure!(joint.res.errors.len() == alone[0].res.errors.len() + alone[1].res.errors.len(), "joined document reports {} errors, the parts {} and {}:\n{}", joint.res.errors.len(), alone[0].res.errors.len(), alone[1].res.errors.len(), text);
                    let full = alone.iter().all(|l| l.res.kind == libx::Kind::Full);
                    ensure!(joint.res.leftover.is_empty() && (joint.res.kind == libx::Kind::Full) == full, "joined document gives {:?}, the parts {:?} and {:?}:\n{}", joint.res.kind, alone[0].res.kind, alone[1].res.kind, text);
                }
                for k in keys_of(&mut r, &p.model, &p.alone) {
                    if k.is_empty() {
                        let f = |x: Option<sem::Kids>| match x { Some(sem::Kids::Keys(k)) => Some(k.into_iter().filter(|k| tag.mine(k)).collect::<Vec<_>>()), _ => None };
                        let (x, y) = (f(lone.kids("")?), f(joint.kids("")?));
                        ensure!(x == y, "alone the root's children are {:?}, joined {:?}:\n{}", x, y, text);
                        continue;
                    }
                    if !tag.mine(&k) { continue; }
                    cx.hit("lookups compared");
                    let (x, y) = (lone.get(&k)?, joint.get(&k)?);
                    ensure!(x == y, "get_value({:?}) is {} alone, joined with an unrelated document {}:\n{}", k, sh(&x), sh(&y), text);
                    let (x, y) = (lone.kids(&k)?, joint.kids(&k)?);
                    ensure!(x == y, "get_children({:?}) is {:?} alone, joined with an unrelated document {:?}:\n{}", k, x, y, text);
                }
            }
            if round == 1 { break; }
            // the same updates of the first part, alone and joined; the other part must not notice
            let vals: Vec<String> = sem::flatten(&pa.model).into_iter().filter(|e| e.1.val.is_some() && tags[0].mine(&e.0)).map(|e| e.0).collect();
            if vals.is_empty() { break; }
            let mut fresh = Live::parse(&pa.alone)?;
            for _ in 0..3 {
                let k = r.one(&vals).clone();
                let nv = gen::value(&mut r, &gen::Opts { scalars_only: false, ..vary(&mut Rng::new(cx.seed, "c27v", 0)) }, 2, 7).0;
                let (x, y) = (fresh.set(&k, &nv)?, joint.set(&k, &nv)?);
                cx.hit("updates compared");
                ensure!(x == y, "set_value({:?}, {}) is {} alone, {} joined:\n{}", k, refp::show(&nv), x, y, text);
            }
            alone[0] = fresh;
        }
        alone[0] = Live::parse(&pa.alone)?;
    }
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let nc = n_corpus();
    let small3 = small_total(3);
    let n = pool().len() as u64;
    let f = |name, quick, thorough, g: fn(&mut Cx, &mut Rng, u64) -> R| Stage { name, quick, thorough, run: Run::Free(g) };
    vec![
        Prop { id: "C25", stages: vec![
            f("pairs", n, n, eq_row), f("near", 40_000, 1_500_000, eq_near), f("children", 4000, 40_000, eq_children),
            st("results_errors", 6000, 200_000, g_errors, eq_results), st("results_mutant", 4000, 100_000, g_mutant, eq_results), st("results_small", small3, small_total(4), g_small, eq_results),
        ], rule: "all pairs of a pool of neighbouring values, and random values against copies changed in one place, owned and read from documents; non-trivial: a distinct pair that was compared", assumptions: &["equality is judged by the public fields, read one by one"], probes: vec![] },
        Prop { id: "C26", stages: vec![
            st("corpus", nc, nc, g_corpus, c26), st("valid", 4000, 150_000, g_valid, c26), st("tables", 3000, 150_000, g_tables, c26), st("errors", 6000, 250_000, g_errors, c26), st("dups", 3000, 100_000, g_dups, c26), st("headers", 4000, 150_000, g_headers, c26), st("ladder", 2000, 100_000, g_ladder, c26),
            st("small", small3, small_total(4), g_small, c26), st("large", LARGE, LARGE * 20, g_large, c26),
        ], rule: "documents covered by the grammar, each against two other layouts of the same statements; non-trivial: a distinct pair of texts whose results, errors, lookups and listings were compared", assumptions: &["the rewriting is checked by the reference parser: same statements, same order"], probes: vec![] },
        Prop { id: "C27", stages: vec![
            st("two", 4500, 400_000, g_two, c27),
        ], rule: "two unrelated documents joined three ways (either order, interleaved header by header) against each of them alone; non-trivial: a distinct joined text whose errors, lookups, listings and updates were compared", assumptions: &["top-level keys are renamed so that no key of one document can be one of the other"], probes: vec![] },
    ]
}
