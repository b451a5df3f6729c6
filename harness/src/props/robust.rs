//! C02 (no crash), C23 (determinism, independence) and C24 (memory).
use super::common::*;
use super::docs;
use super::edits::{self, any_value, bad_scalar};
use crate::cx::{self, Cx, R};
use crate::driver::{Prop, Run, Stage};
use crate::ensure;
use crate::gen::{self, Opts};
use crate::libx::{self, Live};
use crate::refp::{self, St, V};
use crate::rng::Rng;
use crate::sem;
use std::error::Error;
use std::rc::Rc;
use tomllib::types::{Children, Date, DateTime, Time, TimeOffset, TimeOffsetAmount, Value};
use tomllib::TOMLParser;

// ---- C02 -------------------------------------------------------------------------------------
/// keys of every kind: defined, nearly defined, malformed, enormous
fn some_key(r: &mut Rng, keys: &[String]) -> String {
    if !keys.is_empty() && r.pct(65) { return r.one(keys).clone(); }
    match r.below(8) {
        0 => String::new(),
        1 => "$Root$".into(),
        2 => gen::noise(r, 6),
        3 => "a[".repeat(r.range(1, 40)),
        4 => format!("a[{}]", r.u64()),
        5 => "a.".repeat(r.range(1, 40)),
        6 => if r.pct(50) { "x".repeat(r.range(1, 5000)) } else { long_text(r) },
        _ => gen::any_key(r, false),
    }
}
fn some_text(r: &mut Rng) -> String {
    if r.pct(10) { return long_text(r); }
    if r.pct(50) { gen::noise(r, 8) } else { r.pick(&["", "1", "-", "99999999999999999999999", "\"", "'", "é", "\u{0}", "TRUE", "2000-01-01", "0", "00", "+1"]).to_string() }
}
/// long, of characters of one to four bytes in any alignment, often with something that fits nowhere
pub fn long_text(r: &mut Rng) -> String {
    let n = match r.below(4) { 0 => r.range(8, 40), 1 => r.range(40, 140), 2 => r.range(140, 300), _ => r.range(1000, 1200) };
    let unit = *r.one(&["é", "中", "😀", "aé", "é中😀", "0", "x", "1é"]);
    let mut s = "a".repeat(r.below(5)) + &unit.chars().cycle().take(n).collect::<String>();
    if r.pct(60) { let at = gen::floor_char(&s, r.below(s.len() + 1)); s.insert_str(at, r.pick(&["\n", "\u{0}", "\\", "\"", "'", "\\x", "_"])); }
    s
}
/// a value built from the public types with any content at all
fn wild_value(r: &mut Rng, depth: usize) -> V {
    match r.below(8) {
        0 => V::Int(some_text(r)),
        1 => V::Float(some_text(r)),
        2 => V::Str(some_text(r), *r.one(&[St::Basic, St::MlBasic, St::Lit, St::MlLit])),
        3 => { let mut d = gen::dt(r, true); match r.below(4) { 0 => d.year = some_text(r), 1 => d.month = some_text(r), 2 => d.day = some_text(r), _ => if let Some(t) = &mut d.time { t.frac = Some(some_text(r)); t.h = some_text(r) } } V::Dt(d) }
        4 => bad_scalar(r),
        5 if depth > 0 => { let n = r.below(4); V::Arr((0..n).map(|_| wrap(wild_value(r, depth - 1))).collect()) }
        6 if depth > 0 => { let n = r.below(4); V::Inl((0..n).map(|_| (some_text(r), wrap(wild_value(r, depth - 1)))).collect()) }
        _ => any_value(r, 7),
    }
}
fn use_value(cx: &mut Cx, v: &Value) -> R {
    libx::guard("use of a value", || { let c = v.clone(); let s = format!("{}", c); let d = format!("{:?}", v); let ok = c.validate(); let same = c == *v; (s.len() + d.len(), ok, same) }).and_then(|(_, _, same)| {
        cx.hit("values printed, validated and compared");
        if same { Ok(()) } else { Err(format!("a clone of {:?} is unequal to it", v)) }
    })
}
/// everything that can be asked of a parser, on every key it knows
fn exercise(cx: &mut Cx, r: &mut Rng, live: &mut Live, keys: &[String], writes: usize) -> R {
    live.text()?;
    for k in keys.iter().take(60) {
        let v = libx::guard("get_value", || live.p.get_value(k.as_str()))?;
        if let Some(v) = v { use_value(cx, &v)?; }
        libx::guard("get_children", || if let Some(c) = live.p.get_children(k.as_str()) { let _ = (c.combine_child_keys(k.as_str()).len(), format!("{:?}", c).len(), c.clone() == *c); })?;
        cx.hit("keys read");
    }
    for _ in 0..writes {
        let k = some_key(r, keys);
        match r.below(6) {
            0 => { live.get(&k)?; }
            1 => { live.kids(&k)?; libx::guard("combine", || (Children::combine_keys(k.as_str(), "c").len(), Children::combine_keys_index(k.as_str(), r.u64() as usize).len()))?; }
            2 => { let l = live.text()?.len(); cx.max("printed length", l as u64); }
            3 => { // a value handed from one place to another
                let k2 = some_key(r, keys);
                let p = &mut live.p;
                libx::guard("set_value", || if let Some(v) = p.get_value(k2.as_str()) { let ok = p.set_value(k.as_str(), v); ok } else { false })?;
                cx.hit("values moved");
            }
            4 => { // a value containing the old one
                let p = &mut live.p;
                libx::guard("set_value", || if let Some(v) = p.get_value(k.as_str()) { if format!("{}", v).len() > 20_000 { return false; } let a = Value::Array(Rc::new(vec![v.clone(), v])); p.set_value(k.as_str(), a) } else { false })?;
                cx.hit("values wrapped");
            }
            _ => { let v = wild_value(r, 3); let ok = live.set(&k, &v)?; cx.hit(if ok { "writes accepted" } else { "writes refused" }); }
        }
        cx.evals += 1;
    }
    live.text()?;
    for k in keys.iter().take(60) { live.get(k)?; live.kids(k)?; }
    Ok(())
}
fn rng_of(t: &str) -> Rng { let mut h = 0u64; for b in t.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u64); } Rng::new(h, "c02", t.len() as u64) }
fn depth_of(t: &str) -> usize { let (mut d, mut m) = (0usize, 0); for c in t.chars() { match c { '[' | '{' => { d += 1; m = m.max(d) } ']' | '}' => d = d.saturating_sub(1), _ => {} } } m }
fn c02(cx: &mut Cx, t: &str) -> R {
    if depth_of(t) > 48 { return Ok(()); }
    let d = refp::parse(t);
    let m = sem::eval(t, &d);
    let mut live = Live::parse(t)?;
    cx.evals += 1;
    cx.hit(&format!("result {:?}", live.res.kind));
    let mut keys = keys_of(&sem::flatten(&m));
    let mut r = rng_of(t);
    keys.extend(absent(&mut r, &sem::flatten(&m), 4));
    keys.extend(live.res.errors.iter().map(|e| match e { libx::LErr::Dup { key, .. } | libx::LErr::Mixed { key, .. } | libx::LErr::BadDt { key, .. } | libx::LErr::BadTable { key, .. } => key.clone(), _ => String::new() }));
    cx.seen(t);
    let n = r.range(0, 12);
    exercise(cx, &mut r, &mut live, &keys, n)?;
    // the result is the caller's, too
    libx::guard("Debug of the result", || { let (_, res) = TOMLParser::new().parse(t); let n = format!("{:?}", res).len(); let c = res.clone(); n + (c == res) as usize })?;
    cx.sample(t);
    Ok(())
}
fn g_any(r: &mut Rng, i: u64) -> String {
    match r.below(12) {
        0 => g_noise(r, i), 1 | 2 => g_mutant(r, i), 3 => g_errors(r, i), 4 => if r.pct(50) { g_headers(r, i) } else { g_ladder(r, i) }, 5 => g_dups(r, i), 6 => g_mixed(r, i), 7 => g_dates(r, i), 8 => docs::g_token(r, i), 9 => g_small_long(r, i), 10 => docs::g_lines(r, i), _ => g_valid(r, i),
    }
}
/// arrays and inline tables nested up to 48 deep, closed, open or cut anywhere
fn g_deep(r: &mut Rng, _: u64) -> String {
    let n = r.range(1, 48);
    let mut open = String::new();
    let mut close = String::new();
    for _ in 0..n { match r.below(5) { 0 | 1 => { open += "["; close.insert_str(0, "]"); } 2 => { open += "{a = "; close.insert_str(0, "}"); } 3 => { open += "[ # c\n"; close.insert_str(0, "\n]"); } _ => { open += "[1, "; close.insert_str(0, " , 2]"); } } }
    let core = r.pick(&["1", "'x'", "2000-13-01", "true", "[]", "{}", "x", "", "1 2"]);
    let mut s = format!("a = {}{}{}", open, core, close);
    if r.pct(30) { s.truncate(gen::floor_char(&s, { let n = s.len(); r.below(n) })); }
    if depth_of(&s) > 48 { s = "a = []".into(); }
    s
}
/// table headers of great length and number
fn g_wide(r: &mut Rng, _: u64) -> String {
    let n = r.range(10, 150);
    match r.below(6) {
        0 => format!("[{}]\nk = 1", vec!["a"; n].join(".")),
        1 => format!("[[{}]]\nk = 1\n[[{}]]", vec!["a"; n].join("."), vec!["a"; n].join(".")),
        2 => (0..n).map(|i| format!("[[t]]\nk{} = {}\n", i, i)).collect(),
        3 => format!("a = [{}]", "1,".repeat(n)),
        4 => format!("a = \"{}\"\n", "é\\u00e9 x".repeat(n)),
        _ => format!("a = {{{}}}", (0..n).map(|i| format!("k{} = {}", i, i)).collect::<Vec<_>>().join(", ")),
    }
}
/// constructors and the public structs, on anything
/// numbers at the ends of their ranges: 0, powers of two and of ten and their neighbours, special floats' bits
pub fn edge(r: &mut Rng) -> u64 {
    let near = |r: &mut Rng, x: u64| x.wrapping_add(r.below(3) as u64).wrapping_sub(1);
    match r.below(8) {
        0 => 0, 1 => u64::MAX, 2 => i64::MIN as u64, 3 => i64::MAX as u64,
        4 => { let e = r.below(64); near(r, 1 << e) } 5 => { let e = r.below(20) as u32; near(r, 10u64.pow(e)) }
        6 => r.one(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, -0.0, 5e-324, 1e15, 1e16, 1e17, 1e21]).to_bits(),
        _ => (r.below(200) as i64 - 100) as u64,
    }
}
fn c02_ctors(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let v = wild_value(r, 3);
    cx.input = format!("{:?}", v);
    let l = libx::to_lib(&v);
    use_value(cx, &l)?;
    let (a, b, c, d, e, f, g, h, i) = (some_text(r), some_text(r), some_text(r), some_text(r), some_text(r), some_text(r), some_text(r), some_text(r), some_text(r));
    let n: Vec<usize> = (0..9).map(|_| (if r.pct(35) { edge(r) } else { let s = r.below(64); r.u64() >> s }) as usize).collect();
    let ch = *r.one(&['+', '-', 'x', '\u{0}', 'é']);
    let w = if r.pct(50) { "2000-01-01T00:00:00.5Z".to_string() } else { let t = gen::noise(r, 10); t };
    cx.input += &format!("\n{:?}", (&a, &b, &c, &d, &e, &f, &g, &h, &i, &n, ch, &w));
    libx::guard("constructors", || {
        let mut k = 0;
        let mut see = |x: Result<Value<'static>, tomllib::types::TOMLError>| match x { Ok(v) => { k += format!("{} {:?}", v, v.validate()).len() } Err(e) => { #[allow(deprecated)] let d = e.description().len(); k += d + format!("{} {:?}", e, e).len() + e.source().is_some() as usize } };
        see(Value::int_from_str(a.clone())); see(Value::float_from_str(a.clone())); see(Value::bool_from_str(a.clone()));
        see(Value::basic_string(a.clone())); see(Value::ml_basic_string(a.clone())); see(Value::literal_string(a.clone())); see(Value::ml_literal_string(a.clone()));
        see(Value::date_from_str(a.clone(), b.clone(), c.clone())); see(Value::datetime_from_str(a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone()));
        see(Value::datetime_frac_from_str(a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone(), g.clone()));
        see(Value::datetime_offset_from_str(a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone(), g.clone(), h.clone(), i.clone()));
        see(Value::datetime_zulu_from_str(a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone()));
        see(Value::datetime_full_zulu_from_str(a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone(), g.clone()));
        see(Value::datetime_full_from_str(a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), f.clone(), g.clone(), h.clone(), i.clone(), a.clone()));
        see(Value::date_from_int(n[0], n[1], n[2])); see(Value::datetime_from_int(n[0], n[1], n[2], n[3], n[4], n[5])); see(Value::datetime_frac_from_int(n[0], n[1], n[2], n[3], n[4], n[5], n[6]));
        see(Value::datetime_offset_from_int(n[0], n[1], n[2], n[3], n[4], n[5], ch, n[6], n[7])); see(Value::datetime_zulu_from_int(n[0], n[1], n[2], n[3], n[4], n[5]));
        see(Value::datetime_full_zulu_from_int(n[0], n[1], n[2], n[3], n[4], n[5], n[6] as u64)); see(Value::datetime_full_from_int(n[0], n[1], n[2], n[3], n[4], n[5], n[6] as u64, ch, n[7], n[8]));
        see(Value::datetime_parse(&*w).map(|v| libx::to_lib(&libx::from_lib(&v))));
        k += format!("{}{}", Value::int(n[0] as i64), Value::float(f64::from_bits(n[1] as u64))).len();
        let off = TimeOffsetAmount::from_str(g.clone(), h.clone(), i.clone());
        if let Ok(o) = off { let o = TimeOffset::Time(o); k += format!("{} {:?}", o, o.validate()).len(); }
        if let Ok(d) = Date::from_str(a.clone(), b.clone(), c.clone()) { let t = Time::from_str(d.year.to_string(), e.clone(), f.clone(), Some(g.clone()), Some(TimeOffset::Zulu)).ok(); let x = DateTime::new(d, t); k += format!("{} {:?}", x, x.validate()).len(); }
        k
    })?;
    cx.evals += 22;
    cx.hit("constructor batches");
    cx.seen(&cx.input.clone());
    Ok(())
}
/// several parsers with long call sequences, parsing again in between
fn c02_calls(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let docs: Vec<String> = (0..3).map(|_| { let t = g_any(r, i); if depth_of(&t) > 48 { "a = 1".into() } else { t } }).collect();
    cx.input = docs.join("\n----\n");
    let mut p = TOMLParser::new();
    for d in &docs {
        let keys = { let x = refp::parse(d); keys_of(&sem::flatten(&sem::eval(d, &x))) };
        let (p2, res) = libx::guard("parse again", || p.parse(d))?;
        let conv = libx::conv_res(&res);
        let mut live = Live { p: p2, res: conv };
        let n = r.range(2, 25);
        exercise(cx, r, &mut live, &keys, n)?;
        libx::guard("Debug of the result", || format!("{:?}", res).len())?;
        drop(res);
        p = live.p;
        cx.hit("documents parsed by a used parser");
    }
    cx.seen(&docs);
    // an unparsed parser answers, too
    let mut q = TOMLParser::new();
    libx::guard("calls before parse", || { let k = docs[0].as_str(); (q.get_value(k).is_some(), q.get_children("").is_some(), q.set_value(k, Value::int(1)), format!("{}", q).len()) })?;
    Ok(())
}

// ---- C23 -------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Op { Get(String), Kids(String), Set(String, V), Text, All, Make(usize, String) }
struct Script { src: String, keys: Vec<String>, ops: Vec<Op> }
fn script(r: &mut Rng, i: u64) -> Script {
    let mut src = if r.pct(60) { g_any(r, i) } else { g_tables(r, i) };
    if depth_of(&src) > 40 { src = "a = [1, 2]\n[t]\nb = 1".into(); }
    let side = edits::Side::of(src.clone());
    let keys = keys_of(&side.map);
    let n = r.range(0, 8);
    let mut last = "a".to_string();
    let ops = (0..n).map(|_| match r.below(7) {
        6 => { last = if r.pct(50) { near_text(r, &last) } else { let b = r.pct(20); refp::show_dt(&gen::dt(r, b)) }; Op::Make(r.below(12), last.clone()) }
        0 => Op::Get(some_key(r, &keys)), 1 => Op::Kids(some_key(r, &keys)), 2 => Op::Text,
        _ => match edits::choose(r, &side, edits::Mode::History) { Some((k, v)) => Op::Set(k, v), None => Op::All },
    }).chain([Op::All, Op::Text]).collect();
    Script { src, keys, ops }
}
struct Job<'a> { s: &'a Script, live: Option<Live<'a>>, pos: usize, out: Vec<String>, held: Vec<(Value<'a>, V)> }
impl<'a> Job<'a> {
    fn new(s: &'a Script) -> Job<'a> { Job { s, live: None, pos: 0, out: vec![], held: vec![] } }
    fn done(&self) -> bool { self.live.is_some() && self.pos >= self.s.ops.len() }
    fn step(&mut self) -> R {
        if self.live.is_none() {
            let l = Live::parse(&self.s.src)?;
            self.out.push(format!("{:?}", l.res));
            self.live = Some(l);
            return Ok(());
        }
        let live = self.live.as_mut().unwrap();
        let o = match &self.s.ops[self.pos] {
            Op::Get(k) => { let v = live.p.get_value(k.as_str()); if let Some(v) = v { let f = libx::from_lib(&v); self.held.push((v, f)); } format!("{:?}", live.get(k)?) }
            Op::Kids(k) => format!("{:?}", live.kids(k)?),
            Op::Set(k, v) => format!("{}", live.set(k, v)?),
            Op::Text => live.text()?,
            Op::Make(k, t) => make(*k, t)?,
            Op::All => { let mut s = String::new(); for k in &self.s.keys { s += &format!("{:?} {:?}\n", live.get(k)?, live.kids(k)?); } s }
        };
        self.out.push(o);
        self.pos += 1;
        Ok(())
    }
    fn run(mut self) -> Result<Vec<String>, String> { while !self.done() { self.step()?; } Ok(self.out) }
}
fn same(what: &str, s: &Script, a: &[String], b: &[String]) -> R {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            let op = if i == 0 { "parse".into() } else { format!("{:?}", s.ops.get(i - 1)) };
            return Err(format!("{}: {} of {:?} gives {:?}, alone it gives {:?}", what, op, s.src, b.get(i), a.get(i)));
        }
    }
    Ok(())
}
/// on a thread of its own, so that nothing done before on this thread can matter
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, f).unwrap().join().unwrap())
}
fn run_alone(s: &Script) -> Result<Vec<String>, String> { alone(|| Job::new(s).run()) }
/// what the constructors, validate and Display say about one text as one kind of value
fn make(kind: usize, t: &str) -> Result<String, String> {
    libx::guard("constructor", || {
        let show = |v: Result<Value, String>| match v { Ok(v) => format!("{:?} {} {} {:?}", v, v, v.validate(), libx::from_lib(&v)), Err(e) => format!("error {}", e) };
        let e = |x: tomllib::types::TOMLError| format!("{} {:?}", x, x);
        match kind {
            0 => show(Value::int_from_str(t.to_string()).map_err(e)),
            1 => show(Value::float_from_str(t.to_string()).map_err(e)),
            2 => show(Value::basic_string(t.to_string()).map_err(e)),
            3 => show(Value::ml_basic_string(t.to_string()).map_err(e)),
            4 => show(Value::literal_string(t.to_string()).map_err(e)),
            5 => show(Value::ml_literal_string(t.to_string()).map_err(e)),
            6 => show(Value::bool_from_str(t.to_string()).map_err(e)),
            7 => show(Value::datetime_parse(t).map_err(|x| format!("{:?}", x))),
            8 => show(Ok(libx::to_lib(&V::Str(t.to_string(), refp::St::Basic)))),
            9 => show(Ok(libx::to_lib(&V::Inl(vec![(t.to_string(), wrap(V::Bool(true)))])))),
            10 => show(Ok(libx::to_lib(&V::Arr(vec![wrap(V::Int(t.to_string())), wrap(V::Float(t.to_string()))])))),
            _ => { let (a, b) = t.split_at(gen::floor_char(t, t.len() / 2)); show(Value::date_from_str(a.to_string(), b.to_string(), "01".to_string()).map_err(e)) + &show(Value::date_from_str(t.to_string(), "02".to_string(), "28".to_string()).map_err(e)) }
        }
    })
}
#[derive(Clone, Debug)]
enum Item { Make(usize, String), Doc(String) }
fn item(it: &Item) -> Result<String, String> {
    match it {
        Item::Make(k, t) => make(*k, t),
        Item::Doc(t) => {
            let d = refp::parse(t);
            let l = Live::parse(t)?;
            let mut s = format!("{:?} {}", l.res, l.text()?);
            for k in keys_of(&sem::flatten(&sem::eval(t, &d))) { s += &format!("{:?} {:?}\n", l.get(&k)?, l.kids(&k)?); }
            Ok(s)
        }
    }
}
/// texts that share length, ends or beginning with another one
fn near_text(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() { return "x".into(); }
    let n = c.len();
    let sub = |r: &mut Rng| *r.one(&['0', '1', '9', 'a', 'x', '\\', '"', '\'', '\n', '_', '-', ' ', 'é', '\u{1}', '.', 'T', ']', '=', '#']);
    match r.below(6) {
        0 | 1 => { let i = r.below(n); c[i] = sub(r); }
        2 => { let i = r.below(n.min(4)); c[i] = sub(r); }
        3 => { c[n - 1] = sub(r); }
        4 => { let (i, j) = (r.below(n), r.below(n)); c.swap(i, j); }
        _ => { let i = r.below(n + 1); c.insert(i, sub(r)); }
    }
    c.into_iter().collect()
}
fn items(r: &mut Rng, n: usize) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let mut kinds = vec![];
    for _ in 0..r.range(1, 3) { kinds.push(r.below(12)); }
    while v.len() < n {
        if !v.is_empty() && r.pct(75) {
            let o = r.below(v.len());
            let it = match v[o].clone() {
                Item::Make(k, t) => Item::Make(if r.pct(15) { *r.one(&kinds) } else { k }, if r.pct(12) { t } else { near_text(r, &t) }),
                Item::Doc(t) => Item::Doc(near_text(r, &t)),
            };
            v.push(it);
            continue;
        }
        if r.pct(25) {
            let t = r.pick(SHAPES).to_string();
            v.push(Item::Doc(if r.pct(40) { format!("{}\n{}", t, r.pick(SHAPES)) } else { t }));
            continue;
        }
        let k = *r.one(&kinds);
        let o = Opts { big_strings: r.pct(40), ..Opts::default() };
        let mut t = match k {
            0 | 10 => gen::int_text(r), 1 => gen::float_text(r), 3 => gen::str_body(r, refp::St::MlBasic, &o), 4 => gen::str_body(r, refp::St::Lit, &o), 5 => gen::str_body(r, refp::St::MlLit, &o),
            6 => r.pick(&["true", "false", "TRUE", "False"]).to_string(), 7 => refp::show_dt(&gen::dt(r, false)), 9 => gen::any_key(r, true), 11 => format!("{:04}{:02}", r.below(3000), r.range(1, 12)), _ => gen::str_body(r, refp::St::Basic, &o),
        };
        if r.pct(35) { while t.len() < 70 { t += match k { 0 | 1 | 10 => "12345678", 7 => "00000000", _ => "abcdefgh" }; } }
        v.push(Item::Make(k, t));
    }
    v
}
/// near-identical texts one after another: each answer must be the one it gets on a thread of its own
fn history(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let n = r.range(3, 14);
    let v = items(r, n);
    cx.input = format!("{:?}", v);
    let own: Vec<String> = v.iter().map(|it| alone(|| item(it))).collect::<Result<_, _>>()?;
    for pass in 0..3 {
        let order: Vec<usize> = match pass { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..2 * n).map(|_| r.below(n)).collect() };
        for (at, &k) in order.iter().enumerate() {
            let got = item(&v[k])?;
            ensure!(got == own[k], "{:?} gives {:?} after {:?}, but {:?} on a thread of its own", v[k], got, if at > 0 { Some(&v[order[at - 1]]) } else { None }, own[k]);
        }
        cx.add("answers compared with those of a fresh thread", order.len() as u64);
    }
    cx.evals += n as u64;
    cx.hit("histories");
    cx.seen(&cx.input.clone());
    cx.sample(&cx.input.clone());
    Ok(())
}
/// twice in a row, and by a parser that has parsed something else before
fn repeat(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let s = script(r, i);
    cx.input = format!("{}\n{:?}", s.src, s.ops);
    let a = run_alone(&s)?;
    let b = Job::new(&s).run()?;
    same("a later parser", &s, &a, &b)?;
    let b = Job::new(&s).run()?;
    same("a second parser", &s, &a, &b)?;
    let first = g_any(r, i);
    if depth_of(&first) <= 40 {
        let (p, r1) = libx::guard("parse", || TOMLParser::new().parse(&first))?;
        let before = libx::conv_res(&r1);
        let shown = format!("{}", p);
        let (p, r2) = libx::guard("parse again", || p.parse(&s.src))?;
        let res = libx::conv_res(&r2);
        let mut j = Job::new(&s);
        j.out.push(format!("{:?}", res));
        j.live = Some(Live { p, res });
        let c = j.run()?;
        same(&format!("a parser used before for {:?}", first), &s, &a, &c)?;
        ensure!(libx::conv_res(&r1) == before, "the result of parsing {:?} changed from {:?} to {:?} when its parser parsed {:?}", first, before, libx::conv_res(&r1), s.src);
        let _ = shown;
        cx.hit("parsers used twice");
    }
    cx.evals += 3;
    cx.add("observations compared", a.len() as u64 * 2);
    cx.seen(&a);
    cx.sample(&s.src);
    Ok(())
}
/// several live parsers, their operations interleaved at random
fn interleave(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let n = r.range(2, 5);
    let mut v: Vec<Script> = (0..n).map(|_| script(r, i)).collect();
    if r.pct(40) { let s = Script { src: v[0].src.clone(), keys: v[0].keys.clone(), ops: v[1].ops.clone() }; v.push(s); }
    // a document that differs in one character
    if r.pct(40) { let src = near_text(r, &v[0].src); if depth_of(&src) <= 40 { let s = Script { keys: edits::Side::of(src.clone()).map.iter().map(|e| e.0.clone()).collect(), src, ops: v[0].ops.clone() }; v.push(s); } }
    cx.input = v.iter().map(|s| format!("{}\n{:?}", s.src, s.ops)).collect::<Vec<_>>().join("\n----\n");
    let alone: Vec<Vec<String>> = v.iter().map(run_alone).collect::<Result<_, _>>()?;
    let mut jobs: Vec<Job> = v.iter().map(|s| Job::new(s)).collect();
    let mut order = vec![];
    loop {
        let open: Vec<usize> = (0..jobs.len()).filter(|i| !jobs[*i].done()).collect();
        if open.is_empty() { break; }
        let k = *r.one(&open);
        order.push(k);
        jobs[k].step()?;
    }
    for (i, j) in jobs.iter().enumerate() {
        same("interleaved with other parsers", &v[i], &alone[i], &j.out)?;
        for (v, f) in &j.held { ensure!(libx::from_lib(v) == *f, "a value read from {:?} changed to {:?}", v, f); }
    }
    cx.evals += v.len() as u64;
    cx.hit("interleavings");
    cx.add("interleaved operations", order.len() as u64);
    cx.seen(&order);
    Ok(())
}
/// the same scripts at once on threads of their own
fn threads(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let n = r.range(2, 4);
    let v: Vec<Script> = (0..n).map(|_| script(r, i)).collect();
    cx.input = v.iter().map(|s| format!("{}\n{:?}", s.src, s.ops)).collect::<Vec<_>>().join("\n----\n");
    let alone: Vec<Vec<String>> = v.iter().map(run_alone).collect::<Result<_, _>>()?;
    let bar = std::sync::Barrier::new(2 * v.len());
    let mut rs: Vec<Rng> = (0..2 * v.len()).map(|k| Rng::new(r.u64(), "t", k as u64)).collect();
    let got: Vec<(usize, Result<Vec<String>, String>)> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (k, mut tr) in rs.drain(..).enumerate() {
            let (s, bar) = (&v[k / 2], &bar);
            hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                bar.wait();
                let mut j = Job::new(s);
                while !j.done() { if tr.pct(30) { std::thread::yield_now(); } if let Err(e) = j.step() { return (k / 2, Err(e)); } }
                (k / 2, Ok(j.out))
            }).unwrap());
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, o) in got { same("on concurrent threads", &v[k], &alone[k], &o?)?; cx.hit("threads compared"); cx.evals += 1; }
    cx.seen(&alone);
    Ok(())
}
/// everything a text gives right after parsing
fn look(t: &str) -> Result<String, String> { let l = Live::parse(t)?; view(&l, t) }
fn view(l: &Live, t: &str) -> Result<String, String> {
    Ok(format!("{:?}|{:?}|{:?}|{:?}", l.res, l.text()?, l.kids("")?, t.split(|c: char| !c.is_alphanumeric()).filter(|k| !k.is_empty()).take(3).map(|k| l.get(k)).collect::<Result<Vec<_>, _>>()?))
}
/// many threads inside the parser at the same moment, all deep in nested values or amid many errors
fn pressure(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let docs: Vec<String> = (0..5).map(|k| match (i as usize + k) % 5 {
        0 => { let n = r.range(30, 48); format!("a = {}1{}\n", "[".repeat(n), "]".repeat(n)) }
        1 => { let n = r.range(30, 48); format!("a = {}1{}\n", "{a = ".repeat(n), "}".repeat(n)) }
        2 => g_deep(r, i),
        3 => { let n = r.range(20, 60); let b = r.pick(&["[a]\nb = 1\nb = 2", "k = [1, 'x']", "d = 2000-02-30", "[[t]]\nx = 1"]); format!("{}\n", b).repeat(n) }
        _ => g_errors(r, i),
    }).collect();
    cx.input = docs.join("\n----\n");
    let first: Vec<String> = docs.iter().map(|t| alone(|| look(t))).collect::<Result<_, _>>()?;
    let m = 16;
    let bar = std::sync::Barrier::new(m);
    let got: Vec<Result<Option<usize>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..m).map(|k| {
            let (docs, first, bar) = (&docs, &first, &bar);
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                bar.wait();
                // most start on the same document
                for j in 0..3 * docs.len() { let d = (j + k / 6) % docs.len(); if look(&docs[d])? != first[d] { return Ok(Some(d)); } }
                Ok(None)
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for g in got { if let Some(d) = g? { return Err(format!("{:?} gives {} on one of {} threads but something else when parsed again there", docs[d], first[d], m)); } cx.hit("threads under pressure"); cx.evals += 1; }
    cx.seen(&docs);
    Ok(())
}
/// hundreds of parsers alive at once: none of them, and nothing parsed then, differs from what it is alone
fn held(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let n = *r.one(&[3usize, 20, 70, 140, 280, 530]);
    let docs: Vec<String> = (0..6).map(|_| match r.below(4) { 0 => r.pick(SHAPES).to_string(), 1 => "a = [[[1]]]\nb = {c = {d = 1}}\n[t]\nx = 2\n[[u]]\n[[u]]\nx = 1".into(), 2 => { let mut t = g_errors(r, i); t.truncate(gen::floor_char(&t, 120)); t } _ => { let mut t = g_valid(r, i); t.truncate(gen::floor_char(&t, 120)); t } }).collect();
    cx.input = docs.join("\n----\n");
    let own: Vec<String> = docs.iter().map(|t| alone(|| look(t))).collect::<Result<_, _>>()?;
    let mut lives: Vec<(usize, Live)> = vec![];
    for k in 0..n {
        let d = r.below(docs.len());
        let l = Live::parse(&docs[d])?;
        if k % 16 == 0 || k + 1 == n { let got = view(&l, &docs[d])?; ensure!(got == own[d], "with {} parsers alive, {:?} gives {} instead of {}", k, docs[d], got, own[d]); }
        lives.push((d, l));
    }
    let mut left = n;
    while !lives.is_empty() {
        let k = r.below(lives.len());
        let (d, l) = lives.swap_remove(k);
        if left % 7 == 0 { let got = view(&l, &docs[d])?; ensure!(got == own[d], "among {} parsers, that of {:?} gives {} instead of {}", left, docs[d], got, own[d]); }
        left -= 1;
    }
    cx.max("parsers alive at once", n as u64);
    cx.evals += n as u64;
    cx.seen(&(n, docs));
    Ok(())
}
/// the transcript of n scripts and n groups of near-identical texts, worked through in the given order
pub fn transcript(seed: u64, n: u64, backwards: bool) -> String {
    let mut out = vec![String::new(); n as usize];
    for i in 0..n {
        let i = if backwards { n - 1 - i } else { i };
        let mut r = Rng::new(seed, "digest", i);
        let s = script(&mut r, i);
        let o = &mut out[i as usize];
        match Job::new(&s).run() { Ok(v) => for x in v { *o += &format!("{:?}\n", x); }, Err(e) => *o += &format!("error {}\n", e) }
        let m = r.range(3, 10);
        let v = items(&mut r, m);
        let mut got = vec![String::new(); m];
        for k in 0..m { let k = if backwards { m - 1 - k } else { k }; got[k] = format!("{:?} {:?}\n", v[k], item(&v[k])); }
        *o += &got.concat();
    }
    out.concat()
}
fn processes(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (seed, n) = (r.u64() % 1_000_000, 40u64);
    cx.input = format!("digest {} {}", seed, n);
    let here = transcript(seed, n, false);
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    for k in 0..2 {
        let mut c = std::process::Command::new(&me);
        c.args(["digest", &seed.to_string(), &n.to_string(), if k == 1 { "backwards" } else { "forwards" }]);
        if k == 1 { c.env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").current_dir("/"); }
        let o = c.output().map_err(|e| e.to_string())?;
        ensure!(o.status.success(), "harness: digest process failed: {:?}", o);
        let there = String::from_utf8_lossy(&o.stdout).to_string();
        if there != here {
            let (a, b) = here.lines().zip(there.lines()).find(|(a, b)| a != b).unwrap_or(("<shorter>", "<shorter>"));
            return Err(format!("another process observes {} where this one observes {}", b, a));
        }
        cx.hit("processes compared");
        cx.add("observations compared between processes", here.lines().count() as u64);
        cx.evals += n;
    }
    cx.seen(&here);
    Ok(())
}

// ---- C24 -------------------------------------------------------------------------------------
/// what must bound memory: the text and the key paths it defines
fn measure(t: &str) -> u64 {
    let d = refp::parse(t);
    let m = sem::eval(t, &d);
    let mut n = t.len() as u64;
    for (k, _) in sem::flatten(&m) { n += k.len() as u64; }
    for e in &m.errors { n += match &e.e { sem::SErr::Dup { key, .. } | sem::SErr::Mixed { key } | sem::SErr::BadDt { key, .. } | sem::SErr::BadTable { key, .. } => key.len() as u64 } }
    n
}
pub const FAMILIES: &[&str] = &["keys", "scalars", "strings", "ml strings", "comments", "blank lines", "tables", "deep tables", "nested tables", "arrays of tables", "aot keys", "nested aots", "aot subtables", "long array", "multiline array", "nested arrays", "array of inline tables", "wide inline table", "long keys", "dates", "duplicates", "mixed arrays", "bad dates", "invalid tables", "invalid table keys", "leftover", "crlf", "long comment", "whitespace", "escapes"];
fn family(f: usize, n: usize) -> String {
    let rep = |g: &dyn Fn(usize) -> String| -> String { (0..n).map(|i| g(i)).collect() };
    match f {
        0 => rep(&|i| format!("k{} = {}\n", i, i)),
        1 => rep(&|i| match i % 4 { 0 => format!("a{} = true\n", i), 1 => format!("a{} = 1.5e3\n", i), 2 => format!("a{} = 'x'\n", i), _ => format!("a{} = \"y\"\n", i) }),
        2 => format!("s = \"{}\"\n", "x".repeat(40 * n)),
        3 => format!("s = \"\"\"{}\"\"\"\nt = '''{}'''\n", "line of text\n".repeat(n), "other\r\n".repeat(n)),
        4 => rep(&|_| "# comment\n".into()),
        5 => rep(&|_| " \n".into()),
        6 => rep(&|i| format!("[t{}]\na = 1\n", i)),
        7 => rep(&|i| format!("[a.b.c.d{}]\nx = 1\n", i)),
        8 => { let mut s = String::new(); let mut p = String::new(); for i in 0..(n / 8).max(2) { p += if i == 0 { "t" } else { ".t" }; s += &format!("[{}]\n", p); } s }
        9 => rep(&|i| format!("[[t]]\nk = {}\n", i)),
        10 => format!("[[t]]\n{}[[t]]\n{}", rep(&|i| format!("a{} = 1\n", i)), rep(&|i| format!("a{} = 2\n", i))),
        11 => rep(&|i| if i % 3 == 0 { "[[t]]\n".into() } else { format!("[[t.u]]\nk = {}\n", i) }),
        12 => rep(&|i| format!("[[t]]\n[t.s]\nk = {}\n[t.s.v]\n", i)),
        13 => format!("a = [{}]\n", rep(&|i| format!("{}, ", i))),
        14 => format!("a = [\n{}]\n", rep(&|i| format!("  {}, # c\n", i))),
        15 => format!("a = [{}]\n", rep(&|i| format!("[{}, [1]], ", i))),
        16 => format!("a = [{}]\n", rep(&|i| format!("{{x = {}, y = [1]}}, ", i))),
        17 => format!("a = {{{}z = 1}}\n", rep(&|i| format!("k{} = {}, ", i, i))),
        18 => rep(&|i| format!("{}{} = 1\n", "k".repeat(60), i)),
        19 => rep(&|i| format!("d{} = 2000-01-01T10:00:00.{}Z\n", i, i)),
        20 => format!("a = 1\n{}", rep(&|i| format!("a = {}\n", i))),
        21 => rep(&|i| format!("m{} = [1, 'x']\n", i)),
        22 => rep(&|i| format!("d{} = 2000-13-01\n", i)),
        23 => format!("[t]\n{}", rep(&|i| format!("[t]\nk = {}\n", i))),
        24 => format!("[t]\n[t]\n{}", rep(&|i| format!("k{} = {}\n", i, i))),
        25 => format!("a = 1\nb = \n{}", "rest of it\n".repeat(n)),
        26 => rep(&|i| format!("k{} = {}\r\n", i, i)),
        27 => format!("#{}\na = 1 #{}", "c".repeat(30 * n), "d".repeat(30 * n)),
        28 => format!("{}a{}={}1{}\n", " ".repeat(10 * n), " ".repeat(10 * n), "\t".repeat(10 * n), " ".repeat(10 * n)),
        _ => format!("a = \"{}\"", "\\n\\u00e9".repeat(5 * n)),
    }
}
#[derive(Clone, Copy, Debug)]
struct Cost { size: u64, live: i64, peak: i64, count: u64 }
fn cost(t: &str) -> Result<Cost, String> {
    let size = measure(t);
    let m = cx::heap_mark();
    let (p, r) = libx::guard("parse", || TOMLParser::new().parse(t))?;
    let n = cx::heap_now();
    drop(r);
    drop(p);
    let e = cx::heap_now();
    if e.live != m.live { return Err(format!("{} bytes stay allocated after the parser and its result are dropped", e.live - m.live)); }
    Ok(Cost { size, live: n.live - m.live, peak: n.peak - m.live, count: n.count - m.count })
}
/// bytes held and bytes at the peak per unit of size, generously above what is needed
const LIVE_PER: f64 = 400.0;
const PEAK_PER: f64 = 600.0;
const CONST: f64 = 2_000_000.0;
/// how much the marginal cost of one more unit of size may grow when the size doubles: tables double
/// their room in steps, so bytes wobble
const RATIO: [(&str, f64, f64); 2] = [("bytes held", 1.35, 20.0), ("peak bytes", 1.6, 20.0)];
/// costs at three sizes, and the ways in which they grow faster than the size
fn grow(cx: &mut Cx, f: usize, base: usize) -> Result<(Vec<Cost>, Vec<String>), String> {
    let mut c = vec![];
    for k in [1usize, 2, 4] {
        let t = family(f, base * k);
        let x = cost(&t).map_err(|e| format!("family {:?} with n={}: {}", FAMILIES[f], base * k, e))?;
        ensure!((x.live as f64) < CONST + LIVE_PER * x.size as f64, "family {:?}: {} bytes held for a document of size {}", FAMILIES[f], x.live, x.size);
        ensure!((x.peak as f64) < CONST + PEAK_PER * x.size as f64, "family {:?}: peak of {} bytes for a document of size {}", FAMILIES[f], x.peak, x.size);
        cx.evals += 1;
        c.push(x);
    }
    // the working memory of one token is a constant that hides the growth of the peak in small documents
    let fixed = cost(&family(f, 2))?.peak;
    let per = |g: &dyn Fn(&Cost) -> f64, a: &Cost, b: &Cost| (g(b) - g(a)) / (b.size - a.size).max(1) as f64;
    let pick: [&dyn Fn(&Cost) -> f64; 2] = [&|x| x.live as f64, &|x| x.peak as f64];
    let mut bad = vec![];
    for ((what, ratio, floor), g) in RATIO.iter().zip(pick) {
        let (a, b) = (per(g, &c[0], &c[1]), per(g, &c[1], &c[2]));
        if std::env::var("VMON_SHOW").is_ok() { eprintln!("{:24} {:12} {:9.2} {:9.2} {:5.2}  {:?}", FAMILIES[f], what, a, b, b / a.max(*floor), c[2]); }
        if *what == "peak bytes" && (c[0].peak as f64) < 1.5 * fixed as f64 { cx.hit("peaks within the bound, too small for a trend"); continue; }
        if b > ratio * a.max(*floor) { bad.push(what.to_string()); cx.sample(&format!("{} of family {:?}: {:.1} then {:.1} per unit", what, FAMILIES[f], a, b)); }
    }
    Ok((c, bad))
}
fn growth(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let f = i as usize % FAMILIES.len();
    let base = if (i as usize) < FAMILIES.len() { if cx.tier_thorough { 300 } else { 120 } } else { r.range(20, 150) };
    cx.input = format!("family {:?} n {}", FAMILIES[f], base);
    let (c, mut bad) = grow(cx, f, base)?;
    // a step of a doubling table can fall between two sizes, but not at three unrelated scales
    for b2 in [base * 5 / 4 + 3, base * 17 / 12 + 7] {
        if bad.is_empty() { break; }
        cx.hit("growth measured again at another scale");
        let (_, again) = grow(cx, f, b2)?;
        bad.retain(|w| again.contains(w));
    }
    ensure!(bad.is_empty(), "family {:?}: {:?} per unit of size keep growing with the size: {:?} at n = {}, {}, {}", FAMILIES[f], bad, c, base, 2 * base, 4 * base);
    cx.max("bytes held per unit of size x100", (c[2].live as f64 / c[2].size as f64 * 100.0) as u64);
    cx.max("size measured", c[2].size);
    cx.hit("families measured");
    cx.seen(&(f, base));
    Ok(())
}
/// a whole life: parse, read, update, drop; the heap must be as before
fn release(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let s = script(r, i);
    cx.input = format!("{}\n{:?}", s.src, s.ops);
    let lib: Vec<(String, Value)> = s.ops.iter().filter_map(|o| if let Op::Set(k, v) = o { Some((k.clone(), libx::to_lib(v))) } else { None }).collect();
    let keep_order = r.pct(50);
    let m = cx::heap_mark();
    let end = libx::guard("life of a parser", || {
        let (mut p, res) = TOMLParser::new().parse(&s.src);
        let mut held = vec![];
        for k in &s.keys { if let Some(v) = p.get_value(k.as_str()) { held.push(v); } }
        for (k, v) in &lib { p.set_value(k.as_str(), v.clone()); }
        for k in &s.keys { if let Some(v) = p.get_value(k.as_str()) { held.push(v); } }
        let n = held.len();
        let t = format!("{}", p).len();
        if keep_order { drop(p); drop(res); drop(held); } else { drop(held); drop(res); drop(p); }
        (cx::heap_now(), n, t)
    })?;
    let (h, n, t) = end;
    ensure!(h.live == m.live, "{} bytes stay allocated after the parser, its result and {} values are dropped (text {} bytes, {} updates)", h.live - m.live, n, t, lib.len());
    cx.evals += 1;
    cx.hit("lifetimes");
    cx.add("allocations released", h.count - m.count);
    cx.add("updates in lifetimes", lib.len() as u64);
    cx.seen(&s.src);
    Ok(())
}
/// a parser that is updated over and over holds no more than it did
fn churn(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let src = "a = 1\nb = [1, 2]\nc = { x = 1, y = [1] }\n[t]\nd = [[1], [2]]\n[[u]]\ne = { }\n";
    let o = Opts { multiline: 0, depth: 2, ..Opts::default() };
    let n = r.range(2, 6);
    let ups: Vec<(String, Value)> = (0..n).map(|_| { let k = r.pick(&["a", "b", "c", "t.d", "u[0].e", "b[0]", "c.x", "c.y", "t.d[0]"]).to_string(); (k, libx::to_lib(&gen::value(r, &o, 2, 7).0)) }).collect();
    cx.input = format!("{:?}", ups);
    let (mut p, _r) = TOMLParser::new().parse(src);
    let mut levels = vec![];
    let start = cx::heap_mark().live;
    for cyc in 0..40 {
        libx::guard("set_value", || for (k, v) in &ups { p.set_value(k.as_str(), v.clone()); })?;
        if cyc >= 2 { levels.push(cx::heap_now().live - start); }
        cx.add("updates in cycles", ups.len() as u64);
    }
    let (first, last) = (levels[0], *levels.last().unwrap());
    ensure!(last <= first + first.abs() + 8192, "after 2 rounds of the same updates the parser holds {} more bytes than at the start, after 40 rounds {}", first, last);
    cx.evals += 1;
    cx.max("bytes held after 40 rounds of updates", last.max(0) as u64);
    cx.seen(&cx.input.clone());
    Ok(())
}

fn f(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Cx, &mut Rng, u64) -> R) -> Stage { Stage { name, quick, thorough, run: Run::Free(run) } }
pub fn all() -> Vec<Prop> {
    let st = |name, quick, thorough, g, c| Stage { name, quick, thorough, run: Run::Doc(g, c) };
    let nf = FAMILIES.len() as u64;
    vec![
        Prop { id: "C02", stages: vec![
            st("corpus", n_corpus(), n_corpus(), g_corpus, c02), st("any", 9_000, 500_000, g_any, c02), st("deep", 600, 20_000, g_deep, c02), st("wide", 300, 8_000, g_wide, c02), st("large", 104, 2000, g_large, c02), st("small", small_total(3), small_total(4), g_small, c02), st("pieces", pieces_total(3), pieces_total(4), g_pieces, c02),
            f("constructors", 8_000, 300_000, c02_ctors), f("calls", 2_500, 120_000, c02_calls),
        ], rule: "hostile texts and call sequences under panic capture, a CPU watchdog and (second pass) AddressSanitizer; non-trivial: a distinct text, argument batch or group of documents on which every API was called",
           assumptions: &["values nest at most 48 deep", "stack of 8 MB, the default of a main thread"], probes: vec![] },
        Prop { id: "C23", stages: vec![
            f("repeat", 4_500, 200_000, repeat), f("history", 5_000, 250_000, history), f("interleave", 1_800, 80_000, interleave), f("threads", 500, 30_000, threads), f("pressure", 24, 4000, pressure), f("held", 60, 10_000, held), f("processes", 12, 400, processes),
        ], rule: "scripts of calls on generated documents, run alone, twice, after near-identical ones, on a used parser, interleaved, on concurrent threads and in other processes; non-trivial: a distinct transcript or interleaving that was compared",
           assumptions: &[], probes: vec![] },
        Prop { id: "C24", stages: vec![
            f("growth", nf * 2, nf * 60, growth), f("release", 6_000, 300_000, release), f("churn", 400, 20_000, churn),
        ], rule: "thirty families of documents at three sizes under a counting allocator, whole parser lifetimes, and repeated updates; non-trivial: a distinct (family, size), document or update cycle",
           assumptions: &["sizes are counted in bytes of input plus bytes of the full key paths it defines"], probes: vec![] },
    ]
}
