//! Document, value and mutation generators.
use crate::refp::{self, Dt, Off, St, Tm, Val, V};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Opts {
    pub stmts: (usize, usize),
    pub depth: usize,
    /// percent of statements that are table headers
    pub headers: usize,
    /// headers drawn freely (possibly invalid) instead of valid by construction
    pub free_headers: usize,
    /// percent of key/values that repeat an earlier key of the table
    pub dup: usize,
    pub dup_inline: usize,
    /// duplicates only scalar-over-scalar
    pub mixed: usize,
    pub bad_dt: usize,
    /// percent weirdness of layout
    pub wild: usize,
    pub crlf: usize,
    pub big_strings: bool,
    pub scalars_only: bool,
    pub multiline: usize,
    /// small key pool so that near-collisions are frequent
    pub small_pool: bool,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { stmts: (1, 14), depth: 3, headers: 30, free_headers: 0, dup: 0, dup_inline: 0, mixed: 0, bad_dt: 0, wild: 40, crlf: 25, big_strings: false, scalars_only: false, multiline: 35, small_pool: false }
    }
}

fn v(x: V) -> Val { Val { v: x, span: (0, 0) } }

pub const CHARS: &[char] = &['a', 'b', 'Z', '0', '9', ' ', '#', '=', '.', ',', '[', ']', '{', '}', ':', '-', '_', '+', '!', '$', '%', '~', '/', '*', '@', '`',
    'é', 'ß', 'λ', 'Ж', '中', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '٣'];
fn plain(r: &mut Rng) -> char { if r.pct(60) { *r.one(&['a', 'b', 'c', 'x', 'y', ' ', '1', '-']) } else { *r.one(CHARS) } }
fn hexd(r: &mut Rng, n: usize) -> String {
    // a scalar value, in mixed case
    loop {
        let c = match r.below(5) { 0 => r.below(0x80), 1 => r.below(0x800), 2 => r.below(0x10000), 3 => 0xAB, _ => if n == 8 { r.below(0x110000) } else { r.below(0x10000) } };
        if (0xD800..0xE000).contains(&c) { continue; }
        let s = format!("{:0w$X}", c, w = n);
        return match r.below(3) { 0 => s.to_lowercase(), 1 => s, _ => s.chars().map(|c| if r.pct(50) { c.to_ascii_lowercase() } else { c }).collect() };
    }
}
pub fn escape(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "\\\"".into(), 1 => "\\\\".into(), 2 => "\\/".into(), 3 => "\\b".into(), 4 => "\\f".into(),
        5 => "\\n".into(), 6 => "\\r".into(), 7 => "\\t".into(),
        8 => format!("\\u{}", hexd(r, 4)), _ => format!("\\U{}", hexd(r, 8)),
    }
}
pub fn str_body(r: &mut Rng, t: St, o: &Opts) -> String {
    let n = if o.big_strings && r.pct(10) { r.range(20, 120) } else { match r.below(4) { 0 => 0, 1 => 1, _ => r.range(1, 8) } };
    let mut s = String::new();
    for _ in 0..n {
        match t {
            St::Basic => if r.pct(20) { s += &escape(r) } else { s.push(plain(r)); if r.pct(8) { s.push('\'') } },
            St::Lit => match r.below(10) { 0 => s.push('\\'), 1 => s.push('"'), 2 => s.push('\t'), _ => s.push(plain(r)) },
            St::MlBasic => match r.below(14) {
                0 | 1 => s += &escape(r),
                2 => s.push('\n'), 3 => s += "\r\n", 4 => s.push('\t'), 5 => s += "\\\n", 6 => s += "\\\r\n",
                7 => s.push('\''), 8 => s += "\"",
                _ => s.push(plain(r)),
            },
            St::MlLit => match r.below(14) {
                0 => s.push('\n'), 1 => s += "\r\n", 2 => s.push('\t'), 3 => s.push('\\'), 4 => s.push('"'), 5 => s.push('\''),
                _ => s.push(plain(r)),
            },
        }
    }
    // the closing delimiter may not appear inside, nor be completed by the last character
    match t {
        St::MlBasic => {
            s = fix_ml(&s, '"');
        }
        St::MlLit => { s = fix_ml(&s, '\''); }
        _ => {}
    }
    s
}
/// breaks up runs that would end the string early (escaped quotes do not count for basic strings)
fn fix_ml(s: &str, q: char) -> String {
    let mut out = String::new();
    let mut run = 0;
    let mut esc = false;
    for c in s.chars() {
        if esc { esc = false; run = 0; out.push(c); continue; }
        if q == '"' && c == '\\' { esc = true; run = 0; out.push(c); continue; }
        if c == q { run += 1; if run == 3 { out.push('.'); run = 1; } } else { run = 0; }
        out.push(c);
    }
    if out.ends_with(q) && run > 0 { out.push('.'); }
    out
}
fn digits(r: &mut Rng, first_nonzero: bool) -> String {
    let n = match r.below(4) { 0 => 1, 1 => 2, 2 => r.range(1, 6), _ => r.range(1, 20) };
    let mut s = String::new();
    for i in 0..n {
        let d = if i == 0 && first_nonzero { r.range(1, 9) } else { r.below(10) };
        s.push((b'0' + d as u8) as char);
        if i + 1 < n && r.pct(15) { s.push('_'); }
    }
    s
}
pub fn int_text(r: &mut Rng) -> String {
    let sign = *r.one(&["", "", "", "+", "-"]);
    let body = if r.pct(15) { "0".to_string() } else { digits(r, true) };
    format!("{}{}", sign, body)
}
pub fn float_text(r: &mut Rng) -> String {
    let mut s = int_text(r);
    let k = r.below(3);
    if k != 1 { s.push('.'); s += &digits(r, false); }
    if k != 0 { s.push(*r.one(&['e', 'E'])); s += &int_text(r); }
    s
}
pub fn good_date(r: &mut Rng) -> (u32, u32, u32) {
    loop {
        let y = match r.below(4) { 0 => *r.one(&[1u32, 4, 100, 400, 1900, 2000, 2016, 2100, 9999, 9996]), _ => r.range(1, 9999) as u32 };
        let m = r.range(1, 12) as u32;
        let d = match r.below(3) { 0 => r.range(28, 31) as u32, 1 => 1, _ => r.range(1, 28) as u32 };
        if refp::date_exists(y, m, d) { return (y, m, d); }
    }
}
/// digits, with runs of zeros in front, behind and in between
pub fn fraction(r: &mut Rng, n: usize) -> String {
    let (lead, trail, zeros) = match r.below(8) { 0 => (r.range(0, n), 0, 0), 1 => (0, r.range(0, n), 0), 2 => (r.range(0, n / 2), r.range(0, n / 2), 0), 3 => (0, 0, 70), 4 => (n, 0, 0), _ => (0, 0, 0) };
    (0..n).map(|i| if i < lead || i + trail >= n || r.pct(zeros) { '0' } else { (b'0' + r.below(10) as u8) as char }).collect()
}
pub fn dt(r: &mut Rng, bad: bool) -> Dt {
    let (mut y, mut m, mut d) = good_date(r);
    let t2 = |x: usize| format!("{:02}", x);
    let mut time = if r.pct(70) {
        Some(Tm {
            h: t2(*r.one(&[0, 23, 12, 7, 9])), m: t2(*r.one(&[0, 59, 30, 1])), s: t2(*r.one(&[0, 59, 30, 1])),
            frac: if r.pct(40) { let n = *r.one(&[1, 2, 3, 6, 9, 19, 20, 21, 40]); Some(fraction(r, n)) } else { None },
            off: match r.below(3) { 0 => None, 1 => Some(Off::Z), _ => Some(Off::Amt { neg: r.pct(50), h: t2(*r.one(&[0, 23, 8, 14])), m: t2(*r.one(&[0, 59, 30])) }) },
        })
    } else { None };
    if bad {
        loop {
            let k = r.below(if time.is_some() { 11 } else { 5 });
            match k {
                0 => y = 0,
                1 => m = *r.one(&[0, 13, 99, 20]),
                2 => d = *r.one(&[0, 32, 99, 40]),
                3 => { m = 2; d = *r.one(&[30, 31, 29]); if d == 29 { y = *r.one(&[1900, 2100, 2015, 1, 200, 9999]); } }
                4 => { m = *r.one(&[4, 6, 9, 11]); d = 31; }
                5 => time.as_mut().unwrap().h = t2(*r.one(&[24, 25, 99, 60])),
                6 => time.as_mut().unwrap().m = t2(*r.one(&[60, 61, 99])),
                7 => time.as_mut().unwrap().s = t2(*r.one(&[60, 61, 99])),
                8 => time.as_mut().unwrap().off = Some(Off::Amt { neg: r.pct(50), h: t2(*r.one(&[24, 25, 99])), m: t2(0) }),
                9 => time.as_mut().unwrap().off = Some(Off::Amt { neg: r.pct(50), h: t2(0), m: t2(*r.one(&[60, 75, 99])) }),
                _ => { time.as_mut().unwrap().h = t2(24); time.as_mut().unwrap().off = Some(Off::Z); }
            }
            break;
        }
    }
    Dt { year: format!("{:04}", y), month: format!("{:02}", m), day: format!("{:02}", d), time }
}

pub const BARE: &[&str] = &["a", "b", "c", "key", "Key", "x-y", "x_y", "0", "1", "42", "-", "_", "true", "false", "1979-05-27", "inf", "a1", "foo", "foobar", "bar"];
pub const QUOTED: &[&str] = &["\"a\"", "\"b c\"", "\"a.b\"", "\"x[0]\"", "\"[k]\"", "\"=\"", "\"#h\"", "\" \"", "\"é\"", "\"q\\\"q\"", "\"\\u00e9\"", "\"\\U0001F600\"", "\"😀\"", "\"'\"", "\"{\"", "\"\\t\"", "\".\"", "\"a.\"", "\"$Root$\""];
pub fn any_key(r: &mut Rng, small: bool) -> String {
    if small { return r.pick(&["a", "b", "c", "\"a\"", "ab", "a1"]).to_string(); }
    match r.below(10) {
        0..=5 => r.pick(BARE).to_string(),
        6..=7 => r.pick(QUOTED).to_string(),
        8 => { let n = r.range(1, 10); (0..n).map(|_| *r.one(&['k', 'w', 'Q', '7', '-', '_'])).collect() }
        _ => {
            loop {
                let o = Opts::default();
                let b = str_body(r, St::Basic, &o);
                if !b.is_empty() { return format!("\"{}\"", b); }
            }
        }
    }
}
fn fresh(r: &mut Rng, used: &[String], small: bool) -> String {
    for _ in 0..12 { let k = any_key(r, small); if !used.contains(&k) { return k; } }
    let mut i = used.len();
    loop { let k = format!("k{}", i); if !used.contains(&k) { return k; } i += 1; }
}

pub fn ws(r: &mut Rng, o: &Opts) -> String {
    if !r.pct(o.wild) { return if r.pct(50) { " ".into() } else { String::new() }; }
    let n = r.below(5);
    (0..n).map(|_| *r.one(&[' ', '\t', ' '])).collect()
}
pub fn nl(r: &mut Rng, o: &Opts) -> &'static str { if r.pct(o.crlf) { "\r\n" } else { "\n" } }
pub fn comment(r: &mut Rng) -> String {
    let n = r.below(12);
    let mut s = String::from("#");
    for _ in 0..n { s.push(if r.pct(6) { '\t' } else if r.pct(5) { '"' } else if r.pct(5) { '\'' } else if r.pct(3) { '\\' } else { plain(r) }); }
    s
}
/// whitespace, newlines and comments between array elements
fn gap(r: &mut Rng, o: &Opts) -> String {
    if !r.pct(o.multiline) { return ws(r, o); }
    let mut s = String::new();
    let often = if r.pct(30) { 85 } else { 35 };
    for _ in 0..if r.below(250) == 0 { r.range(9, 80) } else { r.range(1, 4) } {
        s += &ws(r, o);
        if r.pct(often) { s += &comment(r); }
        s += nl(r, o);
    }
    s += &ws(r, o);
    s
}
/// kind: 0..=6 fixed type, 7 any
pub fn value(r: &mut Rng, o: &Opts, depth: usize, kind: usize) -> (V, String) {
    let kind = if kind == 7 {
        if depth == 0 || o.scalars_only { r.below(5) } else { *r.one(&[0usize, 1, 2, 3, 4, 4, 5, 5, 6, 6]) }
    } else { kind };
    match kind {
        0 => { let t = int_text(r); (V::Int(t.clone()), t) }
        1 => { let t = float_text(r); (V::Float(t.clone()), t) }
        2 => { let b = r.pct(50); (V::Bool(b), b.to_string()) }
        3 => { let bad = r.pct(o.bad_dt); let d = dt(r, bad); let t = refp::show_dt(&d); (V::Dt(d), t) }
        4 => {
            let t = *r.one(&[St::Basic, St::Basic, St::Lit, St::MlBasic, St::MlLit]);
            let b = str_body(r, t, o);
            let x = V::Str(b, t);
            let s = refp::show(&x);
            (x, s)
        }
        5 => {
            let n = match r.below(6) { 0 => 0, 1 => 1, _ => r.range(1, 4) };
            let ek = if depth <= 1 { r.below(5) } else { r.below(7) };
            let mut els = vec![];
            let mut s = String::from("[");
            s += &gap(r, o);
            for i in 0..n {
                let k = if r.pct(o.mixed) { if depth <= 1 { r.below(5) } else { r.below(7) } } else { ek };
                let (x, t) = value(r, o, depth.saturating_sub(1), k);
                els.push(v(x));
                s += &t;
                if i + 1 < n || r.pct(20) { s += &ws(r, o); s.push(','); }
                s += &gap(r, o);
            }
            s.push(']');
            (V::Arr(els), s)
        }
        _ => {
            let n = match r.below(6) { 0 => 0, 1 => 1, _ => r.range(1, 4) };
            let mut used: Vec<String> = vec![];
            let mut kvs = vec![];
            let mut s = String::from("{");
            s += &ws(r, o);
            for i in 0..n {
                let k = if !used.is_empty() && r.pct(o.dup_inline) { used[r.below(used.len())].clone() } else { fresh(r, &used, o.small_pool) };
                used.push(k.clone());
                let (x, t) = value(r, o, depth.saturating_sub(1), 7);
                s += &k; s += &ws(r, o); s.push('='); s += &ws(r, o); s += &t;
                kvs.push((k, v(x)));
                if i + 1 < n || r.pct(4) { s += &ws(r, o); s.push(','); }
                s += &(if r.pct(12) { gap(r, o) } else { ws(r, o) });
            }
            s.push('}');
            (V::Inl(kvs), s)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt { Kv(String, V), Std(Vec<String>), Aot(Vec<String>) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum NK { Root, Std, Implicit, Aot }
#[derive(Clone, Debug)]
struct GNode { path: Vec<String>, kind: NK, kids: Vec<String>, vals: Vec<(String, bool)> }

/// Generated document: its text and the statements it was built from.
pub struct GDoc { pub text: String, pub stmts: Vec<Stmt> }

struct Builder { nodes: Vec<GNode>, cur: usize }
impl Builder {
    fn new() -> Builder { Builder { nodes: vec![GNode { path: vec![], kind: NK::Root, kids: vec![], vals: vec![] }], cur: 0 } }
    fn find(&self, p: &[String]) -> Option<usize> { self.nodes.iter().position(|n| n.path == p) }
    fn ensure(&mut self, p: &[String], kind: NK) -> usize {
        for l in 1..=p.len() {
            if self.find(&p[..l]).is_none() {
                let par = self.find(&p[..l - 1]).unwrap();
                self.nodes[par].kids.push(p[l - 1].clone());
                let k = if l == p.len() { kind } else { NK::Implicit };
                self.nodes.push(GNode { path: p[..l].to_vec(), kind: k, kids: vec![], vals: vec![] });
            }
        }
        self.find(p).unwrap()
    }
    /// a valid header, by construction
    fn header(&mut self, r: &mut Rng, o: &Opts) -> Option<Stmt> {
        for _ in 0..10 {
            match r.below(10) {
                0..=3 => {
                    // a new standard table below some node
                    let pi = r.below(self.nodes.len());
                    let extra = if r.pct(35) { r.range(1, 2) } else { 0 };
                    let n = &self.nodes[pi];
                    if extra == 0 && matches!(n.kind, NK::Std) && !n.vals.is_empty() { continue; }
                    if n.path.len() > 4 { continue; }
                    let mut p = n.path.clone();
                    p.push(fresh(r, &n.kids, o.small_pool));
                    for _ in 0..extra { p.push(any_key(r, o.small_pool)); }
                    self.cur = self.ensure(&p, NK::Std);
                    return Some(Stmt::Std(p));
                }
                4 => {
                    // name an implicit table explicitly
                    let c: Vec<usize> = (0..self.nodes.len()).filter(|i| {
                        let n = &self.nodes[*i];
                        n.kind == NK::Implicit && {
                            let par = self.find(&n.path[..n.path.len() - 1]).unwrap();
                            !(self.nodes[par].kind == NK::Std && !self.nodes[par].vals.is_empty())
                        }
                    }).collect();
                    if c.is_empty() { continue; }
                    let i = *r.one(&c);
                    self.nodes[i].kind = NK::Std;
                    self.cur = i;
                    return Some(Stmt::Std(self.nodes[i].path.clone()));
                }
                5..=7 => {
                    // one more element of an array of tables: what was below it starts over
                    let c: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].kind == NK::Aot).collect();
                    if c.is_empty() { continue; }
                    let i = *r.one(&c);
                    let p = self.nodes[i].path.clone();
                    self.nodes.retain(|n| !(n.path.len() > p.len() && n.path[..p.len()] == p[..]));
                    let i = self.find(&p).unwrap();
                    self.nodes[i].kids.clear();
                    self.nodes[i].vals.clear();
                    self.cur = i;
                    return Some(Stmt::Aot(p));
                }
                _ => {
                    let pi = r.below(self.nodes.len());
                    let n = &self.nodes[pi];
                    if n.path.len() > 4 { continue; }
                    let mut p = n.path.clone();
                    p.push(fresh(r, &n.kids, o.small_pool));
                    if r.pct(25) { p.push(any_key(r, o.small_pool)); }
                    self.cur = self.ensure(&p, NK::Aot);
                    return Some(Stmt::Aot(p));
                }
            }
        }
        None
    }
    fn free_header(&mut self, r: &mut Rng, o: &Opts) -> Stmt {
        let mut p: Vec<String> = if r.pct(50) {
            let pi = r.below(self.nodes.len());
            let n = &self.nodes[pi];
            let mut p = n.path.clone();
            if r.pct(50) && !n.kids.is_empty() { p.push(r.one(&n.kids).clone()); }
            p
        } else { vec![] };
        if p.is_empty() || r.pct(40) { for _ in 0..r.range(1, 3) { let sm = o.small_pool || r.pct(50); p.push(any_key(r, sm)); } }
        if r.pct(45) { Stmt::Aot(p) } else { Stmt::Std(p) }
    }
}

fn header_text(r: &mut Rng, o: &Opts, keys: &[String], aot: bool) -> String {
    let mut s = String::from(if aot { "[[" } else { "[" });
    s += &ws(r, o);
    for (i, k) in keys.iter().enumerate() {
        if i > 0 { s += &ws(r, o); s.push('.'); s += &ws(r, o); }
        s += k;
    }
    s += &ws(r, o);
    s += if aot { "]]" } else { "]" };
    s
}

pub fn doc(r: &mut Rng, o: &Opts) -> GDoc {
    let n = r.range(o.stmts.0, o.stmts.1);
    let mut b = Builder::new();
    let mut stmts = vec![];
    let mut text = String::new();
    let mut first = true;
    for _ in 0..n {
        if !first { text += nl(r, o); }
        first = false;
        // blank and comment lines
        while r.pct(o.wild / 4) { text += &ws(r, o); if r.pct(50) { text += &comment(r); } text += nl(r, o); }
        text += &ws(r, o);
        let mut done = false;
        if r.pct(o.headers) {
            let st = if r.pct(o.free_headers) { Some(b.free_header(r, o)) } else { b.header(r, o) };
            if let Some(st) = st {
                match &st { Stmt::Std(p) => text += &header_text(r, o, p, false), Stmt::Aot(p) => text += &header_text(r, o, p, true), _ => {} }
                stmts.push(st);
                done = true;
            }
        }
        if !done {
            let cur = &b.nodes[b.cur];
            let dup = r.pct(o.dup) && !cur.kids.is_empty();
            let (k, kind) = if dup {
                let scal: Vec<&(String, bool)> = cur.vals.iter().filter(|x| x.1).collect();
                if !scal.is_empty() { (r.one(&scal).0.clone(), r.below(5)) } else { (fresh(r, &cur.kids, o.small_pool), 7) }
            } else { (fresh(r, &cur.kids, o.small_pool), 7) };
            let (x, t) = value(r, o, o.depth, kind);
            let c = b.cur;
            if !b.nodes[c].kids.contains(&k) {
                b.nodes[c].kids.push(k.clone());
                b.nodes[c].vals.push((k.clone(), refp::ty(&x) < 5));
            }
            text += &k; text += &ws(r, o); text.push('='); text += &ws(r, o); text += &t;
            stmts.push(Stmt::Kv(k, x));
        }
        text += &ws(r, o);
        if r.pct(o.wild / 3) { text += &comment(r); }
    }
    if r.pct(70) { text += nl(r, o); }
    GDoc { text, stmts }
}

const SPECIAL: &[&str] = &["\"", "'", "\"\"\"", "'''", "[", "]", "{", "}", "[[", "]]", "=", ",", ".", "#", "\\", "\n", "\r\n", "\r", "\t", " ", "\0", "\u{1}", "\u{1f}", "\u{7f}", "\u{8}",
    "0", "1", "_", "-", "+", "e", "T", "Z", ":", "true", "false", "1979-05-27", "a = 1", "\\u", "\\U", "\\x", "é", "😀", "٣", "\u{ffff}", "\u{10ffff}", "\u{2028}", "inf", "nan", "0x1F", "[a]", "[[a]]", "{}", "[]", "\\\n", "$Root$", "= 1\n", "a.b"];

pub fn floor_char(s: &str, mut i: usize) -> usize { if i > s.len() { i = s.len(); } while !s.is_char_boundary(i) { i -= 1; } i }

pub fn mutate(r: &mut Rng, src: &str, other: &str, times: usize) -> String {
    let mut s = src.to_string();
    for _ in 0..times {
        let p = { let n = s.len(); floor_char(&s, r.below(n + 1)) };
        match r.below(10) {
            0 | 1 => { // delete one char
                if p < s.len() { s.remove(p); }
            }
            2 | 3 | 4 => s.insert_str(p, r.pick(SPECIAL)),
            5 => { // replace one char
                if p < s.len() { s.remove(p); s.insert_str(p, r.pick(SPECIAL)); }
            }
            6 => { // delete a short range
                let n = r.below(8);
                let q = floor_char(&s, (p + n).min(s.len()));
                if q > p { s.replace_range(p..q, ""); }
            }
            7 => { // duplicate a line somewhere
                let lines: Vec<&str> = s.split_inclusive('\n').collect();
                if !lines.is_empty() {
                    let l = lines[r.below(lines.len())].to_string();
                    let at = r.below(lines.len() + 1);
                    let mut out = String::new();
                    for (i, x) in lines.iter().enumerate() { if i == at { out += &l; } out += x; }
                    if at == lines.len() { out += &l; }
                    s = out;
                }
            }
            8 => { // splice a piece of another document
                if !other.is_empty() {
                    let a = floor_char(other, r.below(other.len()));
                    let b = floor_char(other, (a + r.range(1, 30)).min(other.len()));
                    if a < b { s.insert_str(p, &other[a..b]); }
                }
            }
            _ => { if r.pct(20) { s.truncate(p); } else { s.insert(p, *r.one(CHARS)); } }
        }
    }
    s
}
/// arbitrary text over a TOML-flavoured alphabet
pub fn noise(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n { if r.pct(60) { s += r.pick(SPECIAL); } else { s.push(*r.one(CHARS)); } }
    s
}

pub fn corpus() -> Vec<(String, String)> {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/corpus");
    let mut out = vec![];
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        if let Ok(t) = std::fs::read_to_string(&p) { out.push((p.file_name().unwrap().to_string_lossy().into_owned(), t)); }
    }
    out
}
