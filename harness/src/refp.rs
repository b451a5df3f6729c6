//! Reference parser for the dialect tomllib documents and its tests pin: written by hand from the
//! grammar (TOML v0.4 plus the author's ABNF), sharing no code with the library.  It turns a text
//! into located expressions and tells how much of the text is covered by the grammar.
//!
//! Dialect notes (see DESIGN.md): keys keep their source spelling; quoted keys are basic-quoted;
//! the value keeps its source text; newlines and comments may follow elements of inline tables,
//! and a trailing separator is allowed in both arrays and inline tables.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St { Basic, MlBasic, Lit, MlLit }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dt {
    pub year: String, pub month: String, pub day: String,
    pub time: Option<Tm>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tm { pub h: String, pub m: String, pub s: String, pub frac: Option<String>, pub off: Option<Off> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Off { Z, Amt { neg: bool, h: String, m: String } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Int(String), Float(String), Bool(bool), Dt(Dt), Str(String, St),
    Arr(Vec<Val>), Inl(Vec<(String, Val)>),
}
/// A value and the byte span of its text.  Spans do not take part in equality.
#[derive(Clone, Debug)]
pub struct Val { pub v: V, pub span: (usize, usize) }
impl PartialEq for Val { fn eq(&self, o: &Val) -> bool { self.v == o.v } }
impl Eq for Val {}

#[derive(Clone, Debug)]
pub enum Item {
    Blank,
    KeyVal { key: String, val: Val },
    Std(Vec<String>),
    Aot(Vec<String>),
}
#[derive(Clone, Debug)]
pub struct Expr { pub span: (usize, usize), pub item: Item, pub comment: bool }
#[derive(Clone, Debug)]
pub struct Doc { pub exprs: Vec<Expr>, pub consumed: usize, pub fail_reach: usize }

pub struct P<'a> { s: &'a str, b: &'a [u8], pub i: usize, reach: usize, depth: usize }
type R<T> = Option<T>;

pub fn is_bare(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'-' || c == b'_' }

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> P<'a> { P { s, b: s.as_bytes(), i: 0, reach: 0, depth: 0 } }
    fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    fn at(&self, t: &str) -> bool { self.b[self.i..].starts_with(t.as_bytes()) }
    fn eat(&mut self, t: &str) -> R<()> {
        self.mark();
        if self.at(t) { self.i += t.len(); self.mark(); Some(()) } else { None }
    }
    fn mark(&mut self) { if self.i > self.reach { self.reach = self.i; } }
    fn ws(&mut self) { while matches!(self.peek(), Some(b' ') | Some(b'\t')) { self.i += 1; } self.mark(); }
    fn newline(&mut self) -> R<()> {
        if self.at("\r\n") { self.i += 2; Some(()) } else if self.at("\n") { self.i += 1; Some(()) } else { None }
    }
    fn wsnl(&mut self) {
        loop { self.ws(); if self.newline().is_none() { break; } }
        self.mark();
    }
    fn comment(&mut self) -> R<()> {
        if self.peek() != Some(b'#') { return None; }
        self.i += 1;
        while let Some(c) = self.peek() { if c == b'\t' || c >= 0x20 { self.i += 1; } else { break; } }
        self.mark();
        Some(())
    }
    /// (wsnl comment wsnl | wsnl)+
    fn comment_or_nls(&mut self) {
        loop { self.wsnl(); if self.comment().is_none() { break; } }
    }
    fn hex(&mut self, n: usize) -> bool {
        if self.i + n > self.b.len() { return false; }
        if self.b[self.i..self.i + n].iter().all(|c| c.is_ascii_hexdigit()) { self.i += n; true } else { false }
    }
    /// an escape sequence, standing at the backslash
    fn escape(&mut self) -> bool {
        let save = self.i;
        self.i += 1;
        let ok = match self.peek() {
            Some(b'"') | Some(b'\\') | Some(b'/') | Some(b'b') | Some(b'f') | Some(b'n') | Some(b'r') | Some(b't') => { self.i += 1; true }
            Some(b'u') => { self.i += 1; self.hex(4) }
            Some(b'U') => { self.i += 1; self.hex(8) }
            _ => false,
        };
        if !ok { self.i = save; }
        ok
    }
    /// content of a basic string up to (not including) the closing quote
    fn basic_body(&mut self) {
        loop {
            match self.peek() {
                None | Some(b'"') => return,
                Some(b'\\') => if !self.escape() { return },
                Some(c) if c >= 0x20 => self.i += 1,
                _ => return,
            }
        }
    }
    pub fn key(&mut self) -> R<String> {
        let st = self.i;
        self.mark();
        if self.peek() == Some(b'"') {
            self.i += 1;
            self.basic_body();
            if self.peek() == Some(b'"') && self.i > st + 1 {
                self.i += 1; self.mark();
                return Some(self.s[st..self.i].to_string());
            }
            self.mark();
            self.i = st;
            return None;
        }
        while let Some(c) = self.peek() { if is_bare(c) { self.i += 1 } else { break } }
        self.mark();
        if self.i == st { None } else { Some(self.s[st..self.i].to_string()) }
    }
    fn digits(&self, at: usize, n: usize) -> bool {
        at + n <= self.b.len() && self.b[at..at + n].iter().all(|c| c.is_ascii_digit())
    }
    pub fn datetime(&mut self) -> R<Dt> {
        let i = self.i;
        let sep = |p: &P, k: usize, c: u8| p.b.get(i + k) == Some(&c);
        if !(self.digits(i, 4) && sep(self, 4, b'-') && self.digits(i + 5, 2) && sep(self, 7, b'-') && self.digits(i + 8, 2)) { return None; }
        let sub = |a: usize, b: usize| self.s[a..b].to_string();
        let (year, month, day) = (sub(i, i + 4), sub(i + 5, i + 7), sub(i + 8, i + 10));
        let mut e = i + 10;
        let mut time = None;
        let c = |k: usize, ch: u8| self.b.get(k) == Some(&ch);
        if c(e, b'T') && self.digits(e + 1, 2) && c(e + 3, b':') && self.digits(e + 4, 2) && c(e + 6, b':') && self.digits(e + 7, 2) {
            let (h, m, s) = (sub(e + 1, e + 3), sub(e + 4, e + 6), sub(e + 7, e + 9));
            e += 9;
            let mut frac = None;
            if c(e, b'.') && self.digits(e + 1, 1) {
                let fs = e + 1;
                let mut k = fs;
                while self.digits(k, 1) { k += 1; }
                frac = Some(sub(fs, k));
                e = k;
            }
            let mut off = None;
            if c(e, b'Z') { off = Some(Off::Z); e += 1; }
            else if (c(e, b'+') || c(e, b'-')) && self.digits(e + 1, 2) && c(e + 3, b':') && self.digits(e + 4, 2) {
                off = Some(Off::Amt { neg: c(e, b'-'), h: sub(e + 1, e + 3), m: sub(e + 4, e + 6) });
                e += 6;
            }
            time = Some(Tm { h, m, s, frac, off });
        }
        self.i = e; self.mark();
        Some(Dt { year, month, day, time })
    }
    /// digits with single underscores between digits, from `k`; returns the end
    fn run(&self, mut k: usize) -> usize {
        if !self.digits(k, 1) { return k; }
        k += 1;
        loop {
            if self.digits(k, 1) { k += 1; }
            else if self.b.get(k) == Some(&b'_') && self.digits(k + 1, 1) { k += 2; }
            else { return k; }
        }
    }
    /// integer part: one digit, or a nonzero digit followed by more digits
    fn int_part(&self, k: usize) -> usize {
        match self.b.get(k) {
            Some(b'0') => k + 1,
            Some(c) if c.is_ascii_digit() => self.run(k),
            _ => k,
        }
    }
    /// (end, is_float)
    fn number(&self) -> R<(usize, bool)> {
        let mut k = self.i;
        if matches!(self.b.get(k), Some(b'+') | Some(b'-')) { k += 1; }
        let e = self.int_part(k);
        if e == k { return None; }
        let mut end = e;
        let mut float = false;
        if self.b.get(e) == Some(&b'.') && self.digits(e + 1, 1) {
            end = self.run(e + 1);
            float = true;
        }
        if matches!(self.b.get(end), Some(b'e') | Some(b'E')) {
            let mut x = end + 1;
            if matches!(self.b.get(x), Some(b'+') | Some(b'-')) { x += 1; }
            let xe = self.int_part(x);
            if xe > x { end = xe; float = true; }
        }
        Some((end, float))
    }
    fn delimited(&mut self, open: &str, close: &str, ml: bool, escapes: bool) -> R<String> {
        let st = self.i;
        self.eat(open)?;
        let body = self.i;
        loop {
            if self.at(close) {
                let t = self.s[body..self.i].to_string();
                self.i += close.len(); self.mark();
                return Some(t);
            }
            let ok = match self.peek() {
                None => false,
                Some(b'\\') if escapes => {
                    if self.escape() { true }
                    else if ml {
                        self.i += 1;
                        if self.newline().is_some() { true } else { self.i -= 1; false }
                    } else { false }
                }
                Some(b'\n') => if ml { self.i += 1; true } else { false },
                Some(b'\r') => if ml && self.at("\r\n") { self.i += 2; true } else { false },
                // raw tabs: everywhere but single line basic strings
                Some(b'\t') => if open != "\"" { self.i += 1; true } else { false },
                Some(c) => if c >= 0x20 { self.i += 1; true } else { false },
            };
            if !ok { self.mark(); self.i = st; return None; }
        }
    }
    pub fn string(&mut self) -> R<V> {
        if let Some(t) = self.delimited("'''", "'''", true, false) { return Some(V::Str(t, St::MlLit)); }
        if let Some(t) = self.delimited("\"\"\"", "\"\"\"", true, true) { return Some(V::Str(t, St::MlBasic)); }
        if let Some(t) = self.delimited("\"", "\"", false, true) { return Some(V::Str(t, St::Basic)); }
        if let Some(t) = self.delimited("'", "'", false, false) { return Some(V::Str(t, St::Lit)); }
        None
    }
    pub fn val(&mut self) -> R<Val> {
        let st = self.i;
        self.mark();
        let v = match self.peek()? {
            b'[' => self.array()?,
            b'{' => self.inline()?,
            b'"' | b'\'' => self.string()?,
            b't' => { self.eat("true")?; V::Bool(true) }
            b'f' => { self.eat("false")?; V::Bool(false) }
            _ => {
                if let Some(d) = self.datetime() { V::Dt(d) }
                else {
                    let (e, fl) = self.number()?;
                    let t = self.s[self.i..e].to_string();
                    self.i = e; self.mark();
                    if fl { V::Float(t) } else { V::Int(t) }
                }
            }
        };
        Some(Val { v, span: (st, self.i) })
    }
    /// `ws , ws`, or nothing
    fn sep(&mut self) -> bool {
        let st = self.i;
        self.ws();
        if self.eat(",").is_some() { self.ws(); true } else { self.i = st; false }
    }
    fn array(&mut self) -> R<V> {
        let st = self.i;
        self.depth += 1;
        if self.depth > 4000 { return None; }
        let r = self.array_in();
        self.depth -= 1;
        if r.is_none() { self.i = st; }
        r
    }
    fn array_in(&mut self) -> R<V> {
        self.eat("[")?;
        self.comment_or_nls();
        let mut els = vec![];
        let mut can = true;
        loop {
            if !can { break; }
            let save = self.i;
            match self.val() { Some(v) => els.push(v), None => { self.i = save; break; } }
            can = self.sep();
            self.comment_or_nls();
        }
        self.comment_or_nls();
        self.eat("]")?;
        Some(V::Arr(els))
    }
    fn inline(&mut self) -> R<V> {
        let st = self.i;
        self.depth += 1;
        if self.depth > 4000 { return None; }
        let r = self.inline_in();
        self.depth -= 1;
        if r.is_none() { self.i = st; }
        r
    }
    fn inline_in(&mut self) -> R<V> {
        self.eat("{")?;
        self.ws();
        let mut kvs = vec![];
        let mut can = true;
        loop {
            if !can { break; }
            let save = self.i;
            match self.keyval() { Some(kv) => kvs.push(kv), None => { self.i = save; break; } }
            can = self.sep();
            self.comment_or_nls();
        }
        self.ws();
        self.eat("}")?;
        Some(V::Inl(kvs))
    }
    fn keyval(&mut self) -> R<(String, Val)> {
        let st = self.i;
        let k = self.key()?;
        self.ws();
        if self.eat("=").is_none() { self.i = st; return None; }
        self.ws();
        match self.val() { Some(v) => Some((k, v)), None => { self.i = st; None } }
    }
    fn header(&mut self) -> R<Item> {
        let st = self.i;
        let aot = self.at("[[");
        let r = self.header_in(aot);
        if r.is_none() { self.i = st; }
        r
    }
    fn header_in(&mut self, aot: bool) -> R<Item> {
        self.eat(if aot { "[[" } else { "[" })?;
        self.ws();
        let mut ks = vec![self.key()?];
        loop {
            let save = self.i;
            self.ws();
            if self.eat(".").is_none() { self.i = save; break; }
            self.ws();
            ks.push(self.key()?);
        }
        self.ws();
        self.eat(if aot { "]]" } else { "]" })?;
        Some(if aot { Item::Aot(ks) } else { Item::Std(ks) })
    }
    fn expr(&mut self) -> Expr {
        let st = self.i;
        self.ws();
        let mid = self.i;
        let item = if self.peek() == Some(b'[') { self.header() } else { self.keyval().map(|(key, val)| Item::KeyVal { key, val }) };
        match item {
            Some(item) => {
                self.ws();
                let comment = self.comment().is_some();
                Expr { span: (st, self.i), item, comment }
            }
            None => {
                self.i = mid;
                let comment = self.comment().is_some();
                Expr { span: (st, self.i), item: Item::Blank, comment }
            }
        }
    }
    pub fn doc(mut self) -> Doc {
        let mut exprs = vec![];
        loop {
            self.reach = self.i;
            exprs.push(self.expr());
            if self.newline().is_none() { break; }
        }
        let consumed = self.i;
        Doc { exprs, consumed, fail_reach: self.reach.max(consumed) }
    }
}

pub fn parse(s: &str) -> Doc { P::new(s).doc() }
/// parse a text that must be exactly one value
pub fn parse_value(s: &str) -> Option<Val> {
    let mut p = P::new(s);
    let v = p.val()?;
    if p.i == s.len() { Some(v) } else { None }
}
/// 1-based line of a byte offset
pub fn line_of(s: &str, off: usize) -> usize { 1 + s.as_bytes()[..off].iter().filter(|b| **b == b'\n').count() }

/// canonical text of a value (what Value's Display should print)
pub fn show(v: &V) -> String {
    match v {
        V::Int(s) | V::Float(s) => s.clone(),
        V::Bool(b) => b.to_string(),
        V::Dt(d) => show_dt(d),
        V::Str(s, St::Basic) => format!("\"{}\"", s),
        V::Str(s, St::MlBasic) => format!("\"\"\"{}\"\"\"", s),
        V::Str(s, St::Lit) => format!("'{}'", s),
        V::Str(s, St::MlLit) => format!("'''{}'''", s),
        V::Arr(vs) => format!("[{}]", vs.iter().map(|x| show(&x.v)).collect::<Vec<_>>().join(", ")),
        V::Inl(kv) => format!("{{{}}}", kv.iter().map(|(k, x)| format!("{} = {}", k, show(&x.v))).collect::<Vec<_>>().join(", ")),
    }
}
pub fn show_dt(d: &Dt) -> String {
    let mut s = format!("{}-{}-{}", d.year, d.month, d.day);
    if let Some(t) = &d.time {
        s += &format!("T{}:{}:{}", t.h, t.m, t.s);
        if let Some(f) = &t.frac { s += &format!(".{}", f); }
        match &t.off {
            Some(Off::Z) => s.push('Z'),
            Some(Off::Amt { neg, h, m }) => s += &format!("{}{}:{}", if *neg { '-' } else { '+' }, h, m),
            None => {}
        }
    }
    s
}
pub fn dt_valid(d: &Dt) -> bool {
    let n = |s: &str| s.parse::<u32>().unwrap_or(99999);
    let (y, m, dd) = (n(&d.year), n(&d.month), n(&d.day));
    if !date_exists(y, m, dd) { return false; }
    match &d.time {
        None => true,
        Some(t) => n(&t.h) <= 23 && n(&t.m) <= 59 && n(&t.s) <= 59 && match &t.off {
            Some(Off::Amt { h, m, .. }) => n(h) <= 23 && n(m) <= 59,
            _ => true,
        },
    }
}
pub fn date_exists(y: u32, m: u32, d: u32) -> bool {
    if y < 1 || y > 9999 || m < 1 || m > 12 || d < 1 { return false; }
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize];
    d <= len
}
pub fn ty(v: &V) -> u8 {
    match v { V::Int(_) => 0, V::Float(_) => 1, V::Bool(_) => 2, V::Dt(_) => 3, V::Str(..) => 4, V::Arr(_) => 5, V::Inl(_) => 6 }
}
