//! C05-C08: monitors over update histories.
//!
//! Every step predicts, from the text alone, what the update must do: the reference side locates
//! the value in the printed text, decides whether the update is to be accepted and writes the text
//! that must result; the parser under observation is then compared with the prediction.
use super::common::*;
use crate::cx::{Cx, R};
use crate::driver::{Prop, Run, Stage};
use crate::ensure;
use crate::gen::{self, Opts};
use crate::libx::{self, Kind, LErr, Live};
use crate::refp::{self, St, V};
use crate::rng::Rng;
use crate::sem::{self, Map};
use std::collections::HashSet;
use tomllib::types::Value;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Frame, Reshape, Refuse, History }

/// The text as the reference side sees it.
pub struct Side { pub text: String, pub map: Map, pub mixed: Vec<String>, pub other_errors: usize, pub complete: bool }
impl Side {
    pub fn of(text: String) -> Side {
        let d = refp::parse(&text);
        let m = sem::eval(&text, &d);
        let mixed = m.errors.iter().filter_map(|e| if let sem::SErr::Mixed { key } = &e.e { Some(key.clone()) } else { None }).collect::<Vec<_>>();
        let other_errors = m.errors.len() - mixed.len();
        let complete = d.consumed == text.len();
        Side { map: sem::flatten(&m), mixed, other_errors, complete, text }
    }
    pub fn val(&self, k: &str) -> Option<&refp::Val> { self.map.iter().find(|e| e.0 == k).and_then(|e| e.1.val.as_ref()) }
    /// the text after `k` is set to `new`, or None if that must be refused
    pub fn predict(&self, k: &str, new: &V) -> Option<String> {
        if k.is_empty() { return None; }
        let old = self.val(k)?;
        if !v_ok(new) { return None; }
        let mut reps = vec![];
        if same_shape(&old.v, new) { leaves(old, new, &mut reps); } else { reps.push((old.span, show_default(new))); }
        Some(splice(&self.text, &reps))
    }
}

// ---- choosing updates ------------------------------------------------------------------------
fn small_opts(r: &mut Rng) -> Opts { Opts { small_pool: r.pct(50), multiline: 0, wild: 0, mixed: if r.pct(15) { 40 } else { 0 }, depth: 3, ..Opts::default() } }
pub fn any_value(r: &mut Rng, kind: usize) -> V { let o = small_opts(r); let d = r.range(1, 3); gen::value(r, &o, d, kind).0 }
fn scalar(r: &mut Rng) -> V { let k = r.below(5); any_value(r, k) }
/// same shape, every leaf possibly replaced
pub fn reshape_none(r: &mut Rng, v: &V) -> V {
    match v {
        V::Arr(a) => V::Arr(a.iter().map(|e| wrap(reshape_none(r, &e.v))).collect()),
        V::Inl(t) => V::Inl(t.iter().map(|(k, e)| (k.clone(), wrap(reshape_none(r, &e.v)))).collect()),
        x => if r.pct(25) { x.clone() } else if r.pct(30) { super::meta::tweak(r, x) } else { scalar(r) },
    }
}
fn scalars_of(v: &V, out: &mut Vec<V>) { match v { V::Arr(a) => for e in a { scalars_of(&e.v, out) }, V::Inl(t) => for e in t { scalars_of(&e.1.v, out) }, x => out.push(x.clone()) } }
/// gives the leaves of `v` values that `v` or the old value hold elsewhere
fn coincide(r: &mut Rng, v: V, old: &V) -> V {
    fn go(r: &mut Rng, v: &V, pool: &[V]) -> V {
        match v {
            V::Arr(a) => V::Arr(a.iter().map(|e| wrap(go(r, &e.v, pool))).collect()),
            V::Inl(t) => V::Inl(t.iter().map(|(k, e)| (k.clone(), wrap(go(r, &e.v, pool)))).collect()),
            x => if r.pct(70) { r.one(pool).clone() } else { x.clone() },
        }
    }
    let mut pool = vec![];
    scalars_of(&v, &mut pool);
    scalars_of(old, &mut pool);
    if pool.is_empty() { return v; }
    while pool.len() > 3 { let i = r.below(pool.len()); pool.remove(i); }
    go(r, &v, &pool)
}
/// a near neighbour of `v` with a different shape
fn reshape_some(r: &mut Rng, v: &V) -> V {
    match v {
        V::Arr(a) => {
            let mut a: Vec<refp::Val> = a.clone();
            match r.below(7) {
                0 => { a.pop(); }
                1 => { let x = scalar(r); a.push(wrap(x)); }
                2 => a.clear(),
                3 if !a.is_empty() => { let i = r.below(a.len()); a[i] = wrap(reshape_some(r, &a[i].v.clone())); }
                4 if !a.is_empty() => { let i = r.below(a.len()); a.remove(i); }
                5 => { let x = a.clone(); a.extend(x); }
                _ => { let x = any_value(r, 7); a.insert(0, wrap(x)); }
            }
            V::Arr(a)
        }
        V::Inl(t) => {
            let mut t = t.clone();
            match r.below(8) {
                0 => { t.pop(); }
                1 => { let x = scalar(r); let k = gen::any_key(r, true); t.push((k, wrap(x))); }
                2 => t.clear(),
                3 if !t.is_empty() => { let i = r.below(t.len()); t[i].1 = wrap(reshape_some(r, &t[i].1.v.clone())); }
                4 if !t.is_empty() => { let i = r.below(t.len()); t[i].0 = gen::any_key(r, true); }
                5 => t.reverse(),
                6 if !t.is_empty() => { let i = r.below(t.len()); t.remove(i); }
                _ => { let x = any_value(r, 7); let k = gen::any_key(r, false); t.insert(0, (k, wrap(x))); }
            }
            V::Inl(t)
        }
        x => match r.below(4) { 0 => V::Arr(vec![]), 1 => V::Inl(vec![]), 2 => V::Arr(vec![wrap(x.clone())]), _ => V::Inl(vec![(gen::any_key(r, true), wrap(x.clone()))]) },
    }
}
/// scalars that TOML cannot express (mostly)
pub fn bad_scalar(r: &mut Rng) -> V {
    let s = |x: &str| x.to_string();
    match r.below(12) {
        0 => V::Int(s(r.pick(&["", "01", "1x", "+", "1_", "_1", "1__0", "0x1", "1.0", " 1", "1 ", "1\n", "٣", "--1", "1,2", "1]"]))),
        1 => V::Float(s(r.pick(&["", "1", "1.", ".5", "1.5.5", "1e", "1e+", "1.e1", "1.5 ", "nan", "inf", "1_.0", "1.0x", "01.5", "1.5e01"]))),
        2 => { let mut d = gen::dt(r, true); if r.pct(40) { d.year = s(r.pick(&["1", "", "20000", "+200", "0000", "2OO0"])); } V::Dt(d) }
        3 => { let mut d = gen::dt(r, false); match r.below(4) { 0 => d.month = s("1"), 1 => d.day = s(" 1"), 2 => d.month = s("00"), _ => d.day = s("٠1") } V::Dt(d) }
        4 => { let mut d = gen::dt(r, false); if let Some(t) = &mut d.time { match r.below(4) { 0 => t.frac = Some(s(r.pick(&["", "x", "1 ", "-1", "+1", "٣"]))), 1 => t.h = s("1"), 2 => t.s = s("+1"), _ => t.off = Some(refp::Off::Amt { neg: false, h: s("1"), m: s("00") }) } } else { d.day = s("32"); } V::Dt(d) }
        5 => V::Str(s(r.pick(&["\"", "a\"b", "\\", "\\q", "a\nb", "\t", "\u{0}", "\\u12", "\\uD8", "\\U0000000", "a\\"])), St::Basic),
        6 => V::Str(s(r.pick(&["'", "a'b", "a\nb", "\u{1}", "\r"])), St::Lit),
        7 => V::Str(s(r.pick(&["\"\"\"", "\\q", "\\", "a\"\"\"b", "\u{1}", "a\rb", "\"", "a\"", "\\ \n", "\\u00"])), St::MlBasic),
        8 => V::Str(s(r.pick(&["'''", "a'''b", "\u{2}", "a\rb", "'", "a''"])), St::MlLit),
        9 => V::Inl(vec![(s(r.pick(&["", "a b", "\"", "'a'", "a.b", "é", "\"\"", "a\n", " a", "a ", "\"a", "\"\\q\"", "\"a\"b"])), wrap(V::Int(s("1"))))]),
        10 => V::Inl(vec![(s("a"), wrap(V::Int(s("1")))), (s("a"), wrap(V::Bool(true)))]),
        _ => V::Arr(vec![wrap(V::Int(s("1"))), wrap(V::Int(s("0x")))]),
    }
}
/// replaces one leaf, at any depth, by something that cannot be expressed
fn poison(r: &mut Rng, v: &V) -> V {
    match v {
        V::Arr(a) if !a.is_empty() && r.pct(85) => { let mut a = a.clone(); let i = r.below(a.len()); a[i] = wrap(poison(r, &a[i].v.clone())); V::Arr(a) }
        V::Inl(t) if !t.is_empty() && r.pct(85) => {
            let mut t = t.clone();
            let i = r.below(t.len());
            if r.pct(20) { t[i].0 = r.pick(&["", "a b", "'q'", "x.y", "\"", "é"]).to_string(); }
            else if r.pct(15) && t.len() > 1 { let k = t[0].0.clone(); t.last_mut().unwrap().0 = k; }
            else { t[i].1 = wrap(poison(r, &t[i].1.v.clone())); }
            V::Inl(t)
        }
        _ => bad_scalar(r),
    }
}
fn with_values(map: &Map) -> Vec<usize> { (0..map.len()).filter(|i| map[*i].1.val.is_some()).collect() }
fn bad_key(r: &mut Rng, map: &Map) -> String {
    match r.below(5) {
        0 => { let t: Vec<&String> = map.iter().filter(|e| e.1.val.is_none()).map(|e| &e.0).collect(); r.one(&t).to_string() }
        1 => r.pick(&["", "$Root$", "zz", "a.zz", "[0]", ".", "a.", ".a", "a[", "a]", "\u{0}"]).to_string(),
        _ => { let a = absent(r, map, 3); if a.is_empty() { "nope".into() } else { r.one(&a).clone() } }
    }
}
/// (key, value) of the next update
pub fn choose(r: &mut Rng, side: &Side, mode: Mode) -> Option<(String, V)> {
    let vals = with_values(&side.map);
    let k = |r: &mut Rng| -> Option<usize> {
        if vals.is_empty() { return None; }
        // containers are rarer than their leaves, so prefer them
        let c: Vec<usize> = vals.iter().copied().filter(|i| is_container(&side.map[*i].1.val.as_ref().unwrap().v)).collect();
        Some(if !c.is_empty() && r.pct(60) { *r.one(&c) } else { *r.one(&vals) })
    };
    let what = match mode { Mode::Frame => 0, Mode::Reshape => if r.pct(80) { 1 } else { 0 }, Mode::Refuse => if r.pct(70) { 2 } else { r.below(2) }, Mode::History => *r.one(&[0usize, 0, 1, 1, 1, 2]) };
    if what == 2 {
        if vals.is_empty() || r.pct(40) { return Some((bad_key(r, &side.map), any_value(r, 7))); }
        let i = k(r)?;
        let old = side.map[i].1.val.as_ref().unwrap().v.clone();
        let base = match r.below(4) { 0 => reshape_some(r, &old), 1 => any_value(r, 7), 2 => reshape_none(r, &old), _ => old };
        return Some((side.map[i].0.clone(), poison(r, &base)));
    }
    let i = k(r)?;
    let old = side.map[i].1.val.as_ref().unwrap().v.clone();
    let new = if what == 0 { let x = reshape_none(r, &old); if r.pct(20) { coincide(r, x, &old) } else { x } } else {
        match r.below(8) {
            0..=3 => reshape_some(r, &old),
            4 => { let j = k(r)?; side.map[j].1.val.as_ref().unwrap().v.clone() }
            5 => V::Arr(vec![wrap(old.clone())]),
            6 => any_value(r, 5),
            _ => any_value(r, 7),
        }
    };
    Some((side.map[i].0.clone(), new))
}

// ---- one observed step -----------------------------------------------------------------------
struct Run1<'a> { live: Live<'a>, side: Side, ghosts: Vec<String>, snaps: Vec<(String, Value<'a>, V)>, trace: Vec<String> }
impl<'a> Run1<'a> {
    fn step(&mut self, cx: &mut Cx, mode: Mode, key: &str, new: &V, how: usize) -> R {
        let want = self.side.predict(key, new);
        let old = self.side.val(key).map(|v| v.v.clone());
        self.trace.push(format!("set_value({:?}, {})", key, refp::show(new)));
        cx.input = format!("{}\n--\n{}", self.trace[0], self.trace[1..].join("\n"));
        let before = if mode == Mode::Refuse && want.is_none() {
            let mut ks = keys_of(&self.side.map);
            ks.extend(self.ghosts.iter().cloned());
            Some((view(&self.live, &ks)?, ks))
        } else { None };
        // a value may be handed over as the library's own object, too
        let ok = match how {
            1 if new_is_current(&self.side, new).is_some() => {
                let k2 = new_is_current(&self.side, new).unwrap();
                let v = self.live.p.get_value(k2.as_str());
                match v {
                    Some(v) => { cx.hit("values moved from another path"); let p = &mut self.live.p; libx::guard("set_value", move || p.set_value(key, v))? }
                    None => self.live.set(key, new)?,
                }
            }
            // or made of shared containers or of borrowed texts, and kept to be looked at again
            2 | 3 => {
                let v = if how == 2 { libx::to_lib_shared(new) } else { libx::to_lib_lent(new) };
                cx.hit(if how == 2 { "values with shared parts" } else { "values of borrowed texts" });
                if mode == Mode::History { self.snaps.push((format!("the value handed over for {}", key), v.clone(), libx::from_lib(&v))); }
                self.live.hand(key, new, v)?
            }
            _ => self.live.set(key, new)?,
        };
        cx.evals += 1;
        let text = self.live.text()?;
        match (&want, ok) {
            (None, true) => return Err(format!("set_value({:?}, {}) was accepted but {}", key, refp::show(new), if self.side.val(key).is_none() { "the path does not name a value" } else { "the value cannot be expressed in TOML" })),
            (Some(_), false) => return Err(format!("set_value({:?}, {}) was refused", key, refp::show(new))),
            _ => {}
        }
        match want {
            None => {
                cx.hit("updates refused");
                cx.seen(&("refused", key, format!("{:?}", new)));
                ensure!(text == self.side.text, "after the refused set_value({:?}, {}) the text is {:?}, it was {:?}", key, refp::show(new), text, self.side.text);
                if let Some((v, ks)) = before {
                    let now = view(&self.live, &ks)?;
                    for i in 0..ks.len() { ensure!(now[i] == v[i], "the refused set_value({:?}, {}) changed {:?} from {:?} to {:?}", key, refp::show(new), ks[i], v[i], now[i]); }
                    cx.add("paths compared before and after a refusal", ks.len() as u64);
                }
            }
            Some(w) => {
                let old = old.unwrap();
                let same = same_shape(&old, new);
                cx.hit(if !same { if is_container(new) { "updates to a new container shape" } else { "containers replaced by scalars" } } else if is_container(new) { "same-shape container updates" } else { "scalar updates" });
                cx.seen(&(same, key, format!("{:?} {:?}", old, new)));
                ensure!(text == w, "after set_value({:?}, {}) the text is {:?}, expected {:?} (before: {:?})", key, refp::show(new), text, w, self.side.text);
                let next = Side::of(w);
                let have: HashSet<&str> = next.map.iter().map(|e| e.0.as_str()).collect();
                for e in &self.side.map { if !have.contains(e.0.as_str()) && !self.ghosts.contains(&e.0) { self.ghosts.push(e.0.clone()); } }
                let gone: Vec<String> = self.ghosts.iter().filter(|k| !have.contains(k.as_str())).cloned().collect();
                ensure!(next.complete, "harness: predicted text does not parse: {:?}", next.text);
                drop(have);
                self.side = next;
                match mode {
                    Mode::Frame => check_values(cx, &self.live, &self.side.map)?,
                    Mode::Refuse => {}
                    _ => {
                        check_values(cx, &self.live, &self.side.map)?;
                        check_kids(cx, &self.live, &self.side.map)?;
                        check_absent(cx, &self.live, &gone)?;
                        cx.add("keys of replaced values checked gone", gone.len() as u64);
                    }
                }
            }
        }
        Ok(())
    }
    /// the live view against a fresh parse of the same text
    fn fresh(&self, cx: &mut Cx) -> R {
        let text = self.live.text()?;
        let f = Live::parse(&text)?;
        ensure!(matches!(f.res.kind, Kind::Full | Kind::FullError), "the printed document no longer parses completely: {:?} for {:?}", f.res, text);
        for e in &f.res.errors {
            match e {
                LErr::Mixed { key, .. } if self.side.mixed.contains(key) => cx.hit("arrays made mixed by an update"),
                e => return Err(format!("the printed document parses with {:?}: {:?}", e, text)),
            }
        }
        let mut ks = keys_of(&self.side.map);
        ks.extend(self.ghosts.iter().cloned());
        for k in &ks {
            let (a, b) = ((self.live.get(k)?, self.live.kids(k)?), (f.get(k)?, f.kids(k)?));
            ensure!(a == b, "{:?} is {:?} in the edited parser and {:?} in a fresh parse of its text {:?}", k, a, b, text);
        }
        cx.add("paths compared with a fresh parse", ks.len() as u64);
        Ok(())
    }
    fn snap(&mut self, cx: &mut Cx, r: &mut Rng) {
        let vals = with_values(&self.side.map);
        if vals.is_empty() { return; }
        let k = self.side.map[*r.one(&vals)].0.clone();
        if let Some(v) = self.live.p.get_value(k.as_str()) { let f = libx::from_lib(&v); self.snaps.push((k, v, f)); cx.hit("snapshots taken"); }
    }
    fn snaps_hold(&self, cx: &mut Cx) -> R {
        for (k, v, f) in &self.snaps {
            cx.hit("snapshots checked");
            ensure!(libx::from_lib(v) == *f, "a value read from (or made as) {:?} earlier changed from {} to {}", k, refp::show(f), refp::show(&libx::from_lib(v)));
        }
        Ok(())
    }
}
fn new_is_current(side: &Side, new: &V) -> Option<String> { side.map.iter().find(|e| e.1.val.as_ref().map(|v| v.v == *new).unwrap_or(false)).map(|e| e.0.clone()) }

/// documents to edit: whether errors are allowed in them depends on the property
fn start_doc(r: &mut Rng, mode: Mode) -> String {
    match r.below(10) {
        0 => { let c = corpus(); let t = &r.one(c).1; if t.len() < 1200 { t.clone() } else { g_valid(r, 0) } }
        1 => g_tables(r, 0),
        2 => if r.pct(50) { g_tables(r, 0) } else { g_ladder_ok(r, 0) },
        3 if mode != Mode::History => g_errors(r, 0),
        4 => {
            // one container in a hostile layout
            let o = Opts { depth: 4, multiline: 60, wild: 60, crlf: 30, stmts: (1, 2), ..Opts::default() };
            let k = r.range(5, 6);
            let (_, t) = gen::value(r, &o, 4, k);
            format!("{}{} ={}{}{}\nz = 1", r.pick(&["", "x = 1\n", "[t]\n", "[[t]]\n", "# c\n\n"]), r.pick(&["a", "\"k\"", "b-1"]), r.pick(&["", " ", "\t "]), t, r.pick(&["", " ", " # c", "#c", "\t"]))
        }
        _ => g_valid(r, 0),
    }
}
fn history(cx: &mut Cx, r: &mut Rng, mode: Mode) -> R { let src = start_doc(r, mode); history_on(cx, r, mode, src, 20_000) }
fn history_on(cx: &mut Cx, r: &mut Rng, mode: Mode, src: String, limit: usize) -> R {
    let side = Side::of(src.clone());
    if !side.complete || (mode == Mode::History && side.other_errors + side.mixed.len() > 0) { cx.hit("documents skipped"); return Ok(()); }
    let live = Live::parse(&src)?;
    cx.input = src.clone();
    // other properties judge what the first parse makes of the text
    if !live.res.leftover.is_empty() || live.text()? != src { cx.hit("documents skipped"); return Ok(()); }
    if mode == Mode::History && live.res.kind != Kind::Full { cx.hit("documents skipped"); return Ok(()); }
    cx.hit("documents edited");
    let mut run = Run1 { live, side, ghosts: vec![], snaps: vec![], trace: vec![src.clone()] };
    let n = match mode { Mode::History => r.range(1, 9), _ => r.range(1, 5) };
    for _ in 0..n {
        if mode == Mode::History && r.pct(50) { run.snap(cx, r); }
        let (k, v) = match choose(r, &run.side, mode) { Some(x) => x, None => break };
        if run.side.text.len() > limit { break; }
        if mode == Mode::Frame && v_ok(&v) && run.side.val(&k).map(|o| !same_shape(&o.v, &v)).unwrap_or(true) { continue; }
        let how = r.below(5);
        run.step(cx, mode, &k, &v, how)?;
        if mode == Mode::History { run.fresh(cx)?; run.snaps_hold(cx)?; }
    }
    cx.max("updates in one history", n as u64);
    cx.sample(&cx.input.clone());
    Ok(())
}
fn frame(cx: &mut Cx, r: &mut Rng, _: u64) -> R { history(cx, r, Mode::Frame) }
fn reshape(cx: &mut Cx, r: &mut Rng, _: u64) -> R { history(cx, r, Mode::Reshape) }
fn refuse(cx: &mut Cx, r: &mut Rng, _: u64) -> R { history(cx, r, Mode::Refuse) }
fn hist(cx: &mut Cx, r: &mut Rng, _: u64) -> R { history(cx, r, Mode::History) }

// ---- large containers ---------------------------------------------------------------------------
/// documents with containers of hundreds of entries, whose values are set and reshaped to other large sizes
fn large(cx: &mut Cx, r: &mut Rng, mode: Mode) -> R {
    const SIZES: [usize; 8] = [255, 256, 257, 64, 65, 130, 300, 1025];
    let n = *r.one(&SIZES);
    let m = if mode == Mode::Frame { n } else { *r.one(&SIZES) };
    let kind = r.below(5);
    let build = |n: usize, add: usize| -> V {
        let int = |i: usize| wrap(V::Int((i + add).to_string()));
        match kind {
            0 => V::Arr((0..n).map(int).collect()),
            1 => V::Inl((0..n).map(|i| (format!("k{}", i), int(i))).collect()),
            2 => V::Arr((0..n).map(|i| wrap(V::Inl(vec![("x".into(), int(i))]))).collect()),
            3 => V::Arr((0..n).map(|i| wrap(V::Arr(vec![int(i), int(i)]))).collect()),
            _ => V::Inl(vec![("y".into(), wrap(V::Arr((0..n).map(int).collect())))]),
        }
    };
    let old = show_default(&build(n, 0));
    let (src, key) = match r.below(3) { 0 => (format!("a = {}\nz = 1\n", old), "a"), 1 => (format!("[t]\r\nk = {} # c\r\nz = 1", old), "t.k"), _ => (format!("[[t]]\n[[t]]\nk = {}", old), "t[1].k") };
    cx.input = src.clone();
    let side = Side::of(src.clone());
    ensure!(side.complete && side.val(key).is_some(), "harness: bad large document {:?}", src);
    let live = Live::parse(&src)?;
    if live.res.kind != Kind::Full || live.text()? != src { cx.hit("documents skipped"); return Ok(()); }
    let mut run = Run1 { live, side, ghosts: vec![], snaps: vec![], trace: vec![src.clone()] };
    let mut new = build(m, 1000);
    if mode == Mode::Refuse { new = poison(r, &new); }
    run.step(cx, mode, key, &new, 0)?;
    if mode == Mode::History { run.fresh(cx)?; }
    // then one of the entries
    let inner: Vec<String> = run.side.map.iter().filter(|e| e.1.val.is_some() && e.0.len() > key.len() && e.0.starts_with(key)).map(|e| e.0.clone()).collect();
    if let Some(k) = inner.last().cloned() { let v = scalar(r); if mode != Mode::Frame || same_shape(&run.side.val(&k).unwrap().v, &v) { run.step(cx, mode, &k, &v, 1)?; } }
    if !inner.is_empty() { let k = r.one(&inner).clone(); let v = if mode == Mode::Frame { let o = run.side.val(&k).unwrap().v.clone(); reshape_none(r, &o) } else { any_value(r, 6) }; run.step(cx, mode, &k, &v, 0)?; }
    if mode == Mode::History { run.fresh(cx)?; }
    cx.max("entries of the largest container", n.max(m) as u64);
    cx.hit("large containers updated");
    Ok(())
}
fn large_frame(cx: &mut Cx, r: &mut Rng, _: u64) -> R { large(cx, r, Mode::Frame) }
fn large_reshape(cx: &mut Cx, r: &mut Rng, _: u64) -> R { large(cx, r, Mode::Reshape) }
fn large_refuse(cx: &mut Cx, r: &mut Rng, _: u64) -> R { large(cx, r, Mode::Refuse) }
fn large_hist(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    if i % 2 == 0 { return large(cx, r, Mode::History); }
    let src = g_large_ok(r, i / 2);
    if src.len() > 30_000 { return Ok(()); }
    history_on(cx, r, Mode::History, src, 60_000)
}

// ---- all pairs -------------------------------------------------------------------------------
/// old value texts with layout
const OLD: &[&str] = &["1", "1.5", "true", "2000-01-01", "\"s\"", "'l'", "\"\"\"m\n\"\"\"", "'''n\n'''", "[]", "[ ]", "[ # c\n ]", "[1]", "[ 1 , 2 ]", "[1,2,]", "[1, # c\n 2, # d\n 3\n]",
    "[[1],[2,3]]", "[ [ ] ]", "[[],[]]", "[{a=1},{a = 2 }]", "{}", "{ }", "{a=1}", "{ a = 1 , b = 'x' }", "{a = [1, 2] , b = {c = 1}}", "{b={},c=[]}", "{ \"a\" = 1 }", "[[[1]]]", "[{}]", "{a={a={a=1}}}", "[\"a\" ,\n'b']"];
/// new values, as the text of a value in any layout
const NEW: &[&str] = &["7", "-7.5e3", "false", "1999-12-31T23:59:59.5-07:00", "\"t\"", "'u'", "\"\"\"v\"\"\"", "'''w'''", "[]", "[8]", "[8,9]", "[8,9,10]", "[[4],[5,6]]", "[[]]", "[[],[]]", "[[7]]", "[{a=3},{a=4}]", "[{a=3}]", "[{b=3},{a=4}]",
    "{}", "{a=5}", "{b=5}", "{a=5,b=6}", "{b=5,a=6}", "{a=5,b=6,c=7}", "{a=[5,6],b={c=7}}", "{a=[5],b={c=7}}", "{b={},c=[]}", "{b=[],c={}}", "{\"a\"=5}", "[[[9]]]", "[[[9,9]]]", "[{}]", "{a={a={a=2}}}", "{a={a={b=2}}}", "[\"c\",\"d\"]"];
const POS: &[(&str, &str, &str)] = &[("a = ", "\nz = 1\n", "a"), ("[t]\r\nb=0\r\n\"k\"\t=", "\r\n[u]\r\n", "t.\"k\""), ("[[t]]\nk = 1\n[[t]]\nk = ", " # c", "t[1].k"), ("k = [ 0 , ", " , 2 ] # c\n", "k[1]"), ("k = { x = ", " , y = 2 }", "k.x"), ("k = [[{ x = [", ",\n# c\n 3] }, { }]]\nl = 1", "k[0][0].x[0]")];
fn n_pairs() -> u64 { (OLD.len() * NEW.len() * POS.len()) as u64 }
fn pair(cx: &mut Cx, idx: u64, mode: Mode) -> R {
    let mut i = idx as usize;
    let o = OLD[i % OLD.len()]; i /= OLD.len();
    let n = NEW[i % NEW.len()]; i /= NEW.len();
    let (a, b, key) = POS[i % POS.len()];
    let src = format!("{}{}{}", a, o, b);
    let side = Side::of(src.clone());
    ensure!(side.complete && side.val(key).is_some(), "harness: bad pair {:?}", src);
    let new = refp::parse_value(n).unwrap().v;
    let same = same_shape(&side.val(key).unwrap().v, &new);
    if (mode == Mode::Frame) != same && mode != Mode::Refuse { return Ok(()); }
    let live = Live::parse(&src)?;
    if !live.res.leftover.is_empty() || live.text()? != src { cx.hit("documents skipped"); return Ok(()); }
    let mut run = Run1 { live, side, ghosts: vec![], snaps: vec![], trace: vec![src.clone()] };
    run.step(cx, mode, key, &new, 0)?;
    // and back to the old value, then an inner value of the result
    let back = refp::parse_value(o).unwrap().v;
    if mode == Mode::Reshape { run.step(cx, mode, key, &back, 0)?; }
    let inner: Vec<String> = run.side.map.iter().filter(|e| e.0.starts_with(key) && e.1.val.as_ref().map(|v| !is_container(&v.v)).unwrap_or(false)).map(|e| e.0.clone()).collect();
    for k in inner { run.step(cx, mode, &k, &V::Str("in".into(), St::Lit), 0)?; }
    cx.hit("pairs");
    Ok(())
}
// ---- coinciding values: every small container with values from {1, 2} x every new one with values from {1, 2, 3} ----
const SHAPES: &[(&str, &str, bool)] = &[("", "", false), ("", "", true), ("[", "]", false), ("{x=", "}", true), ("{x=", "}", false)];
/// a container of the values that the digits of `code` in `base` stand for
fn coin_text(shape: usize, n: usize, mut code: usize, base: usize, keys: &[&str]) -> String {
    let (a, b, inl) = SHAPES[shape];
    let mut items = vec![];
    for i in 0..n { let v = format!("{}{}{}", a, code % base + 1, b); code /= base; items.push(if inl { format!("{} = {}", keys[i], v) } else { v }); }
    if inl { format!("{{ {} }}", items.join(" ,")) } else { format!("[ {} ]", items.join(" ,")) }
}
const COIN_N: usize = 4;
fn n_coins() -> u64 { (1..=COIN_N).map(|n| (2usize.pow(n as u32) * 3usize.pow(n as u32) * SHAPES.len()) as u64).sum() }
fn coin_frame(cx: &mut Cx, _: &mut Rng, idx: u64) -> R {
    let mut i = idx as usize;
    let shape = i % SHAPES.len(); i /= SHAPES.len();
    let mut n = 1;
    while i >= 6usize.pow(n as u32) { i -= 6usize.pow(n as u32); n += 1; }
    let (o, w) = (i % 2usize.pow(n as u32), i / 2usize.pow(n as u32));
    coin(cx, Mode::Frame, &coin_text(shape, n, o, 2, &["a", "b", "c", "d"]), &coin_text(shape, n, w, 3, &["a", "b", "c", "d"]))
}
/// 1 to 3 old values, 0 to 4 new ones, keys in three orders
const ORDERS: &[[&str; 4]] = &[["a", "b", "c", "d"], ["b", "a", "c", "d"], ["c", "a", "d", "b"]];
const OLDS: usize = 2 + 4 + 8;
const NEWS: usize = 1 + 2 + 4 + 8 + 16;
fn n_coins_reshape() -> u64 { (SHAPES.len() * ORDERS.len() * OLDS * NEWS) as u64 }
fn coin_reshape(cx: &mut Cx, _: &mut Rng, idx: u64) -> R {
    let mut i = idx as usize;
    let shape = i % SHAPES.len(); i /= SHAPES.len();
    let order = i % ORDERS.len(); i /= ORDERS.len();
    let (mut o, mut w) = (i % OLDS + 1, i / OLDS);
    let (mut n, mut m) = (0, 0);
    while o >= 1 << n { o -= 1 << n; n += 1; }
    while w >= 1 << m { w -= 1 << m; m += 1; }
    coin(cx, Mode::Reshape, &coin_text(shape, n, o, 2, &ORDERS[0]), &coin_text(shape, m, w, 2, &ORDERS[order]))
}
fn coin(cx: &mut Cx, mode: Mode, o: &str, n: &str) -> R {
    let src = format!("z = 1\nk = {}\nl = {}\n", o, o);
    let side = Side::of(src.clone());
    let new = refp::parse_value(n).unwrap().v;
    ensure!(side.val("k").is_some(), "harness: bad document {:?}", src);
    if (mode == Mode::Frame) != same_shape(&side.val("k").unwrap().v, &new) { return Ok(()); }
    let live = Live::parse(&src)?;
    if !live.res.leftover.is_empty() || live.text()? != src { cx.hit("documents skipped"); return Ok(()); }
    let mut run = Run1 { live, side, ghosts: vec![], snaps: vec![], trace: vec![src.clone()] };
    run.step(cx, mode, "k", &new, 0)?;
    // and a scalar inside of it, which must not reach its equal neighbours
    if let Some(k) = run.side.map.iter().filter(|e| e.0.starts_with("k") && e.1.val.as_ref().map(|v| !is_container(&v.v)).unwrap_or(false)).map(|e| e.0.clone()).next_back() { run.step(cx, mode, &k, &V::Int("9".into()), 0)?; }
    cx.hit("coinciding values");
    Ok(())
}
fn pairs_frame(cx: &mut Cx, _: &mut Rng, i: u64) -> R { pair(cx, i, Mode::Frame) }
fn pairs_reshape(cx: &mut Cx, _: &mut Rng, i: u64) -> R { pair(cx, i, Mode::Reshape) }
/// every old value x every damaged new value
fn refuse_pairs(cx: &mut Cx, r: &mut Rng, idx: u64) -> R {
    let mut i = idx as usize;
    let o = OLD[i % OLD.len()]; i /= OLD.len();
    let n = NEW[i % NEW.len()]; i /= NEW.len();
    let (a, b, key) = POS[i % POS.len()];
    let src = format!("{}{}{}", a, o, b);
    let side = Side::of(src.clone());
    let live = Live::parse(&src)?;
    if !live.res.leftover.is_empty() || live.text()? != src { cx.hit("documents skipped"); return Ok(()); }
    let mut run = Run1 { live, side, ghosts: vec![], snaps: vec![], trace: vec![src.clone()] };
    let good = refp::parse_value(n).unwrap().v;
    for _ in 0..2 { let v = poison(r, &good); if v_ok(&v) { continue; } run.step(cx, Mode::Refuse, key, &v, 0)?; }
    for _ in 0..2 { let k = bad_key(r, &run.side.map); run.step(cx, Mode::Refuse, &k, &good, 0)?; }
    // then the sound one is still accepted
    run.step(cx, Mode::Refuse, key, &good, 0)
}
/// histories over one small document with overlapping paths
fn hist_small(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let (a, b, key) = *r.one(POS);
    let src = format!("{}{}{}", a, r.pick(OLD), b);
    let side = Side::of(src.clone());
    if side.mixed.len() + side.other_errors > 0 { return Ok(()); }
    let live = Live::parse(&src)?;
    if live.res.kind != Kind::Full || live.text()? != src { cx.hit("documents skipped"); return Ok(()); }
    let mut run = Run1 { live, side, ghosts: vec![], snaps: vec![], trace: vec![src.clone()] };
    for _ in 0..r.range(2, 14) {
        if r.pct(30) { run.snap(cx, r); }
        let (k, v) = if r.pct(50) { (key.to_string(), refp::parse_value(r.pick(NEW)).unwrap().v) } else { match choose(r, &run.side, Mode::History) { Some(x) => x, None => break } };
        if run.side.text.len() > 4000 { break; }
        let how = r.below(2);
        run.step(cx, Mode::History, &k, &v, how)?;
        run.fresh(cx)?;
    }
    run.snaps_hold(cx)?;
    cx.sample(&cx.input.clone());
    Ok(())
}

fn f(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Cx, &mut Rng, u64) -> R) -> Stage { Stage { name, quick, thorough, run: Run::Free(run) } }
pub fn all() -> Vec<Prop> {
    let np = n_pairs();
    let p = |id, stages, rule, assumptions| Prop { id, stages, rule, assumptions, probes: vec![] };
    vec![
        p("C05", vec![f("large", 80, 3000, large_frame), f("pairs", np, np, pairs_frame), f("coins", n_coins(), n_coins(), coin_frame), f("frame", 14_000, 600_000, frame)],
            "scalar and same-shape updates at every depth of generated and corpus documents, predicted by splicing the text; non-trivial: a distinct (path, old value, new value) whose resulting text and lookups were compared", &[]),
        p("C06", vec![f("large", 80, 3000, large_reshape), f("pairs", np, np, pairs_reshape), f("coins", n_coins_reshape(), n_coins_reshape(), coin_reshape), f("reshape", 10_000, 500_000, reshape)],
            "every old value x new value x position of a fixed table, plus random reshaping histories; non-trivial: a distinct (path, old value, new value) whose resulting text, lookups, children and vanished keys were compared", &[]),
        p("C07", vec![f("large", 80, 3000, large_refuse), f("pairs", np, np, refuse_pairs), f("refuse", 12_000, 500_000, refuse)],
            "refused updates: absent paths, tables, values that cannot be expressed at some depth; non-trivial: a distinct refused (path, value) after which the text and every path were compared with before, or a distinct accepted one", &[]),
        p("C08", vec![f("large", 40, 3000, large_hist), f("small", 5_000, 300_000, hist_small), f("history", 4_500, 300_000, hist)],
            "histories of up to 14 updates over overlapping paths, compared after every step with a fresh parse; non-trivial: a distinct (path, old value, new value) or refusal in such a history", &[]),
    ]
}
