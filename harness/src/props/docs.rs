//! Monitors over single documents: C01, C03, C04, C09-C15.
use super::common::*;
use crate::cx::{Cx, R};
use crate::driver::{Prop, Run, Stage};
use crate::ensure;
use crate::libx::Kind;
use crate::refp::{self, Item};
use crate::rng::Rng;
use crate::sem::{self, Kids, SErr};
use std::collections::HashSet;
use tomllib::types::Children;

fn st(name: &'static str, quick: u64, thorough: u64, g: fn(&mut Rng, u64) -> String, f: fn(&mut Cx, &str) -> R) -> Stage {
    Stage { name, quick, thorough, run: Run::Doc(g, f) }
}
fn rng_of(t: &str) -> Rng { let mut h = 7u64; for b in t.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u64); } Rng::new(h, "probe", t.len() as u64) }

// ---- C01 -------------------------------------------------------------------------------------
fn c01(cx: &mut Cx, t: &str) -> R {
    let o = observe(cx, t)?;
    let printed = o.live.text()?;
    let whole = format!("{}{}", printed, o.live.res.leftover);
    if o.live.res.kind == Kind::Failure {
        ensure!(false, "parse returned Failure, which carries no leftover, for {:?}", t);
    }
    ensure!(whole == t, "printed text plus leftover is {:?} instead of the input {:?} (result {:?})", whole, t, o.live.res);
    cx.seen(t);
    cx.add("bytes reproduced", t.len() as u64);
    if !o.live.res.leftover.is_empty() { cx.hit("texts with a leftover"); cx.add("leftover bytes", o.live.res.leftover.len() as u64); }
    cx.sample(t);
    // reading must not disturb the text
    let map = sem::flatten(&o.model);
    for (k, _) in &map { o.live.get(k)?; o.live.kids(k)?; cx.hit("reads"); }
    let again = o.live.text()?;
    ensure!(again == printed, "printed text changed after reading values and children: {:?} instead of {:?}", again, printed);
    Ok(())
}

// ---- C03 / C04 -------------------------------------------------------------------------------
fn c03(cx: &mut Cx, t: &str) -> R {
    let o = observe(cx, t)?;
    if !o.clean(t) { return Ok(()); }
    if o.live.res.kind != Kind::Full { cx.hit("not Full although the reference finds nothing wrong (judged by C13/C15)"); }
    let map = sem::flatten(&o.model);
    check_values(cx, &o.live, &map)?;
    let ab = absent(&mut rng_of(t), &map, 12);
    check_absent(cx, &o.live, &ab)?;
    cx.max("keys in one document", map.len() as u64);
    cx.sample(t);
    Ok(())
}
fn c04(cx: &mut Cx, t: &str) -> R {
    let o = observe(cx, t)?;
    if !o.clean(t) { return Ok(()); }
    let map = sem::flatten(&o.model);
    check_kids(cx, &o.live, &map)?;
    // walk with the combine functions; every value must be met exactly once
    let mut met: HashSet<String> = HashSet::new();
    let mut stack = vec![String::new()];
    while let Some(k) = stack.pop() {
        let kids = guard("get_children", || o.live.p.get_children(k.as_str()).cloned())?;
        let kids = match kids { Some(c) => c, None => return Err(format!("walk: {:?} has no children entry", k)) };
        let next = guard("combine_child_keys", || kids.combine_child_keys(k.as_str()))?;
        let want: Vec<String> = match &kids {
            Children::Keys(v) => v.borrow().iter().map(|c| if k.is_empty() { c.clone() } else { format!("{}.{}", k, c) }).collect(),
            Children::Count(n) => (0..n.get()).map(|i| format!("{}[{}]", k, i)).collect(),
        };
        ensure!(next == want, "combine_child_keys({:?}) on {:?} is {:?}", k, kids, next);
        for c in next {
            ensure!(met.insert(c.clone()), "walk met {:?} twice", c);
            ensure!(met.len() <= map.len(), "walk met more keys than the document has, e.g. {:?}", c);
            cx.hit("walk steps");
            stack.push(c);
        }
    }
    let want: HashSet<String> = map.iter().skip(1).map(|e| e.0.clone()).collect();
    if met != want {
        let miss: Vec<_> = want.difference(&met).take(3).collect();
        let extra: Vec<_> = met.difference(&want).take(3).collect();
        return Err(format!("walking the children misses {:?} and invents {:?}", miss, extra));
    }
    let ab = absent(&mut rng_of(t), &map, 8);
    check_absent(cx, &o.live, &ab)?;
    cx.sample(t);
    Ok(())
}
/// the combine functions on arbitrary strings
fn c04_combine(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let keys = ["", "a", "a.b", "a[0]", "\"x y\"", "\"\"", ".", "a.\"b.c\"[3].d", "é", "[0]", "\u{0}"];
    let b = if r.pct(60) { r.pick(&keys).to_string() } else { crate::gen::noise(r, 6) };
    let c = if r.pct(60) { r.pick(&keys).to_string() } else { crate::gen::noise(r, 6) };
    let n = *r.one(&[0usize, 1, 9, 10, 99, 12345, usize::MAX]);
    cx.input = format!("{:?} {:?} {}", b, c, n);
    cx.evals += 1;
    cx.seen(&(&b, &c, n));
    let got = guard("combine_keys", || Children::combine_keys(b.as_str(), c.as_str()))?;
    // an empty base names the root
    let want = if b.is_empty() { c.clone() } else { format!("{}.{}", b, c) };
    ensure!(got == want, "combine_keys({:?}, {:?}) is {:?}", b, c, got);
    let got = guard("combine_keys_index", || Children::combine_keys_index(b.as_str(), n))?;
    ensure!(got == format!("{}[{}]", b, n), "combine_keys_index({:?}, {}) is {:?}", b, n, got);
    let ks: Vec<String> = (0..r.below(4)).map(|i| format!("k{}", i)).collect();
    let got = guard("combine_child_keys", || Children::Keys(std::cell::RefCell::new(ks.clone())).combine_child_keys(b.as_str()))?;
    let want: Vec<String> = ks.iter().map(|k| if b.is_empty() { k.clone() } else { format!("{}.{}", b, k) }).collect();
    ensure!(got == want, "combine_child_keys({:?}) on {:?} is {:?}", b, ks, got);
    let m = r.below(5);
    let got = guard("combine_child_keys", || Children::Count(std::cell::Cell::new(m)).combine_child_keys(b.as_str()))?;
    let want: Vec<String> = (0..m).map(|i| format!("{}[{}]", b, i)).collect();
    ensure!(got == want, "combine_child_keys({:?}) on Count({}) is {:?}", b, m, got);
    Ok(())
}

// ---- C09-C12 ---------------------------------------------------------------------------------
fn err_class(cx: &mut Cx, t: &str, cls: usize) -> R {
    let o = observe(cx, t)?;
    if !o.complete(t) || !o.live.res.leftover.is_empty() { return Ok(()); }
    let pairs = match_errors(&o.live.res, &o.model, cls)?;
    for (_, e) in &pairs { cx.hit(CLASS[cls]); cx.seen(&format!("{:?}", o.model.errors[*e].e)); }
    if pairs.is_empty() { cx.hit("documents without such an error"); cx.seen(t); }
    if !pairs.is_empty() { cx.sample(t); }
    // document order of the certain ones
    if cls == 0 || cls == 3 {
        let seq: Vec<usize> = pairs.iter().filter(|(_, e)| !o.model.errors[*e].nested_in_dead).map(|(_, e)| o.model.errors[*e].expr).collect();
        ensure!(seq.windows(2).all(|w| w[0] <= w[1]), "{} reports are not in document order: {:?}", CLASS[cls], o.live.res.errors);
    }
    ensure!(o.live.text()? == t, "the printed text differs from the input");
    // what lookups show
    let map = sem::flatten(&o.model);
    match cls {
        0 => {
            check_values(cx, &o.live, &map)?;
            check_kids(cx, &o.live, &map)?;
        }
        1 => for (_, e) in &pairs {
            if o.model.errors[*e].nested_in_dead { continue; }
            if let SErr::Mixed { key } = &o.model.errors[*e].e {
                if let Some((_, en)) = map.iter().find(|m| m.0 == *key) {
                    let got = o.live.get(key)?;
                    let want = en.val.as_ref().map(|v| v.v.clone());
                    ensure!(got == want, "get_value({:?}) of a mixed array is {} but the document says {}", key, sh(&got), sh(&want));
                    cx.hit("mixed arrays read back by their reported key");
                }
            }
        },
        2 => for (_, e) in &pairs {
            if o.model.errors[*e].nested_in_dead { continue; }
            if let SErr::BadDt { key, text } = &o.model.errors[*e].e {
                if let Some((_, en)) = map.iter().find(|m| m.0 == *key) {
                    let got = o.live.get(key)?;
                    let want = en.val.as_ref().map(|v| v.v.clone());
                    ensure!(got == want, "get_value({:?}) of the invalid datetime {} is {}", key, text, sh(&got));
                    cx.hit("invalid datetimes still retrievable");
                }
            }
        },
        _ => {
            check_values(cx, &o.live, &map)?;
            check_kids(cx, &o.live, &map)?;
            let ab = absent(&mut rng_of(t), &map, 6);
            check_absent(cx, &o.live, &ab)?;
            // keys below an invalid header stay invisible
            for e in &o.model.errors {
                if let SErr::BadTable { key, kvs, .. } = &e.e {
                    for (k, _) in kvs {
                        let p = format!("{}.{}", key, k);
                        if map.iter().all(|m| m.0 != p) { check_absent(cx, &o.live, &[p])?; cx.hit("keys of invalid tables checked invisible"); }
                    }
                }
            }
        },
    }
    Ok(())
}
fn c09(cx: &mut Cx, t: &str) -> R { err_class(cx, t, 0) }
fn c10(cx: &mut Cx, t: &str) -> R {
    err_class(cx, t, 1)?;
    // update each mixed array through its reported key
    let mut o = observe(cx, t)?;
    if !o.complete(t) || !o.live.res.leftover.is_empty() { return Ok(()); }
    let keys: Vec<String> = o.live.res.errors.iter().filter_map(|e| if let crate::libx::LErr::Mixed { key, .. } = e { Some(key.clone()) } else { None }).collect();
    let map = sem::flatten(&o.model);
    for (i, k) in keys.iter().enumerate().take(2) {
        if !map.iter().any(|m| m.0 == *k && m.1.val.is_some()) { continue; }
        let nv = refp::V::Arr(vec![wrap(refp::V::Int(format!("{}", i + 1)))]);
        let ok = o.live.set(k, &nv)?;
        // an enclosing array may have been replaced already
        if i == 0 { ensure!(ok, "set_value({:?}) of a mixed array by its reported key was refused", k); }
        if ok { ensure!(o.live.get(k)? == Some(nv), "set_value({:?}) of a mixed array did not take", k); cx.hit("mixed arrays updated by their reported key"); }
    }
    Ok(())
}
fn c11(cx: &mut Cx, t: &str) -> R { err_class(cx, t, 2) }
fn c12(cx: &mut Cx, t: &str) -> R { err_class(cx, t, 3) }

/// one datetime of chosen fields, in every kind of position
fn g_one_date(r: &mut Rng, _: u64) -> String {
    let bad = r.pct(60);
    let d = refp::show_dt(&crate::gen::dt(r, bad));
    let e = refp::show_dt(&crate::gen::dt(r, !bad));
    match r.below(6) {
        0 => format!("a = {}", d),
        1 => format!("a = [{}, {}]", d, e),
        2 => format!("a = {{ x = {}, y = {} }}", d, e),
        3 => format!("[[t]]\na = {}\n[[t]]\nb = {}", d, e),
        4 => format!("[t.u]\na = [[{}], [{}]]", d, e),
        _ => format!("[[t]]\n[t.v]\na = [{{x = {}}}, {{x = [{}]}}]", d, e),
    }
}

// ---- C13 -------------------------------------------------------------------------------------
fn c13(cx: &mut Cx, t: &str) -> R {
    let o = observe(cx, t)?;
    if !o.clean(t) { return Ok(()); }
    cx.hit("valid documents");
    cx.seen(t);
    for x in &o.doc.exprs { cx.hit(match x.item { Item::Blank => "blank lines", Item::KeyVal { .. } => "key/values", Item::Std(_) => "tables", Item::Aot(_) => "array-of-tables headers" }); }
    ensure!(o.live.res.kind == Kind::Full, "a valid document gives {:?}", o.live.res);
    cx.sample(t);
    Ok(())
}

// ---- C14 -------------------------------------------------------------------------------------
fn c14(cx: &mut Cx, t: &str) -> R {
    let o = observe(cx, t)?;
    let res = &o.live.res;
    if res.leftover.is_empty() {
        if !o.complete(t) { return Ok(()); }
        for cls in 0..4 {
            let pairs = match match_errors(res, &o.model, cls) { Ok(p) => p, Err(_) => { cx.hit("error lists judged elsewhere"); return Ok(()); } };
            for (gi, ei) in pairs {
                let (g, e) = (&res.errors[gi], &o.model.errors[ei]);
                ensure!(g.line() >= e.lines.0 && g.line() <= e.lines.1, "{:?} reports line {} but stands on lines {}-{}", g, g.line(), e.lines.0, e.lines.1);
                ensure!(g.col() == 0, "{:?} reports column {}", g, g.col());
                cx.hit(if e.lines.0 == e.lines.1 { "error lines exact" } else { "error lines within a multi-line construct" });
                cx.seen(&(CLASS[cls], e.lines.0, t.len()));
            }
        }
    } else {
        let start = t.len() - res.leftover.len();
        if start != o.doc.consumed { cx.hit("leftover judged by C15"); return Ok(()); }
        let (a, b) = (refp::line_of(t, start), refp::line_of(t, o.doc.fail_reach.min(t.len())));
        ensure!(res.line >= a && res.line <= b, "Partial reports line {} but the first construct that does not parse is on lines {}-{}", res.line, a, b);
        cx.hit(if a == b { "partial lines exact" } else { "partial lines within a multi-line construct" });
        cx.seen(&("partial", a, t.len()));
    }
    cx.sample(t);
    Ok(())
}
/// multi-line filler, then something wrong
pub fn g_lines(r: &mut Rng, i: u64) -> String {
    let mut s = String::new();
    let nl = if r.pct(40) { "\r\n" } else { "\n" };
    let filler = ["# c\n", "\n", "k# = '''\na\nb'''\n", "k# = \"\"\"\nx\\\n y\n\"\"\"\n", "k# = [\n1,\n # c\n 2\n\n]\n", "k# = [[1,\n2],\n\n[3]]\n", "k# = {a = 1,\n b = [\n\n]}\n", "k# = [ # x\n # y\n\n]\n", "k# = [\"\"\"\n\"\"\",\n'''\n\n''']\n", "k# = 1 # c\n", "[t#]\n", "[[u]]\n", "k# = [{x = '''\n'''}]\n", "k# = []\n", "k# = [\n]\n", "k# = [1,\n#\n]\n"];
    let bads = ["d# = 2000-13-01\n", "d# = [1, 'x']\n", "d# = 1\nd# = 2\n", "[w]\n[w]\nx = 1\n", "d# = [\n\n2000-02-30]\n", "d# = [1,\n\n 'x' ]\n", "d# = {a=1,\na=2}\n", "d# = '''\n'''\nd# = '''\n\n'''\n", "d# = [\n# a\n\n[1,\n'x'],\n\n]\n"];
    let ends = ["", "", "", "x", "x = \n", "y = [1\n2]\n", "y = [\n\n", "z = \"abc\n", "q = '''\n\n", "[a\n", "x = 1 y\n", "x = [1,\n # \n 2,\n", "x = {a = 1\n\n", "x = tru\n", "\u{1}", "a = \"\\q\"\n\n"];
    for k in 0..r.range(1, 8) {
        let l = if r.pct(65) { r.pick(&filler) } else { r.pick(&bads) };
        s += &l.replace('#', "\u{1}").replace("\u{1} ", "# ").replace("\u{1}\n", "#\n").replace('\u{1}', &format!("{}", k));
    }
    s += r.pick(&ends);
    let _ = i;
    if nl == "\r\n" { s.replace('\n', "\r\n") } else { s }
}

// ---- C15 -------------------------------------------------------------------------------------
fn c15(cx: &mut Cx, t: &str) -> R {
    let o = observe(cx, t)?;
    let want = &t[o.doc.consumed..];
    let res = &o.live.res;
    ensure!(res.kind != Kind::Failure, "parse returned Failure for {:?}", t);
    ensure!(res.leftover == want, "leftover is {:?} but the grammar covers everything except {:?} (input {:?})", clip(&res.leftover), clip(want), clip(t));
    let part = matches!(res.kind, Kind::Partial | Kind::PartialError);
    ensure!(part == !want.is_empty(), "result {:?} for leftover {:?}", res.kind, clip(want));
    if part { cx.hit("texts refused at a point"); cx.seen(&(t, o.doc.consumed)); cx.sample(t); } else { cx.hit("texts accepted whole"); cx.seen(t); }
    Ok(())
}
fn clip(s: &str) -> String { let n: String = s.chars().take(80).collect(); n }
/// a line with one token drawn from hostile tokens
pub fn g_token(r: &mut Rng, _: u64) -> String {
    const T: &[&str] = &["01", "+01", "1_", "_1", "1__2", "1.", ".5", "1.e5", "1e", "1e+", "1.5e05", "0x1", "+", "-", "1_000.5_0e1_0", "1._5", "1.5_", "1e1_", "0e0", "-0", "+0.0", "00.5", "0_1",
        "2000-1-01", "2000-01-1", "20000-01-01", "2000-01-01T", "2000-01-01T00:00", "2000-01-01T00:00:00.", "2000-01-01T00:00:00.5z", "2000-01-01t00:00:00", "2000-01-01 00:00:00", "2000-01-01T00:00:00+1:00", "2000-01-01T00:00:00+0100", "٢000-01-01", "2000-01-01T0٠:00:00", "12:00:00",
        "tru", "True", "TRUE", "falsey", "false", "inf", "nan", "+inf", "\"abc", "\"a\tb\"", "'a\tb'", "\"\\q\"", "\"\\u12G4\"", "\"\\u123\"", "\"\\uABCD\"", "\"\\uabcd\"", "\"\\U0010FFFF\"", "\"\\U0010ffff\"", "\"\\UGGGGGGGG\"", "\"\\u ZZZ\"", "\"\\uZZZZ\"", "'a'b'", "\"a\"b\"", "\"\u{7f}\"", "\"\u{10ffff}\"", "'\u{1f600}'", "\"\u{0}\"", "'\u{1f}'",
        "\"\"\"a\"\"\"\"", "\"\"\"\"a\"\"\"", "\"\"\"a\\\n  b\"\"\"", "\"\"\"a\\ \nb\"\"\"", "\"\"\"\\t\"\"\"", "\"\"\"\t\"\"\"", "'''\t'''", "'''a''''", "'''a''b'''", "\"\"\"a\"\"b\"\"\"", "\"\"\"\\\"\"\"\"", "'''\u{10ffff}'''", "\"\"\"a\rb\"\"\"", "'''a\rb'''", "'''a\nb", "\"\"", "''", "\"\"\"\"\"\"", "''''''", "\"\"\"\"\"", "'''''",
        "[1 2]", "[1,,2]", "[,1]", "[,]", "[1,]", "[1\n,2]", "[1 # c\n,2]", "[1,2", "[[1],[2]", "[1,#c\n2]", "[ # c\n]", "[1]]", "[a]", "[a=1]", "[1, 2 3]", "[\n1\n]", "[\"a\" \"b\"]", "[[1][2]]", "[{a=1}{b=2}]", "['a''b']",
        "{}", "{ }", "{a}", "{a=}", "{a=1,}", "{,}", "{a=1 b=2}", "{a=1,,b=2}", "{a=1\n}", "{\na=1}", "{a=1,\nb=2}", "{a.b=1}", "{\"a\"=1}", "{a=1,b={c=[{}]}}", "{a=1", "{[a]=1}", "{a=1}}", "{a='x'b=2}", "{a=1, b=2 c=3}", "{a=1 # c\n}", "{a=1, # c\n}",
        "", "#", "=", ",", "1 2", "1,", "1;", "a", "\\", "\u{feff}1", "\u{a0}1", "1\u{a0}", "1 \u{b}", "1 # ok\t", "1 # \u{1}", "1 # \u{7f}\u{10ffff}", "1#x", "\"a\"#x", "true#x", "[1]#x"];
    const KEYS: &[&str] = &["a", "a.b", "\"a\"", "'a'", "", "\"\"", "a b", "é", "\"é\"", "-", "_", "1", "\"a\nb\"", "\"a\\qb\"", "\"\\u00e9\"", "\"\\u00E9\"", "\"\\u0g00\"", "\"\u{10ffff}\"", "\"\t\"", "\"a\"b", "a\"b\"", "[a", "a]", "#", "$", "$Root$"];
    const H: &[&str] = &["[a]", "[ a ]", "[a.b]", "[a . b]", "[a..b]", "[.a]", "[a.]", "[]", "[[]]", "[[a]]", "[[ a . \"b\" ]]", "[[a]", "[a]]", "[ [a] ]", "[[a] ]", "[a b]", "['a']", "[\"a\"]", "[\"\"]", "[a]b", "[a] # c", "[a]#c", "[a]\t", "[a\n]", "[a", "[[a", "[é]", "[\"é\"]", "[a]=1", "[[a]]b=1", "[a#b]", "[[a]]]", "[\"\u{10ffff}\"]", "[\"\\u00fg\"]", "[\t]"];
    let mut s = String::new();
    if r.pct(30) { s += "x = 1\n"; }
    let line = match r.below(10) {
        0..=5 => format!("{}{}={}{}", r.pick(&["a", "k", "\"q\""]), r.pick(&["", " ", "\t"]), r.pick(&["", " ", "\t "]), r.pick(T)),
        6 => format!("{} = {}", r.pick(KEYS), r.pick(&["1", "true", "'x'", "[]"])),
        7 | 8 => r.pick(H).to_string(),
        _ => format!("k = [{}, {}]", r.pick(T), r.pick(T)),
    };
    s += &line;
    match r.below(5) { 0 => s += "\nz = 3\n", 1 => s += "\r\n", 2 => s += "\n", 3 => s += "\r", _ => {} }
    s
}

pub fn all() -> Vec<Prop> {
    let nc = n_corpus();
    let small3 = small_total(3);
    let pc = pieces_total(3);
    let nt = near_total();
    let p = |id, stages, rule, assumptions| Prop { id, stages, rule, assumptions, probes: vec![] };
    vec![
        p("C01", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c01),
            st("corpus", nc, nc, g_corpus, c01), st("valid", 6000, 200_000, g_valid, c01), st("errors", 4000, 150_000, g_errors, c01),
            st("mutant", 9000, 400_000, g_mutant, c01), st("noise", 8000, 300_000, g_noise, c01), st("token", 4000, 100_000, g_token, c01), st("near", 15_000, 150_000, g_near_some, c01), st("near_far", 3000, 100_000, g_near_far, c01), st("pieces", pc, pc, g_pieces, c01),
        ], "texts from generators (valid, erroneous, edited, hostile, short exhaustive); non-trivial: a distinct text whose printed form plus leftover was compared byte for byte", &[]),
        p("C03", vec![
            st("large", 60, 2000, g_large_ok, c03),
            st("corpus", nc, nc, g_corpus, c03), st("valid", 9000, 400_000, g_valid, c03), st("tables", 7000, 300_000, g_tables, c03), st("ladder", 3000, 200_000, g_ladder_ok, c03), st("small", small3, small_total(4), g_small, c03),
        ], "documents that obey every rule; non-trivial: a distinct (path, value written there) whose lookup was compared", &[]),
        p("C04", vec![
            st("large", 60, 2000, g_large_ok, c04),
            st("corpus", nc, nc, g_corpus, c04), st("valid", 6000, 300_000, g_valid, c04), st("tables", 9000, 400_000, g_tables, c04), st("ladder", 3000, 200_000, g_ladder_ok, c04), st("small", small3, small_total(4), g_small, c04),
            Stage { name: "combine", quick: 20_000, thorough: 400_000, run: Run::Free(c04_combine) },
        ], "documents that obey every rule, walked through the combine functions; non-trivial: a distinct (path, expected children) whose listing was compared, or distinct arguments of a combine function", &[]),
        p("C09", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c09),
            st("corpus", nc, nc, g_corpus, c09), st("dups", 12_000, 400_000, g_dups, c09), st("errors", 6000, 300_000, g_errors, c09), st("ladder", 5000, 300_000, g_ladder, c09), st("valid", 2000, 60_000, g_valid, c09), st("small", small3, small_total(4), g_small, c09),
        ], "syntactically complete documents; non-trivial: a distinct expected DuplicateKey that was matched, or a distinct document shown to have none", &[]),
        p("C10", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c10),
            st("corpus", nc, nc, g_corpus, c10), st("mixed", 12_000, 300_000, g_mixed, c10), st("errors", 5000, 200_000, g_errors, c10), st("valid", 2000, 60_000, g_valid, c10),
        ], "syntactically complete documents; non-trivial: a distinct expected MixedArray that was matched, or a distinct document shown to have none", &[]),
        p("C11", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c11),
            st("corpus", nc, nc, g_corpus, c11), st("dates", 9000, 300_000, g_dates, c11), st("one", 9000, 300_000, g_one_date, c11), st("errors", 4000, 200_000, g_errors, c11), st("valid", 2000, 60_000, g_valid, c11),
        ], "syntactically complete documents; non-trivial: a distinct expected InvalidDateTime that was matched, or a distinct document shown to have none", &[]),
        p("C12", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c12),
            st("corpus", nc, nc, g_corpus, c12), st("headers", 12_000, 400_000, g_headers, c12), st("errors", 4000, 200_000, g_errors, c12), st("tables", 4000, 100_000, g_tables, c12), st("ladder", 4000, 300_000, g_ladder, c12),
            st("small", small3, small_total(5), g_small, c12), st("small_long", 8000, 300_000, g_small_long, c12),
        ], "header sequences: all of length up to 3 over 15 line forms, longer ones sampled; non-trivial: a distinct expected InvalidTable (path and contents) that was matched, or a distinct document shown to have none", &["the rule that a standard table with own key/values takes no direct sub-tables is the dialect pinned by the repository's tests"]),
        p("C13", vec![
            st("large", 60, 2000, g_large_ok, c13),
            st("corpus", nc, nc, g_corpus, c13), st("valid", 12_000, 500_000, g_valid, c13), st("tables", 6000, 300_000, g_tables, c13), st("ladder", 3000, 200_000, g_ladder_ok, c13), st("mutant", 5000, 200_000, g_mutant, c13), st("small", small3, small_total(4), g_small, c13), st("token", 3000, 60_000, g_token, c13), st("near", 15_000, 150_000, g_near_some, c13),
        ], "documents the reference grammar and rules accept; non-trivial: a distinct such document", &[]),
        p("C14", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c14),
            st("corpus", nc, nc, g_corpus, c14), st("lines", 12_000, 400_000, g_lines, c14), st("errors", 6000, 300_000, g_errors, c14), st("ladder", 2000, 100_000, g_ladder, c14), st("mutant", 6000, 200_000, g_mutant, c14),
        ], "documents with errors or a leftover; non-trivial: a distinct (error class, line, document) whose reported line was compared", &[]),
        p("C15", vec![
            st("large", LARGE * 4, LARGE * 80, g_large, c15),
            st("corpus", nc, nc, g_corpus, c15), st("token", 12_000, 300_000, g_token, c15), st("mutant", 12_000, 500_000, g_mutant, c15), st("noise", 8000, 300_000, g_noise, c15),
            st("near", nt, nt, g_near, c15), st("near_far", 6000, 400_000, g_near_far, c15), st("pieces", pc, pieces_total(4), g_pieces, c15), st("pieces_val", pc, pieces_total(4), g_pieces_val, c15), st("valid", 2000, 100_000, g_valid, c15),
        ], "arbitrary texts; non-trivial: a distinct text together with the point up to which the grammar covers it", &[]),
    ]
}
pub fn kids_len(k: &Kids) -> usize { match k { Kids::Count(n) => *n, Kids::Keys(v) => v.len() } }
