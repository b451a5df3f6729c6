//! What the document monitors share: generators by theme, one joint observation of a text by the
//! reference side and the library, and comparisons.
use crate::cx::{Cx, R};
use crate::ensure;
use crate::gen::{self, Opts};
use crate::libx::{self, Kind, LErr, Live, Res};
use crate::refp::{self, Val, V};
use crate::rng::Rng;
use crate::sem::{self, Kids, Map, Model, SErr};
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

pub fn corpus() -> &'static Vec<(String, String)> {
    static C: OnceLock<Vec<(String, String)>> = OnceLock::new();
    C.get_or_init(gen::corpus)
}

// ---- document generators ---------------------------------------------------------------------
pub fn vary(r: &mut Rng) -> Opts {
    let mut o = Opts::default();
    match r.below(8) {
        0 => { o.headers = 60; o.depth = 1; o.wild = 10; o.small_pool = true; o.stmts = (3, 18) }
        1 => { o.headers = 0; o.depth = 4; o.stmts = (1, 4); o.multiline = 60 }
        2 => { o.scalars_only = true; o.wild = 70; o.stmts = (1, 12) }
        3 => { o.crlf = 100 }
        4 => { o.small_pool = true; o.headers = 40; o.crlf = 0 }
        5 => { o.big_strings = true; o.stmts = (1, 5) }
        _ => {}
    }
    o
}
/// obeys every rule by construction
pub fn g_valid(r: &mut Rng, _: u64) -> String { let o = vary(r); gen::doc(r, &o).text }
/// many tables, arrays of tables and sub-tables, short values
pub fn g_tables(r: &mut Rng, _: u64) -> String {
    let o = Opts { headers: 65, depth: 1, wild: 12, small_pool: r.pct(70), stmts: (3, 22), crlf: 10, scalars_only: r.pct(70), ..Opts::default() };
    gen::doc(r, &o).text
}
/// syntactically complete, with semantic errors of every kind
pub fn g_errors(r: &mut Rng, _: u64) -> String {
    let mut o = vary(r);
    o.stmts.1 = o.stmts.1.max(6);
    if r.pct(70) { o.dup = 25; }
    if r.pct(50) { o.mixed = 30; }
    if r.pct(50) { o.bad_dt = 35; }
    if r.pct(45) { o.free_headers = 50; o.small_pool = true; o.headers = o.headers.max(40); }
    if r.pct(40) { o.dup_inline = 25; }
    gen::doc(r, &o).text
}
pub fn g_dups(r: &mut Rng, _: u64) -> String {
    let mut o = vary(r);
    o.dup = 40; o.small_pool = r.pct(70); o.stmts = (2, 16); o.dup_inline = 30;
    if r.pct(30) { o.mixed = 30; }
    if r.pct(30) { o.bad_dt = 30; }
    gen::doc(r, &o).text
}
pub fn g_mixed(r: &mut Rng, _: u64) -> String {
    let mut o = vary(r);
    o.mixed = 35; o.scalars_only = false; o.depth = 4; o.stmts = (1, 6);
    if r.pct(30) { o.dup = 20; }
    if r.pct(30) { o.bad_dt = 40; }
    gen::doc(r, &o).text
}
pub fn g_dates(r: &mut Rng, _: u64) -> String {
    let o = Opts { bad_dt: 50, depth: 2, stmts: (1, 10), wild: 20, dup: if r.pct(20) { 15 } else { 0 }, ..Opts::default() };
    let g = gen::doc(r, &o);
    let mut t = g.text;
    // make datetimes frequent
    for i in 0..r.range(1, 5) {
        let bad = r.pct(50);
        let d = refp::show_dt(&gen::dt(r, bad));
        let line = match r.below(3) { 0 => format!("dt{} = {}\n", i, d), 1 => format!("dt{} = [{}, {}]\n", i, d, refp::show_dt(&gen::dt(r, !bad))), _ => format!("dt{} = {{ x = {} , y=1 }}\n", i, d) };
        if r.pct(50) { t = line + &t; } else { if !t.ends_with('\n') { t += "\n"; } t += &line; }
    }
    t
}
/// header sequences, mostly clashing
pub fn g_headers(r: &mut Rng, _: u64) -> String {
    let o = Opts { headers: 60, free_headers: *r.one(&[30, 60, 100]), depth: 1, wild: 8, small_pool: true, stmts: (2, 14), crlf: 5, dup: 8, scalars_only: r.pct(80), bad_dt: if r.pct(20) { 20 } else { 0 }, ..Opts::default() };
    gen::doc(r, &o).text
}
/// Deep chains of arrays of tables and tables over few names: elements are repeated at every level,
/// each position of the tree keeps its kind (mostly), and the keys of all tables coincide.
fn ladder(r: &mut Rng, ok: bool) -> String {
    let names = ["a", "b", "c"];
    let keys = ["x", "y", "a"];
    let depth = r.range(2, 6);
    let width = r.range(1, 2);
    let aots = *r.one(&[30usize, 60, 90]);
    let (vals, stay) = (r.range(0, 3), *r.one(&[30usize, 60, 85]));
    let mut kinds: HashMap<Vec<usize>, bool> = HashMap::new();
    let mut t = String::new();
    let mut path: Vec<usize> = vec![];
    for step in 0..r.range(3, 16) {
        let mut piece = String::new();
        if step > 0 || r.pct(80) {
            // move: one level down, the same level again, or some levels up
            let up = if r.pct(stay) { 0 } else { r.range(0, path.len()) };
            for _ in 0..up { path.pop(); }
            if path.is_empty() || (path.len() < depth && r.pct(55)) { path.push(r.below(width)); if r.pct(20) && path.len() < depth { path.push(r.below(width)); } }
            let odd = !ok && r.pct(8);
            let array = *kinds.entry(path.clone()).or_insert_with(|| r.pct(aots)) ^ odd;
            let h = path.iter().map(|i| names[*i]).collect::<Vec<_>>().join(".");
            piece.push_str(&if array { format!("[[{}]]\n", h) } else { format!("[{}]\n", h) });
        }
        for _ in 0..vals {
            let k = *r.one(&keys);
            let v = match r.below(8) { 0 => "[1,2]".to_string(), 1 => "{x=1,y=2}".to_string(), 2 => "\"s\"".into(), _ => r.below(4).to_string() };
            piece.push_str(&format!("{}={}\n", k, v));
        }
        if ok {
            // keep what is free of errors, line by line
            for l in piece.lines() {
                let c = format!("{}{}\n", t, l);
                if sem::eval(&c, &refp::parse(&c)).errors.is_empty() { t = c; } else if l.starts_with('[') { break; }
            }
        } else { t.push_str(&piece); }
    }
    t
}
pub fn g_ladder(r: &mut Rng, _: u64) -> String { ladder(r, false) }
pub fn g_ladder_ok(r: &mut Rng, _: u64) -> String { ladder(r, true) }
/// edits of valid documents
pub fn g_mutant(r: &mut Rng, i: u64) -> String {
    let a = if r.pct(25) { let c = corpus(); let t = &c[r.below(c.len())].1; if t.len() > 1500 { cut(r, t, 600) } else { t.clone() } } else if r.pct(30) { g_errors(r, i) } else { g_valid(r, i) };
    let a = if a.len() > 900 { cut(r, &a, 600) } else { a };
    let b = g_valid(r, i);
    let n = *r.one(&[1, 1, 1, 2, 3, 6]);
    gen::mutate(r, &a, &b, n)
}
fn cut(r: &mut Rng, t: &str, n: usize) -> String {
    let lines: Vec<&str> = t.split_inclusive('\n').collect();
    let st = r.below(lines.len());
    let mut s = String::new();
    for l in &lines[st..] { if s.len() + l.len() > n { break; } s += l; }
    s
}
pub fn g_noise(r: &mut Rng, _: u64) -> String {
    match r.below(3) {
        0 => gen::noise(r, 40),
        1 => format!("a = {}", gen::noise(r, 20)),
        _ => { let mut t = g_valid(r, 0); t.truncate(gen::floor_char(&t, 200)); t + &gen::noise(r, 12) }
    }
}
/// the repository's example documents, in order
pub fn g_corpus(_: &mut Rng, i: u64) -> String { let c = corpus(); c[i as usize % c.len()].1.clone() }
/// the example documents of this size or less
pub fn n_corpus() -> u64 { corpus().len() as u64 }

// ---- documents with one very large dimension --------------------------------------------------
/// how many of something: around the limits of small counters
fn many(r: &mut Rng) -> usize { let k = r.below(12); match k { 0 => 255, 1 => 256, 2 => 257, 3 => 65, 4 => 129, 5 => r.range(60, 140), 6 => r.range(513, 530), 7 => r.range(1020, 1030), _ => r.range(240, 330) } }
/// the same with strings, comments and blank lines, which are cheap
fn very_many(r: &mut Rng) -> usize { match r.below(6) { 0 => r.range(250, 260), 1 => r.range(65_530, 65_540), 2 => r.range(32_760, 32_770), 3 => r.range(1000, 1100), 4 => r.range(4090, 4100), _ => r.range(8000, 20_000) } }
pub const LARGE: u64 = 27;
/// one dimension (elements, keys, tables, errors, lines, lengths, header depth) is large; `i` picks which
pub fn g_large(r: &mut Rng, i: u64) -> String { large_doc(r, i, false) }
fn large_doc(r: &mut Rng, i: u64, ok: bool) -> String {
    // every kind of document is drawn beyond a thousand, too
    let n = if i / LARGE == 1 { r.range(1001, 1040) } else { many(r) };
    let nl = if r.pct(15) { "\r\n" } else { "\n" };
    // and line counts beyond sixteen bits
    let lines_n = |r: &mut Rng| if i / LARGE == 2 { r.range(65_530, 65_545) } else { very_many(r) / 8 };
    let sc = |r: &mut Rng, i: usize| match r.below(6) { 0 => format!("\"s{}\"", i), 1 => "true".to_string(), 2 => format!("{}.5", i), 3 => "2000-01-01".into(), _ => format!("{}", i) };
    let lines = |f: &mut dyn FnMut(usize) -> String| (0..n).map(|i| f(i) + nl).collect::<String>();
    let body = match i % LARGE {
        0 => { let sep = *r.one(&[",", ", ", ",\n", ", # c\n "]); format!("a = [{}]{}", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(sep), nl) }
        1 => lines(&mut |i| format!("[[t]]{}x = {}", nl, i)),
        2 => lines(&mut |i| format!("k{} = {}", i, sc(r, i))),
        3 => lines(&mut |i| format!("[t{}]{}x = {}", i, nl, i)),
        4 => format!("a = {{{}}}{}", (0..n).map(|i| format!("k{} = {}", i, sc(r, i))).collect::<Vec<_>>().join(", "), nl),
        5 => format!("a = 0{}{}", nl, lines(&mut |i| format!("a = {}", i))),
        6 => format!("[a]{}x = 0{}{}", nl, nl, lines(&mut |i| format!("[a]{}b = {}{}c = {}", nl, i, nl, sc(r, i)))),
        7 => lines(&mut |i| format!("k{} = [{}, 'x']", i, i)),
        8 => lines(&mut |i| format!("k{} = 2001-02-{}", i, 29 + i % 5)),
        9 => { let m = r.range(2, 5); (0..n / 4 + 1).map(|i| format!("[[a]]{}{}", nl, (0..m).map(|j| format!("[[a.b]]{}x = {}{}", nl, i * 10 + j, nl)).collect::<String>())).collect() }
        10 => format!("[t]{}", nl) + &lines(&mut |i| format!("[t.s{}]{}x = {}", i, nl, i)),
        11 => { let m = n.min(300); let h = vec!["a"; m].join("."); format!("[{}]{}k = 1{}[{}.b]{}k = 2{}", h, nl, nl, vec!["b"; m].join(" . "), nl, nl) }
        12 => format!("a = [{}]{}", (0..n).map(|i| format!("{{x = {}, y = [{}]}}", i, i)).collect::<Vec<_>>().join(", "), nl),
        13 => format!("a = [{}]{}", (0..n).map(|i| format!("[{}, {}]", i, i + 1)).collect::<Vec<_>>().join(", "), nl),
        14 => { let m = very_many(r); format!("{} = \"{}\"{}", "k".repeat(m), "é".repeat(m), nl) }
        15 => { let m = very_many(r); format!("a = \"{}\"{}b = '{}'{}", "\\n\\u00e9".repeat(m / 4), nl, "x".repeat(m), nl) }
        16 => { let m = very_many(r); format!("a = 1{}\n#{}{}b = 2{}", " ".repeat(m), "c".repeat(m), nl, nl) }
        17 => { let m = very_many(r); format!("a = 1{}{}b = {}.{}{}", "2".repeat(m), nl, "3".repeat(m), "4".repeat(m), nl) }
        18 => { let m = lines_n(r); format!("a = {}{}{}{}{}a = 2{}", "'''", format!("x{}", nl).repeat(m), "'''", nl, "", nl) }
        19 => { let m = lines_n(r); format!("a = \"\"\"{}\"\"\"{}b = 2000-01-32{}", format!("{}", nl).repeat(m), nl, nl) }
        20 => { let m = lines_n(r); format!("a = [1,{}2]{}a = 2{}", format!("{}", nl).repeat(m), nl, nl) }
        21 => {
            // long blocks of comments, at each place that takes them
            let m = if r.pct(50) { r.range(10, 60) } else { many(r) };
            let c = (0..m).map(|i| format!("# c{}{}{}", i, nl, if i % 3 == 0 { nl } else { "" })).collect::<String>();
            let mut at = ["", "", "", "", "", ""];
            at[r.below(6)] = &c;
            at[r.below(6)] = &c;
            format!("{}b = [{}1,{}2{}]{}c = {{x = 1,{}y = [2] {}}}{}a = 1{}a = 2{}", at[0], at[1], at[2], at[3], nl, at[4], at[5], nl, nl, nl)
        }
        22 => { let m = if i / LARGE == 2 { 65_540 } else { many(r) }; format!("{}a = 1 x{}", format!("{}", nl).repeat(m), nl) }
        23 => { let m = very_many(r).min(9000); format!("a = 2000-01-01T00:00:00.{}Z{}b = 2000-01-01T00:00:60.{}{}", "7".repeat(m), nl, "1".repeat(m), nl) }
        25 => {
            // containers deep inside each other
            let (mut v, mut w) = (if ok { sc(r, 7) } else { "2000-02-30".to_string() }, "1".to_string());
            let kind = r.below(3);
            for j in 0..r.range(12, 40) {
                (v, w) = if kind == 0 || (kind == 2 && r.pct(50)) {
                    let pre = if !r.pct(30) { "" } else if v.starts_with('[') { "[], " } else if v.starts_with('{') { "{}, " } else { "" };
                    (format!("[{}{}]", pre, v), format!("[{} ]", w))
                } else { (format!("{{k{} = {}}}", j % 3, v), format!("{{ x = {} , y = 0 }}", w)) };
            }
            format!("a = {}{}b = [{}]{}", v, nl, w, nl)
        }
        24 => format!("a = [{}, 'x']{}", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", "), nl),
        _ => format!("a = {{{}, k0 = 5}}{}", (0..n).map(|i| format!("k{} = {}", i, i)).collect::<Vec<_>>().join(", "), nl),
    };
    // something before and after it, so that places and counters are not those of a lone construct
    let pre = match r.below(4) { 0 => format!("first = 'x'{}", nl), 1 => format!("first = [1, [2]]{}# c{}", nl, nl), _ => String::new() };
    let post = match r.below(6) { 1 | 2 if ok => String::new(), 0 => format!("[last]{}x = {{y = 1}}{}", nl, nl), 1 => format!("[last]{}x = 2000-02-30{}", nl, nl), 2 => format!("[last]{}x = 1{}x = 2{}", nl, nl, nl), _ => String::new() };
    pre + &body + &post
}
/// the ones that obey every rule
pub fn g_large_ok(r: &mut Rng, i: u64) -> String {
    const OK: [u64; 16] = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 25, 0];
    large_doc(r, OK[(i % 16) as usize], true)
}

/// every sequence of up to 4 header/key lines over a small vocabulary, by index
const LINES: &[&str] = &["[a]", "[b]", "[a.b]", "[a.b.c]", "[[a]]", "[[a.b]]", "[[b]]", "[a.a]", "[[a.b.c]]", "a = 1", "b = 2", "c = 3", "[[a.a]]", "b = [1]", "b = {c = 1}"];
pub fn small_total(n: u32) -> u64 { (1..=n).map(|k| (LINES.len() as u64).pow(k)).sum() }
pub fn small_doc(mut i: u64) -> String {
    let b = LINES.len() as u64;
    let mut k = 1;
    while i >= b.pow(k) { i -= b.pow(k); k += 1; }
    let mut v = vec![];
    for _ in 0..k { v.push(LINES[(i % b) as usize]); i /= b; }
    v.join("\n")
}
pub fn g_small(_: &mut Rng, i: u64) -> String { small_doc(i) }
/// a sample of the longer sequences
pub fn g_small_long(r: &mut Rng, _: u64) -> String { let n = r.range(4, 9); (0..n).map(|_| *r.one(LINES)).collect::<Vec<_>>().join("\n") }

/// every string of up to n pieces over a lexical vocabulary, by index
pub const PIECES: &[&str] = &["a", "=", "1", "\"", "'", "[", "]", "{", "}", ",", "\n", "#", ".", "\\", " ", "-", "_", "e", "true", "\r\n", "0", "\t"];
pub fn pieces_total(n: u32) -> u64 { (0..=n).map(|k| (PIECES.len() as u64).pow(k)).sum() }
pub fn pieces(mut i: u64) -> String {
    let b = PIECES.len() as u64;
    let mut k = 0;
    while i >= b.pow(k) { i -= b.pow(k); k += 1; }
    let mut s = String::new();
    for _ in 0..k { s += PIECES[(i % b) as usize]; i /= b; }
    s
}
pub fn g_pieces(_: &mut Rng, i: u64) -> String { pieces(i) }
/// the same pieces, placed where a value is expected
pub fn g_pieces_val(_: &mut Rng, i: u64) -> String { format!("a={}", pieces(i)) }

/// lines that between them use every token shape of the grammar
pub const SHAPES: &[&str] = &[
    "d = 1979-05-27", "d = 1979-05-27T07:32:09", "d = 1979-05-27T07:32:09Z", "d = 1979-05-27T07:32:09.999-08:15", "d = 2000-02-29T23:59:59.1+23:59 # c", "d = [1979-05-27T07:32:09.5Z, 1980-01-02]",
    "i = 0", "i = +99", "i = -1_000", "i = 12345", "f = 3.14", "f = -0.01", "f = 5e22", "f = +6.62_6e-3_4", "f = 1_0.0E+1_2", "f = 0e0",
    "b = true", "b = false # no", "b = [true, false]",
    "s = \"a b\"", "s = \"\\t\\\"\\\\\\u00E9\"", "s = \"\\U0001F600z\"", "s = \"\"", "s = \"\"\"a\nb\"\"\"", "s = \"\"\"x\\\n  y\\n\\u00e9\"\"\"", "s = 'it is'", "s = ''", "s = '''a 'b'\n\tc'''", "s = '\u{e9}\u{1f600}'", "s = \"\u{e9}\u{1f600}\"",
    "a = []", "a = [ ]", "a = [1,2]", "a = [ 1 , 2, ]", "a = [\n1, # c\n2\n]", "a = [[1], [\"x\", 'y']]", "a = [ # c\n # d\n]", "a = [{x = 1}, {}]",
    "t = {}", "t = { }", "t = {x=1}", "t = { x = 1, \"y z\" = 'w' }", "t = {x = {y = [1]}}", "t = {x = 1,\n y = 2 # c\n}", "t = {x = 1, }",
    "[a]", "[ a . b ]", "[a.\"b c\".d] # e", "[[a]]", "[[ a . b-1 ]]", "[[\"q\"]] # e",
    "# comment", " \t# c\u{e9}\t", "", " ", "k=1", "k-_9\t=\t1\t# c", "\"q k\" = 1", "\"\\u00E9\\n\" = 1", "12 = 3", "a = 1\r\nb = 2\r\n",
];
const SUBS: &[&str] = &[
    "!", "$", "%", "&", "(", ")", "*", "/", ";", "<", ">", "?", "@", "^", "`", "|", "~", "A", "G", "g", "b", "n", "u", "U", "r",
    "0", "1", "9", "a", "F", "e", "t", "T", "z", "Z", "_", "-", "+", ".", ":", ",", "=", "#", "\"", "'", "\\", "[", "]", "{", "}", " ", "\t", "\n", "\r", "\r\n",
    "\u{0}", "\u{b}", "\u{c}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{e9}", "\u{661}", "\u{ff11}", "\u{1d7ce}", "\u{2028}", "\u{3000}", "\u{ff0d}", "\u{430}", "\u{200b}", "\u{feff}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\"\"\"", "'''",
];
/// per shape: every character replaced by and preceded by every substitute, deleted, doubled, swapped, and the text cut there
pub fn near_ops() -> u64 { 2 * SUBS.len() as u64 + 4 }
pub fn near_total() -> u64 { SHAPES.iter().map(|s| (s.chars().count() as u64 + 1) * near_ops()).sum() }
/// one edit of one shape
pub fn near(mut i: u64) -> String {
    i %= near_total();
    for s in SHAPES {
        let n = (s.chars().count() as u64 + 1) * near_ops();
        if i >= n { i -= n; continue; }
        let c: Vec<char> = s.chars().collect();
        return edit(&c, (i / near_ops()) as usize, i % near_ops());
    }
    String::new()
}
/// edit `c` at `at` by operation `op`
pub fn edit(c: &[char], at: usize, op: u64) -> String {
    let n = SUBS.len() as u64;
    let mut out: String = c[..at.min(c.len())].iter().collect();
    let rest = &c[at.min(c.len())..];
    let (one, more) = if rest.is_empty() { (rest, rest) } else { rest.split_at(1) };
    let put = |o: &mut String, x: &[char]| o.extend(x.iter());
    match op {
        o if o < n => { out += SUBS[o as usize]; put(&mut out, more); }
        o if o < 2 * n => { out += SUBS[(o - n) as usize]; put(&mut out, rest); }
        o if o == 2 * n => put(&mut out, more),
        o if o == 2 * n + 1 => { put(&mut out, one); put(&mut out, rest); }
        o if o == 2 * n + 2 => { if more.is_empty() { put(&mut out, rest); } else { put(&mut out, &more[..1]); put(&mut out, one); put(&mut out, &more[1..]); } }
        _ => {}
    }
    out
}
pub fn any_edit(r: &mut Rng, t: &str) -> String { let c: Vec<char> = t.chars().collect(); edit(&c, r.below(c.len() + 1), r.below(near_ops() as usize) as u64) }
pub fn g_near(_: &mut Rng, i: u64) -> String { near(i) }
/// a sample of the same edits
pub fn g_near_some(r: &mut Rng, _: u64) -> String { near(r.u64() % near_total()) }
/// several edits, or one edit between two other lines
pub fn g_near_far(r: &mut Rng, _: u64) -> String {
    let mut t = r.pick(SHAPES).to_string();
    for _ in 0..*r.one(&[1, 2, 2, 3]) { t = any_edit(r, &t); }
    match r.below(4) { 0 => format!("z0 = 0\n{}\nz9 = 9\n", t), 1 => format!("[z]\r\n{}\r\n[z.z]", t), 2 => format!("{}\n{}", r.pick(SHAPES), t), _ => t }
}

// ---- joint observation -----------------------------------------------------------------------
pub struct Obs<'a> { pub doc: refp::Doc, pub model: Model, pub live: Live<'a> }
pub fn observe<'a>(cx: &mut Cx, text: &'a str) -> Result<Obs<'a>, String> {
    let doc = refp::parse(text);
    let model = sem::eval(text, &doc);
    let live = Live::parse(text)?;
    cx.evals += 1;
    cx.hit(match live.res.kind { Kind::Full => "result Full", Kind::FullError => "result FullError", Kind::Partial => "result Partial", Kind::PartialError => "result PartialError", Kind::Failure => "result Failure" });
    Ok(Obs { doc, model, live })
}
impl<'a> Obs<'a> {
    pub fn complete(&self, text: &str) -> bool { self.doc.consumed == text.len() }
    pub fn clean(&self, text: &str) -> bool { self.complete(text) && self.model.errors.is_empty() }
}

/// keys near the defined ones that the document does not define
pub fn absent(r: &mut Rng, map: &Map, n: usize) -> Vec<String> {
    let have: HashSet<&str> = map.iter().map(|e| e.0.as_str()).collect();
    let mut out = vec![];
    for _ in 0..n {
        let k = &map[r.below(map.len())].0;
        let c = match r.below(14) {
            0 => sem::join(k, "zz"),
            1 => format!("{}[0]", k),
            2 => { if let Some(i) = k.rfind('[') { format!("{}[{}]", &k[..i], r.below(9)) } else { format!("{}[{}]", k, r.below(5)) } }
            3 => { let mut t = k.clone(); t.pop(); t }
            4 => format!("\"{}\"", k),
            5 => k.replace('"', ""),
            6 => k.replacen('.', "", 1),
            7 => format!(" {}", k),
            8 => format!("{} ", k),
            9 => k.to_uppercase(),
            10 => { if let Some(i) = k.find('.') { k[i + 1..].to_string() } else { format!("{}.", k) } }
            11 => { if let Some(i) = k.find('[') { let j = k[i..].find(']').map(|j| i + j + 1).unwrap_or(k.len()); format!("{}{}", &k[..i], &k[j..]) } else { format!("{}[-1]", k) } }
            12 => format!("{}.{}", k, gen::any_key(r, true)),
            _ => k.replace('[', ".").replace(']', ""),
        };
        if !c.is_empty() && c != "$Root$" && !have.contains(c.as_str()) { out.push(c); }
    }
    out
}

/// every lookup of `map` against the live parser
pub fn check_values(cx: &mut Cx, live: &Live, map: &Map) -> R {
    for (k, e) in map {
        let got = live.get(k)?;
        let want = e.val.as_ref().map(|v| v.v.clone());
        if want.is_some() { cx.hit("value lookups"); cx.seen(&(k, format!("{:?}", want))); } else { cx.hit("table lookups"); }
        ensure!(got == want, "get_value({:?}) is {} but the document says {}", k, sh(&got), sh(&want));
    }
    Ok(())
}
pub fn check_kids(cx: &mut Cx, live: &Live, map: &Map) -> R {
    for (k, e) in map {
        let got = live.kids(k)?;
        cx.hit("children listings");
        cx.seen(&(k, format!("{:?}", e.kids)));
        ensure!(got.as_ref() == Some(&e.kids), "get_children({:?}) is {:?} but the document says {:?}", k, got, e.kids);
    }
    Ok(())
}
pub fn check_absent(cx: &mut Cx, live: &Live, keys: &[String]) -> R {
    for k in keys {
        cx.hit("absent lookups");
        let got = live.get(k)?;
        ensure!(got.is_none(), "get_value({:?}) is {} but the document does not define that path", k, sh(&got));
        let c = live.kids(k)?;
        ensure!(c.is_none(), "get_children({:?}) is {:?} but the document does not define that path", k, c);
    }
    Ok(())
}
pub fn sh(v: &Option<V>) -> String { match v { None => "None".into(), Some(v) => format!("Some({} as {})", refp::show(v), kind_name(v)) } }
pub fn kind_name(v: &V) -> &'static str {
    match v { V::Int(_) => "integer", V::Float(_) => "float", V::Bool(_) => "boolean", V::Dt(_) => "datetime",
        V::Str(_, refp::St::Basic) => "basic string", V::Str(_, refp::St::MlBasic) => "ml basic string", V::Str(_, refp::St::Lit) => "literal string", V::Str(_, refp::St::MlLit) => "ml literal string",
        V::Arr(_) => "array", V::Inl(_) => "inline table" }
}

/// does this reported error denote that expected one?
pub fn same_err(g: &LErr, e: &SErr) -> bool {
    match (g, e) {
        (LErr::Dup { key, val, .. }, SErr::Dup { key: k, val: v }) => key == k && val == v,
        (LErr::Mixed { key, .. }, SErr::Mixed { key: k }) => key == k,
        (LErr::BadDt { key, text, .. }, SErr::BadDt { key: k, text: t }) => key == k && text == t,
        (LErr::BadTable { key, kvs, .. }, SErr::BadTable { key: k, array, kvs: want }) => {
            let key_ok = key == k || (*array && (base_of(key) == base_of(k)));
            key_ok && same_kvs(kvs, want)
        }
        _ => false,
    }
}
/// `t[3]` and `t` name the same array of tables in an InvalidTable report
fn base_of(k: &str) -> &str { if k.ends_with(']') { if let Some(i) = k.rfind('[') { return &k[..i]; } } k }
fn same_kvs(got: &[(String, V)], want: &[(String, V)]) -> bool {
    let keys: HashSet<&String> = want.iter().map(|x| &x.0).collect();
    got.len() == keys.len() && got.iter().all(|(k, v)| want.iter().any(|(k2, v2)| k == k2 && v == v2))
}
pub fn class(e: &SErr) -> usize { match e { SErr::Dup { .. } => 0, SErr::Mixed { .. } => 1, SErr::BadDt { .. } => 2, SErr::BadTable { .. } => 3 } }
pub fn class_l(e: &LErr) -> usize { match e { LErr::Dup { .. } => 0, LErr::Mixed { .. } => 1, LErr::BadDt { .. } => 2, LErr::BadTable { .. } => 3, LErr::Other(_) => 9 } }
pub const CLASS: &[&str] = &["DuplicateKey", "MixedArray", "InvalidDateTime", "InvalidTable"];

/// Matches the reported errors of one class with the expected ones; returns the pairs (reported, expected).
pub fn match_errors(res: &Res, model: &Model, cls: usize) -> Result<Vec<(usize, usize)>, String> {
    let want: Vec<usize> = (0..model.errors.len()).filter(|i| class(&model.errors[*i].e) == cls).collect();
    let mut used = HashSet::new();
    let mut pairs = vec![];
    for (gi, g) in res.errors.iter().enumerate() {
        if class_l(g) != cls { continue; }
        let fit = |i: &&usize| !used.contains(*i) && same_err(g, &model.errors[**i].e);
        let near = |i: &&usize| { let l = model.errors[**i].lines; g.line() >= l.0 && g.line() <= l.1 };
        // prefer the expected error on the reported line, then a certain over an unspecified one
        let pick = want.iter().filter(fit).filter(|i| !model.errors[**i].nested_in_dead).find(near)
            .or_else(|| want.iter().filter(fit).find(near))
            .or_else(|| want.iter().filter(fit).find(|i| !model.errors[**i].nested_in_dead))
            .or_else(|| want.iter().filter(fit).next()).copied();
        match pick {
            Some(i) => { used.insert(i); pairs.push((gi, i)); }
            None => {
                // errors inside the value of a duplicate or below an invalid table header are unspecified
                if in_dead(model, g) { continue; }
                return Err(format!("unexpected or repeated {} report: {:?}; expected of this class: {:?}", CLASS[cls], g, want.iter().map(|i| &model.errors[*i].e).collect::<Vec<_>>()));
            }
        }
    }
    for i in want {
        if !used.contains(&i) && !model.errors[i].nested_in_dead {
            return Err(format!("missing {} report: {:?} (lines {}-{}); reported: {:?}", CLASS[cls], model.errors[i].e, model.errors[i].lines.0, model.errors[i].lines.1, res.errors));
        }
    }
    Ok(pairs)
}
fn in_dead(model: &Model, g: &LErr) -> bool {
    // keys are unspecified there too, so the line decides
    model.errors.iter().any(|e| e.nested_in_dead && class(&e.e) == class_l(g) && g.line() >= e.lines.0 && g.line() <= e.lines.1)
}

/// everything the parser exposes for these keys
pub fn view(live: &Live, keys: &[String]) -> Result<Vec<(Option<V>, Option<Kids>)>, String> {
    let mut out = vec![];
    for k in keys { out.push((live.get(k)?, live.kids(k)?)); }
    Ok(out)
}
pub fn keys_of(map: &Map) -> Vec<String> { map.iter().map(|e| e.0.clone()).collect() }

/// is this value one that TOML can express, at every level?
pub fn v_ok(v: &V) -> bool {
    match v {
        V::Arr(a) => a.iter().all(|e| v_ok(&e.v)),
        V::Inl(t) => {
            let mut seen = HashSet::new();
            t.iter().all(|(k, e)| key_ok(k) && seen.insert(k.clone()) && v_ok(&e.v))
        }
        V::Dt(d) => refp::dt_valid(d) && refp::parse_value(&refp::show(v)).map(|x| x.v == *v).unwrap_or(false),
        _ => refp::parse_value(&refp::show(v)).map(|x| x.v == *v).unwrap_or(false),
    }
}
pub fn key_ok(k: &str) -> bool { let mut p = refp::P::new(k); p.key().is_some() && p.i == k.len() }
pub fn is_container(v: &V) -> bool { matches!(v, V::Arr(_) | V::Inl(_)) }
pub fn same_shape(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_shape(&p.v, &q.v)),
        (V::Inl(x), V::Inl(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same_shape(&p.1.v, &q.1.v)),
        _ => !is_container(a) && !is_container(b),
    }
}
/// leaf replacements (span, new text) of a same-shape update
pub fn leaves(old: &Val, new: &V, out: &mut Vec<((usize, usize), String)>) {
    match (&old.v, new) {
        (V::Arr(x), V::Arr(y)) => for (p, q) in x.iter().zip(y) { leaves(p, &q.v, out) },
        (V::Inl(x), V::Inl(y)) => for (p, q) in x.iter().zip(y) { leaves(&p.1, &q.1.v, out) },
        _ => out.push((old.span, refp::show(new))),
    }
}
/// a whole new value in the default layout of reshaped containers
pub fn show_default(v: &V) -> String {
    match v {
        V::Arr(a) => format!("[{}]", a.iter().map(|e| show_default(&e.v)).collect::<Vec<_>>().join(", ")),
        V::Inl(t) => format!("{{ {} }}", t.iter().map(|(k, e)| format!("{} = {}", k, show_default(&e.v))).collect::<Vec<_>>().join(", ")),
        _ => refp::show(v),
    }
}
pub fn splice(text: &str, reps: &[((usize, usize), String)]) -> String {
    let mut r: Vec<_> = reps.to_vec();
    r.sort_by_key(|x| x.0 .0);
    let mut out = String::new();
    let mut at = 0;
    for ((a, b), t) in r { out += &text[at..a]; out += &t; at = b; }
    out += &text[at..];
    out
}
pub fn index(map: &Map) -> HashMap<String, usize> { map.iter().enumerate().map(|(i, e)| (e.0.clone(), i)).collect() }
pub fn wrap(v: V) -> Val { Val { v, span: (0, 0) } }
pub fn guard<T>(w: &str, f: impl FnOnce() -> T) -> Result<T, String> { libx::guard(w, f) }
/// generator against reference: a document built to be valid must be valid to the reference side,
/// statement by statement.  A disagreement is a defect of this harness, never of the library.
pub fn self_check(seed: u64, n: u64) -> Result<(), String> {
    for i in 0..n {
        let mut r = Rng::new(seed, "self", i);
        let o = vary(&mut r);
        let g = gen::doc(&mut r, &o);
        let d = refp::parse(&g.text);
        if d.consumed != g.text.len() { return Err(format!("not covered: {:?} at {:?}", g.text, &g.text[d.consumed..])); }
        let st: Vec<gen::Stmt> = d.exprs.iter().filter_map(|e| match &e.item {
            refp::Item::Blank => None,
            refp::Item::KeyVal { key, val } => Some(gen::Stmt::Kv(key.clone(), val.v.clone())),
            refp::Item::Std(k) => Some(gen::Stmt::Std(k.clone())),
            refp::Item::Aot(k) => Some(gen::Stmt::Aot(k.clone())),
        }).collect();
        if st != g.stmts { return Err(format!("statements differ: {:?}", g.text)); }
        let m = sem::eval(&g.text, &d);
        if !m.errors.is_empty() { return Err(format!("errors {:?} in {:?}", m.errors, g.text)); }
    }
    Ok(())
}
