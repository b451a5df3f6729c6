//! C20-C22: the tomlkit command line tool, run on scratch files and judged by what it prints, its
//! exit status and a snapshot of every file around it.
use super::common::*;
use super::edits::{any_value, bad_scalar};
use crate::cx::{Cx, R};
use crate::driver::{Prop, Run, Stage};
use crate::ensure;
use crate::gen::{self, Opts};
use crate::libx::{self, Kind, Live};
use crate::refp::{self, St, V};
use crate::rng::Rng;
use crate::sem::{self, Kids};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, SystemTime};

extern "C" { fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32; }
const RLIMIT_CPU: i32 = 0;

fn binary() -> PathBuf {
    std::env::var_os("VMON_TOMLKIT").map(PathBuf::from).unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).join("target-kit/debug/tomlkit"))
}

// ---- scratch directory -----------------------------------------------------------------------
struct Dir { path: PathBuf }
impl Dir {
    fn new() -> Result<Dir, String> {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VMON_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let path = base.join(format!("kit-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&path).map_err(|e| format!("harness: {}", e))?;
        Ok(Dir { path })
    }
    /// writes a file and dates it back, so that any later write shows
    fn put(&self, name: &str, bytes: &[u8]) -> R {
        let p = self.path.join(name);
        if let Some(d) = p.parent() { std::fs::create_dir_all(d).map_err(|e| format!("harness: {}", e))?; }
        let mut f = std::fs::File::create(&p).map_err(|e| format!("harness: {}", e))?;
        f.write_all(bytes).map_err(|e| format!("harness: {}", e))?;
        f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000)).map_err(|e| format!("harness: {}", e))
    }
    fn snap(&self) -> Snap {
        let mut m = Snap::new();
        walk(&self.path, &self.path, &mut m);
        m
    }
    /// gives the file a second name, by a symbolic or a hard link
    fn alias(&self, name: &str, how: usize) -> Result<Option<&'static str>, String> {
        let p = self.path.join(name);
        let e = |e: std::io::Error| format!("harness: {}", e);
        match std::fs::symlink_metadata(&p) { Ok(m) if m.is_file() => {} _ => return Ok(None) }
        let twin = if how == 0 { "real é.toml" } else { "twin.toml" };
        if self.path.join(twin).exists() { return Ok(None); }
        if how == 0 { std::fs::rename(&p, self.path.join(twin)).map_err(e)?; std::os::unix::fs::symlink(twin, &p).map_err(e)?; }
        else { std::fs::hard_link(&p, self.path.join(twin)).map_err(e)?; std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o640)).map_err(e)?; }
        Ok(Some(twin))
    }
    /// type and permission bits, without following a link
    fn mode(&self, name: &str) -> Option<u32> { std::fs::symlink_metadata(self.path.join(name)).ok().map(|m| std::os::unix::fs::MetadataExt::mode(&m)) }
    fn read(&self, name: &str) -> Result<String, String> { std::fs::read(self.path.join(name)).map_err(|e| format!("file {} is gone: {}", name, e)).and_then(|b| String::from_utf8(b).map_err(|_| format!("file {} is no longer UTF-8", name))) }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.path); } }
/// every file: content and time of the last write; directories as empty
type Snap = BTreeMap<PathBuf, (Option<Vec<u8>>, u64)>;
fn walk(root: &Path, p: &Path, m: &mut Snap) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let q = e.path();
            let rel = q.strip_prefix(root).unwrap().to_path_buf();
            if q.is_dir() { m.insert(rel, (None, 0)); walk(root, &q, m); } else {
                let t = e.metadata().and_then(|x| x.modified()).ok().and_then(|t| t.duration_since(SystemTime::UNIX_EPOCH).ok()).map(|d| d.as_nanos() as u64).unwrap_or(0);
                m.insert(rel, (std::fs::read(&q).ok(), t));
            }
        }
    }
}
fn same_files(before: &Snap, after: &Snap, but: &[&str]) -> R {
    let skip = |p: &Path| but.iter().any(|b| Path::new(b) == p);
    for (p, v) in before {
        if skip(p) { continue; }
        match after.get(p) {
            None => return Err(format!("file {:?} disappeared", p)),
            Some(w) if w.0 != v.0 => return Err(format!("file {:?} was changed: {:?} became {:?}", p, v.0.as_ref().map(|b| String::from_utf8_lossy(b).to_string()), w.0.as_ref().map(|b| String::from_utf8_lossy(b).to_string()))),
            Some(w) if w.1 != v.1 => return Err(format!("file {:?} was written to", p)),
            _ => {}
        }
    }
    for p in after.keys() { if !skip(p) && !before.contains_key(p) { return Err(format!("file {:?} was created", p)); } }
    Ok(())
}

// ---- running ---------------------------------------------------------------------------------
struct Ran { code: Option<i32>, signal: Option<i32>, out: Vec<u8>, err: String }
impl Ran {
    fn text(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    /// it ended by itself, without a panic
    fn sane(&self) -> R {
        ensure!(self.signal != Some(24) && self.signal != Some(9), "tomlkit used more than 30 s of CPU time");
        ensure!(self.signal.is_none(), "tomlkit was killed by signal {:?}: {}", self.signal, self.err);
        ensure!(!self.err.contains("panicked at") && self.code != Some(101), "tomlkit panicked: {}", self.err.chars().take(400).collect::<String>());
        Ok(())
    }
    fn clean(&self) -> R {
        self.sane()?;
        ensure!(self.code == Some(0), "exit status {:?}, printed {:?}", self.code, self.text());
        ensure!(self.err.is_empty(), "unexpected output on stderr: {:?}", self.err);
        Ok(())
    }
}
fn tomlkit<S: AsRef<OsStr>>(cx: &mut Cx, d: &Dir, args: &[S], stdin: &[u8]) -> Result<Ran, String> {
    let mut c = Command::new(binary());
    c.args(args).current_dir(&d.path).env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe { c.pre_exec(|| { setrlimit(RLIMIT_CPU, &[30, 32]); Ok(()) }); }
    let mut ch = c.spawn().map_err(|e| format!("harness: cannot run {:?}: {}", binary(), e))?;
    let mut i = ch.stdin.take().unwrap();
    let _ = i.write_all(stdin); // short inputs: they fit the pipe
    drop(i);
    let o = ch.wait_with_output().map_err(|e| format!("harness: {}", e))?;
    cx.hit("tomlkit runs");
    cx.evals += 1;
    Ok(Ran { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() })
}
fn note(cx: &mut Cx, args: &[String], docs: &[(String, String)]) { cx.input = format!("args {:?}\nfiles {:?}", args, docs); }

/// a key or value can stand in a comma separated list
fn listable(s: &str) -> bool { !s.contains(|c| matches!(c, ',' | '\n' | '\r' | '\0')) }
fn lists_as_itself(items: &[String]) -> bool { !(items.len() == 1 && items[0].is_empty()) && items.iter().all(|s| listable(s)) }

fn full_doc(r: &mut Rng) -> String {
    let mut o = Opts { stmts: (2, 10), ..Opts::default() };
    match r.below(4) { 0 => { o.headers = 60; o.depth = 1 } 1 => { o.headers = 10; o.depth = 3; o.stmts.1 = 5 } 2 => { o.small_pool = true; o.wild = 60; o.scalars_only = true } _ => {} }
    if r.pct(3) { o = Opts { stmts: (40, 120), scalars_only: r.pct(50), headers: *r.one(&[2usize, 60]), depth: 2, ..Opts::default() } }
    let t = gen::doc(r, &o).text;
    bulky(r, t)
}
/// now and then a file that is larger than the buffers it is read and written through
fn bulky(r: &mut Rng, t: String) -> String {
    if !r.pct(2) { return t; }
    let total = *r.one(&[5000usize, 9000, 33_000, 70_000, 140_000, 300_000, 700_000]);
    let line = r.range(200, 4000);
    let mut pad = String::with_capacity(total + line);
    while pad.len() < total { pad.push('#'); for _ in 0..line { pad.push(if pad.len() % 97 == 0 { 'é' } else { 'x' }); } pad.push('\n'); }
    if r.pct(75) { pad + &t } else { format!("{}\n{}", t, pad) }
}
/// a document that the library calls Full, with its keys
fn doc_keys(r: &mut Rng, cx: &mut Cx) -> Option<(String, Vec<String>)> {
    let t = full_doc(r);
    if !matches!(Live::parse(&t), Ok(l) if l.res.kind == Kind::Full) { cx.hit("documents set aside"); return None; }
    let m = sem::eval(&t, &refp::parse(&t));
    let map = sem::flatten(&m);
    let mut ks = keys_of(&map);
    let n = r.range(1, 6);
    ks.extend(absent(r, &map, n));
    ks.retain(|k| listable(k) && k != "$Root$");
    Some((t, ks))
}

// ---- C20 -------------------------------------------------------------------------------------
#[derive(Clone, Debug, Default)]
struct Fmt { sep: Option<String>, t: Option<Vec<String>>, f: Option<Vec<String>>, b: Option<String>, e: Option<String>, s: Option<String>, len: bool, strip: bool, doc: bool }
impl Fmt {
    fn any(r: &mut Rng, n: usize) -> Fmt {
        let w = |r: &mut Rng| r.pick(&["", " ", ", ", ",", ";", "\n", "\t", "<>", "é", "-", "--", "[", "]", "\"", "x y", "\\", "|", "=", "#"]).to_string();
        let item = |r: &mut Rng| r.pick(&["", "1", "yes", "no", "é", "a b", "\"", "-", "--x", "'", "has license", "\\n", "true", "false"]).to_string();
        let list = |r: &mut Rng| -> Option<Vec<String>> { if r.pct(65) { None } else if r.pct(40) || n == 0 { Some(vec![item(r)]) } else { let k = n + r.below(2); Some((0..k).map(|_| item(r)).collect()) } };
        let mut opt = |r: &mut Rng, p| if r.pct(p) { Some(w(r)) } else { None };
        Fmt { sep: opt(r, 40), b: opt(r, 25), e: opt(r, 25), s: opt(r, 25), t: list(r), f: list(r), len: r.pct(25), strip: r.pct(30), doc: r.pct(20) }
    }
    fn args(&self, r: &mut Rng, a: &mut Vec<String>) {
        let mut g: Vec<Vec<String>> = vec![];
        if let Some(s) = &self.sep { g.push(vec![r.pick(&["--separator", "-p"]).to_string(), s.clone()]); }
        if let Some(s) = &self.t { g.push(vec!["--set-true".into(), s.join(",")]); }
        if let Some(s) = &self.f { g.push(vec!["--set-false".into(), s.join(",")]); }
        if let Some(s) = &self.b { g.push(vec!["--array-begin".into(), s.clone()]); }
        if let Some(s) = &self.e { g.push(vec!["--array-end".into(), s.clone()]); }
        if let Some(s) = &self.s { g.push(vec!["--array-separator".into(), s.clone()]); }
        if self.len { g.push(vec!["--array-length".into()]); }
        if self.strip { g.push(vec!["--strip-quotes".into()]); }
        if self.doc { g.push(vec!["--print-doc".into()]); }
        while !g.is_empty() { let i = r.below(g.len()); a.extend(g.remove(i)); }
    }
    fn sep(&self) -> &str { self.sep.as_deref().unwrap_or(", ") }
    fn word(&self, yes: bool, i: usize) -> String {
        let l = if yes { &self.t } else { &self.f };
        match l { None => if yes { "true".into() } else { "false".into() }, Some(v) if v.len() == 1 => v[0].clone(), Some(v) => v[i].clone() }
    }
}
#[derive(Clone, Debug, Default)]
struct Query { get: Option<Vec<String>>, has: Option<Vec<String>>, kids: Option<Vec<String>>, hask: Option<Vec<String>> }
impl Query {
    fn args(&self, r: &mut Rng, a: &mut Vec<String>) {
        let mut g = vec![];
        if let Some(k) = &self.get { g.push(vec![r.pick(&["-g", "--get-value"]).to_string(), k.join(",")]); }
        if let Some(k) = &self.has { g.push(vec!["--has-value".into(), k.join(",")]); }
        if let Some(k) = &self.kids { g.push(vec![r.pick(&["-c", "--get-children"]).to_string(), k.join(",")]); }
        if let Some(k) = &self.hask { g.push(vec!["--has-children".into(), k.join(",")]); }
        while !g.is_empty() { let i = r.below(g.len()); a.extend(g.remove(i)); }
    }
    fn listed(&self) -> usize { self.has.as_ref().map_or(0, |x| x.len()) + self.hask.as_ref().map_or(0, |x| x.len()) }
    /// what the library says, in the order get, has, children, has children; Err: a key of a get has no answer
    fn answer(&self, l: &Live, f: &Fmt) -> Result<Result<Vec<String>, String>, String> {
        let mut out = vec![];
        if let Some(ks) = &self.get {
            let mut a = vec![];
            for k in ks {
                match libx::guard("get_value", || l.p.get_value(k.as_str()))? {
                    None => return Ok(Err(k.clone())),
                    Some(v) => { let s = format!("{}", v); a.push(if f.strip { s.trim_matches(|c| c == '"' || c == '\'').to_string() } else { s }); }
                }
            }
            out.push(a.join(f.sep()));
        }
        if let Some(ks) = &self.has {
            let mut a = vec![];
            for (i, k) in ks.iter().enumerate() { a.push(f.word(l.get(k)?.is_some(), i)); }
            out.push(a.join(f.sep()));
        }
        if let Some(ks) = &self.kids {
            let mut a = vec![];
            for k in ks {
                match l.kids(k)? {
                    None | Some(Kids::Count(0)) => return Ok(Err(k.clone())),
                    Some(Kids::Count(n)) => a.push(n.to_string()),
                    Some(Kids::Keys(c)) => {
                        let s = f.s.as_deref().unwrap_or(", ");
                        a.push(if f.len { format!("{}{}{}", c.len(), s, c.join(s)) } else { format!("{}{}{}", f.b.as_deref().unwrap_or("["), c.join(s), f.e.as_deref().unwrap_or("]")) });
                    }
                }
            }
            out.push(a.join(f.sep()));
        }
        if let Some(ks) = &self.hask {
            let off = self.has.as_ref().map_or(0, |x| x.len());
            let mut a = vec![];
            for (i, k) in ks.iter().enumerate() { a.push(f.word(match l.kids(k)? { None | Some(Kids::Count(0)) => false, Some(Kids::Count(_)) => true, Some(Kids::Keys(c)) => !c.is_empty() }, off + i)); }
            out.push(a.join(f.sep()));
        }
        Ok(Ok(out))
    }
}
/// with quotes stripped, a string that itself starts or ends with quotes (or a container of strings) has no defined form
fn strip_defined(l: &Live, k: &str) -> bool {
    match l.get(k) {
        Ok(Some(V::Str(s, _))) => !s.starts_with(['"', '\'']) && !s.ends_with(['"', '\'']),
        Ok(Some(v @ V::Arr(_))) | Ok(Some(v @ V::Inl(_))) => !refp::show(&v).contains(['"', '\'']),
        _ => true,
    }
}
fn a_query(r: &mut Rng, l: &Live, ks: &[String]) -> Query {
    let pool: Vec<String> = ks.to_vec();
    let with_val: Vec<String> = pool.iter().filter(|k| matches!(l.get(k), Ok(Some(_)))).cloned().collect();
    let with_kids: Vec<String> = pool.iter().filter(|k| matches!(l.kids(k), Ok(Some(Kids::Keys(_))) | Ok(Some(Kids::Count(1..))))).cloned().collect();
    let some = |r: &mut Rng, good: &Vec<String>, any: usize| -> Option<Vec<String>> {
        let n = if r.pct(4) { r.range(8, 70) } else { r.range(1, 4) };
        let mut v = vec![];
        for _ in 0..n { let from = if r.pct(any) || good.is_empty() { &pool } else { good }; if from.is_empty() { return None; } v.push(r.one(from).clone()); }
        if lists_as_itself(&v) { Some(v) } else { None }
    };
    let mut q = Query::default();
    for _ in 0..if r.pct(70) { 1 } else { r.range(2, 4) } {
        match r.below(4) { 0 => q.get = some(r, &with_val, 8), 1 => q.has = some(r, &with_val, 60), 2 => q.kids = some(r, &with_kids, 8), _ => q.hask = some(r, &with_kids, 60) }
    }
    if r.pct(4) { q.has = Some((0..r.range(20, 60)).filter_map(|_| if pool.is_empty() { None } else { Some(r.one(&pool).clone()) }).collect()); if !lists_as_itself(q.has.as_ref().unwrap()) || pool.is_empty() { q.has = None; } }
    q
}
fn queries(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let nf = if r.pct(70) { 1 } else { r.range(2, 4) };
    let mut docs = vec![];
    let mut first = None;
    for i in 0..nf {
        let Some((t, ks)) = (if i > 0 && r.pct(60) { let (t, k): &(String, Vec<String>) = first.as_ref().unwrap(); Some((if r.pct(50) { t.clone() } else { format!("# again\n{}", t) }, k.clone())) } else { doc_keys(r, cx) }) else { return Ok(()) };
        let name = match r.below(6) { 0 => format!("f{}", i), 1 => format!("sub/f {}.toml", i), 2 => format!("é{}.toml", i), 3 => format!("./f{}.toml", i), _ => format!("f{}.toml", i) };
        if first.is_none() { first = Some((t.clone(), ks)); }
        docs.push((name, t));
    }
    let (t0, ks) = first.unwrap();
    let l0 = Live::parse(&t0)?;
    let mut q = a_query(r, &l0, &ks);
    let mut f = Fmt::any(r, q.listed());
    if f.strip && q.get.iter().flatten().any(|k| docs.iter().any(|d| Live::parse(&d.1).map_or(true, |l| !strip_defined(&l, k)))) { f.strip = false; }
    if q.get.is_none() && q.has.is_none() && q.kids.is_none() && q.hask.is_none() { if ks.is_empty() { return Ok(()); } q.has = Some(vec![r.one(&ks).clone()]); f = Fmt::any(r, 1); if !lists_as_itself(q.has.as_ref().unwrap()) { return Ok(()); } }
    let dir = Dir::new()?;
    for (n, t) in &docs { dir.put(n, t.as_bytes())?; }
    if r.pct(50) { dir.put("other.toml", b"other = 1\n")?; dir.put("out.toml", b"out = 1\n")?; }
    let mut a = vec![];
    f.args(r, &mut a);
    q.args(r, &mut a);
    let by_stdin = docs.len() > 1 || r.pct(20);
    if !by_stdin { let p = r.below(2); let fa = vec![r.pick(&["-i", "--input-file"]).to_string(), docs[0].0.clone()]; if p == 0 { a.splice(0..0, fa); } else { a.extend(fa); } }
    if r.pct(15) && dir.path.join("out.toml").exists() { a.extend(["-o".to_string(), "out.toml".to_string()]); }
    let stdin: String = if by_stdin { docs.iter().map(|d| format!("{}{}", d.0, if r.pct(15) { "\r\n" } else { "\n" })).collect() } else if r.pct(50) { String::new() } else { "other.toml\n".into() };
    let stdin = if by_stdin && r.pct(20) { stdin.trim_end().to_string() } else { stdin };
    note(cx, &a, &docs);
    let before = dir.snap();
    let ran = tomlkit(cx, &dir, &a, stdin.as_bytes())?;
    same_files(&before, &dir.snap(), &[])?;
    // the answers, file by file
    let mut want: Vec<Option<String>> = vec![];
    let mut broken: Option<(String, String)> = None;
    for (n, t) in &docs {
        let l = Live::parse(t)?;
        if l.res.kind != Kind::Full { return Ok(()); }
        match q.answer(&l, &f)? {
            Ok(v) => { want.push(Some(format!("{}\n{}", v.join(f.sep()), if f.doc { format!("{}\n", t) } else { String::new() }))); }
            Err(k) => { if broken.is_none() { broken = Some((n.clone(), k)); } want.push(None); }
        }
    }
    cx.seen(&(format!("{:?}", a), &docs));
    if let Some((n, k)) = broken {
        ran.sane()?;
        let o = ran.text();
        ensure!(o.contains("Error") && o.contains(n.as_str()), "key {:?} of file {:?} has no answer but no error for that file was printed: {:?}", k, n, o);
        // the answers of the files before it are there all the same, and a single get prints nothing else
        let head: String = want.iter().take_while(|w| w.is_some()).map(|w| w.clone().unwrap()).collect();
        ensure!(o.starts_with(&head), "printed {:?}, which does not start with the answers {:?}", o, head);
        let alone = q.has.is_none() && q.hask.is_none() && (q.get.is_none() || q.kids.is_none());
        if alone { ensure!(o[head.len()..].starts_with("Error"), "key {:?} has no answer but {:?} was printed before the error", k, &o[head.len()..]); cx.hit("failed gets"); }
        return Ok(());
    }
    ran.clean()?;
    let want: String = want.into_iter().map(|w| w.unwrap()).collect();
    ensure!(ran.out == want.as_bytes(), "printed {:?}, the library's answer is {:?}", ran.text(), want);
    if let Some(k) = &q.get { cx.add("values printed", (k.len() * docs.len()) as u64); }
    if let Some(k) = &q.has { cx.add("presence of values printed", (k.len() * docs.len()) as u64); }
    if let Some(k) = &q.kids { cx.add("children printed", (k.len() * docs.len()) as u64); }
    if let Some(k) = &q.hask { cx.add("presence of children printed", (k.len() * docs.len()) as u64); }
    if f.strip { cx.hit("runs with quotes stripped"); }
    if docs.len() > 1 { cx.hit("runs over several files"); }
    cx.sample(&cx.input.clone());
    Ok(())
}

// ---- C21 -------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Up { key: String, text: String, typ: String }
/// the text and type name of a scalar, as tomlkit takes it
fn typed(r: &mut Rng, v: &V) -> Option<(String, String)> {
    let (t, names): (String, &[&str]) = match v {
        V::Int(s) => (s.clone(), &["int", "integer"]),
        V::Float(s) => (s.clone(), &["flt", "float"]),
        V::Bool(b) => (b.to_string(), &["bool", "boolean"]),
        V::Dt(d) => (refp::show_dt(d), &["dt", "datetime"]),
        V::Str(s, St::Basic) => (s.clone(), &["bs", "basic-string"]),
        V::Str(s, St::MlBasic) => (s.clone(), &["mbs", "ml-basic-string"]),
        V::Str(s, St::Lit) => (s.clone(), &["ls", "literal-string"]),
        V::Str(s, St::MlLit) => (s.clone(), &["mls", "ml-literal-string"]),
        _ => return None,
    };
    if !listable(&t) { return None; }
    Some((t, r.pick(names).to_string()))
}
/// the value that a text and a type name stand for, if TOML can express it
fn meant(u: &Up) -> Option<V> {
    let v = match u.typ.as_str() {
        "int" | "integer" => V::Int(u.text.clone()),
        "flt" | "float" => V::Float(u.text.clone()),
        "bool" | "boolean" => match u.text.to_lowercase().as_str() { "true" => V::Bool(true), "false" => V::Bool(false), _ => return None },
        "dt" | "datetime" => match refp::parse_value(&u.text).map(|x| x.v) { Some(v @ V::Dt(_)) => v, _ => return None },
        "bs" | "basic-string" => V::Str(u.text.clone(), St::Basic),
        "mbs" | "ml-basic-string" => V::Str(u.text.clone(), St::MlBasic),
        "ls" | "literal-string" => V::Str(u.text.clone(), St::Lit),
        "mls" | "ml-literal-string" => V::Str(u.text.clone(), St::MlLit),
        _ => return None,
    };
    if v_ok(&v) { Some(v) } else { None }
}
fn update(r: &mut Rng, ks: &[String], l: &Live, bad: bool) -> Option<Up> {
    let with_val: Vec<&String> = ks.iter().filter(|k| matches!(l.get(k), Ok(Some(_)))).collect();
    if with_val.is_empty() { return None; }
    for _ in 0..12 {
        let mut u = Up { key: (*r.one(&with_val)).clone(), text: String::new(), typ: String::new() };
        let kind = r.below(5);
        let same = if r.pct(40) { match l.get(&u.key) { Ok(Some(v)) if !is_container(&v) => refp::ty(&v) as usize, _ => kind } } else { kind };
        let mut v = any_value(r, same.min(4));
        // often the old value with one part changed
        if r.pct(20) { if let Ok(Some(old)) = l.get(&u.key) { if !is_container(&old) { v = super::meta::tweak(r, &old); } } }
        let Some((t, n)) = typed(r, &v) else { continue };
        u.text = t; u.typ = n;
        if bad {
            match r.below(6) {
                0 => { let other: Vec<&String> = ks.iter().filter(|k| matches!(l.get(k), Ok(None))).collect(); if other.is_empty() { continue; } u.key = (*r.one(&other)).clone(); }
                1 => u.typ = r.pick(&["", "string", "Int", "INT", " int", "date", "array", "inline-table", "b"]).to_string(),
                2 => u.text = r.pick(&["", " ", "x", "2000-02-30", "1 ", "tru", "01", "1e", "25:00:00", "2000-01-01T24:00:00Z", "2000-01-01T10:00:00+24:00"]).to_string(),
                _ => { let b = bad_scalar(r); let Some((t, n)) = typed(r, &b) else { continue }; u.text = t; u.typ = n; }
            }
        }
        if ![&u.key, &u.text, &u.typ].iter().all(|s| listable(s)) { continue; }
        return Some(u);
    }
    None
}
/// names that programs like to use for copies and unfinished files
fn beside(r: &mut Rng, name: &str) -> Vec<String> {
    let stem = name.split('.').next().unwrap_or(name);
    ["{}.tmp", "{}~", "{}.bak", "{}.new", "{}.old", "{}.orig", "{}.part", ".{}.swp", ".{}.tmp", "{}.lock", "#{}#", "tmp", "temp"].iter().map(|p| p.replace("{}", name))
        .chain(["{}.tmp", "{}.bak", "{}.out", "{}.new"].iter().map(|p| p.replace("{}", stem))).filter(|_| r.pct(60)).collect()
}
/// what the library makes of the updates: the new text and its parser's text, or the first update it does not accept
fn by_library(t: &str, ups: &[Up]) -> Result<Result<String, Up>, String> {
    let mut l = Live::parse(t)?;
    for u in ups {
        match meant(u) { Some(v) => if !l.set(&u.key, &v)? { return Ok(Err(u.clone())); }, None => return Ok(Err(u.clone())) }
    }
    Ok(Ok(l.text()?))
}
fn sets(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let Some((t, ks)) = doc_keys(r, cx) else { return Ok(()) };
    let l = Live::parse(&t)?;
    let n = match r.below(20) { 0..=14 => r.range(1, 4), 15..=18 => r.range(5, 9), _ => r.range(10, 60) };
    let bad_at = if r.pct(35) { r.below(n) } else { n };
    let mut ups = vec![];
    for i in 0..n { if let Some(u) = update(r, &ks, &l, i == bad_at) { ups.push(u); } }
    if ups.is_empty() { return Ok(()); }
    // elements of one container set one after another, or the container's key again afterwards
    if r.pct(15) && ups.len() > 1 { let k = ups[0].key.clone(); ups.last_mut().unwrap().key = k; }
    let short = r.pct(4);
    let steps = if r.pct(20) { 2 } else { 1 };
    let dir = Dir::new()?;
    dir.put("in.toml", t.as_bytes())?;
    dir.put("other.toml", b"other = 1\n")?;
    let mut cur = t.clone();
    let mut twins: Vec<(&str, &str)> = vec![];
    for step in 0..steps {
        let out: &str = if step > 0 || r.pct(45) { "" } else { *r.one(&["out.toml", "other.toml", "in.toml", "é out", "nodir/out.toml"]) };
        let file = "in.toml";
        let mut a: Vec<String> = vec![];
        let mut list: Vec<String> = ups.iter().flat_map(|u| [u.key.clone(), u.text.clone(), u.typ.clone()]).collect();
        if short { list.truncate(list.len() - 1 - r.below(2)); }
        let quiet = r.pct(20);
        let sep = if r.pct(25) { Some(r.pick(&["", ";", "\n", ", ", " é "]).to_string()) } else { None };
        let doc = r.pct(40);
        let also = if r.pct(15) { let live = Live::parse(&cur)?; let mut q = a_query(r, &live, &ks); q.get = None; q.kids = None; if q.has.is_none() && q.hask.is_none() { None } else { Some(q) } } else { None };
        let by_stdin = r.pct(20);
        let mut g: Vec<Vec<String>> = vec![vec![r.pick(&["-s", "--set-value"]).to_string(), list.join(",")]];
        if !out.is_empty() { g.push(vec![r.pick(&["-o", "--output-file"]).to_string(), out.into()]); }
        if !by_stdin { g.push(vec![r.pick(&["-i", "--input-file"]).to_string(), file.into()]); }
        if quiet { g.push(vec![r.pick(&["-q", "--quiet"]).to_string()]); }
        if let Some(s) = &sep { g.push(vec![r.pick(&["-p", "--separator"]).to_string(), s.clone()]); }
        if doc { g.push(vec!["--print-doc".into()]); }
        if let Some(q) = &also { let mut x = vec![]; q.args(r, &mut x); g.push(x); }
        while !g.is_empty() { let i = r.below(g.len()); a.extend(g.remove(i)); }
        note(cx, &a, &[(file.into(), cur.clone())]);
        let live = Live::parse(&cur)?;
        if live.res.kind != Kind::Full { return Ok(()); } // an earlier step mixed an array: C22
        let f = Fmt { sep: sep.clone(), ..Fmt::default() };
        let mut head = match &also { Some(q) => match q.answer(&live, &f)? { Ok(v) => v, Err(_) => return Ok(()) }, None => vec![] };
        let want = if short { None } else { by_library(&cur, &ups)?.ok() };
        // the target may have another name, and files of a similar name may lie beside it
        let tgt = if out.is_empty() { file } else { out };
        if r.pct(20) && twins.is_empty() { if let Some(t) = dir.alias(tgt, r.below(2))? { twins.push((tgt, t)); } }
        let twin = twins.iter().find(|x| x.0 == tgt).map(|x| x.1);
        if step == 0 && !tgt.starts_with("nodir") && r.pct(40) { for n in beside(r, tgt) { if !dir.path.join(&n).exists() { dir.put(&n, b"not yours")?; } } }
        let mode = dir.mode(tgt);
        let before = dir.snap();
        let ran = tomlkit(cx, &dir, &a, if by_stdin { b"in.toml\n" } else { b"" })?;
        let after = dir.snap();
        cx.seen(&(format!("{:?}", a), &cur));
        match want {
            None => {
                same_files(&before, &after, &[]).map_err(|e| format!("an update is not acceptable, but {}", e))?;
                ran.sane()?;
                let o = ran.text();
                ensure!(o.contains("Error") && o.contains(file), "an update is not acceptable but no error was printed: {:?}", o);
                cx.hit("refused update lists");
                cx.add("updates in refused lists", ups.len() as u64);
                return Ok(());
            }
            Some(_) if out.starts_with("nodir") => {
                same_files(&before, &after, &[]).map_err(|e| format!("the output file cannot be written, but {}", e))?;
                ran.sane()?;
                ensure!(ran.text().contains("Error"), "the output file cannot be written but no error was printed: {:?}", ran.text());
                cx.hit("unwritable output files");
                return Ok(());
            }
            Some(text) => {
                ran.clean()?;
                let target = if out.is_empty() { file } else { out };
                let twin_name = twin.unwrap_or(target);
                same_files(&before, &after, &[target, twin_name])?;
                let got = dir.read(target)?;
                if let Some(t) = twin {
                    let other = dir.read(t)?;
                    ensure!(other == text, "{} is another name of {}, but it holds {:?} instead of {:?}", t, target, other, text);
                    cx.hit("targets with two names");
                }
                if mode.is_some() { ensure!(dir.mode(target) == mode, "the kind or the permissions of {} went from {:o} to {:o}", target, mode.unwrap(), dir.mode(target).unwrap_or(0)); }
                ensure!(got == text, "{} holds {:?}, the library's result is {:?}", target, got, text);
                head.push(if quiet { String::new() } else { ups.iter().map(|_| "Success").collect::<Vec<_>>().join(f.sep()) });
                let want_out = format!("{}\n{}", head.join(f.sep()), if doc { format!("{}\n", text) } else { String::new() });
                ensure!(ran.text() == want_out, "printed {:?} instead of {:?}", ran.text(), want_out);
                // what was given is what is stored
                let m = sem::flatten(&sem::eval(&got, &refp::parse(&got)));
                for (i, u) in ups.iter().enumerate() {
                    if ups[i + 1..].iter().any(|w| u.key.starts_with(w.key.as_str())) { continue; }
                    let stored = m.iter().find(|e| e.0 == u.key).and_then(|e| e.1.val.as_ref()).map(|v| v.v.clone());
                    ensure!(stored == meant(u), "{:?} was set to {:?} ({}) but the file now has {}", u.key, u.text, u.typ, sh(&stored));
                    cx.hit("stored values read back");
                }
                cx.hit("accepted update lists");
                if !out.is_empty() { cx.hit("written to an output file"); }
                cx.sample(&cx.input.clone());
                if out.is_empty() || out == "in.toml" { cur = text; }
                // the same keys again with other values
                let live = Live::parse(&cur)?;
                let n = r.range(1, 3);
                let again: Vec<Up> = (0..n).filter_map(|_| { let bad = r.pct(15); update(r, &ks, &live, bad) }).collect();
                if again.is_empty() { return Ok(()); }
                ups = again;
                dir.put(file, cur.as_bytes())?;
            }
        }
    }
    Ok(())
}
/// the same updates on several files named on stdin
fn set_many(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let Some((t, ks)) = doc_keys(r, cx) else { return Ok(()) };
    let l = Live::parse(&t)?;
    let n = r.range(1, 3);
    let ups: Vec<Up> = (0..n).filter_map(|_| update(r, &ks, &l, false)).collect();
    if ups.is_empty() { return Ok(()); }
    let nf = r.range(2, 4);
    let mut docs = vec![];
    for i in 0..nf {
        let d = match r.below(4) { 0 => format!("# c\n{}", t), 1 => match doc_keys(r, cx) { Some(d) => d.0, None => t.clone() }, _ => t.clone() };
        docs.push((format!("f{}.toml", i), d));
    }
    let dir = Dir::new()?;
    for (n, t) in &docs { dir.put(n, t.as_bytes())?; }
    let list: Vec<String> = ups.iter().flat_map(|u| [u.key.clone(), u.text.clone(), u.typ.clone()]).collect();
    let a = vec!["-s".to_string(), list.join(",")];
    note(cx, &a, &docs);
    let before = dir.snap();
    let names: String = docs.iter().map(|d| format!("{}\n", d.0)).collect();
    let ran = tomlkit(cx, &dir, &a, names.as_bytes())?;
    ran.sane()?;
    let after = dir.snap();
    for (n, t) in &docs {
        match by_library(t, &ups)? {
            Ok(text) => ensure!(dir.read(n)? == text, "{} holds {:?}, the library's result is {:?}", n, dir.read(n)?, text),
            Err(u) => {
                let others: Vec<&str> = docs.iter().map(|d| d.0.as_str()).filter(|x| x != n).collect();
                same_files(&before, &after, &others).map_err(|e| format!("update {:?} is not acceptable for {}, but {}", u, n, e))?;
                ensure!(ran.text().contains(n.as_str()), "update {:?} is not acceptable for {} but no error names it: {:?}", u, n, ran.text());
            }
        }
        cx.hit("files of a list updated or left alone");
    }
    cx.seen(&(format!("{:?}", a), &docs));
    Ok(())
}

// ---- C22 -------------------------------------------------------------------------------------
fn any_command(r: &mut Rng, ks: &[String]) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let ks: Vec<String> = if ks.is_empty() { vec!["a".into()] } else { ks.to_vec() };
    for _ in 0..r.range(1, 2) {
        let k = r.one(&ks).clone();
        match r.below(5) {
            0 => a.extend(["-g".to_string(), k]),
            1 => a.extend(["--has-value".to_string(), k]),
            2 => a.extend(["-c".to_string(), k]),
            3 => a.extend(["--has-children".to_string(), k]),
            _ => a.extend(["-s".to_string(), format!("{},1,int", k)]),
        }
    }
    if r.pct(25) { a.push("--print-doc".into()); }
    if r.pct(25) { a.push("-q".into()); }
    if r.pct(25) { a.extend(["-p".to_string(), ";".into()]); }
    a
}
/// an input that must be refused: missing, unreadable, not UTF-8, or not parsing Full
fn refused(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let dir = Dir::new()?;
    let good = full_doc(r);
    let gk: Vec<String> = keys_of(&sem::flatten(&sem::eval(&good, &refp::parse(&good)))).into_iter().filter(|k| listable(k)).collect();
    let (what, bytes): (&str, Option<Vec<u8>>) = match i % 6 {
        0 => ("missing", None),
        1 => ("directory", None),
        2 => ("not UTF-8", Some({ let mut b = good.clone().into_bytes(); let p = r.below(b.len() + 1); let junk: &[u8] = *r.one(&[&b"\xff"[..], b"\xc3\x28", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\x80", b"\xe2\x82"]); b.splice(p..p, junk.iter().copied()); b })),
        3 => ("document with errors", Some({ let t = g_errors(r, i); bulky(r, t) }.into_bytes())),
        4 => ("malformed document", Some({ let t = g_mutant(r, i); bulky(r, t) }.into_bytes())),
        _ => ("malformed and erroneous document", Some({ let t = g_errors(r, i); let o = full_doc(r); gen::mutate(r, &t, &o, 1) }.into_bytes())),
    };
    if let Some(b) = &bytes { if let Ok(t) = std::str::from_utf8(b) { match Live::parse(t) { Ok(l) if l.res.kind != Kind::Full => { cx.hit(&format!("refused documents: {:?}", l.res.kind)); } Ok(_) => { cx.hit("documents set aside"); return Ok(()); } Err(_) => return Ok(()) } } else if what != "not UTF-8" { return Ok(()); } }
    else { cx.hit(&format!("refused inputs: {}", what)); }
    let name = r.pick(&["bad.toml", "b d.toml", "é.toml", "x/bad.toml", "-bad.toml"]).to_string();
    match &bytes { Some(b) => dir.put(&name, b)?, None => if what == "directory" { std::fs::create_dir_all(dir.path.join(&name)).map_err(|e| format!("harness: {}", e))?; } }
    dir.put("good.toml", good.as_bytes())?;
    dir.put("out.toml", b"out = 1\n")?;
    let mut a = any_command(r, &gk);
    if r.pct(30) { a.extend(["-o".to_string(), r.pick(&["out.toml", "new.toml"]).to_string()]); }
    let by_stdin = r.pct(30);
    let after_good = by_stdin && r.pct(50) && Live::parse(&good).map_or(false, |l| l.res.kind == Kind::Full);
    if !by_stdin { let p = 0; a.splice(p..p, ["-i".to_string(), name.clone()]); }
    let stdin = if by_stdin { format!("{}{}\n{}", if after_good { "good.toml\n" } else { "" }, name, if r.pct(30) { "good.toml\n" } else { "" }) } else { String::new() };
    cx.input = format!("{} args {:?} stdin {:?} content {:?}", what, a, stdin, bytes.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()));
    let before = dir.snap();
    let ran = tomlkit(cx, &dir, &a, stdin.as_bytes())?;
    ran.sane()?;
    let touched: &[&str] = if after_good { &["good.toml", "out.toml", "new.toml"] } else { &[] };
    let bad_only: &[&str] = if by_stdin && stdin.ends_with("good.toml\n") { &["good.toml", "out.toml", "new.toml"] } else { touched };
    same_files(&before, &dir.snap(), bad_only).map_err(|e| format!("{} was to be refused, but {}", what, e))?;
    ensure!(ran.code != Some(0), "{} was accepted with exit status 0: printed {:?}", what, ran.text());
    let o = ran.text() + &ran.err;
    ensure!(o.contains("Error") && o.contains(name.trim_start_matches("./")), "{} was refused without an error naming the file {:?}: {:?}", what, name, o);
    cx.seen(&cx.input.clone());
    cx.sample(&cx.input.clone());
    Ok(())
}
/// any arguments at all
fn hostile(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let dir = Dir::new()?;
    let t = match r.below(5) { 0 => String::new(), 1 => g_errors(r, 0), 2 => g_noise(r, 0), _ => full_doc(r) };
    let ks: Vec<String> = keys_of(&sem::flatten(&sem::eval(&t, &refp::parse(&t))));
    dir.put("in.toml", t.as_bytes())?;
    dir.put("two.toml", b"a = 1\n[b]\nc = []\nd = {}\n")?;
    const FLAGS: &[&str] = &["-g", "--get-value", "--has-value", "-c", "--get-children", "--has-children", "-s", "--set-value", "-h", "--help", "--set-true", "--set-false", "-p", "--separator", "--array-separator", "--array-begin", "--array-end", "--array-length", "--strip-quotes", "-q", "--quiet", "--print-doc", "-i", "--input-file", "-o", "--output-file"];
    let word = |r: &mut Rng| -> OsString {
        match r.below(15) {
            13 => { let t = super::robust::long_text(r).replace(['\0', '/'], ""); if r.pct(50) { t.into() } else { format!("{},{},{}", if ks.is_empty() || r.pct(30) { t.clone() } else { r.one(&ks).clone() }, t, r.pick(&["int", "bs", "dt", "flt", "bool", "é"])).into() } }
            0 => "".into(), 1 => ",".into(), 2 => ",,,".into(), 3 => "in.toml".into(), 4 => "two.toml".into(),
            5 => "-".into(), 6 => r.pick(&["--", "---", "-é", "é", "-\u{0301}", "😀", "--é", "-zz", "-gh", "-qs", "--get-value=a", "-ga"]).into(),
            7 => OsString::from_vec(r.pick(&[&b"\xff"[..], b"-\xff", b"a,\xc3", b"--set-true\xff"]).to_vec()),
            8 => { let n = r.range(0, 5); (0..n).map(|_| if ks.is_empty() { "a".to_string() } else { r.one(&ks).clone() }).collect::<Vec<_>>().join(",").into() }
            9 => { let n = r.range(0, 7); (0..n).map(|_| r.pick(&["a", "b", "1", "int", "bs", "", "b.c", "dt", "\\", "\"", "\n", "\r\n", "b.d", "x y"]).to_string()).collect::<Vec<_>>().join(",").into() }
            10 => { let s = gen::noise(r, 8).replace(['\0', '/'], ""); s.into() }
            11 => r.pick(&["a\nb", "a,b\nc", "\n", "\r", "\na", "a\n", "\\,", "\"a,b\"", "a,b\n\nc,d"]).into(),
            12 => "out.toml".into(),
            _ => { let k = if ks.is_empty() { "a".to_string() } else { r.one(&ks).clone() }; format!("{},{},{}", k, r.pick(&["1", "", "x", "2000-01-01", "\"", "\\"]), r.pick(&["int", "bs", "ls", "mbs", "mls", "dt", "flt", "bool", ""])).into() }
        }
    };
    let mut a: Vec<OsString> = vec![];
    if r.pct(75) { a.extend(["-i".into(), OsString::from(if r.pct(85) { "in.toml" } else { "two.toml" })]); }
    for _ in 0..r.range(0, 5) {
        if r.pct(88) { let f = *r.one(FLAGS); a.push(f.into()); if r.pct(92) && !matches!(f, "-h" | "--help" | "--array-length" | "--strip-quotes" | "-q" | "--quiet" | "--print-doc") { a.push(word(r)); } } else { a.push(word(r)); }
    }
    // wherever tomlkit may write is inside the scratch directory: it runs there and no name has a slash
    a.retain(|x| !x.as_bytes().contains(&0) && !x.as_bytes().contains(&b'/') && x.as_bytes() != b"..");
    let stdin: Vec<u8> = match r.below(6) { 0 => b"in.toml\n".to_vec(), 1 => b"in.toml\ntwo.toml".to_vec(), 2 => b"\n\n".to_vec(), 3 => b"\xff\n".to_vec(), 4 => b"nothere\n".to_vec(), _ => vec![] };
    cx.input = format!("args {:?} stdin {:?} in.toml {:?}", a, String::from_utf8_lossy(&stdin), t);
    let writes = a.iter().any(|x| { let b = x.as_bytes(); b == b"--set-value" || (b.starts_with(b"-") && !b.starts_with(b"--") && b.contains(&b's')) });
    let before = dir.snap();
    let ran = tomlkit(cx, &dir, &a, &stdin)?;
    ran.sane()?;
    if !writes { same_files(&before, &dir.snap(), &[]).map_err(|e| format!("without a set-value command {}", e))?; cx.hit("hostile runs that may not write"); }
    cx.hit(&format!("hostile runs with exit status {:?}", ran.code.unwrap_or(-1)));
    cx.seen(&cx.input.clone());
    Ok(())
}
/// option lists of every length against every number of keys
fn lists(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let (n, m, k, which) = (i % 4, i / 4 % 4, i / 16 % 5, i / 80 % 4);
    let dir = Dir::new()?;
    dir.put("in.toml", b"a = 1\n[b]\nc = [1]\nd = {}\n")?;
    let pool = ["a", "b", "b.c", "b.d", "zz", ""];
    let mut keys = |n: u64| (0..n).map(|_| r.pick(&pool).to_string()).collect::<Vec<_>>().join(",");
    let mut a: Vec<String> = vec!["-i".into(), "in.toml".into()];
    if n > 0 || m == 0 { a.extend(["--has-value".to_string(), keys(n)]); }
    if m > 0 { a.extend(["--has-children".to_string(), keys(m)]); }
    let l = (0..k).map(|x| format!("v{}", x)).collect::<Vec<_>>().join(",");
    if which != 1 { a.extend(["--set-true".to_string(), l.clone()]); }
    if which != 0 { a.extend(["--set-false".to_string(), if which == 3 { String::new() } else { l }]); }
    cx.input = format!("args {:?}", a);
    let before = dir.snap();
    let ran = tomlkit(cx, &dir, &a, b"")?;
    ran.sane()?;
    same_files(&before, &dir.snap(), &[])?;
    ensure!(!ran.out.is_empty(), "nothing was printed");
    cx.hit("option lists");
    cx.seen(&cx.input.clone());
    Ok(())
}

fn f(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Cx, &mut Rng, u64) -> R) -> Stage { Stage { name, quick, thorough, run: Run::Free(run) } }
pub fn all() -> Vec<Prop> {
    const A: &[&str] = &["list items contain no comma, line break or NUL: tomlkit has no way to write them", "the library linked into the monitor and the one in tomlkit are built from the same tree"];
    vec![
        Prop { id: "C20", stages: vec![f("queries", 3_500, 300_000, queries)], rule: "tomlkit queries over generated documents, keys and formatting options, compared byte for byte with the linked library's answers; non-trivial: a distinct command line and file set",
            assumptions: A, probes: vec![] },
        Prop { id: "C21", stages: vec![f("sets", 3_000, 300_000, sets), f("set many", 400, 40_000, set_many)], rule: "tomlkit update lists, acceptable or not, with and without output file, followed by a snapshot of every file; non-trivial: a distinct command line and document",
            assumptions: A, probes: vec![] },
        Prop { id: "C22", stages: vec![f("refused", 4_000, 200_000, refused), f("hostile", 6_000, 300_000, hostile), f("lists", 320, 320, lists)], rule: "inputs that must be refused and arbitrary arguments, with panic, exit status and file snapshots observed; non-trivial: a distinct command line and file set",
            assumptions: A, probes: vec![] },
    ]
}
