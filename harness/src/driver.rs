//! Runs the stages of a property in a monitored child process and turns what it reports into a
//! verdict, an evidence file and, on a violation, a replay file.
use crate::cx::{self, Cx, R};
use crate::libx;
use crate::props;
use crate::rng::Rng;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Run {
    /// a generated text and the oracle that judges what the library does with it
    Doc(fn(&mut Rng, u64) -> String, fn(&mut Cx, &str) -> R),
    Free(fn(&mut Cx, &mut Rng, u64) -> R),
}
pub struct Stage { pub name: &'static str, pub quick: u64, pub thorough: u64, pub run: Run }
pub struct Prop {
    pub id: &'static str,
    pub stages: Vec<Stage>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// known-finding probes: name and a function that tells whether the defect still shows
    pub probes: Vec<(&'static str, fn() -> Result<bool, String>)>,
}

/// CPU time one case may take before it counts as a hang
const CASE_CPU_MS: u64 = 90_000;

pub fn verif_dir() -> PathBuf { Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }

pub fn main(a: &[String]) -> i32 {
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match g(0) {
        "run" => run(g(1), g(2) == "thorough"),
        "worker" => worker(g(1), g(2) == "thorough", g(3).parse().unwrap(), Path::new(g(4)), Path::new(g(5)), g(6).parse().unwrap()),
        "case" => { // PROP TIER SEED STAGE IDX
            one_case(g(1), g(2) == "thorough", g(3).parse().unwrap(), g(4), g(5).parse().unwrap())
        }
        "replay" => replay(g(1)),
        "shrink" => shrink_main(g(1), g(2) == "thorough", g(3).parse().unwrap(), g(4), g(5), g(6)), // PROP TIER SEED STAGE IN OUT
        "doc" => doc_case(g(1), g(2), g(3)),
        "digest" => { props::digest(g(1).parse().unwrap(), g(2).parse().unwrap(), g(3) == "backwards"); 0 }
        "list" => { for p in props::all() { println!("{}", p.id); for s in &p.stages { println!("  {} quick={} thorough={}", s.name, s.quick, s.thorough); } } 0 }
        "selfcheck" => { println!("{:?}", props::common::self_check(g(1).parse().unwrap(), g(2).parse().unwrap())); 0 }
        "dump" => { props::dump(&std::fs::read_to_string(g(1)).unwrap()); 0 }
        _ => { eprintln!("usage: vmon run PROP quick|thorough | replay FILE | doc PROP STAGE FILE | case PROP TIER SEED STAGE IDX"); 2 }
    }
}
fn find(id: &str) -> Prop { props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) }) }
fn n_of(s: &Stage, thorough: bool) -> u64 { if thorough { s.thorough } else { s.quick } }
/// VMON_STAGES restricts a pass to some stages
fn stage_on(s: &Stage) -> bool { std::env::var("VMON_STAGES").map_or(true, |v| v.split(',').any(|x| x == s.name)) }
fn scale() -> f64 { std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) }

fn run_case(cx: &mut Cx, s: &Stage, seed: u64, idx: u64) -> R {
    let mut r = Rng::new(seed, s.name, idx);
    cx.input.clear();
    let res = match &s.run {
        Run::Doc(g, f) => { let d = g(&mut r, idx); cx.input = d.clone(); guarded(|| f(cx, &d)) }
        Run::Free(f) => guarded(|| f(cx, &mut r, idx)),
    };
    res
}
/// a panic that reaches this point comes out of library code run by a monitor
fn guarded(f: impl FnOnce() -> R) -> R { match libx::guard("case", f) { Ok(r) => r, Err(e) => Err(format!("unexpected {}", e)) } }

struct Slot { stage: AtomicUsize, idx: AtomicU64, clock: AtomicU64, start: AtomicU64 }

fn worker(id: &str, thorough: bool, seed: u64, out: &Path, progress: &Path, nthreads: usize) -> i32 {
    libx::install_hook();
    let p = find(id);
    let mut total = 0u64;
    let mut bases = vec![];
    for s in &p.stages {
        bases.push(total);
        let n = if stage_on(s) { n_of(s, thorough) } else { 0 };
        total += if n <= 1 { n } else { ((n as f64 * scale()) as u64).max(1) };
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(usize, u64, String, String)>> = Mutex::new(vec![]);
    let merged: Mutex<Cx> = Mutex::new(Cx::new(seed, thorough));
    let slots: Vec<Slot> = (0..nthreads).map(|_| Slot { stage: AtomicUsize::new(0), idx: AtomicU64::new(0), clock: AtomicU64::new(u64::MAX), start: AtomicU64::new(0) }).collect();
    let pf = std::fs::File::create(progress).unwrap();
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (p, bases, next, stop, fails, merged, slots, pf, done) = (&p, &bases, &next, &stop, &fails, &merged, &slots, &pf, &done);
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                let clk = cx::my_clock();
                let mut cx = Cx::new(seed, thorough);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || stop.load(Ordering::SeqCst) { break; }
                    let si = bases.iter().rposition(|b| *b <= i).unwrap();
                    let idx = i - bases[si];
                    record(pf, t, si as u64, idx);
                    slots[t].stage.store(si, Ordering::SeqCst);
                    slots[t].idx.store(idx, Ordering::SeqCst);
                    slots[t].start.store(cx::clock_ms(clk).unwrap_or(0), Ordering::SeqCst);
                    slots[t].clock.store(clk as i64 as u64, Ordering::SeqCst);
                    if let Err(m) = run_case(&mut cx, &p.stages[si], seed, idx) {
                        stop.store(true, Ordering::SeqCst);
                        fails.lock().unwrap().push((si, idx, m, cx.input.clone()));
                        break;
                    }
                }
                slots[t].clock.store(u64::MAX, Ordering::SeqCst);
                record(pf, t, u64::MAX, 0);
                let mut m = merged.lock().unwrap();
                m.evals += cx.evals;
                for (k, v) in &cx.counters { if k.starts_with("max ") { let e = m.counters.entry(k.clone()).or_insert(0); if *v > *e { *e = *v; } } else { m.add(k, *v); } }
                m.distinct.extend(cx.distinct.iter());
                for s in &cx.samples { if m.samples.len() < 12 && !m.samples.contains(s) { m.samples.push(s.clone()); } }
                done.fetch_add(1, Ordering::SeqCst);
            }).unwrap();
        }
        // watchdog
        let (slots, done) = (&slots, &done);
        sc.spawn(move || {
            while done.load(Ordering::SeqCst) < nthreads {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for s in slots.iter() {
                    let c = s.clock.load(Ordering::SeqCst);
                    if c == u64::MAX { continue; }
                    let (si, ix) = (s.stage.load(Ordering::SeqCst), s.idx.load(Ordering::SeqCst));
                    let st = s.start.load(Ordering::SeqCst);
                    if let Some(now) = cx::clock_ms(c as i64 as i32) {
                        if now > st + CASE_CPU_MS && s.idx.load(Ordering::SeqCst) == ix && s.start.load(Ordering::SeqCst) == st {
                            let _ = std::fs::write(out, format!("HANG {} {}\n", si, ix));
                            std::process::exit(97);
                        }
                    }
                }
            }
        });
    });
    let m = merged.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    let mut o = String::new();
    o += &format!("EVALS {}\nDISTINCT {}\n", m.evals, m.distinct.len());
    for (k, v) in &m.counters { o += &format!("COUNT {} {}\n", v, k); }
    for s in &m.samples { o += &format!("SAMPLE {}\n", json_str(s)); }
    for (si, idx, msg, input) in &fails { o += &format!("FAIL {} {} {} {}\n", si, idx, json_str(msg), json_str(input)); }
    o += "END\n";
    std::fs::write(out, o).unwrap();
    0
}
fn record(f: &std::fs::File, t: usize, si: u64, idx: u64) {
    use std::os::unix::fs::FileExt;
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&si.to_le_bytes());
    b[8..].copy_from_slice(&idx.to_le_bytes());
    let _ = f.write_all_at(&b, (t * 16) as u64);
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c == '\u{2028}' || c == '\u{85}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// reads a string written by json_str; returns it and the rest
fn unjson(s: &str) -> Option<(String, &str)> {
    let mut it = s.char_indices();
    if it.next()?.1 != '"' { return None; }
    let mut o = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((o, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'),
                'u' => { let mut v = 0; for _ in 0..4 { v = v * 16 + it.next()?.1.to_digit(16)?; } o.push(char::from_u32(v)?); }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}

struct Out { evals: u64, distinct: u64, counts: Vec<(String, u64)>, samples: Vec<String>, fails: Vec<(usize, u64, String, String)>, hang: Option<(usize, u64)>, complete: bool }
fn read_out(p: &Path) -> Out {
    let mut o = Out { evals: 0, distinct: 0, counts: vec![], samples: vec![], fails: vec![], hang: None, complete: false };
    let t = std::fs::read_to_string(p).unwrap_or_default();
    for l in t.lines() {
        let mut it = l.splitn(2, ' ');
        let (k, v) = (it.next().unwrap(), it.next().unwrap_or(""));
        match k {
            "EVALS" => o.evals = v.parse().unwrap(),
            "DISTINCT" => o.distinct = v.parse().unwrap(),
            "COUNT" => { let mut x = v.splitn(2, ' '); let n = x.next().unwrap().parse().unwrap(); o.counts.push((x.next().unwrap().to_string(), n)); }
            "SAMPLE" => o.samples.push(v.to_string()),
            "FAIL" => {
                let mut x = v.splitn(3, ' ');
                let si = x.next().unwrap().parse().unwrap();
                let ix = x.next().unwrap().parse().unwrap();
                let (m, r) = unjson(x.next().unwrap()).unwrap();
                let (i, _) = unjson(r.trim_start()).unwrap();
                o.fails.push((si, ix, m, i));
            }
            "HANG" => { let mut x = v.split(' '); o.hang = Some((x.next().unwrap().parse().unwrap(), x.next().unwrap().parse().unwrap())); }
            "END" => o.complete = true,
            _ => {}
        }
    }
    o
}

fn run(id: &str, thorough: bool) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if thorough { "thorough" } else { "quick" };
    let p = find(id);
    let t0 = std::time::Instant::now();
    libx::install_hook();
    let scratch = std::env::temp_dir().join(format!("vmon-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let me = std::env::current_exe().unwrap();
    let (outp, prog) = (scratch.join("out"), scratch.join("progress"));
    let nthreads: usize = std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut viol: Vec<(String, String)> = vec![]; // message, replay path
    let mut known = vec![];

    // known findings: each listed one must still be the listed one, any other is a violation
    let listed = known_list(id);
    for (name, f) in &p.probes {
        match libx::guard("probe", || f()) {
            Ok(Ok(true)) => match listed.iter().find(|l| l.0 == *name) {
                Some(l) => { println!("KNOWN-FINDING: property={} {}", id, l.1); known.push(name.to_string()); }
                None => { let m = format!("defect '{}' is present and not a listed finding", name); let rp = write_replay(id, tier, seed, "probe", 0, &m, name, false); viol.push((m, rp)); }
            },
            Ok(Ok(false)) => {}
            Ok(Err(m)) | Err(m) => { let m = format!("probe '{}': {}", name, m); let rp = write_replay(id, tier, seed, "probe", 0, &m, name, false); viol.push((m, rp)); }
        }
    }

    let mut o;
    let mut attempt = 0;
    loop {
        attempt += 1;
        let nt = if attempt == 1 { nthreads } else { 1.max(nthreads / 4) };
        let _ = std::fs::remove_file(&outp);
        let st = Command::new(&me).args(["worker", id, tier, &seed.to_string()]).arg(&outp).arg(&prog).arg(nt.to_string())
            .env("VMON_SCRATCH", &scratch).stdin(Stdio::null()).status().unwrap();
        o = read_out(&outp);
        if st.success() && o.complete { break; }
        if let Some((si, ix)) = o.hang {
            let m = format!("a case used more than {} s of CPU time (hang)", CASE_CPU_MS / 1000);
            let rp = write_replay(id, tier, seed, p.stages[si].name, ix, &m, &input_of(&p.stages[si], seed, ix), false);
            viol.push((m, rp));
            break;
        }
        // the child died: find the case that kills it
        use std::os::unix::process::ExitStatusExt;
        let sig = st.signal();
        let b = std::fs::read(&prog).unwrap_or_default();
        let mut found = false;
        for c in b.chunks(16) {
            if c.len() < 16 { break; }
            let si = u64::from_le_bytes(c[..8].try_into().unwrap());
            let ix = u64::from_le_bytes(c[8..].try_into().unwrap());
            if si as usize >= p.stages.len() { continue; }
            let s = &p.stages[si as usize];
            let st = Command::new(&me).args(["case", id, tier, &seed.to_string(), s.name, &ix.to_string()]).env("VMON_SCRATCH", &scratch)
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().unwrap();
            if st.status.code() != Some(0) {
                let tail: String = String::from_utf8_lossy(&st.stderr).chars().rev().take(800).collect::<String>().chars().rev().collect();
                let m = format!("the process died ({:?}) running this case: {}", st.status, tail);
                let rp = write_replay(id, tier, seed, s.name, ix, &m, &input_of(s, seed, ix), false);
                viol.push((m, rp));
                found = true;
                break;
            }
        }
        if found { break; }
        if attempt >= 3 {
            if sig == Some(9) { eprintln!("vmon: the worker was killed from outside {} times; no verdict", attempt); cleanup(&scratch); return 2; }
            let m = format!("the worker process died ({:?}) and no single case reproduces it", st);
            let rp = write_replay(id, tier, seed, "*", 0, &m, "", false);
            viol.push((m, rp));
            break;
        }
    }
    // a Doc stage's failing text is shrunk before it is written
    let shrink_t0 = Instant::now();
    for (si, ix, m, input) in &o.fails {
        let s = &p.stages[*si];
        let (mut m, mut input) = (m.clone(), input.clone());
        let is_doc = matches!(s.run, Run::Doc(..));
        // (in a process of its own and for a limited time: a candidate may hang or overflow the stack)
        if is_doc {
            let left = Duration::from_secs(40).saturating_sub(shrink_t0.elapsed());
            if let Some((i2, m2)) = shrink_child(&me, &scratch, id, tier, seed, s.name, &input, left) { input = i2; m = m2; }
        }
        let rp = write_replay(id, tier, seed, s.name, *ix, &m, &input, is_doc);
        viol.push((format!("[{}] {}", s.name, m), rp));
    }
    write_evidence(&p, tier, seed, &o, t0.elapsed().as_secs_f64(), viol.len(), &known);
    cleanup(&scratch);
    for (m, _) in &viol { eprintln!("violation: {}", m); }
    if let Some((_, rp)) = viol.first() { println!("VIOLATION property={} replay={}", id, rp); return 1; }
    println!("ok property={} tier={} seed={} evaluations={} distinct={} wall={:.1}s", id, tier, seed, o.evals, o.distinct, t0.elapsed().as_secs_f64());
    0
}
fn cleanup(p: &Path) { let _ = std::fs::remove_dir_all(p); }

fn input_of(s: &Stage, seed: u64, idx: u64) -> String {
    match &s.run { Run::Doc(g, _) => g(&mut Rng::new(seed, s.name, idx), idx), _ => String::new() }
}

fn known_list(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        let l = l.trim();
        let mut it = l.splitn(4, ' ');
        if it.next() != Some("KNOWN") { continue; }
        let pr = it.next().unwrap_or("").trim_start_matches("property=");
        let probe = it.next().unwrap_or("").trim_start_matches("probe=");
        if pr == id { out.push((probe.to_string(), it.next().unwrap_or("").to_string())); }
    }
    out
}

fn shrink_child(me: &Path, scratch: &Path, id: &str, tier: &str, seed: u64, stage: &str, input: &str, limit: Duration) -> Option<(String, String)> {
    if limit < Duration::from_secs(1) { return None; }
    let (fi, fo) = (scratch.join("shrink.in"), scratch.join("shrink.out"));
    let _ = std::fs::remove_file(&fo);
    std::fs::write(&fi, input).ok()?;
    let mut ch = Command::new(me).args(["shrink", id, tier, &seed.to_string(), stage]).arg(&fi).arg(&fo).env("VMON_SCRATCH", scratch)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    loop {
        match ch.try_wait() { Ok(None) => {} _ => break }
        if t.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); break; }
        std::thread::sleep(Duration::from_millis(20));
    }
    let r = std::fs::read_to_string(&fo).ok()?;
    let i = r.find('\0')?;
    Some((r[i + 1..].to_string(), r[..i].to_string()))
}
fn shrink_main(id: &str, thorough: bool, seed: u64, stage: &str, fi: &str, fo: &str) -> i32 {
    libx::install_hook();
    let p = find(id);
    let input = std::fs::read_to_string(fi).unwrap();
    if let Run::Doc(_, f) = &stage_named(&p, stage).run {
        let f = *f;
        let fo = PathBuf::from(fo);
        std::thread::scope(|sc| { let _ = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || shrink(f, seed, thorough, &input, &fo)).unwrap().join(); });
    }
    0
}
/// Every improvement is written to `out` ("message NUL text") as it is found.
fn shrink(f: fn(&mut Cx, &str) -> R, seed: u64, thorough: bool, input: &str, out: &Path) {
    let mut cur = input.to_string();
    let mut m = String::new();
    let tmp = out.with_extension("tmp");
    let mut budget = 600;
    let mut test = |s: &str, m: &mut String| -> bool {
        if budget == 0 { return false; }
        budget -= 1;
        let mut cx = Cx::new(seed, thorough);
        match guarded(|| f(&mut cx, s)) {
            Err(e) => {
                *m = e.replace('\0', "\\0");
                if std::fs::write(&tmp, format!("{}\0{}", m, s)).is_ok() { let _ = std::fs::rename(&tmp, out); }
                true
            }
            Ok(()) => false
        }
    };
    // lines, then characters
    for by_line in [true, false] {
        let parts = |s: &str| -> Vec<String> {
            if by_line { s.split_inclusive('\n').map(|x| x.to_string()).collect() } else { s.chars().map(|c| c.to_string()).collect() }
        };
        let mut n = (parts(&cur).len() / 2).max(1);
        loop {
            let mut changed = false;
            let mut i = 0;
            loop {
                let ps = parts(&cur);
                if i >= ps.len() { break; }
                let cand: String = ps[..i].iter().chain(ps[(i + n).min(ps.len())..].iter()).cloned().collect();
                if cand.len() < cur.len() && test(&cand, &mut m) { cur = cand; changed = true; } else { i += n; }
            }
            if n == 1 && !changed { break; }
            n = (n / 2).max(1);
            if !changed && n == 1 && parts(&cur).len() == 0 { break; }
        }
    }
}

fn write_replay(id: &str, tier: &str, seed: u64, stage: &str, idx: u64, msg: &str, input: &str, is_doc: bool) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", id, stage.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), seed, idx));
    let s = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"stage\": {}, \"idx\": {}, \"is_doc\": {}, \"message\": {}, \"input\": {}, \"command\": {}}}\n",
        json_str(id), json_str(tier), seed, json_str(stage), idx, is_doc, json_str(msg), json_str(input), json_str(&format!("/verif/check.sh replay {}", path.display())));
    let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(s.as_bytes()));
    path.display().to_string()
}

fn stage_named<'p>(p: &'p Prop, s: &str) -> &'p Stage { p.stages.iter().find(|x| x.name == s).unwrap_or_else(|| { eprintln!("no stage {}", s); std::process::exit(2) }) }
fn one_case(id: &str, thorough: bool, seed: u64, stage: &str, idx: u64) -> i32 {
    libx::install_hook();
    let p = find(id);
    let h = std::thread::Builder::new().stack_size(8 << 20);
    let stage = stage.to_string();
    let r = std::thread::scope(|sc| h.spawn_scoped(sc, || {
        let mut cx = Cx::new(seed, thorough);
        cx.replaying = true;
        let r = run_case(&mut cx, stage_named(&p, &stage), seed, idx);
        eprintln!("input: {:?}", cx.input);
        r
    }).unwrap().join().unwrap());
    match r { Ok(()) => { println!("case holds"); 0 } Err(m) => { println!("case fails: {}", m); 1 } }
}
fn doc_case(id: &str, stage: &str, file: &str) -> i32 {
    libx::install_hook();
    let p = find(id);
    let t = std::fs::read_to_string(file).unwrap();
    let mut cx = Cx::new(1, false);
    cx.replaying = true;
    let r = match &stage_named(&p, stage).run { Run::Doc(_, f) => guarded(|| f(&mut cx, &t)), _ => { eprintln!("not a document stage"); return 2 } };
    match r { Ok(()) => { println!("document holds"); 0 } Err(m) => { println!("document fails: {}", m); 1 } }
}
fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let fld = |k: &str| -> String {
        let pat = format!("\"{}\": ", k);
        let i = t.find(&pat).map(|i| i + pat.len()).unwrap_or(0);
        if t[i..].starts_with('"') { unjson(&t[i..]).unwrap().0 } else { t[i..].chars().take_while(|c| *c != ',' && *c != '}').collect() }
    };
    let (id, stage, seed, idx, tier) = (fld("property"), fld("stage"), fld("seed"), fld("idx"), fld("tier"));
    println!("property {} stage {} seed {} idx {}", id, stage, seed, idx);
    if stage == "probe" {
        libx::install_hook();
        let p = find(&id);
        let name = fld("input");
        for (n, f) in &p.probes { if *n == name { println!("probe {}: {:?}", n, libx::guard("probe", || f())); return 1; } }
        return 2;
    }
    if fld("is_doc") == "true" {
        let doc = fld("input");
        println!("document:\n{}\n--", doc);
        let p = std::env::temp_dir().join(format!("vmon-replay-{}", std::process::id()));
        std::fs::write(&p, doc).unwrap();
        let r = doc_case(&id, &stage, p.to_str().unwrap());
        let _ = std::fs::remove_file(&p);
        return r;
    }
    one_case(&id, tier == "thorough", seed.parse().unwrap(), &stage, idx.parse().unwrap())
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, o: &Out, wall: f64, violations: usize, known: &[String]) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    // a pass of an instrumented build leaves a summary that the main pass puts into the evidence
    if let Some(side) = std::env::var_os("VMON_SIDE_OUT") {
        let t = format!("{{\"build\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"observed\": {{{}}}, \"wall_s\": {:.2}, \"violations\": {}}}", json_str(&std::env::var("VMON_BUILD").unwrap_or_default()), o.evals, o.distinct,
            o.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "), wall, violations);
        let _ = std::fs::write(side, t);
        return;
    }
    let side = std::env::var_os("VMON_SIDE_IN").and_then(|p| std::fs::read_to_string(p).ok()).map(|t| format!("    \"instrumented_pass\": {},\n", t)).unwrap_or_default();
    let mut s = String::new();
    s += &format!("{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", json_str(p.id), json_str(tier), seed);
    s += "  \"coverage\": {\n";
    s += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", o.evals, o.distinct, json_str(p.rule));
    s += &side;
    s += &format!("    \"samples\": [{}],\n", o.samples.join(", "));
    s += "    \"stages\": {";
    s += &p.stages.iter().map(|x| format!("{}: {}", json_str(x.name), n_of(x, tier == "thorough"))).collect::<Vec<_>>().join(", ");
    s += "},\n    \"observed\": {";
    s += &o.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    s += "},\n    \"known_findings_seen\": [";
    s += &known.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", ");
    s += "]\n  },\n";
    s += &format!("  \"wall_s\": {:.2},\n  \"violations\": {},\n  \"assumptions\": [{}]\n}}\n", wall, violations, p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "));
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), s);
}
