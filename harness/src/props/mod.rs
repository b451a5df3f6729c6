pub mod common;
pub mod docs;
pub mod edits;
pub mod values;
pub mod robust;
pub mod kit;
pub mod meta;
use crate::driver::Prop;
pub fn all() -> Vec<Prop> { let mut v = vec![]; v.extend(docs::all()); v.extend(edits::all()); v.extend(values::all()); v.extend(robust::all()); v.extend(kit::all()); v.extend(meta::all()); v }
pub fn digest(seed: u64, n: u64, backwards: bool) { crate::libx::install_hook(); print!("{}", robust::transcript(seed, n, backwards)); }
pub fn dump(t: &str) {
    crate::libx::install_hook();
    let d = crate::refp::parse(t);
    let m = crate::sem::eval(t, &d);
    println!("reference: consumed {} of {} reach {}", d.consumed, t.len(), d.fail_reach);
    for e in &m.errors { println!("  {:?}", e); }
    match crate::libx::Live::parse(t) {
        Ok(l) => {
            println!("library: {:?}", l.res);
            println!("text ok: {:?}", l.text().map(|x| x == t));
            for (k, e) in crate::sem::flatten(&m) { println!("  {:?}: ref {} {:?} | lib {:?} {:?}", k, common::sh(&e.val.map(|v| v.v)), e.kids, l.get(&k).map(|v| common::sh(&v)), l.kids(&k)); }
        }
        Err(e) => println!("library: {}", e),
    }
}
