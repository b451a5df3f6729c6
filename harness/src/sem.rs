//! Reference semantics: what a document means (key map, children, errors), evaluated over the
//! reference parser's expressions with an explicit tree.  No code is shared with the library.
use crate::refp::{self, Doc, Item, Val, V};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Node { Tab(Tab), Aot(Vec<Tab>), Val(Val) }
#[derive(Clone, Debug, Default)]
pub struct Tab { pub kids: Vec<(String, Node)>, pub idx: HashMap<String, usize>, pub explicit: bool }
impl Tab {
    pub fn get(&self, k: &str) -> Option<&Node> { self.idx.get(k).map(|i| &self.kids[*i].1) }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut Node> { let i = *self.idx.get(k)?; Some(&mut self.kids[i].1) }
    pub fn add(&mut self, k: &str, n: Node) { self.idx.insert(k.to_string(), self.kids.len()); self.kids.push((k.to_string(), n)); }
}

#[derive(Clone, Debug, PartialEq)]
pub enum SErr {
    Dup { key: String, val: V },
    Mixed { key: String },
    BadDt { key: String, text: String },
    BadTable { key: String, array: bool, kvs: Vec<(String, V)> },
}
#[derive(Clone, Debug)]
pub struct LErr { pub e: SErr, pub expr: usize, pub lines: (usize, usize), pub nested_in_dead: bool }

#[derive(Clone, Debug)]
pub struct Model {
    pub root: Tab,
    pub errors: Vec<LErr>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kids { Count(usize), Keys(Vec<String>) }

/// one entry of the expected key map
#[derive(Clone, Debug)]
pub struct Entry { pub val: Option<Val>, pub kids: Kids }

pub fn join(base: &str, k: &str) -> String { if base.is_empty() { k.to_string() } else { format!("{}.{}", base, k) } }

/// resolved position of a header prefix: path text and a cursor
fn descend<'t>(root: &'t mut Tab, keys: &[String]) -> Result<(&'t mut Tab, String, bool), String> {
    // returns the table that `keys` denotes (arrays of tables: their last element), creating nothing
    let mut cur = root;
    let mut path = String::new();
    let mut aot = false;
    for k in keys {
        path = join(&path, k);
        match cur.get_mut(k) {
            Some(Node::Tab(t)) => { cur = t; aot = false; }
            Some(Node::Aot(v)) => { path += &format!("[{}]", v.len() - 1); cur = v.last_mut().unwrap(); aot = true; }
            _ => return Err(path),
        }
    }
    Ok((cur, path, aot))
}

/// Checks a header without changing anything: Ok(path) if valid, Err(path) if it must be reported.
fn check_header(root: &Tab, keys: &[String], array: bool) -> Result<String, String> {
    let mut cur: Option<&Tab> = Some(root);
    let mut path = String::new();
    let n = keys.len();
    let mut bad = false;
    for (i, k) in keys.iter().enumerate() {
        path = join(&path, k);
        let node = cur.and_then(|t| t.get(k));
        if i < n - 1 {
            match node {
                None => cur = None,
                Some(Node::Tab(t)) => {
                    cur = Some(t);
                    // dialect rule pinned by the tests: a standard table that already has its own
                    // values cannot get sub-tables right below it
                    if i == n - 2 && !array && t.kids.iter().any(|(_, x)| matches!(x, Node::Val(_))) { bad = true; }
                }
                Some(Node::Aot(v)) => { path += &format!("[{}]", v.len() - 1); cur = v.last(); }
                Some(Node::Val(_)) => { bad = true; cur = None; }
            }
        } else {
            match node {
                None => {}
                Some(Node::Tab(t)) => if array || t.explicit { bad = true },
                Some(Node::Aot(v)) => if array { path += &format!("[{}]", v.len()) } else { bad = true },
                Some(Node::Val(_)) => bad = true,
            }
        }
    }
    if bad { Err(path) } else { Ok(path) }
}

/// errors inside one value; the flag marks the unspecified ones (duplicates inside the value of a duplicate)
fn value_errors(v: &Val, key: &str, src: &str, dead: bool, out: &mut Vec<(SErr, bool)>) {
    match &v.v {
        V::Dt(d) => if !refp::dt_valid(d) {
            out.push((SErr::BadDt { key: key.to_string(), text: src[v.span.0..v.span.1].to_string() }, false));
        },
        V::Arr(els) => {
            for (i, e) in els.iter().enumerate() { value_errors(e, &format!("{}[{}]", key, i), src, dead, out); }
            if els.iter().any(|e| refp::ty(&e.v) != refp::ty(&els[0].v)) { out.push((SErr::Mixed { key: key.to_string() }, false)); }
        }
        V::Inl(kvs) => {
            for (i, (k, e)) in kvs.iter().enumerate() {
                let path = join(key, k);
                let dup = kvs[..i].iter().any(|(k2, _)| k2 == k);
                value_errors(e, &path, src, dead || dup, out);
                if dup { out.push((SErr::Dup { key: path, val: e.v.clone() }, dead)); }
            }
        }
        _ => {}
    }
}

pub fn eval(src: &str, doc: &Doc) -> Model {
    let mut m = Model { root: Tab { explicit: true, ..Default::default() }, errors: vec![] };
    let (mut dead_path, mut dead_aot) = (String::new(), false);
    let mut cur: Vec<String> = vec![];
    let mut invalid: Option<usize> = None; // index in m.errors of the open InvalidTable
    for (xi, x) in doc.exprs.iter().enumerate() {
        let lines = (refp::line_of(src, x.span.0), refp::line_of(src, x.span.1));
        match &x.item {
            Item::Blank => {}
            Item::Std(keys) | Item::Aot(keys) => {
                let array = matches!(x.item, Item::Aot(_));
                match check_header(&m.root, keys, array) {
                    Err(path) => {
                        dead_path = path.clone();
                        dead_aot = array;
                        m.errors.push(LErr { e: SErr::BadTable { key: path, array, kvs: vec![] }, expr: xi, lines, nested_in_dead: false });
                        invalid = Some(m.errors.len() - 1);
                    }
                    Ok(_) => {
                        invalid = None;
                        cur = keys.clone();
                        let mut t = &mut m.root;
                        for (i, k) in keys.iter().enumerate() {
                            let last = i == keys.len() - 1;
                            if t.get(k).is_none() {
                                let n = if last && array { Node::Aot(vec![]) } else { Node::Tab(Tab::default()) };
                                t.add(k, n);
                            }
                            t = match t.get_mut(k).unwrap() {
                                Node::Tab(x) => { if last { x.explicit = true; } x }
                                Node::Aot(v) => { if last { v.push(Tab { explicit: true, ..Default::default() }); } v.last_mut().unwrap() }
                                Node::Val(_) => unreachable!(),
                            };
                        }
                    }
                }
            }
            Item::KeyVal { key, val } => {
                if let Some(ei) = invalid {
                    if let SErr::BadTable { kvs, .. } = &mut m.errors[ei].e { kvs.push((key.clone(), val.v.clone())); }
                    let mut inner = vec![];
                    value_errors(val, &join(&dead_path, key), src, true, &mut inner);
                    // the index an invalid [[header]] would have had is unspecified
                    for (e, d) in inner { m.errors.push(LErr { e, expr: xi, lines, nested_in_dead: d || dead_aot }); }
                    continue;
                }
                let (t, base, _) = descend(&mut m.root, &cur).expect("current table exists");
                let path = join(&base, key);
                let mut inner = vec![];
                let dup = t.get(key).is_some();
                value_errors(val, &path, src, dup, &mut inner);
                if !dup { t.add(key, Node::Val(val.clone())); }
                for (e, d) in inner { m.errors.push(LErr { e, expr: xi, lines, nested_in_dead: d }); }
                if dup {
                    m.errors.push(LErr { e: SErr::Dup { key: path, val: val.v.clone() }, expr: xi, lines, nested_in_dead: false });
                }
            }
        }
    }
    m
}

pub type Map = Vec<(String, Entry)>;

pub fn flat_val(path: &str, v: &Val, out: &mut Map) {
    let kids = match &v.v {
        V::Arr(els) => Kids::Count(els.len()),
        V::Inl(kvs) => {
            let mut ks: Vec<String> = vec![];
            for (k, _) in kvs { if !ks.contains(k) { ks.push(k.clone()); } }
            Kids::Keys(ks)
        }
        _ => Kids::Count(0),
    };
    out.push((path.to_string(), Entry { val: Some(v.clone()), kids }));
    match &v.v {
        V::Arr(els) => for (i, e) in els.iter().enumerate() { flat_val(&format!("{}[{}]", path, i), e, out) },
        V::Inl(kvs) => for (i, (k, e)) in kvs.iter().enumerate() {
            if !kvs[..i].iter().any(|(k2, _)| k2 == k) { flat_val(&join(path, k), e, out); }
        },
        _ => {}
    }
}
pub fn flat_tab(path: &str, t: &Tab, out: &mut Map) {
    out.push((path.to_string(), Entry { val: None, kids: Kids::Keys(t.kids.iter().map(|x| x.0.clone()).collect()) }));
    for (k, n) in &t.kids {
        let p = join(path, k);
        match n {
            Node::Tab(t) => flat_tab(&p, t, out),
            Node::Aot(v) => {
                out.push((p.clone(), Entry { val: None, kids: Kids::Count(v.len()) }));
                for (i, t) in v.iter().enumerate() { flat_tab(&format!("{}[{}]", p, i), t, out); }
            }
            Node::Val(v) => flat_val(&p, v, out),
        }
    }
}
/// every key path the document defines, root ("") first, in document order
pub fn flatten(m: &Model) -> Map { let mut out = vec![]; flat_tab("", &m.root, &mut out); out }
