//! Contracts mention parameters and local variables by name.  proof/names.txt records the names each
//! function used when its contract was written; where the source now uses other names in the same
//! places, the contract follows.
use crate::contracts::FnC;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

/// parameters, then the other names in order of binding
pub type Names = (Vec<String>, Vec<String>);

pub fn load(path: &str) -> BTreeMap<String, Names> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() >= 3 {
            let list = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
            m.insert(f[0].to_string(), (list(f[1]), list(f[2])));
        }
    }
    m
}

/// The kinds of loops which the iterator chains of a function became (the fourth column).
pub fn load_kinds(path: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() == 4 {
            m.insert(f[0].to_string(), f[3].to_string());
        }
    }
    m
}

#[derive(Default)]
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(|c: char| c.is_uppercase()) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

pub fn names_of(sig: &Signature, b: &Block) -> Names {
    let mut p = Binders::default();
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            p.visit_pat(&t.pat);
        }
    }
    let mut l = Binders::default();
    l.visit_block(b);
    (p.0, l.0)
}

/// Which names became which.
pub fn align(old: &Names, new: &Names) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    if old == new {
        return m;
    }
    let mut bad = BTreeSet::new();
    let mut put = |a: &String, b: &String| {
        if let Some(x) = m.get(a) {
            if x != b {
                bad.insert(a.clone());
            }
        } else {
            m.insert(a.clone(), b.clone());
        }
    };
    if old.0.len() == new.0.len() {
        for (a, b) in old.0.iter().zip(&new.0) {
            if a != b {
                put(a, b);
            }
        }
    }
    let (o, n) = (&old.1, &new.1);
    let os: BTreeSet<&String> = o.iter().collect();
    let ns: BTreeSet<&String> = n.iter().collect();
    let big = 1_000_000usize;
    let sub = |a: &String, b: &String| if a == b { 0 } else if !ns.contains(a) && !os.contains(b) { 1 } else { big };
    let mut d = vec![vec![0usize; n.len() + 1]; o.len() + 1];
    for i in 0..=o.len() {
        for j in 0..=n.len() {
            d[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                (d[i - 1][j - 1] + sub(&o[i - 1], &n[j - 1])).min(d[i - 1][j] + 1).min(d[i][j - 1] + 1)
            };
        }
    }
    let (mut i, mut j) = (o.len(), n.len());
    let mut pairs = vec![];
    while i > 0 && j > 0 {
        let c = sub(&o[i - 1], &n[j - 1]);
        if d[i][j] == d[i - 1][j - 1] + c {
            if c == 1 {
                pairs.push((o[i - 1].clone(), n[j - 1].clone()));
            }
            i -= 1;
            j -= 1;
        } else if d[i][j] == d[i - 1][j] + 1 {
            i -= 1;
        } else {
            j -= 1;
        }
    }
    for (a, b) in pairs.iter().rev() {
        put(a, b);
    }
    for b in bad {
        m.remove(&b);
    }
    m
}

fn subst(t: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut open: Vec<char> = vec![];
    while i < cs.len() {
        let c = cs[i];
        match c {
            '(' | '[' | '{' => open.push(c),
            ')' | ']' | '}' => drop(open.pop()),
            _ => {}
        }
        if c == '"' {
            out.push(c);
            i += 1;
            while i < cs.len() {
                out.push(cs[i]);
                if cs[i] == '\\' && i + 1 < cs.len() {
                    i += 1;
                    out.push(cs[i]);
                } else if cs[i] == '"' {
                    i += 1;
                    break;
                }
                i += 1;
            }
        } else if c.is_alphabetic() || c == '_' {
            let a = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[a..i].iter().collect();
            let field = a > 0 && cs[a - 1] == '.' && !(a > 1 && cs[a - 2] == '.');
            let path = a > 0 && cs[a - 1] == ':' || i + 1 < cs.len() && cs[i] == ':' && cs[i + 1] == ':';
            let next = cs[i..].iter().find(|x| !x.is_whitespace()).copied();
            let prev = cs[..a].iter().rev().find(|x| !x.is_whitespace()).copied();
            // the name of a field in a struct expression or pattern, a function, a byte string
            let other = next == Some(':') && open.last() == Some(&'{') && matches!(prev, Some('{') | Some(',')) || next == Some('(') && prev != Some('|') || i < cs.len() && cs[i] == '"';
            match m.get(&w) {
                Some(x) if !field && !path && !other => out.push_str(x),
                _ => out.push_str(&w),
            }
        } else if c.is_ascii_digit() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                out.push(cs[i]);
                i += 1;
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

/// Renames in the contract what the source has renamed.  `m` holds the parameters and locals, `old`
/// the recorded names; the clauses before and after the body see only the parameters.
pub fn rename(c: &mut FnC, m: &BTreeMap<String, String>, old: &Names, new: &Names) {
    let is_old = |x: &String| old.0.contains(x) || old.1.contains(x);
    let ret = if c.ret.is_empty() { "r".to_string() } else { c.ret.clone() };
    // a name of the contract's own which the source now uses for something else
    let away: BTreeMap<String, String> = m.values().filter(|x| !is_old(x)).map(|x| (x.clone(), format!("{}__c", x))).collect();
    let clash = new.0.contains(&ret) && !old.0.contains(&ret);
    if clash {
        c.ret = format!("{}__c", ret);
    }
    let mp: BTreeMap<String, String> = m.iter().filter(|(k, _)| old.0.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut awp: BTreeMap<String, String> = mp.values().filter(|x| !old.0.contains(x)).map(|x| (x.clone(), format!("{}__c", x))).collect();
    awp.retain(|k, _| *k != ret || clash);
    for x in c.req.iter_mut().chain(c.ens.iter_mut()) {
        x.text = subst(&subst(&x.text, &awp), &mp);
    }
    let s = |t: &mut String| *t = subst(&subst(t, &away), m);
    if let Some(d) = c.dec.as_mut() {
        s(d);
    }
    if let Some(d) = c.sig.as_mut() {
        *d = subst(&subst(d, &awp), &mp);
    }
    s(&mut c.start);
    s(&mut c.rets);
    for l in c.loops.values_mut() {
        for x in l.inv.iter_mut().chain(l.ens.iter_mut()) {
            s(&mut x.text);
        }
        if let Some(d) = l.dec.as_mut() {
            s(d);
        }
        for t in [&mut l.start, &mut l.end, &mut l.before, &mut l.after] {
            s(t);
        }
    }
    for v in [&mut c.after_call, &mut c.before_call, &mut c.tail_of] {
        for x in v.iter_mut() {
            s(&mut x.2);
        }
    }
    let h = std::mem::take(&mut c.hints);
    c.hints = h.into_iter().map(|(k, v)| (m.get(&k).cloned().unwrap_or(k), v)).collect();
}
