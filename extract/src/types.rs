//! A small local type inference: just enough to tell which function a method call means.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Default, Clone)]
pub struct Tables {
    pub fields: BTreeMap<(String, String), Type>,
    pub fns: BTreeMap<String, Option<Type>>, // "T::f" or "f" -> return type
    pub known: BTreeSet<String>,
    pub devirt: BTreeMap<String, String>,
    pub aliases: BTreeMap<String, Type>, // file-independent renamings of types (dyn Any, ..)
}
impl Tables {
    pub fn strip(&self, t: &Type) -> Type {
        match t {
            Type::Reference(r) => self.strip(&r.elem),
            Type::Paren(p) => self.strip(&p.elem),
            Type::Group(p) => self.strip(&p.elem),
            Type::TraitObject(o) => {
                for b in &o.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let n = tb.path.segments.last().unwrap().ident.to_string();
                        if let Some(d) = self.devirt.get(&n) {
                            return parse_str(d).unwrap();
                        }
                    }
                }
                t.clone()
            }
            Type::Path(p) => {
                let l = p.path.segments.last().unwrap();
                if l.ident == "Box" || l.ident == "Rc" || l.ident == "Arc" {
                    if let Some(a) = self.arg(t, 0) {
                        return self.strip(&a);
                    }
                }
                t.clone()
            }
            _ => t.clone(),
        }
    }
    /// the k-th generic argument
    pub fn arg(&self, t: &Type, k: usize) -> Option<Type> {
        if let Type::Path(p) = t {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                return a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).nth(k);
            }
        }
        None
    }
    pub fn name(&self, t: &Type) -> Option<String> {
        match self.strip(t) {
            Type::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        }
    }
    fn is(&self, t: &Type, n: &str) -> bool {
        self.name(t).as_deref() == Some(n)
    }
}

pub struct Typer<'a> {
    pub t: &'a Tables,
    pub selfty: String,
    pub env: Vec<(String, Option<Type>)>,
}
impl<'a> Typer<'a> {
    pub fn new(t: &'a Tables, selfty: &str, sig: &Signature) -> Self {
        let mut s = Typer { t, selfty: selfty.to_string(), env: vec![] };
        for i in &sig.inputs {
            if let FnArg::Typed(p) = i {
                s.bind(&p.pat, Some((*p.ty).clone()));
            }
        }
        s
    }
    pub fn bind(&mut self, p: &Pat, t: Option<Type>) {
        match p {
            Pat::Ident(i) => {
                self.env.push((i.ident.to_string(), t.clone()));
                if let Some((_, s)) = &i.subpat {
                    self.bind(s, t);
                }
            }
            Pat::Reference(r) => self.bind(&r.pat, t),
            Pat::Paren(r) => self.bind(&r.pat, t),
            Pat::Type(r) => self.bind(&r.pat, Some((*r.ty).clone())),
            Pat::Or(o) => {
                for c in &o.cases {
                    self.bind(c, t.clone());
                }
            }
            Pat::Tuple(tp) => {
                let ts: Vec<Type> = match t.as_ref().map(|t| self.t.strip(t)) {
                    Some(Type::Tuple(tt)) => tt.elems.iter().cloned().collect(),
                    _ => vec![],
                };
                for (k, e) in tp.elems.iter().enumerate() {
                    self.bind(e, ts.get(k).cloned());
                }
            }
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                let t = t.map(|t| self.t.strip(&t));
                let inner = match (n.as_str(), &t) {
                    ("Ok", Some(t)) if self.t.is(t, "Result") => self.t.arg(t, 0),
                    ("Err", Some(t)) if self.t.is(t, "Result") => self.t.arg(t, 1),
                    ("Some", Some(t)) if self.t.is(t, "Option") => self.t.arg(t, 0),
                    _ => None,
                };
                for e in &ts.elems {
                    self.bind(e, inner.clone());
                }
            }
            Pat::Slice(s) => {
                for e in &s.elems {
                    self.bind(e, None);
                }
            }
            Pat::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                for f in &s.fields {
                    let m = f.member.to_token_stream().to_string();
                    let t = self.t.fields.get(&(n.clone(), m)).cloned();
                    self.bind(&f.pat, t);
                }
            }
            _ => {}
        }
    }
    fn call_ret(&self, key: &str) -> Option<Type> {
        let r = self.t.fns.get(key).cloned().flatten()?;
        Some(self.subst_self(r, key.split("::").next().unwrap_or("")))
    }
    fn subst_self(&self, t: Type, s: &str) -> Type {
        if s.is_empty() || !self.t.known.contains(s) {
            return t;
        }
        let txt = t.to_token_stream().to_string();
        let toks: Vec<&str> = txt.split(' ').map(|x| if x == "Self" { s } else { x }).collect();
        parse_str(&toks.join(" ")).unwrap_or(t)
    }
    /// text or bytes, compared by their contents
    pub fn bytes(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => return self.bytes(&p.expr),
            Expr::Reference(p) => return self.bytes(&p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => return self.bytes(&u.expr),
            Expr::Lit(l) => return matches!(l.lit, Lit::Str(_) | Lit::ByteStr(_)),
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                if f.starts_with("crate :: lits ::") || f == "xcat" || f == "xcat0" {
                    return true;
                }
            }
            Expr::MethodCall(m) if ["xslice", "as_bytes", "xdisplay"].contains(&m.method.to_string().as_str()) => return true,
            _ => {}
        }
        let t = match self.of(e) {
            Some(t) => self.t.strip(&t),
            None => return false,
        };
        match &t {
            Type::Slice(s) => s.elem.to_token_stream().to_string() == "u8",
            Type::Path(_) => {
                let n = self.t.name(&t).unwrap_or_default();
                ["String", "str", "Bytes", "BytesMut", "OsString", "OsStr"].contains(&n.as_str()) || n == "Vec" && self.t.arg(&t, 0).map_or(false, |a| a.to_token_stream().to_string() == "u8")
            }
            _ => false,
        }
    }
    pub fn of(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
                let n = p.path.segments[0].ident.to_string();
                if n == "self" && !self.selfty.is_empty() {
                    return parse_str(&self.selfty).ok();
                }
                self.env.iter().rev().find(|x| x.0 == n).and_then(|x| x.1.clone())
            }
            Expr::Paren(p) => self.of(&p.expr),
            Expr::Group(p) => self.of(&p.expr),
            Expr::Reference(p) => self.of(&p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.of(&u.expr),
            Expr::Field(f) => {
                let b = self.of(&f.base)?;
                match self.t.strip(&b) {
                    Type::Tuple(tt) => {
                        if let Member::Unnamed(i) = &f.member {
                            return tt.elems.iter().nth(i.index as usize).cloned();
                        }
                        None
                    }
                    _ => {
                        let n = self.t.name(&b)?;
                        self.t.fields.get(&(n, f.member.to_token_stream().to_string())).cloned()
                    }
                }
            }
            Expr::Index(i) => {
                let b = self.of(&i.expr)?;
                match self.t.strip(&b) {
                    Type::Slice(s) => Some((*s.elem).clone()),
                    Type::Array(s) => Some((*s.elem).clone()),
                    x if self.t.is(&x, "Vec") && !matches!(&*i.index, Expr::Range(_)) => self.t.arg(&x, 0),
                    _ => None,
                }
            }
            Expr::Try(t) => {
                let b = self.of(&t.expr)?;
                let b = self.t.strip(&b);
                if self.t.is(&b, "Result") || self.t.is(&b, "Option") {
                    self.t.arg(&b, 0)
                } else {
                    None
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    let last = p.path.segments[n - 1].ident.to_string();
                    if n == 1 {
                        return self.call_ret(&last);
                    }
                    let mut q = p.path.segments[n - 2].ident.to_string();
                    if q == "Self" {
                        q = self.selfty.clone();
                    }
                    if q == "Box" && last == "new" {
                        return c.args.first().and_then(|a| self.of(a));
                    }
                    if let Some(r) = self.call_ret(&format!("{}::{}", q, last)) {
                        return Some(r);
                    }
                    if !self.t.known.contains(&q) && !["Option", "Result", "Vec", "Box", "BTreeMap", "Rc", "Arc", "Some", "Ok", "Err"].contains(&q.as_str()) && q.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                        return parse_str(&format!("External__{}", q)).ok();
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let r = self.of(&m.receiver);
                let name = m.method.to_string();
                let r = self.t.strip(&r?);
                let rn = self.t.name(&r)?;
                if self.t.known.contains(&rn) {
                    if let Some(x) = self.call_ret(&format!("{}::{}", rn, name)) {
                        return Some(x);
                    }
                }
                if rn.starts_with("External__") {
                    return Some(r);
                }
                match name.as_str() {
                    "unwrap" | "expect" | "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" if rn == "Option" || rn == "Result" => self.t.arg(&r, 0),
                    "ok" if rn == "Result" => {
                        let a = self.t.arg(&r, 0)?;
                        parse_str(&format!("Option<{}>", a.to_token_stream())).ok()
                    }
                    "clone" | "as_ref" | "as_mut" | "take" | "borrow" | "as_deref" | "to_owned" | "map_err" | "or_else" => Some(r),
                    _ => None,
                }
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) if b.block.stmts.len() == 1 => self.of(e),
                _ => None,
            },
            Expr::Match(m) => {
                for a in &m.arms {
                    let mut t = Typer { t: self.t, selfty: self.selfty.clone(), env: self.env.clone() };
                    let s = self.of(&m.expr);
                    t.bind(&a.pat, s);
                    if let Some(x) = t.of(&a.body) {
                        return Some(x);
                    }
                }
                None
            }
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.of(e),
                _ => None,
            },
            Expr::Tuple(t) => {
                let v: Option<Vec<Type>> = t.elems.iter().map(|x| self.of(x)).collect();
                v.map(|v| parse_quote!((#(#v),*)))
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last()?.ident.to_string();
                parse_str(if n == "Self" { &self.selfty } else { &n }).ok()
            }
            _ => None,
        }
    }
}
