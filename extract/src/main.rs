//! Mechanical extraction of the functions under contract from the repository's current sources
//! into one Verus file.
//!
//! usage: extract REPO PROOFDIR OUT.rs OUT.json [--external FN,FN,..] [--only-dump]
mod contracts;
mod lower;
mod names;
mod types;

use contracts::{bytes_lits, Common, FileC, FnC};
use lower::Ctx;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn nosp(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

// ---------------------------------------------------------------- cfg
fn cfg_eval(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            let s = nosp(p);
            match s.as_str() {
                "test" | "windows" => false,
                "unix" => true,
                "debug_assertions" => true,
                _ => false,
            }
        }
        Meta::NameValue(nv) => {
            let s = nosp(nv);
            s == "feature=\"pcre\"" || s == "target_os=\"linux\"" || s == "target_family=\"unix\""
        }
        Meta::List(l) => {
            let inner = l
                .parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|x| x.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            match nosp(&l.path).as_str() {
                "not" => !inner.iter().any(cfg_eval),
                "all" => inner.iter().all(cfg_eval),
                "any" => inner.iter().any(cfg_eval),
                _ => false,
            }
        }
    }
}
fn cfg_on(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            a.parse_args::<Meta>().map(|m| cfg_eval(&m)).unwrap_or(true)
        } else {
            !a.path().is_ident("test")
        }
    })
}

// ---------------------------------------------------------------- renaming of types and paths
struct Renamer<'a> {
    types: &'a BTreeMap<String, String>,
    ftypes: &'a BTreeMap<String, String>,
    paths: &'a BTreeMap<String, String>,
    methods: &'a BTreeMap<String, String>,
}
fn strip_lt(s: &str) -> String {
    // remove lifetimes from a printed type, for table lookup
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while let Some(d) = it.peek() {
                if d.is_alphanumeric() || *d == '_' {
                    it.next();
                } else {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out.replace("+>", ">").replace("<>", "").replace("<,", "<").replace("dyn", "")
}
/// a type with its lifetimes numbered and without `dyn`; the names of the lifetimes
fn canon_lt(t: &str) -> (String, Vec<String>) {
    let t = t.replace("dyn ", "").replace("<dyn", "<").replace("&dyn", "&");
    let mut out = String::new();
    let mut names: Vec<String> = vec![];
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        out.push(cs[i]);
        if cs[i] == '\'' {
            let a = i + 1;
            i = a;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let n: String = cs[a..i].iter().collect();
            let k = names.iter().position(|x| *x == n).unwrap_or_else(|| {
                names.push(n);
                names.len() - 1
            });
            out.push_str(&k.to_string());
        } else {
            i += 1;
        }
    }
    (out, names)
}
impl<'a> Renamer<'a> {
    fn lookup(&self, t: &Type) -> Option<String> {
        let a = nosp(t);
        let b = strip_lt(&a);
        for m in [self.ftypes, self.types] {
            for k in [&a, &b] {
                if let Some(v) = m.get(k) {
                    return Some(v.clone());
                }
            }
        }
        // the same up to the names of lifetimes and an omitted `dyn`
        let (c, lts) = canon_lt(&a);
        for m in [self.ftypes, self.types] {
            for (k, v) in m {
                let (ck, old) = canon_lt(k);
                if ck == c && old.len() == lts.len() && !k.starts_with('.') {
                    let (cv, of) = canon_lt(v);
                    let mut t = cv;
                    for (i, l) in of.iter().enumerate().rev() {
                        let n = old.iter().position(|x| x == l).map(|j| lts[j].clone()).unwrap_or(l.clone());
                        t = t.replace(&format!("'{}", i), &format!("'{}", n));
                    }
                    return Some(t);
                }
            }
        }
        None
    }
}
impl<'a> VisitMut for Renamer<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(v) = self.lookup(t) {
            *t = syn::parse_str(&v).unwrap_or_else(|e| panic!("type {}: {}", v, e));
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let s = {
            // without turbofish
            let mut q = p.path.clone();
            for seg in q.segments.iter_mut() {
                seg.arguments = PathArguments::None;
            }
            nosp(&q)
        };
        if let Some(v) = self.paths.get(&s) {
            *p = syn::parse_str(v).unwrap_or_else(|e| panic!("path {}: {}", v, e));
            return;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Cast(c) = e {
            if let Some(v) = self.ftypes.get(&format!("as {}", nosp(&c.ty))) {
                let f = format_ident!("{}", v);
                let x = &c.expr;
                *e = syn::parse2(quote!(#f(#x))).unwrap();
            }
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = m.method.to_string();
        // a method of one of the extracted types keeps its name
        if let Some(k) = n.strip_suffix("__own") {
            m.method = format_ident!("{}", k);
            return;
        }
        if let Some(v) = self.ftypes.get(&format!(".{}", n)).or_else(|| self.methods.get(&n)) {
            m.method = format_ident!("{}", v);
        }
    }
}

/// Range-indexed places used as a method receiver: the receiver gets an explicit borrow, and the
/// slice copying methods become methods of the whole slice taking the range.
struct Ranges;
fn range_index(e: &Expr) -> Option<(Expr, Expr, Option<Expr>)> {
    if let Expr::Index(i) = e {
        if let Expr::Range(r) = &*i.index {
            if let RangeLimits::HalfOpen(_) = r.limits {
                let a = r.start.clone().map(|x| *x).unwrap_or_else(|| syn::parse_str("0").unwrap());
                return Some(((*i.expr).clone(), a, r.end.clone().map(|x| *x)));
            }
        }
    }
    None
}
impl VisitMut for Ranges {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if let Some((x, a, b)) = range_index(&m.receiver) {
                let n = m.method.to_string();
                if n == "copy_from_slice" || n == "clone_from_slice" || n == "fill" {
                    let arg = &m.args[0];
                    let mn = format_ident!("xrange_{}", n);
                    let b = match b {
                        Some(b) => quote!(#b),
                        None => quote!((#x).xlen()),
                    };
                    *e = syn::parse2(quote!((#x).#mn(#a, #b, #arg))).unwrap();
                } else if n != "iter_mut" && n != "sort" && n != "reverse" {
                    let r = &m.receiver;
                    *m.receiver = syn::parse2(quote!((&#r))).unwrap();
                }
            }
        }
    }
}

// ---------------------------------------------------------------- effects
fn last_two(p: &Path, selfty: &str) -> String {
    let n = p.segments.len();
    let last = p.segments[n - 1].ident.to_string();
    if n == 1 {
        return last;
    }
    let mut q = p.segments[n - 2].ident.to_string();
    if q == "Self" {
        q = selfty.to_string();
    }
    format!("{}::{}", q, last)
}
/// Walks a function body with types, reporting each call under the name of the function it means:
/// `f`, `T::f`, or `.f` for a method of a value of unknown type (`?.f` if it is of a type from outside).
struct Walk<'a, 'b> {
    ty: types::Typer<'a>,
    f: &'b mut dyn FnMut(&str, &mut Expr),
    kinds: BTreeMap<String, bool>,
}
/// Which receivers of method calls are options (true) or results (false), by their text.
fn kinds_of(t: &types::Tables, b: &Block, selfty: &str, sig: &Signature) -> BTreeMap<String, bool> {
    let mut b = b.clone();
    let mut w = Walk { ty: types::Typer::new(t, selfty, sig), f: &mut |_, _| {}, kinds: BTreeMap::new() };
    w.visit_block_mut(&mut b);
    w.kinds
}
impl<'a, 'b> Walk<'a, 'b> {
    fn method_key(&self, m: &ExprMethodCall) -> String {
        let name = m.method.to_string();
        if let Some(t) = self.ty.of(&m.receiver) {
            if let Some(n) = self.ty.t.name(&t) {
                if self.ty.t.known.contains(&n) {
                    let k = format!("{}::{}", n, name);
                    if self.ty.t.fns.contains_key(&k) {
                        return k;
                    }
                    return format!("?.{}", name);
                }
                if n.starts_with("External__") {
                    return format!("?.{}", name);
                }
            }
        }
        format!(".{}", name)
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        let n = self.ty.env.len();
        f(self);
        self.ty.env.truncate(n);
    }
}
impl<'a, 'b> VisitMut for Walk<'a, 'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scoped(|s| visit_mut::visit_block_mut(s, b));
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // the type first: what follows may rewrite the initialiser
        let t = l.init.as_ref().and_then(|i| self.ty.of(&i.expr));
        visit_mut::visit_local_mut(self, l);
        self.ty.bind(&l.pat, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Match(m) => {
                let t = self.ty.of(&m.expr);
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    let t = t.clone();
                    self.scoped(|s| {
                        s.ty.bind(&a.pat, t);
                        if let Some((_, g)) = a.guard.as_mut() {
                            s.visit_expr_mut(g);
                        }
                        s.visit_expr_mut(&mut a.body);
                    });
                }
            }
            Expr::If(_) | Expr::While(_) => self.scoped(|s| visit_mut::visit_expr_mut(s, e)),
            Expr::Let(l) => {
                let t = self.ty.of(&l.expr);
                self.visit_expr_mut(&mut l.expr);
                self.ty.bind(&l.pat, t);
            }
            Expr::Closure(c) => self.scoped(|s| {
                for i in &c.inputs {
                    s.ty.bind(i, None);
                }
                s.visit_expr_mut(&mut c.body);
            }),
            Expr::ForLoop(l) => self.scoped(|s| {
                s.visit_expr_mut(&mut l.expr);
                s.ty.bind(&l.pat, None);
                s.visit_block_mut(&mut l.body);
            }),
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let text = self.ty.bytes(&b.left) || self.ty.bytes(&b.right);
                let ne = matches!(b.op, BinOp::Ne(_));
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                if text {
                    let (l, r) = (&b.left, &b.right);
                    let t: Expr = parse_quote!(xeq((#l).xslice(), (#r).xslice()));
                    *e = if ne { parse_quote!(!#t) } else { t };
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_)) => {
                let text = self.ty.bytes(&b.left) || self.ty.bytes(&b.right);
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                if text {
                    let (l, r) = (&b.left, &b.right);
                    *e = match b.op {
                        BinOp::Lt(_) => parse_quote!(xlt((#l).xslice(), (#r).xslice())),
                        BinOp::Gt(_) => parse_quote!(xlt((#r).xslice(), (#l).xslice())),
                        BinOp::Le(_) => parse_quote!(!xlt((#r).xslice(), (#l).xslice())),
                        _ => parse_quote!(!xlt((#l).xslice(), (#r).xslice())),
                    };
                }
            }
            Expr::Call(c) => {
                let k = match &*c.func {
                    Expr::Path(p) => Some(last_two(&p.path, &self.ty.selfty)),
                    _ => None,
                };
                visit_mut::visit_expr_call_mut(self, c);
                if let Some(k) = k {
                    (self.f)(&k, e);
                }
            }
            Expr::MethodCall(m) => {
                let k = self.method_key(m);
                if let Some(t) = self.ty.of(&m.receiver) {
                    match self.ty.t.name(&t).as_deref() {
                        Some("Option") => {
                            self.kinds.insert(m.receiver.to_token_stream().to_string(), true);
                        }
                        Some("Result") => {
                            self.kinds.insert(m.receiver.to_token_stream().to_string(), false);
                        }
                        _ => {}
                    }
                }
                visit_mut::visit_expr_method_call_mut(self, m);
                (self.f)(&k, e);
            }
            Expr::Path(p) if p.path.segments.len() > 1 => {
                // a function passed by name
                let k = last_two(&p.path, &self.ty.selfty);
                (self.f)(&format!("@{}", k), e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Some(args) = lower::macro_args(m) {
            for mut a in args {
                self.visit_expr_mut(&mut a);
            }
        }
    }
}
fn calls_of(t: &types::Tables, b: &Block, selfty: &str, sig: &Signature) -> BTreeSet<String> {
    let mut c = BTreeSet::new();
    let mut b = b.clone();
    Walk { ty: types::Typer::new(t, selfty, sig), f: &mut |k, _| { c.insert(k.to_string()); }, kinds: BTreeMap::new() }.visit_block_mut(&mut b);
    c
}
/// Does a call (named as `Walk` names it) have an effect on the world?
fn effectful(eff: &BTreeSet<String>, declared: &BTreeSet<String>, k: &str) -> bool {
    match k.strip_prefix("?.") {
        Some(n) => declared.contains(&format!(".{}", n)),
        None => eff.contains(k),
    }
}

// ---------------------------------------------------------------- functions gathered from the sources
#[derive(Clone)]
struct FnInfo {
    key: String,    // contract key
    selfty: String, // type name of the impl, or ""
    name: String,
    sig: Signature,
    block: Block,
    line: usize,
    endline: usize,
}

fn has_self(sig: &Signature) -> bool {
    matches!(sig.inputs.first(), Some(FnArg::Receiver(_)))
}

// ---------------------------------------------------------------- inlining of helpers without a contract
struct Inliner<'a> {
    helpers: &'a BTreeMap<String, FnInfo>,
    selfty: String,
    used: BTreeSet<String>,
    fresh: usize,
    depth: usize,
}
fn ret_is_result(sig: &Signature) -> bool {
    match &sig.output {
        ReturnType::Type(_, t) => nosp(t).starts_with("Result<"),
        _ => false,
    }
}
/// `Self` in an inlined body means the helper's own type.
struct SelfTy {
    to: Ident,
}
impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.first().map(|s| s.ident == "Self").unwrap_or(false) {
            p.segments[0].ident = self.to.clone();
        }
    }
}
/// Early returns of a helper as the values of `if` and `match`: `if c { return x; } rest` becomes
/// `if c { x } else { rest }`, and so on.  What does not have this shape stays as it is.
fn structure(stmts: &mut Vec<Stmt>) {
    fn ends_with_return(e: &Expr) -> bool {
        match e {
            Expr::Return(r) => r.expr.is_some(),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(x, _)) => ends_with_return(x),
                _ => false,
            },
            _ => false,
        }
    }
    fn as_block(e: Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        }
    }
    fn to_expr(stmts: Vec<Stmt>) -> Expr {
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
    }
    fn unfold(e: Expr) -> Expr {
        let mut v = as_block(e);
        structure(&mut v);
        to_expr(v)
    }
    /// would the rest, moved into an arm, see a name that the arm's pattern binds?
    fn captures(m: &ExprMatch, rest: &[Stmt]) -> bool {
        struct B(BTreeSet<String>);
        impl<'ast> Visit<'ast> for B {
            fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                self.0.insert(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
        }
        fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => drop(out.insert(i.to_string())),
                    proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
                    _ => {}
                }
            }
        }
        let mut b = B(BTreeSet::new());
        for a in &m.arms {
            let p: &'static Pat = Box::leak(Box::new(a.pat.clone()));
            b.visit_pat(p);
        }
        let mut used = BTreeSet::new();
        for s in rest {
            idents(s.to_token_stream(), &mut used);
        }
        // "{x}" in a format string names a variable too
        let text: String = rest.iter().map(|s| s.to_token_stream().to_string()).collect();
        b.0.iter().any(|x| used.contains(x) || text.contains(&format!("{{{}", x)))
    }
    for i in 0..stmts.len() {
        let last = i + 1 == stmts.len();
        match &stmts[i] {
            Stmt::Expr(Expr::Return(r), _) if r.expr.is_some() => {
                let x = (**r.expr.as_ref().unwrap()).clone();
                stmts.truncate(i);
                stmts.push(Stmt::Expr(x, None));
                return structure(stmts);
            }
            Stmt::Expr(Expr::If(f), semi) => {
                let then = to_expr(f.then_branch.stmts.clone());
                let els = f.else_branch.as_ref().map(|(_, x)| (**x).clone());
                let (tr, er) = (ends_with_return(&then), els.as_ref().map_or(false, ends_with_return));
                if last && semi.is_none() && els.is_some() {
                    let (mut f, els) = (f.clone(), els.unwrap());
                    f.then_branch.stmts = as_block(unfold(then));
                    f.else_branch = Some((Default::default(), Box::new(unfold(els))));
                    stmts[i] = Stmt::Expr(Expr::If(f), None);
                    return;
                }
                if !tr && !er || last && semi.is_none() {
                    continue;
                }
                let mut f = f.clone();
                let rest: Vec<Stmt> = stmts.drain(i + 1..).collect();
                let with = |x: Option<Expr>, ret: bool| {
                    let mut v = x.map(as_block).unwrap_or_default();
                    if !ret {
                        if !v.is_empty() {
                            // a scope of its own
                            v = vec![Stmt::Expr(to_expr(v), Some(Default::default()))];
                        }
                        v.extend(rest.iter().cloned());
                    }
                    unfold(to_expr(v))
                };
                let (a, b) = (with(Some(then), tr), with(els, er));
                f.then_branch.stmts = as_block(a);
                f.else_branch = Some((Default::default(), Box::new(b)));
                stmts[i] = Stmt::Expr(Expr::If(f), None);
                return;
            }
            Stmt::Expr(Expr::Match(m), semi) => {
                let n = m.arms.iter().filter(|a| !ends_with_return(&a.body)).count();
                let mut m = m.clone();
                if last && semi.is_none() {
                    for a in m.arms.iter_mut() {
                        a.body = Box::new(unfold((*a.body).clone()));
                    }
                    stmts[i] = Stmt::Expr(Expr::Match(m), None);
                    return;
                }
                if n > 1 || n == m.arms.len() || captures(&m, &stmts[i + 1..]) {
                    continue;
                }
                let rest: Vec<Stmt> = stmts.drain(i + 1..).collect();
                for a in m.arms.iter_mut() {
                    let mut v = as_block((*a.body).clone());
                    if !ends_with_return(&a.body) {
                        v = vec![Stmt::Expr(to_expr(v), Some(Default::default()))];
                        v.extend(rest.iter().cloned());
                    }
                    a.body = Box::new(unfold(to_expr(v)));
                }
                stmts[i] = Stmt::Expr(Expr::Match(m), None);
                return;
            }
            Stmt::Local(l) if !last => {
                let m = match &l.init {
                    Some(x) if x.diverge.is_none() => match &*x.expr {
                        Expr::Match(m) => m.clone(),
                        _ => continue,
                    },
                    _ => continue,
                };
                let n = m.arms.iter().filter(|a| !ends_with_return(&a.body)).count();
                if n != 1 || m.arms.len() == 1 || captures(&m, &stmts[i + 1..]) {
                    continue;
                }
                let (mut m, l) = (m, l.clone());
                let rest: Vec<Stmt> = stmts.drain(i + 1..).collect();
                for a in m.arms.iter_mut() {
                    let mut v;
                    if ends_with_return(&a.body) {
                        v = as_block((*a.body).clone());
                    } else {
                        let mut l = l.clone();
                        l.init.as_mut().unwrap().expr = a.body.clone();
                        v = vec![Stmt::Local(l)];
                        v.extend(rest.iter().cloned());
                    }
                    structure(&mut v);
                    a.body = Box::new(to_expr(v));
                }
                stmts[i] = Stmt::Expr(Expr::Match(m), None);
                return;
            }
            _ => {}
        }
    }
}
struct RetOk(bool);
impl<'ast> Visit<'ast> for RetOk {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        match &r.expr {
            Some(e) if lower::call_arg(e, "Err").is_some() => {}
            _ => self.0 = true,
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _c: &'ast ExprClosure) {}
}
impl<'a> Inliner<'a> {
    /// (helper, receiver is plain self) for a call expression
    fn target(&self, e: &Expr) -> Option<(FnInfo, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = last_two(&p.path, &self.selfty);
                    let h = self.helpers.get(&n)?;
                    if has_self(&h.sig) {
                        return None;
                    }
                    return Some((h.clone(), c.args.iter().cloned().collect()));
                }
                None
            }
            Expr::MethodCall(m) => {
                if nosp(&m.receiver) != "self" {
                    return None;
                }
                let h = self.helpers.get(&format!("{}::{}", self.selfty, m.method))?;
                match h.sig.inputs.first() {
                    Some(FnArg::Receiver(r)) if r.reference.is_some() => {}
                    _ => return None,
                }
                Some((h.clone(), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn prologue(&mut self, h: &FnInfo, args: &[Expr]) -> Option<proc_macro2::TokenStream> {
        let mut pats = vec![];
        for i in h.sig.inputs.iter() {
            if let FnArg::Typed(t) = i {
                pats.push(((*t.pat).clone(), (*t.ty).clone()));
            }
        }
        if pats.len() != args.len() || !h.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) {
            return None;
        }
        let mut a = quote!();
        let mut b = quote!();
        for ((p, _t), x) in pats.iter().zip(args) {
            self.fresh += 1;
            let id = format_ident!("__h{}", self.fresh);
            a.extend(quote!(let #id = #x;));
            b.extend(quote!(let #p = #id;));
        }
        a.extend(b);
        Some(a)
    }
    fn try_inline(&mut self, e: &Expr, tail: bool, question: bool) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let (h, args) = self.target(e)?;
        let fl = {
            let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: h.block.clone() });
            lower::flow(&b)
        };
        let pro = self.prologue(&h, &args)?;
        let mut body = h.block.clone();
        let fl = if fl.ret && !tail {
            structure(&mut body.stmts);
            lower::flow(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() }))
        } else {
            fl
        };
        if !h.selfty.is_empty() && h.selfty != self.selfty {
            SelfTy { to: format_ident!("{}", h.selfty) }.visit_block_mut(&mut body);
        }
        let mut out = None;
        if !fl.ret && !fl.q {
            let st = &body.stmts;
            let t = match &h.sig.output {
                ReturnType::Type(_, t) if !nosp(t).contains('&') && !nosp(t).contains("Self") => Some(t.clone()),
                _ => None,
            };
            out = Some(match t {
                Some(t) => quote!({ #pro let __hr: #t = { #(#st)* }; __hr }),
                None => quote!({ #pro #(#st)* }),
            });
        } else if tail {
            let st = &body.stmts;
            out = Some(quote!({ #pro #(#st)* }));
        } else if question && ret_is_result(&h.sig) {
            let mut r = RetOk(false);
            let l: &'static Block = Box::leak(Box::new(body.clone()));
            r.visit_block(l);
            if !r.0 {
                // tail Ok(v) -> v, other tail e -> e?
                if let Some(Stmt::Expr(t, None)) = body.stmts.pop() {
                    let st = &body.stmts;
                    let t2 = match lower::call_arg(&t, "Ok") {
                        Some(v) => quote!(#v),
                        None => quote!((#t)?),
                    };
                    out = Some(quote!({ #pro #(#st)* #t2 }));
                }
            }
        }
        let ts = out?;
        let mut x: Expr = syn::parse2(ts).ok()?;
        self.used.insert(h.key.clone());
        self.depth += 1;
        self.visit_expr_mut(&mut x);
        self.depth -= 1;
        Some(x)
    }
    fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    self.tail_expr(e);
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, el)) = &mut i.else_branch {
                    self.tail_expr(el);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
            _ => {
                if let Some(x) = self.try_inline(e, true, false) {
                    *e = x;
                } else {
                    self.visit_expr_mut(e);
                }
            }
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            // .map(helper) is .map(|x| helper(x))
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    let known = self.helpers.get(&last_two(&p.path, &self.selfty)).map_or(false, |h| !has_self(&h.sig) && h.sig.inputs.len() == 1);
                    if known && p.path.segments.len() > 1 || known && p.path.get_ident().map_or(false, |i| self.helpers.contains_key(&i.to_string())) {
                        let p = p.clone();
                        self.fresh += 1;
                        let x = format_ident!("__p{}", self.fresh);
                        *a = syn::parse2(quote!(|#x| #p(#x))).unwrap();
                    }
                }
            }
        }
        if let Expr::Closure(c) = e {
            self.tail_expr(&mut c.body);
            return;
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                self.tail_expr(x);
            }
            return;
        }
        if let Expr::Try(t) = e {
            let inner = (*t.expr).clone();
            if let Some(x) = self.try_inline(&inner, false, true) {
                // a helper without early exits keeps its Result: apply ? to it
                let (h, _) = self.target(&inner).unwrap();
                let mut hb = h.block.clone();
                structure(&mut hb.stmts);
                let fl = lower::flow(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: hb }));
                if !fl.ret && !fl.q {
                    *t.expr = x;
                } else {
                    *e = x;
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.try_inline(&e.clone(), false, false) {
            *e = x;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Some(mut args) = lower::macro_args(m) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = quote!(#(#args),*);
        }
    }
}

// ---------------------------------------------------------------- explicit drops
struct Dropper {
    live: Vec<String>,
    ctors: Vec<String>,
    moving: Vec<String>,
    err: Option<String>,
    used: bool,
}
impl Dropper {
    fn drops(&self) -> proc_macro2::TokenStream {
        let mut t = quote!();
        for v in self.live.iter().rev() {
            let id = format_ident!("{}", v);
            t.extend(quote!(#id.xdrop();));
        }
        t
    }
    fn block(&mut self, b: &mut Block, selfty: &str) {
        let base = self.live.len();
        let mut out: Vec<Stmt> = vec![];
        for mut s in b.stmts.drain(..) {
            // does this statement move a live variable?
            let txt = nosp(&s);
            let mut moved = vec![];
            for v in &self.live {
                for m in &self.moving {
                    if txt.contains(&format!("{}.{}(", v, m)) || txt.contains(&format!("drop({})", v)) {
                        moved.push(v.clone());
                    }
                }
            }
            let mut newvar = None;
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Ident(p), Some(init)) = (&mut l.pat, &l.init) {
                    let it = nosp(&init.expr).replace("Self::", &format!("{}::", selfty));
                    if self.ctors.iter().any(|c| it.starts_with(&format!("{}(", c))) {
                        newvar = Some(p.ident.to_string());
                        p.mutability = Some(Default::default());
                    }
                }
            }
            self.live.retain(|v| !moved.contains(v));
            self.visit_stmt_mut(&mut s);
            if let Some(v) = newvar {
                self.live.push(v);
                self.used = true;
            }
            out.push(s);
        }
        // end of scope
        if self.live.len() > base {
            let drops: Vec<String> = self.live[base..].iter().rev().cloned().collect();
            let ids: Vec<Ident> = drops.iter().map(|d| format_ident!("{}", d)).collect();
            let dt = quote!(#(#ids.xdrop();)*);
            match out.pop() {
                Some(Stmt::Expr(t, None)) => {
                    out.extend(lower::block_stmts(quote!(let __dr = #t; #dt __dr)));
                }
                Some(x) => {
                    out.push(x);
                    out.extend(lower::block_stmts(dt));
                }
                None => {}
            }
            self.live.truncate(base);
        }
        b.stmts = out;
    }
}
impl VisitMut for Dropper {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.live.is_empty() {
            return;
        }
        let d = self.drops();
        match e {
            Expr::Try(t) => {
                let x = &t.expr;
                *e = syn::parse2(quote!(match #x { Ok(__v) => __v, Err(__e) => { #d return Err(xfrom(__e)); } })).unwrap();
            }
            Expr::Return(r) => {
                if let Some(x) = r.expr.clone() {
                    *e = syn::parse2(quote!({ let __dr = #x; #d return __dr; })).unwrap();
                }
            }
            Expr::Break(_) | Expr::Continue(_) => self.err = Some("loop exit with a live droppable value".into()),
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b, "");
    }
    fn visit_expr_closure_mut(&mut self, _e: &mut ExprClosure) {}
}

// ---------------------------------------------------------------- injection of proof text
struct Anchors<'a> {
    want: Vec<(String, usize, usize, u8, bool)>, // name, k, text index, 0=before 1=after 2=tail, found
    counts: BTreeMap<String, usize>,
    _p: std::marker::PhantomData<&'a ()>,
}
fn count_calls(s: &Stmt, name: &str) -> usize {
    // Count calls directly in this statement, but not those inside nested blocks with statements.
    struct V<'n> {
        name: &'n str,
        n: usize,
    }
    impl<'ast, 'n> Visit<'ast> for V<'n> {
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if last_two(&p.path, "Self") == self.name || p.path.segments.last().unwrap().ident == self.name {
                    self.n += 1;
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if m.method == self.name {
                self.n += 1;
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_block(&mut self, _b: &'ast Block) {}
    }
    let l: &'static Stmt = Box::leak(Box::new(s.clone()));
    let mut v = V { name, n: 0 };
    v.visit_stmt(l);
    v.n
}
fn txt_stmt(i: usize) -> Stmt {
    let l = proc_macro2::Literal::usize_unsuffixed(i);
    lower::block_stmts(quote!(__vx_txt!(#l);)).remove(0)
}
impl<'a> VisitMut for Anchors<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let mut pre = vec![];
            let mut post = vec![];
            let names: BTreeSet<String> = self.want.iter().map(|x| x.0.clone()).collect();
            for n in names {
                let c = count_calls(&s, &n);
                if c > 0 {
                    let base = *self.counts.get(&n).unwrap_or(&0);
                    for w in self.want.iter_mut() {
                        if w.0 == n && w.1 >= base && w.1 < base + c {
                            w.4 = true;
                            match w.3 {
                                0 => pre.push(txt_stmt(w.2)),
                                1 => post.push(txt_stmt(w.2)),
                                _ => {}
                            }
                        }
                    }
                    self.counts.insert(n, base + c);
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.extend(pre);
            // a tail expression with text after it
            if !post.is_empty() {
                if let Stmt::Expr(e, None) = &s {
                    let e = e.clone();
                    out.extend(lower::block_stmts(quote!(let __tail = #e;)));
                    out.extend(post);
                    out.extend(lower::block_stmts(quote!(__tail)));
                    continue;
                }
            }
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
}

// ---------------------------------------------------------------- printing
fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut depth = 0i32;
    for c in s.chars() {
        match c {
            '{' => {
                out.push(c);
                out.push('\n');
                depth += 1;
            }
            '}' => {
                out.push('\n');
                out.push(c);
                out.push('\n');
                depth -= 1;
            }
            ';' => {
                out.push(c);
                out.push('\n');
            }
            _ => out.push(c),
        }
    }
    let _ = depth;
    out.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n")
}

// ---------------------------------------------------------------- output with a line map
#[derive(Default)]
struct Out {
    text: String,
    line: usize,
    map: Vec<String>, // JSON objects
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))
}
impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        if !s.ends_with('\n') {
            self.text.push('\n');
        }
        self.line = self.text.matches('\n').count();
    }
    fn clause(&mut self, func: &str, kind: &str, idx: usize, props: &[String], text: &str, body: &str) {
        let a = self.line + 1;
        self.push(body);
        let b = self.line;
        self.map.push(format!(
            "{{\"t\":\"clause\",\"fn\":{},\"kind\":{},\"idx\":{},\"props\":{},\"a\":{},\"b\":{},\"text\":{}}}",
            jstr(func),
            jstr(kind),
            idx,
            jlist(props),
            a,
            b,
            jstr(text.trim())
        ));
    }
}

struct World {
    common: Common,
    tables: types::Tables,
    /// the names of parameters and locals when the contracts were written, and now
    names: BTreeMap<String, names::Names>,
    names_now: Vec<String>,
    /// the kinds of loops which iterator chains became when the contracts were written
    lkinds: BTreeMap<String, String>,
    declared: BTreeSet<String>,
    strconsts: BTreeMap<String, Expr>,
    files: Vec<FileC>,
    eff: BTreeSet<String>,
    lits: Vec<Vec<u8>>,
    external: BTreeSet<String>,
    devirt: BTreeMap<String, String>,
    helpers: BTreeMap<String, FnInfo>,
    fninfo: Vec<String>,
    droppable: Vec<String>,
}

/// struct fields, type names and constant strings of a file
fn gather_types(items: &[Item], t: &mut types::Tables, consts: &mut BTreeMap<String, Expr>) {
    let strlit = |c: &Expr| matches!(c, Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::ByteStr(_), .. }));
    for it in items {
        match it {
            Item::Struct(s) if cfg_on(&s.attrs) => {
                t.known.insert(s.ident.to_string());
                for (i, f) in s.fields.iter().enumerate() {
                    let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                    t.fields.insert((s.ident.to_string(), n), f.ty.clone());
                }
            }
            Item::Enum(s) if cfg_on(&s.attrs) => {
                t.known.insert(s.ident.to_string());
            }
            Item::Const(c) if cfg_on(&c.attrs) && strlit(&c.expr) => {
                consts.insert(c.ident.to_string(), (*c.expr).clone());
            }
            Item::Impl(im) if cfg_on(&im.attrs) => {
                let ty = type_name(&im.self_ty);
                for x in &im.items {
                    if let ImplItem::Const(c) = x {
                        if cfg_on(&c.attrs) && strlit(&c.expr) {
                            consts.insert(format!("{}::{}", ty, c.ident), c.expr.clone());
                        }
                        if cfg_on(&c.attrs) && !im.generics.params.is_empty() {
                            if let Some(v) = const_num(&c.expr, &c.ty) {
                                consts.insert(format!("{}::{}", ty, c.ident), v);
                            }
                        }
                    }
                }
            }
            Item::Mod(m) if cfg_on(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    gather_types(its, t, consts);
                }
            }
            _ => {}
        }
    }
}
/// The value of a numeric constant of a generic type's implementation, as a literal of its type.
fn const_num(e: &Expr, ty: &Type) -> Option<Expr> {
    fn ev(e: &Expr) -> Option<i128> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
            Expr::Paren(p) => ev(&p.expr),
            Expr::Group(p) => ev(&p.expr),
            Expr::Binary(b) => {
                let (x, y) = (ev(&b.left)?, ev(&b.right)?);
                match b.op {
                    BinOp::Shl(_) if (0..64).contains(&y) => Some(x << y),
                    BinOp::Shr(_) if (0..64).contains(&y) => Some(x >> y),
                    BinOp::Add(_) => x.checked_add(y),
                    BinOp::Sub(_) => x.checked_sub(y),
                    BinOp::Mul(_) => x.checked_mul(y),
                    BinOp::BitOr(_) => Some(x | y),
                    BinOp::BitAnd(_) => Some(x & y),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    let t = nosp(ty);
    let max: i128 = match t.as_str() {
        "u8" => u8::MAX as i128,
        "u16" => u16::MAX as i128,
        "u32" => u32::MAX as i128,
        "u64" | "usize" => u64::MAX as i128,
        "i32" => i32::MAX as i128,
        "i64" | "isize" => i64::MAX as i128,
        _ => return None,
    };
    let v = ev(e)?;
    if v < 0 || v > max {
        return None;
    }
    syn::parse_str(&format!("{}{}", v, t)).ok()
}
/// Constant strings are replaced by their values.
struct Consts<'a> {
    m: &'a BTreeMap<String, Expr>,
    selfty: String,
}
impl<'a> VisitMut for Consts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if let Some(x) = self.m.get(&last_two(&p.path, &self.selfty)) {
                *e = x.clone();
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Some(mut args) = lower::macro_args(m) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = quote!(#(#args),*);
        }
    }
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => nosp(t),
    }
}

fn contract_key(tr: Option<&str>, ty: &str, name: &str) -> String {
    match tr {
        Some(t) => format!("{}@{}::{}", t, ty, name),
        None if ty.is_empty() => name.to_string(),
        None => format!("{}::{}", ty, name),
    }
}

/// Collect all functions of a file: (key, info)
fn collect(items: &[Item], out: &mut Vec<FnInfo>) {
    for it in items {
        match it {
            Item::Fn(f) if cfg_on(&f.attrs) => out.push(FnInfo {
                key: f.sig.ident.to_string(),
                selfty: String::new(),
                name: f.sig.ident.to_string(),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                line: f.sig.ident.span().start().line,
                endline: f.block.brace_token.span.close().end().line,
            }),
            Item::Impl(im) if cfg_on(&im.attrs) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    let l = p.segments.last().unwrap();
                    let mut n = l.ident.to_string();
                    if n == "From" {
                        if let PathArguments::AngleBracketed(a) = &l.arguments {
                            n = format!("From<{}>", nosp(&a.args));
                        }
                    }
                    n
                });
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if cfg_on(&f.attrs) {
                            out.push(FnInfo {
                                key: contract_key(tr.as_deref(), &ty, &f.sig.ident.to_string()),
                                selfty: ty.clone(),
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                line: f.sig.ident.span().start().line,
                                endline: f.block.brace_token.span.close().end().line,
                            });
                        }
                    }
                }
            }
            Item::Trait(t) if cfg_on(&t.attrs) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            out.push(FnInfo {
                                key: contract_key(Some("default"), &t.ident.to_string(), &f.sig.ident.to_string()),
                                selfty: t.ident.to_string(),
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: b.clone(),
                                line: f.sig.ident.span().start().line,
                                endline: b.brace_token.span.close().end().line,
                            });
                        }
                    }
                }
            }
            Item::Mod(m) if cfg_on(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(its, out);
                }
            }
            _ => {}
        }
    }
}

impl World {
    fn renamer<'a>(&'a self, ft: &'a BTreeMap<String, String>) -> Renamer<'a> {
        Renamer {
            types: &self.common.type_rename,
            ftypes: ft,
            paths: &self.common.path_rename,
            methods: &self.common.method_rename,
        }
    }

    /// Emit one function.
    fn emit_fn(&mut self, o: &mut Out, fc: &FileC, fi: &FnInfo, in_trait_impl: bool, newname: Option<&str>, emitself: &str) {
        let default = FnC::default();
        let has_contract = fc.fns.contains_key(&fi.key);
        let mut c = fc.fns.get(&fi.key).unwrap_or(&default).clone();
        let mykey = format!("{}::{}", fc.module, fi.key);
        let mynames = names::names_of(&fi.sig, &fi.block);
        if has_contract {
            if let Some(old) = self.names.get(&mykey) {
                let m = names::align(old, &mynames);
                if !m.is_empty() {
                    names::rename(&mut c, &m, old, &mynames);
                }
            }
        }
        let c = c;
        let mut reason: Option<String> = None;
        let mut notes = BTreeSet::new();
        let mut texts: Vec<String> = vec![];
        let mut hints: Vec<String> = vec![];
        let a_line = o.line + 1;
        // --- body
        let mut block = fi.block.clone();
        let selfty = if emitself.is_empty() { fi.selfty.clone() } else { emitself.to_string() };
        let mut used = BTreeSet::new();
        let mut body_txt = String::new();
        let is_eff;
        let mut nloops = 0;
        let mut kind_mismatch = false;
        let mut uncontracted = BTreeSet::new();
        {
            // cfg'd statements
            block.stmts.retain(|s| match s {
                Stmt::Local(l) => cfg_on(&l.attrs),
                _ => true,
            });
            let mut inl = Inliner { helpers: &self.helpers, selfty: selfty.clone(), used: BTreeSet::new(), fresh: 0, depth: 0 };
            inl.tail_block(&mut block);
            used.extend(inl.used.iter().cloned());
            Consts { m: &self.strconsts, selfty: selfty.clone() }.visit_block_mut(&mut block);
            let calls = calls_of(&self.tables, &block, &selfty, &fi.sig);
            for n in &calls {
                let n2 = n.strip_prefix("@").or(n.strip_prefix("?")).unwrap_or(n);
                let n2 = n2.strip_prefix('.').map(|x| format!("{}::{}", selfty, x)).unwrap_or(n2.to_string());
                if self.helpers.contains_key(&n2) {
                    uncontracted.insert(n2);
                }
            }
            is_eff = self.eff.contains(&format!("{}::{}", selfty, fi.name))
                || (fi.selfty.is_empty() && self.eff.contains(&fi.name));
        }
        // explicit drops
        {
            let mut d = Dropper { live: vec![], ctors: self.droppable.iter().filter(|x| x.contains("::")).cloned().collect(), moving: self.common.moving.clone(), err: None, used: false };
            let byval_self = matches!(fi.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none());
            if byval_self && self.droppable.contains(&selfty) {
                d.live.push("self".into());
                d.used = true;
                let mut b2 = block.clone();
                // treat self as declared in this block
                d.live.clear();
                d.live.push("self".into());
                let mut blk = Block { brace_token: Default::default(), stmts: b2.stmts.drain(..).collect() };
                // wrap
                for s in blk.stmts.iter_mut() {
                    d.visit_stmt_mut(s);
                }
                let last = blk.stmts.pop();
                match last {
                    Some(Stmt::Expr(t, None)) => blk.stmts.extend(lower::block_stmts(quote!(let __dr = #t; self.xdrop(); __dr))),
                    Some(x) => {
                        blk.stmts.push(x);
                        blk.stmts.extend(lower::block_stmts(quote!(self.xdrop();)));
                    }
                    None => {}
                }
                block = blk;
            } else {
                d.block(&mut block, &selfty);
            }
            if let Some(e) = d.err {
                reason = Some(e);
            }
            if d.used {
                notes.insert("implicit drops made explicit".to_string());
            }
        }
        let ret_type = match &fi.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => nosp(t),
        };
        if reason.is_none() {
            let mut ctx = Ctx {
                common: &self.common,
                lits: &mut self.lits,
                texts: &mut texts,
                fresh: 0,
                err: None,
                hints: lower::hints_of(Some(&c)),
                loops: 0,
                lkinds: BTreeMap::new(),
                ret_result: ret_type.starts_with("Result<"),
                ret_type: ret_type.clone(),
                notes: BTreeSet::new(),
                let_kind: BTreeMap::new(),
                kinds: kinds_of(&self.tables, &block, &selfty, &fi.sig),
                expected: vec![],
                refs: BTreeSet::new(),
            };
            ctx.lower_fn(&mut block);
            reason = ctx.err.clone();
            notes.extend(ctx.notes.iter().cloned());
            nloops = ctx.loops;
            let kinds = ctx.lkinds.iter().map(|(k, t)| format!("{}{}", t, k)).collect::<Vec<_>>().join(",");
            if has_contract {
                if self.lkinds.get(&mykey).map_or(false, |k| *k != kinds) {
                    kind_mismatch = true;
                }
                self.names_now.push(format!("{}\t{}\t{}\t{}", mykey, mynames.0.join(","), mynames.1.join(","), kinds));
            }
        }
        let mut anchors_lost = vec![];
        if reason.is_none() {
            let mut want = vec![];
            for (v, kind) in [(&c.before_call, 0u8), (&c.after_call, 1), (&c.tail_of, 2)] {
                for (n, k, t) in v {
                    texts.push(t.clone());
                    want.push((n.clone(), *k, texts.len() - 1, kind, false));
                }
            }
            let mut an = Anchors { want, counts: BTreeMap::new(), _p: Default::default() };
            an.visit_block_mut(&mut block);
            for w in &an.want {
                if !w.4 {
                    anchors_lost.push(format!("{}#{}", w.0, w.1));
                }
            }
            if !c.rets.is_empty() {
                texts.push(c.rets.clone());
                struct Rets(usize);
                impl VisitMut for Rets {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::Return(r) = e {
                            if let Some(x) = &r.expr {
                                let t = txt_stmt(self.0);
                                *e = parse_quote!({ let __ret = #x; #t return __ret; });
                            }
                        }
                    }
                    fn visit_expr_closure_mut(&mut self, _e: &mut ExprClosure) {}
                }
                Rets(texts.len() - 1).visit_block_mut(&mut block);
            }
            Ranges.visit_block_mut(&mut block);
            {
                let (eff, decl) = (&self.eff, &self.declared);
                let mut f = |k: &str, e: &mut Expr| {
                    if let Expr::MethodCall(m) = e {
                        if !k.starts_with('.') && !k.starts_with('?') {
                            m.method = format_ident!("{}__own", m.method);
                        }
                    }
                    if effectful(eff, decl, k) {
                        match e {
                            Expr::Call(c) => c.args.insert(0, syn::parse_str("w").unwrap()),
                            Expr::MethodCall(m) => m.args.insert(0, syn::parse_str("w").unwrap()),
                            _ => {}
                        }
                    }
                };
                Walk { ty: types::Typer::new(&self.tables, &selfty, &fi.sig), f: &mut f, kinds: BTreeMap::new() }.visit_block_mut(&mut block);
            }
            let ft = fc.rename_items.clone();
            self.renamer(&ft).visit_block_mut(&mut block);
            if selfty_byval_drop(&fi.sig) && self.droppable.contains(&selfty) {
                // a value dropped here must be a mutable local
                struct Me;
                impl VisitMut for Me {
                    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                        if p.path.is_ident("self") {
                            *p = parse_quote!(__me);
                        }
                    }
                }
                Me.visit_block_mut(&mut block);
                block.stmts.insert(0, parse_quote!(let mut __me = self;));
            }
            let st = &block.stmts;
            body_txt = pretty(&quote!(#(#st)*).to_string());
        }
        // --- signature
        let mut sig = fi.sig.clone();
        if let Some(n) = newname {
            sig.ident = format_ident!("{}", n);
        }
        let mut extra_generics: Vec<String> = vec![];
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = i {
                let s = nosp(&t.ty).replace("'static", "");
                if s == "&mutdynio::Read" || s == "&mutdynRead" {
                    extra_generics.push("XR: io::Read".into());
                    *t.ty = syn::parse_str("&mut XR").unwrap();
                }
            }
        }
        let sig_txt = if let Some(s) = &c.sig {
            s.clone()
        } else {
            for g in extra_generics {
                sig.generics.params.push(syn::parse_str(&g).unwrap());
            }
            let ft = fc.rename_items.clone();
            self.renamer(&ft).visit_signature_mut(&mut sig);
            if is_eff {
                let wpos = if has_self(&sig) { 1 } else { 0 };
                sig.inputs.insert(wpos, syn::parse_str("w: &mut World").unwrap());
            }
            let out = std::mem::replace(&mut sig.output, ReturnType::Default);
            let wc = sig.generics.where_clause.take();
            let mut s = sig.to_token_stream().to_string();
            if let ReturnType::Type(_, t) = out {
                s.push_str(&format!(" -> ({}: {})", if c.ret.is_empty() { "r" } else { &c.ret }, t.to_token_stream()));
            }
            if let Some(wc) = wc {
                s.push_str(&format!(" {}", wc.to_token_stream()));
            }
            s
        };
        // --- loops
        let mut loop_mismatch = false;
        if reason.is_none() {
            let (b, n) = place_loops(&body_txt, &c, &mut texts);
            if let Some(e) = n {
                reason = Some(e);
            }
            body_txt = b;
            if let Some(k) = c.nloops {
                if k != nloops {
                    loop_mismatch = true;
                }
            } else if c.loops.len() != nloops && has_contract {
                loop_mismatch = true;
            }
        }
        let external = self.external.contains(&format!("{}::{}", fc.module, fi.key)) || c.trusted.is_some() || reason.is_some();
        if !c.loops.is_empty() && !c.attrs.iter().any(|a| a == "isolate") {
            o.push("#[verifier::loop_isolation(false)]");
            o.push("#[verifier::allow_complex_invariants]");
        }
        for a in c.attrs.iter().filter(|a| *a != "isolate") {
            o.push(a);
        }
        if external {
            // a function that left the verifier's reach keeps its contract, but its body is not looked
            // at: it ends in `xundecided`, whose (unchecked) postcondition is false. (The alternative,
            // external_body, changes the order in which Verus emits the remaining queries.)
            if c.trusted.is_some() {
                o.push("#[verifier::external_body]");
            }
        }
        if c.nodecr {
            o.push("#[verifier::exec_allows_no_decreases_clause]");
        }
        let vis = if in_trait_impl { "" } else { "pub " };
        let qual = format!("{}::{}", fc.module, fi.key);
        o.push(&format!("{}{}", vis, sig_txt));
        if !c.req.is_empty() && !in_trait_impl {
            o.push("    requires");
            for (i, cl) in c.req.iter().enumerate() {
                let p = if cl.props.is_empty() { vec![] } else { cl.props.clone() };
                o.clause(&qual, "requires", i, &p, &cl.text, &format!("        ({}),", bytes_lits(&cl.text)));
            }
        }
        if !c.ens.is_empty() {
            o.push("    ensures");
            for (i, cl) in c.ens.iter().enumerate() {
                let p = if cl.props.is_empty() { c.props.clone() } else { cl.props.clone() };
                o.clause(&qual, "ensures", i, &p, &cl.text, &format!("        ({}),", bytes_lits(&cl.text)));
            }
        }
        if let Some(d) = &c.dec {
            o.push(&format!("    decreases {}", d));
        }
        o.push("{");
        let mut mapped = vec![];
        if external {
            if c.trusted.is_some() {
                o.push("    unimplemented!()");
            } else {
                o.push("    xundecided()");
            }
        } else {
            // (`hide` has to come first)
            let hides = c.start.trim_start().starts_with("hide(");
            if !hides {
                o.push("/*@probe*/");
            }
            if !c.start.is_empty() {
                o.push(&bytes_lits(&c.start));
            }
            if hides {
                o.push("/*@probe*/");
            }
            // body with embedded loop invariants; invariants carry @@I markers for the line map
            for line in body_txt.lines() {
                if let Some(r) = line.strip_prefix("@@I ") {
                    let mut it = r.splitn(3, ' ');
                    let k: usize = it.next().unwrap().parse().unwrap();
                    let kind = it.next().unwrap();
                    let i: usize = it.next().unwrap().parse().unwrap();
                    let lp = &c.loops[&k];
                    let cl = if kind == "inv" { &lp.inv[i] } else { &lp.ens[i] };
                    let p = if cl.props.is_empty() { c.props.clone() } else { cl.props.clone() };
                    let t = roles(&cl.text, k);
                    o.clause(&qual, if kind == "inv" { "invariant" } else { "loop_ensures" }, i + 1000 * k, &p, &cl.text, &format!("        ({}),", bytes_lits(&t)));
                } else {
                    o.push(line);
                }
            }
        }
        o.push("}");
        mapped.push(0);
        if loop_mismatch || kind_mismatch {
            hints.push("loop structure differs from the contract's".into());
        }
        if !anchors_lost.is_empty() {
            hints.push(format!("proof anchors lost: {}", anchors_lost.join(" ")));
        }
        let allprops: BTreeSet<String> = c
            .props
            .iter()
            .cloned()
            .chain(c.ens.iter().flat_map(|x| x.props.iter().cloned()))
            .collect();
        self.fninfo.push(format!(
            "{{\"fn\":{},\"file\":{},\"src\":[{},{}],\"a\":{},\"b\":{},\"props\":{},\"dprops\":{},\"external\":{},\"trusted\":{},\"reason\":{},\"notes\":{},\"hints\":{},\"uncontracted\":{},\"inlined\":{},\"contract\":{},\"nens\":{},\"nreq\":{},\"nloops\":{}}}",
            jstr(&qual),
            jstr(&fc.path),
            fi.line,
            fi.endline,
            a_line,
            o.line,
            jlist(&allprops.into_iter().collect::<Vec<_>>()),
            jlist(&c.props),
            external,
            c.trusted.as_ref().map(|x| jstr(x)).unwrap_or("null".into()),
            reason.as_ref().map(|x| jstr(x)).unwrap_or("null".into()),
            jlist(&notes.into_iter().collect::<Vec<_>>()),
            jlist(&hints),
            jlist(&uncontracted.into_iter().collect::<Vec<_>>()),
            jlist(&used.into_iter().collect::<Vec<_>>()),
            has_contract,
            c.ens.len(),
            c.req.len(),
            nloops,
        ));
    }
}

fn selfty_byval_drop(sig: &Signature) -> bool {
    matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none())
}

fn roles(t: &str, k: usize) -> String {
    let mut s = t.to_string();
    for r in ["it", "acc", "err", "cnt", "taken", "skip", "src", "nxt"] {
        // $it -> this loop; $it2 -> loop 2
        for n in (1..20).rev() {
            s = s.replace(&format!("${}{}", r, n), &format!("__{}_t{}_", r, n));
        }
        s = s.replace(&format!("${}", r), &format!("__{}_t{}_", r, k));
    }
    s
}

/// Move the `__vx_inv!(k)` markers in front of the loop body, renumber loops in textual order and
/// substitute the raw proof text.
fn place_loops(body: &str, c: &FnC, texts: &mut Vec<String>) -> (String, Option<String>) {
    let lines: Vec<&str> = body.lines().collect();
    // numbering
    let mut order: BTreeMap<usize, usize> = BTreeMap::new();
    for l in &lines {
        if let Some(r) = l.strip_prefix("__vx_inv ! (") {
            let k: usize = r.split(')').next().unwrap().trim().parse().unwrap();
            let n = order.len() + 1;
            order.insert(k, n);
        }
    }
    let ren = |s: &str| -> String {
        let mut t = s.to_string();
        if t.contains("_t") {
            for (a, b) in &order {
                for r in ["it", "acc", "err", "cnt", "taken", "skip", "src", "nxt"] {
                    t = t.replace(&format!("__{}_t{}_", r, a), &format!("__{}_TT{}_", r, b));
                }
            }
            t = t.replace("_TT", "_t");
        }
        t
    };
    let mut out: Vec<String> = vec![];
    // stack of loop numbers by brace depth for :lend
    let mut depth = 0i32;
    let mut open: Vec<(i32, usize)> = vec![];
    for l in &lines {
        if let Some(r) = l.strip_prefix("__vx_inv ! (") {
            let k0: usize = r.split(')').next().unwrap().trim().parse().unwrap();
            let k = order[&k0];
            // previous line must end with `{`
            let prev = match out.pop() {
                Some(p) => p,
                None => return (String::new(), Some("loop marker".into())),
            };
            let p = match prev.strip_suffix('{') {
                Some(p) => p.trim_end().to_string(),
                None => return (String::new(), Some("loop marker placement".into())),
            };
            if let Some(lp) = c.loops.get(&k) {
                if !lp.before.is_empty() {
                    // text before the loop: insert before the statement that starts it
                    out.push(bytes_lits(&roles(&lp.before, k)));
                }
                out.push(p);
                for (xb, kw) in [(true, "    invariant_except_break"), (false, "    invariant")] {
                    if lp.inv.iter().any(|x| x.xb == xb) {
                        out.push(kw.into());
                        for (i, x) in lp.inv.iter().enumerate() {
                            if x.xb == xb {
                                out.push(format!("@@I {} inv {}", k, i));
                            }
                        }
                    }
                }
                if !lp.ens.is_empty() {
                    out.push("    ensures".into());
                    for i in 0..lp.ens.len() {
                        out.push(format!("@@I {} ens {}", k, i));
                    }
                }
                if let Some(d) = &lp.dec {
                    out.push(format!("    decreases {}", roles(d, k)));
                }
                out.push("{".into());
                if !lp.start.is_empty() {
                    out.push(bytes_lits(&roles(&lp.start, k)));
                }
            } else {
                out.push(p);
                out.push("{".into());
            }
            open.push((depth, k));
            continue;
        }
        if let Some(r) = l.strip_prefix("__vx_txt ! (") {
            let i: usize = r.split(')').next().unwrap().trim().parse().unwrap();
            out.push(bytes_lits(&texts[i].clone()));
            continue;
        }
        let l2 = ren(l);
        if l2.ends_with('{') {
            depth += 1;
            out.push(l2);
        } else if l2 == "}" {
            if let Some((d, k)) = open.last().cloned() {
                if d == depth {
                    open.pop();
                    if let Some(lp) = c.loops.get(&k) {
                        if !lp.end.is_empty() {
                            if out.last().map_or(false, |x| !x.ends_with(';') && !x.ends_with('{')) {
                                out.push(";".into());
                            }
                            out.push(bytes_lits(&roles(&lp.end, k)));
                        }
                    }
                    out.push("}".into());
                    depth -= 1;
                    if let Some(lp) = c.loops.get(&k) {
                        if !lp.after.is_empty() {
                            out.push(bytes_lits(&roles(&lp.after, k)));
                        }
                    }
                    continue;
                }
            }
            depth -= 1;
            out.push("}".into());
        } else {
            out.push(l2);
        }
    }
    (out.join("\n"), None)
}

fn generics_txt(g: &Generics, extra: &[(String, String)]) -> (String, String) {
    let mut ps: Vec<String> = g.params.iter().map(|p| p.to_token_stream().to_string()).collect();
    let mut as_: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            GenericParam::Lifetime(l) => l.lifetime.to_string(),
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        })
        .collect();
    for (n, b) in extra {
        ps.push(format!("{}: {}", n, b));
        as_.push(n.clone());
    }
    if ps.is_empty() {
        return (String::new(), String::new());
    }
    (format!("<{}>", ps.join(", ")), format!("<{}>", as_.join(", ")))
}

fn emit_items(w: &mut World, o: &mut Out, fc: &FileC, items: &[Item], defaults: &BTreeMap<String, Vec<FnInfo>>) {
    let dropped = |k: &str| fc.drops.iter().any(|(a, _)| a == k);
    let ft = fc.rename_items.clone();
    for it in items {
        match it {
            Item::Struct(s) if cfg_on(&s.attrs) => {
                let n = s.ident.to_string();
                if dropped(&n) {
                    continue;
                }
                let mut s = s.clone();
                w.renamer(&ft).visit_item_struct_mut(&mut s);
                let (g, _) = generics_txt(&s.generics, &[]);
                if let Some(d) = fc.derives.get(&n) {
                    if !d.is_empty() {
                        o.push(&format!("#[derive({})]", d.join(", ")));
                    }
                }
                match &s.fields {
                    Fields::Named(f) => {
                        o.push(&format!("pub struct {}{} {{", n, g));
                        for x in &f.named {
                            if cfg_on(&x.attrs) {
                                o.push(&format!("    pub {}: {},", x.ident.as_ref().unwrap(), x.ty.to_token_stream()));
                            }
                        }
                        o.push("}");
                    }
                    _ => o.push(&format!("pub {}", s.to_token_stream())),
                }
            }
            Item::Enum(e) if cfg_on(&e.attrs) => {
                let n = e.ident.to_string();
                if dropped(&n) {
                    continue;
                }
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = Visibility::Inherited;
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                }
                // explicit discriminants become a specification function
                if e.variants.iter().any(|v| v.discriminant.is_some()) {
                    let mut arms = String::new();
                    let mut next = "0".to_string();
                    for v in e.variants.iter_mut() {
                        if let Some((_, x)) = v.discriminant.take() {
                            next = x.to_token_stream().to_string();
                        }
                        arms.push_str(&format!("{}::{} => {}, ", n, v.ident, next));
                        next = format!("{} + 1", next);
                    }
                    o.push(&format!("impl {} {{ pub open spec fn disc(self) -> int {{ match self {{ {} }} }} }}", n, arms));
                }
                w.renamer(&ft).visit_item_enum_mut(&mut e);
                if let Some(d) = fc.derives.get(&n) {
                    if !d.is_empty() {
                        o.push(&format!("#[derive({})]", d.join(", ")));
                    }
                }
                o.push(&format!("pub {}", e.to_token_stream()));
            }
            Item::Const(c) if cfg_on(&c.attrs) => {
                if dropped(&c.ident.to_string()) {
                    continue;
                }
                let mut c = c.clone();
                c.attrs.clear();
                emit_const(w, o, &c.ident, &c.ty, &c.expr, &ft);
            }
            Item::Fn(f) if cfg_on(&f.attrs) => {
                let n = f.sig.ident.to_string();
                if dropped(&n) {
                    continue;
                }
                let mut v = vec![];
                collect(&[it.clone()], &mut v);
                if w.helpers.contains_key(&n) && fully_inlinable(w, &v[0]) {
                    continue;
                }
                w.emit_fn(o, fc, &v[0], false, None, "");
            }
            Item::Impl(im) if cfg_on(&im.attrs) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                let trname = tr.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
                let key = match &trname {
                    Some(t) => format!("{}@{}", t, ty),
                    None => ty.clone(),
                };
                let mut fns = vec![];
                collect(&[it.clone()], &mut fns);
                let key2 = fns.first().map(|f| f.key.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default()).unwrap_or_default();
                if dropped(&key) || dropped(&key2) {
                    continue;
                }
                let inherent = match &trname {
                    None => true,
                    Some(t) => t == "Drop" || t == "FromIterator" || t == "Iterator" || w.devirt.contains_key(t),
                };
                let mut im2 = im.clone();
                w.renamer(&ft).visit_generics_mut(&mut im2.generics);
                let (g, _) = generics_txt(&im2.generics, &[]);
                let mut sty = (*im.self_ty).clone();
                w.renamer(&ft).visit_type_mut(&mut sty);
                let self_txt = sty.to_token_stream().to_string();
                if inherent {
                    o.push(&format!("impl{} {} {{", g, self_txt));
                } else {
                    let mut p = tr.clone().unwrap();
                    w.renamer(&ft).visit_path_mut(&mut p);
                    o.push(&format!("impl{} {} for {} {{", g, p.to_token_stream(), self_txt));
                }
                if let Some(x) = fc.impl_extra.get(&key) {
                    o.push(&bytes_lits(x));
                }
                for x in &im.items {
                    if let ImplItem::Const(c) = x {
                        if cfg_on(&c.attrs) && !dropped(&format!("{}::{}", ty, c.ident)) && !(im.generics.params.len() > 0 && w.strconsts.contains_key(&format!("{}::{}", ty, c.ident))) {
                            emit_const(w, o, &c.ident, &c.ty, &c.expr, &ft);
                        }
                    }
                    if let ImplItem::Type(t) = x {
                        if !inherent {
                            let mut t = t.clone();
                            w.renamer(&ft).visit_impl_item_type_mut(&mut t);
                            o.push(&t.to_token_stream().to_string());
                        }
                    }
                }
                for f in &fns {
                    if dropped(&f.key) {
                        continue;
                    }
                    if w.helpers.contains_key(&format!("{}::{}", ty, f.name)) && fully_inlinable(w, f) {
                        continue;
                    }
                    let nn = new_name(&f.key);
                    w.emit_fn(o, fc, f, !inherent, nn, "");
                }
                if let Some(t) = &trname {
                    if let Some(d) = defaults.get(t) {
                        if w.devirt.get(t) == Some(&ty) {
                            for f in d {
                                if fns.iter().any(|g| g.name == f.name) || dropped(&f.key) {
                                    continue;
                                }
                                w.emit_fn(o, fc, f, false, None, &ty);
                            }
                        }
                    }
                }
                o.push("}");
            }
            Item::Mod(m) if cfg_on(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    if !dropped(&m.ident.to_string()) {
                        emit_items(w, o, fc, its, defaults);
                    }
                }
            }
            _ => {}
        }
    }
}

/// Functions whose calls are lowered to another name.
fn new_name(key: &str) -> Option<&'static str> {
    if key.starts_with("Drop@") {
        Some("xdrop")
    } else if key.starts_with("Iterator@") && key.ends_with("::next") {
        Some("xnext")
    } else if key.starts_with("LockBackend@") && key.ends_with("::iter") {
        Some("xiter")
    } else {
        None
    }
}

/// A helper without contract that every caller inlines need not be emitted.  (It is emitted when
/// it could not be inlined somewhere; approximated by: it has early exits.)
fn fully_inlinable(_w: &World, f: &FnInfo) -> bool {
    let fl = lower::flow(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.block.clone() }));
    !fl.ret && !fl.q
}

fn emit_const(w: &World, o: &mut Out, name: &Ident, ty: &Type, e: &Expr, ft: &BTreeMap<String, String>) {
    let t = nosp(ty);
    if t == "&'staticstr" || t == "&str" || t == "&[u8]" || t == "&'static[u8]" {
        return;
    }
    let mut ty = ty.clone();
    let mut e = e.clone();
    w.renamer(ft).visit_type_mut(&mut ty);
    w.renamer(ft).visit_expr_mut(&mut e);
    o.push(&format!("pub const {}: {} = {};", name, ty.to_token_stream(), e.to_token_stream()));
}

/// `Self::Item` in an iterator's implementation is written out (the implementation is emitted inherent).
fn assoc_types(items: &mut [Item]) {
    struct R(BTreeMap<String, Type>);
    impl VisitMut for R {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Some(x) = self.0.get(&nosp(&*t)) {
                *t = x.clone();
            } else {
                visit_mut::visit_type_mut(self, t);
            }
        }
    }
    for it in items {
        match it {
            Item::Impl(im) if im.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().unwrap().ident == "Iterator") => {
                let mut r = R(BTreeMap::new());
                for x in &im.items {
                    if let ImplItem::Type(t) = x {
                        r.0.insert(format!("Self::{}", t.ident), t.ty.clone());
                    }
                }
                for x in &mut im.items {
                    if let ImplItem::Fn(f) = x {
                        r.visit_impl_item_fn_mut(f);
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &mut m.content {
                    assoc_types(its)
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = &args[1];
    let proof = &args[2];
    let mut external = BTreeSet::new();
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--external" {
            external.extend(args[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()));
            i += 1;
        }
        i += 1;
    }
    let mut common = Common::default();
    let mut files = vec![];
    let mut names: Vec<_> = std::fs::read_dir(proof).unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
    names.sort();
    for n in names {
        let t = std::fs::read_to_string(&n).unwrap();
        files.extend(contracts::parse(&t, &mut common));
    }
    let prelude = std::fs::read_to_string(format!("{}/prelude.rs", proof)).unwrap();
    let devirt: BTreeMap<String, String> = common.devirt.iter().cloned().collect();
    let mut w = World {
        tables: types::Tables { devirt: devirt.clone(), ..Default::default() },
        declared: common.effects.iter().cloned().collect(),
        strconsts: BTreeMap::new(),
        eff: common.effects.iter().cloned().collect(),
        droppable: common.droppable.clone(),
        common,
        files: files.clone(),
        lits: vec![],
        external,
        devirt,
        helpers: BTreeMap::new(),
        names: names::load(&format!("{}/names.txt", proof)),
        names_now: vec![],
        lkinds: names::load_kinds(&format!("{}/names.txt", proof)),
        fninfo: vec![],
    };
    // parse sources
    let mut parsed = vec![];
    for fc in &files {
        let t = std::fs::read_to_string(format!("{}/{}", repo, fc.path)).unwrap_or_default();
        match syn::parse_file(&t) {
            Ok(mut f) => {
                lower::Matches.visit_file_mut(&mut f);
                lower::Lazy::file(&mut f);
                lower::exits(&mut f);
                if !fc.idents.is_empty() {
                    struct R<'a>(&'a BTreeMap<String, String>);
                    impl<'a> VisitMut for R<'a> {
                        fn visit_ident_mut(&mut self, i: &mut Ident) {
                            if let Some(n) = self.0.get(&i.to_string()) {
                                *i = Ident::new(n, i.span());
                            }
                        }
                    }
                    R(&fc.idents).visit_file_mut(&mut f);
                }
                assoc_types(&mut f.items);
                parsed.push(f)
            }
            Err(e) => {
                eprintln!("cannot parse {}: {}", fc.path, e);
                std::process::exit(3);
            }
        }
    }
    // gather
    let mut defaults: BTreeMap<String, Vec<FnInfo>> = BTreeMap::new();
    let mut all: Vec<(usize, FnInfo)> = vec![];
    for (i, f) in parsed.iter().enumerate() {
        let mut v = vec![];
        collect(&f.items, &mut v);
        for x in v {
            if let Some(r) = x.key.strip_prefix("default@") {
                let t = r.split("::").next().unwrap().to_string();
                defaults.entry(t).or_default().push(x.clone());
            }
            all.push((i, x));
        }
    }
    // contracts without a function
    let mut missing = vec![];
    for (i, fc) in files.iter().enumerate() {
        for k in fc.fns.keys() {
            let ok = all.iter().any(|(j, x)| (*j == i || x.key.starts_with("default@")) && &x.key == k);
            if !ok {
                missing.push(format!("{}::{}", fc.module, k));
            }
        }
    }
    // helpers: functions without contract and not dropped (those of the same file first)
    let mut own_helpers: Vec<BTreeMap<String, FnInfo>> = vec![BTreeMap::new(); files.len()];
    let mut defined: Vec<BTreeSet<String>> = vec![BTreeSet::new(); files.len()];
    for (i, x) in &all {
        defined[*i].insert(if x.selfty.is_empty() { x.name.clone() } else { format!("{}::{}", x.selfty, x.name) });
    }
    for (i, x) in &all {
        let fc = &files[*i];
        let implkey = x.key.rsplit_once("::").map(|a| a.0.to_string()).unwrap_or_default();
        let bare = implkey.split('<').next().unwrap().to_string();
        let dropped = fc.drops.iter().any(|(a, _)| a == &x.key || a == &implkey || a == &bare || Some(a.as_str()) == implkey.split('@').nth(1).map(|_| "").or(None));
        let modern = fc.fns.contains_key(&x.key) || files.iter().any(|f| f.fns.contains_key(&x.key) && x.key.starts_with("default@"));
        if !dropped && !modern && !x.key.contains('@') {
            let n = if x.selfty.is_empty() { x.name.clone() } else { format!("{}::{}", x.selfty, x.name) };
            own_helpers[*i].insert(n.clone(), x.clone());
            w.helpers.insert(n, x.clone());
        }
    }
    // tables for the type inference
    for f in &parsed {
        gather_types(&f.items, &mut w.tables, &mut w.strconsts);
    }
    for (_, x) in &all {
        let sty = if x.key.starts_with("default@") { w.devirt.get(&x.selfty).cloned().unwrap_or(x.selfty.clone()) } else { x.selfty.clone() };
        let k = if sty.is_empty() { x.name.clone() } else { format!("{}::{}", sty, x.name) };
        let r = match &x.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some((**t).clone()),
        };
        w.tables.fns.insert(k, r.clone());
        if let Some(n) = new_name(&x.key) {
            w.tables.fns.insert(format!("{}::{}", sty, n), r);
        }
    }
    // what the functions of the same file return
    let mut own_fns: Vec<Vec<(String, Option<Type>)>> = vec![vec![]; files.len()];
    for (i, x) in &all {
        if x.selfty.is_empty() {
            let r = match &x.sig.output {
                ReturnType::Default => None,
                ReturnType::Type(_, t) => Some((**t).clone()),
            };
            own_fns[*i].push((x.name.clone(), r));
        }
    }
    let pure: BTreeSet<String> = w.common.pure.iter().cloned().collect();
    // effects fixpoint
    loop {
        let n = w.eff.len();
        for (i, x) in &all {
            let implkey = x.key.rsplit_once("::").map(|a| a.0.to_string()).unwrap_or_default();
            if files[*i].drops.iter().any(|(a, _)| a == &x.key || a == &implkey) {
                continue;
            }
            let sty = if x.key.starts_with("default@") { w.devirt.get(&x.selfty).cloned().unwrap_or(x.selfty.clone()) } else { x.selfty.clone() };
            w.tables.fns.extend(own_fns[*i].iter().cloned());
            let c = calls_of(&w.tables, &x.block, &sty, &x.sig);
            if c.iter().any(|k| effectful(&w.eff, &w.declared, k)) {
                if sty.is_empty() {
                    w.eff.insert(x.name.clone());
                } else {
                    w.eff.insert(format!("{}::{}", sty, x.name));
                    if has_self(&x.sig) {
                        if !pure.contains(&format!(".{}", x.name)) {
                            w.eff.insert(format!(".{}", x.name));
                        }
                        if let Some(n) = new_name(&x.key) {
                            w.eff.insert(format!("{}::{}", sty, n));
                        }
                    }
                }
            }
        }
        if w.eff.len() == n {
            break;
        }
    }
    let mut o = Out::default();
    o.push("#![allow(unused)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\nverus! {");
    let pa = o.line + 1;
    o.push(&bytes_lits(&prelude));
    let pb = o.line;
    o.map.push(format!("{{\"t\":\"prelude\",\"a\":{},\"b\":{}}}", pa, pb));
    let all_helpers = w.helpers.clone();
    for (i, f) in parsed.iter().enumerate() {
        let fc = files[i].clone();
        w.tables.fns.extend(own_fns[i].iter().cloned());
        w.helpers = all_helpers.clone();
        w.helpers.retain(|k, _| !defined[i].contains(k));
        w.helpers.extend(own_helpers[i].clone());
        o.push(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::prelude::*;", fc.module));
        let a = o.line + 1;
        o.push(&bytes_lits(&fc.head));
        let b = o.line;
        o.map.push(format!("{{\"t\":\"text\",\"module\":{},\"a\":{},\"b\":{}}}", jstr(&fc.module), a, b));
        emit_items(&mut w, &mut o, &fc, &f.items, &defaults);
        let a = o.line + 1;
        o.push(&bytes_lits(&fc.tail));
        let b = o.line;
        o.map.push(format!("{{\"t\":\"text\",\"module\":{},\"a\":{},\"b\":{}}}", jstr(&fc.module), a, b));
        o.push("}");
    }
    o.push("pub mod lits {\nuse vstd::prelude::*;");
    for (i, v) in w.lits.clone().iter().enumerate() {
        let items: Vec<String> = v.iter().map(|x| format!("{}u8", x)).collect();
        let spec = if v.is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", items.join(", ")) };
        let bl = LitByteStr::new(v, proc_macro2::Span::call_site());
        o.push(&format!("#[verifier::external_body] pub fn lit_{}() -> (r: &'static [u8]) ensures r@ == {} {{ {} }}", i, spec, bl.to_token_stream()));
    }
    o.push("}\n} // verus!\nfn main() {}");
    std::fs::write(&args[3], &o.text).unwrap();
    let drops: Vec<String> = files
        .iter()
        .flat_map(|f| f.drops.iter().map(move |(a, r)| format!("{{\"file\":{},\"item\":{},\"reason\":{}}}", jstr(&f.path), jstr(a), jstr(r))))
        .collect();
    let json = format!(
        "{{\"fns\":[{}],\n\"map\":[{}],\n\"missing\":{},\n\"drops\":[{}],\n\"effects\":{},\"helpers\":{}}}\n",
        w.fninfo.join(",\n"),
        o.map.join(",\n"),
        jlist(&missing),
        drops.join(",\n"),
        jlist(&w.eff.iter().cloned().collect::<Vec<_>>()),
        jlist(&all_helpers.keys().cloned().collect::<Vec<_>>()),
    );
    std::fs::write(&args[4], json).unwrap();
    if let Ok(p) = std::env::var("VX_NAMES_OUT") {
        w.names_now.sort();
        w.names_now.dedup();
        std::fs::write(p, w.names_now.join("\n") + "\n").unwrap();
    }
}
