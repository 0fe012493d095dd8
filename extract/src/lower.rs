//! Desugaring of one function body: the mechanical rewrites from the Rust the repository uses to
//! the subset Verus accepts.  Every rewrite either keeps the meaning of the code or makes the
//! function "unsupported" (an error), in which case the function is reported as undecided.
use crate::contracts::{Common, FnC};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx<'a> {
    pub common: &'a Common,
    pub lits: &'a mut Vec<Vec<u8>>,
    pub texts: &'a mut Vec<String>,
    pub fresh: usize,
    pub err: Option<String>,
    pub hints: BTreeMap<String, String>,
    pub loops: usize,
    /// what a chain lowered to loop k ends in
    pub lkinds: BTreeMap<usize, String>,
    pub ret_result: bool,
    pub ret_type: String,
    pub notes: BTreeSet<String>,
    pub let_kind: BTreeMap<String, bool>,
    pub kinds: BTreeMap<String, bool>, // name -> is Option
    pub refs: BTreeSet<String>, // closure/loop variables known to be references to integers
    pub expected: Vec<Option<String>>,    // expected type of the expression being lowered (let annotation)
}

pub fn lit_index(lits: &mut Vec<Vec<u8>>, v: &[u8]) -> usize {
    if let Some(i) = lits.iter().position(|x| x == v) {
        return i;
    }
    lits.push(v.to_vec());
    lits.len() - 1
}

fn pe(ts: TokenStream) -> Expr {
    syn::parse2(ts.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, ts))
}

pub fn block_stmts(ts: TokenStream) -> Vec<Stmt> {
    let b: Block = syn::parse2(quote!({ #ts })).unwrap_or_else(|e| panic!("internal: {} in {}", e, ts));
    b.stmts
}

/// Does the expression contain a `return`, `?`, `break` or `continue` belonging to the enclosing body?
#[derive(Default)]
pub struct Flow {
    pub ret: bool,
    pub q: bool,
    pub brk: bool,
    depth_loop: usize,
}
impl<'ast> Visit<'ast> for Flow {
    fn visit_expr_return(&mut self, e: &'ast ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_break(&mut self, e: &'ast ExprBreak) {
        if self.depth_loop == 0 {
            self.brk = true;
        }
        visit::visit_expr_break(self, e);
    }
    fn visit_expr_continue(&mut self, _e: &'ast ExprContinue) {
        if self.depth_loop == 0 {
            self.brk = true;
        }
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.depth_loop += 1;
        visit::visit_expr_loop(self, e);
        self.depth_loop -= 1;
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.depth_loop += 1;
        visit::visit_expr_while(self, e);
        self.depth_loop -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        self.depth_loop += 1;
        visit::visit_expr_for_loop(self, e);
        self.depth_loop -= 1;
    }
    fn visit_expr_closure(&mut self, _e: &'ast ExprClosure) {}
    fn visit_item(&mut self, _i: &'ast Item) {}
}
/// `fn main() { ..; process::exit(E) }` becomes `fn main() -> i32 { ..; process::exit(E) }` (where the
/// model's `exit` returns its argument); elsewhere `process::exit` ends the process.
pub fn exits(f: &mut File) {
    fn is_exit(e: &Expr) -> bool {
        matches!(e, Expr::Call(c) if c.args.len() == 1 && { let t = c.func.to_token_stream().to_string().replace(' ', ""); t == "process::exit" || t == "std::process::exit" })
    }
    struct Rw;
    impl VisitMut for Rw {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if is_exit(e) {
                if let Expr::Call(c) = e {
                    c.func = Box::new(pe(quote!(process::xexit)));
                }
            }
        }
    }
    for it in f.items.iter_mut() {
        match it {
            Item::Fn(m) if m.sig.ident == "main" && matches!(m.sig.output, ReturnType::Default) => {
                let last = m.block.stmts.pop();
                Rw.visit_block_mut(&mut m.block);
                match last {
                    Some(Stmt::Expr(mut e, _)) if is_exit(&e) => {
                        if let Expr::Call(c) = &mut e {
                            c.func = Box::new(pe(quote!(process::exit)));
                            for a in c.args.iter_mut() {
                                Rw.visit_expr_mut(a);
                            }
                        }
                        m.sig.output = syn::parse_quote!(-> i32);
                        m.block.stmts.push(Stmt::Expr(e, None));
                    }
                    Some(mut s) => {
                        Rw.visit_stmt_mut(&mut s);
                        m.block.stmts.push(s);
                    }
                    None => {}
                }
            }
            it => Rw.visit_item_mut(it),
        }
    }
}

/// In the body of a closure that yields an Option: `let x = f(E?); rest` becomes
/// `match E { Some(q) => { let x = f(q); rest }, None => None }`, where `E?` is what the statement evaluates first.
fn unquestion(e: &mut Expr) {
    fn first(e: &mut Expr) -> Option<Expr> {
        match e {
            Expr::Try(t) => {
                let mut inner = (*t.expr).clone();
                if let Some(x) = first(&mut inner) {
                    // the inner one comes first
                    t.expr = Box::new(inner);
                    return Some(x);
                }
                *e = pe(quote!(__q));
                Some(inner)
            }
            Expr::Paren(p) => first(&mut p.expr),
            Expr::Reference(r) => first(&mut r.expr),
            Expr::Field(f) => first(&mut f.base),
            Expr::Cast(c) => first(&mut c.expr),
            Expr::MethodCall(m) => first(&mut m.receiver),
            Expr::Call(c) if matches!(&*c.func, Expr::Path(_)) => c.args.first_mut().and_then(first),
            _ => None,
        }
    }
    fn stmts(v: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let k = match v.iter().position(|s| {
            let mut f = Flow::default();
            f.visit_stmt(s);
            f.q || f.ret
        }) {
            Some(k) => k,
            None => return Some(v),
        };
        let mut v = v;
        let mut rest = v.split_off(k);
        let op = match &mut rest[0] {
            Stmt::Local(l) => l.init.as_mut().filter(|i| i.diverge.is_none()).and_then(|i| first(&mut i.expr)),
            Stmt::Expr(e, _) => first(e),
            _ => None,
        }?;
        let rest = stmts(rest)?;
        v.push(Stmt::Expr(pe(quote!(match #op { Some(__q) => { #(#rest)* } None => None })), None));
        Some(v)
    }
    if let Expr::Closure(c) = e {
        let fl = flow(&c.body);
        if !fl.q || fl.ret {
            return;
        }
        let body = match &*c.body {
            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
            b => vec![Stmt::Expr(b.clone(), None)],
        };
        if let Some(v) = stmts(body) {
            c.body = Box::new(pe(quote!({ #(#v)* })));
        }
    }
}

pub fn flow(e: &Expr) -> Flow {
    let mut f = Flow::default();
    f.visit_expr(e);
    f
}

/// Replace `return X`, `?` and the tail of a closure body inlined into a fused loop.
struct CloseRw<'b> {
    mode: ItemMode,
    err: String,
    fail: &'b mut Option<String>,
    depth: usize,
}
#[derive(Clone, Copy, PartialEq)]
enum ItemMode {
    Plain,
    ResultLast, // the adapter value is a Result and the terminal collects into Result<Vec>
    OptionSkip, // a filter_map closure: None skips the element
    OptionStop, // a map_while closure: None ends the iteration
}
impl<'b> VisitMut for CloseRw<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let errv = format_ident!("{}", self.err);
        match e {
            Expr::Return(r) if matches!(self.mode, ItemMode::OptionSkip | ItemMode::OptionStop) && self.depth == 0 => {
                if r.expr.as_ref().map_or(false, |x| x.to_token_stream().to_string() == "None") {
                    *e = if self.mode == ItemMode::OptionSkip { pe(quote!({ continue; })) } else { pe(quote!({ break; })) };
                } else {
                    *self.fail = Some("return of a value inside a filter_map closure".into());
                }
            }
            Expr::Try(t) if matches!(self.mode, ItemMode::OptionSkip | ItemMode::OptionStop) && self.depth == 0 => {
                let x = &t.expr;
                *e = if self.mode == ItemMode::OptionSkip { pe(quote!(match #x { Some(__v) => __v, None => { continue; } })) } else { pe(quote!(match #x { Some(__v) => __v, None => { break; } })) };
            }
            Expr::Return(r) => {
                if self.mode != ItemMode::ResultLast || self.depth > 0 {
                    *self.fail = Some("return inside a closure of an unsupported shape".into());
                    return;
                }
                let inner = r.expr.clone();
                let inner = match inner {
                    Some(x) => x,
                    None => {
                        *self.fail = Some("bare return inside closure".into());
                        return;
                    }
                };
                if let Some(x) = err_arg(&inner) {
                    *e = pe(quote!({ #errv = Some(#x); break; }));
                } else {
                    *self.fail = Some("return of a non-Err value inside closure".into());
                }
            }
            Expr::Try(t) => {
                if self.mode != ItemMode::ResultLast || self.depth > 0 {
                    *self.fail = Some("? inside a closure of an unsupported shape".into());
                    return;
                }
                let x = &t.expr;
                *e = pe(quote!(match #x { Ok(__v) => __v, Err(__e) => { #errv = Some(xfrom(__e)); break; } }));
            }
            _ => {}
        }
    }
}

fn err_arg(e: &Expr) -> Option<Expr> {
    call_arg(e, "Err")
}
pub fn call_arg(e: &Expr, name: &str) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            if p.path.is_ident(name) && c.args.len() == 1 {
                return Some(c.args[0].clone());
            }
        }
    }
    None
}

/// `matches!(e, pat if g)` -> match, everywhere.
pub struct Matches;
impl VisitMut for Matches {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let x: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        if i.peek(Token![,]) {
                            i.parse::<Token![,]>()?;
                        }
                        Ok(M(x, p, g))
                    }
                }
                if let Ok(M(x, p, g)) = syn::parse2::<M>(m.mac.tokens.clone()) {
                    let g = g.map(|g| quote!(if #g));
                    *e = pe(quote!(match #x { #p #g => true, _ => false }));
                }
            }
        }
        // `!x.any(p)` is `x.all(!p)`
        if let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = e {
            if let Expr::MethodCall(m) = strip_paren(expr) {
                if m.method == "any" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                        let fl = flow(&c.body);
                        if !fl.ret && !fl.q && matches!(c.output, ReturnType::Default) {
                            let (mut m, mut c) = (m.clone(), c.clone());
                            m.method = format_ident!("all");
                            let b = strip_paren(&c.body);
                            c.body = Box::new(match b {
                                Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(),
                                _ => pe(quote!(!(#b))),
                            });
                            m.args[0] = Expr::Closure(c);
                            *e = Expr::MethodCall(m);
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // `io::Read::take(r, n)` is `r.take(n)`
        let repl = match e {
            Expr::Call(c) => trait_call(c),
            _ => None,
        };
        if let Some(x) = repl {
            *e = x;
        }
    }
}
/// A call of a standard trait's method by path, as a method call.
fn trait_call(c: &ExprCall) -> Option<Expr> {
    let p = match &*c.func {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() > 1 => &p.path,
        _ => return None,
    };
    let n = p.segments.len();
    let t = p.segments[n - 2].ident.to_string();
    if !matches!(t.as_str(), "Read" | "Write" | "Iterator" | "IntoIterator" | "DoubleEndedIterator") || !p.segments[n - 2].arguments.is_none() {
        return None;
    }
    let m = &p.segments[n - 1];
    let mut args = c.args.iter().cloned();
    let mut r = args.next()?;
    if matches!(m.ident.to_string().as_str(), "read" | "read_exact" | "read_to_end" | "write" | "write_all" | "flush" | "next") {
        if let Expr::Reference(x) = &r {
            r = (*x.expr).clone();
        }
    }
    let simple = matches!(&r, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_));
    let (i, g) = (&m.ident, match &m.arguments { PathArguments::AngleBracketed(a) => Some(a), _ => None });
    Some(if simple { pe(quote!(#r.#i #g (#(#args),*))) } else { pe(quote!((#r).#i #g (#(#args),*))) })
}
pub fn macro_args(m: &Macro) -> Option<Vec<Expr>> {
    let p = Punctuated::<Expr, Token![,]>::parse_terminated;
    syn::parse::Parser::parse2(p, m.tokens.clone()).ok().map(|x| x.into_iter().collect())
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

/// `|&b| b == b' '` (and variants) -> the byte expression
fn byte_pred(c: &Expr) -> Option<Expr> {
    let c = match strip_paren(c) {
        Expr::Closure(c) => c,
        _ => return None,
    };
    if c.inputs.len() != 1 {
        return None;
    }
    let (name, deref) = match &c.inputs[0] {
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(i) => (i.ident.to_string(), false),
            _ => return None,
        },
        Pat::Ident(i) => (i.ident.to_string(), true),
        _ => return None,
    };
    if let Expr::Binary(b) = strip_paren(&c.body) {
        if let BinOp::Eq(_) = b.op {
            let is_var = |e: &Expr| -> bool {
                let e = strip_paren(e);
                if deref {
                    if let Expr::Unary(u) = e {
                        if let UnOp::Deref(_) = u.op {
                            if let Expr::Path(p) = strip_paren(&u.expr) {
                                return p.path.is_ident(&name);
                            }
                        }
                    }
                    return false;
                }
                matches!(e, Expr::Path(p) if p.path.is_ident(&name))
            };
            if is_var(&b.left) {
                return Some((*b.right).clone());
            }
            if is_var(&b.right) {
                return Some((*b.left).clone());
            }
        }
    }
    None
}

const ADAPT: &[&str] = &[
    "map", "filter", "filter_map", "map_while", "enumerate", "take_while", "skip_while", "take", "skip", "cloned", "copied", "inspect",
];

/// a tuple of identifiers
fn plain_tuple(p: &Pat) -> bool {
    match p {
        Pat::Tuple(t) => t.elems.iter().all(plain_tuple),
        Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none(),
        Pat::Wild(_) => true,
        _ => false,
    }
}
impl<'a> Ctx<'a> {
    fn fail(&mut self, s: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(s.into());
        }
    }
    fn id(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}", p, self.fresh)
    }
    pub fn lit(&mut self, v: &[u8]) -> Expr {
        let i = lit_index(self.lits, v);
        let f = format_ident!("lit_{}", i);
        pe(quote!(crate::lits::#f()))
    }
    pub fn inv(&mut self) -> (usize, TokenStream) {
        self.loops += 1;
        let k = self.loops;
        let l = Literal_usize(k);
        (k, quote!(__vx_inv!(#l);))
    }

    /// Format string to concatenation.
    fn format(&mut self, args: &[Expr]) -> Option<Expr> {
        let fs = match strip_paren(args.first()?) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut parts: Vec<Expr> = vec![];
        let mut cur = String::new();
        let mut ch = fs.chars().peekable();
        let mut argi = 1;
        while let Some(c) = ch.next() {
            match c {
                '{' if ch.peek() == Some(&'{') => {
                    ch.next();
                    cur.push('{');
                }
                '}' if ch.peek() == Some(&'}') => {
                    ch.next();
                    cur.push('}');
                }
                '{' => {
                    let mut spec = String::new();
                    for c in ch.by_ref() {
                        if c == '}' {
                            break;
                        }
                        spec.push(c);
                    }
                    if !cur.is_empty() {
                        let l = self.lit(cur.as_bytes());
                        parts.push(l);
                        cur.clear();
                    }
                    let (name, fmt) = match spec.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (spec.clone(), String::new()),
                    };
                    let arg: Expr = if name.is_empty() {
                        let a = args.get(argi)?.clone();
                        argi += 1;
                        a
                    } else if let Ok(n) = name.parse::<usize>() {
                        args.get(n + 1)?.clone()
                    } else {
                        syn::parse_str(&name).ok()?
                    };
                    let e = match fmt.as_str() {
                        "" => pe(quote!(XDisplay::xdisplay(&(#arg)).xslice())),
                        "03" => pe(quote!(XDisplay::xdisplay03(&(#arg)).xslice())),
                        "04x" => pe(quote!(XDisplay::xhex4(&(#arg)).xslice())),
                        "?" => pe(quote!(XDebug::xdebug(&#arg).xslice())),
                        _ => return None,
                    };
                    parts.push(e);
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() || parts.is_empty() {
            let l = self.lit(cur.as_bytes());
            parts.push(l);
        }
        // left-nested concatenation
        let mut it = parts.into_iter();
        let first = it.next().unwrap();
        let mut e = pe(quote!(xcat0(#first)));
        for p in it {
            e = pe(quote!(xcat(#e, #p)));
        }
        self.notes.insert("format! -> byte concatenation".into());
        Some(e)
    }

    fn is_option(&self, e: &Expr) -> Option<bool> {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.common.option_methods.contains(&n) {
                    return Some(true);
                }
                if self.common.result_methods.contains(&n) || n == "map_err" {
                    return Some(false);
                }
                if let Some(h) = self.hints.get(&n) {
                    return Some(h == "option");
                }
                if matches!(n.as_str(), "as_ref" | "as_mut" | "cloned" | "copied" | "map" | "and_then" | "xslice" | "or" | "or_else") {
                    if let Some(k) = self.is_option(&m.receiver) {
                        return Some(k);
                    }
                }
                if n == "or_else" {
                    // Option's takes no argument, Result's takes the error
                    if let Some(Expr::Closure(c)) = m.args.first().map(strip_paren) {
                        return Some(c.inputs.is_empty());
                    }
                }
                if n == "or" {
                    if let Some(k) = m.args.first().and_then(|a| self.is_option(a)) {
                        return Some(k);
                    }
                }
                if n == "ok_or" || n == "ok_or_else" {
                    return Some(false);
                }
                self.kinds.get(&e.to_token_stream().to_string()).copied()
            }
            Expr::Path(p) => {
                let id = p.path.get_ident()?.to_string();
                if let Some(h) = self.hints.get(&id) {
                    return Some(h == "option");
                }
                self.let_kind.get(&id).copied().or_else(|| self.kinds.get(&e.to_token_stream().to_string()).copied())
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    if let Some(h) = self.hints.get(&n.to_string()) {
                        return Some(h == "option");
                    }
                }
                None
            }
            Expr::Reference(r) => self.is_option(&r.expr),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if n == "Some" || self.common.option_methods.contains(&n) {
                        return Some(true);
                    }
                    if n == "Ok" || n == "Err" || self.common.result_methods.contains(&n) {
                        return Some(false);
                    }
                }
                self.kinds.get(&e.to_token_stream().to_string()).copied()
            }
            // a combinator that has been lowered already
            Expr::Match(m) => m.arms.iter().find_map(|a| match strip_paren(&a.body) {
                Expr::Path(p) if p.path.is_ident("None") => Some(true),
                b => self.is_option(b),
            }),
            Expr::If(i) => match (i.then_branch.stmts.last(), &i.else_branch) {
                (Some(Stmt::Expr(b, None)), Some(_)) if i.then_branch.stmts.len() == 1 => self.is_option(b),
                _ => None,
            },
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(b, None)) => self.is_option(b),
                _ => None,
            },
            _ => self.kinds.get(&e.to_token_stream().to_string()).copied(),
        }
    }

    /// Apply a callable (closure or path) to an argument, inlining closures.
    fn apply(&mut self, f: &Expr, arg: Expr) -> Option<Expr> {
        match strip_paren(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return None;
                }
                let fl = flow(&c.body);
                if fl.ret || fl.q {
                    self.fail("closure with early return outside an iterator chain");
                    return None;
                }
                let body = &c.body;
                let bind = self.bind(&c.inputs[0], arg);
                Some(pe(quote!({ #bind #body })))
            }
            Expr::Path(_) => Some(pe(quote!(#f(#arg)))),
            _ => None,
        }
    }

    /// `let PAT = arg;` with reference patterns turned into dereferences.
    fn bind(&mut self, p: &Pat, arg: Expr) -> TokenStream {
        match p {
            Pat::Reference(r) if matches!(&*r.pat, Pat::Tuple(t) if t.elems.iter().all(|e| matches!(e, Pat::Wild(_)) || matches!(e, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()))) => {
                // &(a, b, _): the bound parts are copied
                let mut ts = quote!();
                if let Pat::Tuple(t) = &*r.pat {
                    for (k, el) in t.elems.iter().enumerate() {
                        if let Pat::Ident(i) = el {
                            let ix = Index::from(k);
                            ts.extend(quote!(let #i = (#arg).#ix;));
                        }
                    }
                }
                ts
            }
            Pat::Reference(r) => {
                let inner = self.bind(&r.pat, pe(quote!((*#arg))));
                inner
            }
            Pat::Wild(_) => quote!(let _ = #arg;),
            Pat::Type(t) => {
                let ty = &t.ty;
                let pp = &t.pat;
                quote!(let #pp: #ty = #arg;)
            }
            Pat::Tuple(t) if plain_tuple(p) => quote!(let #t = #arg;),
            Pat::Tuple(t) => {
                let id = self.id("t");
                let mut ts = quote!(let #id = #arg;);
                for (k, el) in t.elems.iter().enumerate() {
                    let i = Index::from(k);
                    match el {
                        Pat::Wild(_) => {}
                        _ => {
                            let b = self.bind(el, pe(quote!(XField::xfield(&#id.#i))));
                            // elements are bound by value; see XField in the prelude
                            let b2 = match el {
                                Pat::Ident(pi) => quote!(let #pi = #id.#i;),
                                _ => b,
                            };
                            ts.extend(b2);
                        }
                    }
                }
                ts
            }
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                let id = &i.ident;
                let m = &i.mutability;
                quote!(let #m #id = #arg;)
            }
            _ => quote!(let #p = #arg;),
        }
    }

    fn sources(&mut self, e: &Expr) -> Option<Expr> {
        // expression that yields a model iterator with .xnext()
        match strip_paren(e) {
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.last().map_or(false, |s| s.ident == "once")) => {
                let a = &c.args[0];
                Some(pe(quote!(xonce(#a))))
            }
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => Some(pe(quote!((#r).xiter()))),
                    "into_iter" => Some(pe(quote!((#r).xinto_iter()))),
                    "bytes" => None,
                    "chunks" => {
                        let a = &m.args[0];
                        Some(pe(quote!((#r).xchunks(#a))))
                    }
                    "split" => {
                        let b = byte_pred(&m.args[0])?;
                        Some(pe(quote!((#r).xsplit(#b))))
                    }
                    "splitn" => {
                        let a = &m.args[0];
                        let b = byte_pred(&m.args[1])?;
                        Some(pe(quote!((#r).xsplitn(#a, #b))))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Try to turn an iterator chain ending in a terminal into a loop.
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let term = m.method.to_string();
        let terminals = ["collect", "sum", "all", "any", "position", "rposition", "next", "count", "find", "last"];
        if !terminals.contains(&term.as_str()) {
            return None;
        }
        // gather adapters
        let mut adapters: Vec<ExprMethodCall> = vec![];
        let mut cur: &Expr = strip_paren(&m.receiver);
        let mut flat_clone = 0;
        loop {
            if let Expr::MethodCall(c) = cur {
                let n = c.method.to_string();
                if ADAPT.contains(&n.as_str()) || n == "flatten" {
                    if n == "flatten" {
                        flat_clone += 1;
                    }
                    adapters.push(c.clone());
                    cur = strip_paren(&c.receiver);
                    continue;
                }
            }
            break;
        }
        // A.chain(B): first A, then B
        let mut second: Option<(Expr, Vec<ExprClosure>)> = None;
        if let Expr::MethodCall(c) = cur {
            if c.method == "chain" && c.args.len() == 1 {
                let mut b: &Expr = strip_paren(&c.args[0]);
                let mut maps = vec![];
                while let Expr::MethodCall(m2) = b {
                    match m2.args.first().map(strip_paren) {
                        Some(Expr::Closure(f)) if m2.method == "map" && f.inputs.len() == 1 => {
                            let fl = flow(&f.body);
                            if fl.ret || fl.q {
                                self.fail("early return in a chained closure");
                                return None;
                            }
                            maps.push(f.clone());
                            b = strip_paren(&m2.receiver);
                        }
                        _ => break,
                    }
                }
                maps.reverse();
                let bs = match b {
                    Expr::Range(ExprRange { start: Some(a), end: None, .. }) => {
                        let f = match strip_paren(a) {
                            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if !i.suffix().is_empty() => format_ident!("xfrom_{}", i.suffix()),
                            _ => format_ident!("xfrom_i32"),
                        };
                        Some(pe(quote!(#f(#a))))
                    }
                    Expr::Range(ExprRange { start: Some(a), end: Some(z), limits: RangeLimits::HalfOpen(_), .. }) => Some(pe(quote!(xrange_i32(#a, #z)))),
                    _ => self.sources(b),
                };
                match bs {
                    Some(x) => second = Some((x, maps)),
                    None => {
                        self.fail("unsupported chained iterator");
                        return None;
                    }
                }
                cur = strip_paren(&c.receiver);
            }
        }
        let src = match self.sources(cur) {
            Some(s) => s,
            None => {
                if term == "next" && adapters.is_empty() {
                    return None;
                }
                if adapters.is_empty() && term != "collect" {
                    return None;
                }
                // e.g. opt.map(..).next(): leave alone
                if term == "next" {
                    return None;
                }
                // unknown source with adapters: treat as a model iterator
                cur.clone()
            }
        };
        adapters.reverse();
        let by_ref = matches!(strip_paren(cur), Expr::MethodCall(c) if c.method == "iter");
        let mut still_ref = by_ref;
        for a in adapters.iter().chain(std::iter::once(m)) {
            if still_ref {
                if let Some(Expr::Closure(c)) = a.args.first().map(strip_paren) {
                    for p in &c.inputs {
                        collect_ref_idents(p, &mut self.refs);
                    }
                }
            }
            match a.method.to_string().as_str() {
                "enumerate" | "filter" | "take" | "skip" | "take_while" | "skip_while" => {}
                _ => still_ref = false,
            }
        }
        self.notes.insert("iterator chain -> loop".into());
        if term == "next" && adapters.is_empty() {
            // first element only
            let it = self.id("it");
            return Some(pe(quote!({ let mut #it = #src; #it.xnext() })));
        }
        let (k, inv) = self.inv();
        self.lkinds.insert(k, term.clone());
        let it = format_ident!("__it_t{}_", k);
        let acc = format_ident!("__acc_t{}_", k);
        let errv = format_ident!("__err_t{}_", k);
        let cnt = format_ident!("__cnt_t{}_", k);
        let mut next: Expr = pe(quote!(#it.xnext()));
        let mut pre0 = quote!();
        if let Some((b, maps)) = second {
            let nx = format_ident!("__nxt_t{}_", k);
            pre0.extend(quote!(let mut #nx = #b;));
            let mut v: Expr = pe(quote!(__v));
            for f in &maps {
                let bind = self.bind(&f.inputs[0], v);
                let body = &f.body;
                v = pe(quote!({ #bind #body }));
            }
            next = pe(quote!(match #it.xnext() { Some(__v) => Some(__v), None => match #nx.xnext() { Some(__v) => Some(#v), None => None } }));
        }
        // does the terminal collect into a Result?
        let mut to_result = false;
        let mut to_status = false;
        let mut vec_ty: Option<Type> = None;
        let mut err_ty: Option<Type> = None;
        if term == "collect" {
            let mut want: Option<String> = None;
            if let Some(tf) = &m.turbofish {
                want = Some(tf.args.to_token_stream().to_string().replace(' ', ""));
            } else if let Some(Some(t)) = self.expected.last() {
                want = Some(t.clone());
            }
            if let Some(t) = want {
                if let Ok(ty) = syn::parse_str::<Type>(&t) {
                    let s = t.replace(' ', "");
                    if s.starts_with("Result<") || s.contains("::Result<") {
                        to_result = true;
                        if let Type::Path(p) = &ty {
                            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                                for (i, x) in a.args.iter().enumerate() {
                                    if let GenericArgument::Type(t) = x {
                                        if i == 0 {
                                            vec_ty = Some(t.clone());
                                        } else {
                                            err_ty = Some(t.clone());
                                        }
                                    }
                                }
                            }
                        }
                    } else if s == "Status" {
                        to_status = true;
                    } else {
                        vec_ty = Some(ty);
                    }
                }
            }
        }
        let has_infer = |t: &Option<Type>| t.as_ref().map(|x| x.to_token_stream().to_string().contains('_')).unwrap_or(true);
        // body, from the innermost outwards
        let v0 = self.id("x");
        let mut pre = quote!(); // before the loop
        let mut top = quote!(); // before pulling the next element
        let mut body = quote!(let __cur = #v0;);
        let n_ad = adapters.len();
        let mut cur_ident = v0.clone();
        body = quote!();
        let mut result_item = to_result; // the last item is a Result unless an adapter unwraps it
        let mut done_inline = false;
        for (ai, a) in adapters.iter().enumerate() {
            let name = a.method.to_string();
            let last = ai + 1 == n_ad;
            match name.as_str() {
                "enumerate" => {
                    let nv = self.id("x");
                    pre.extend(quote!(let mut #cnt: usize = 0;));
                    body.extend(quote!(let #nv = (#cnt, #cur_ident); #cnt = #cnt + 1;));
                    cur_ident = nv;
                }
                "cloned" | "copied" => {
                    let nv = self.id("x");
                    body.extend(quote!(let #nv = XClone::xclone(#cur_ident);));
                    cur_ident = nv;
                }
                "take" => {
                    let n = &a.args[0];
                    let lim = self.id("lim");
                    let c = format_ident!("__taken_t{}_", k);
                    pre.extend(quote!(let #lim: usize = #n; let mut #c: usize = 0;));
                    top.extend(quote!(if #c >= #lim { break; }));
                    body.extend(quote!(#c = #c + 1;));
                }
                "skip" => {
                    let n = &a.args[0];
                    let lim = self.id("lim");
                    let c = self.id("skipped");
                    pre.extend(quote!(let #lim: usize = #n; let mut #c: usize = 0;));
                    body.extend(quote!(if #c < #lim { #c = #c + 1; continue; }));
                }
                "map" => {
                    let nv = self.id("x");
                    let f = strip_paren(&a.args[0]).clone();
                    match &f {
                        Expr::Closure(c) => {
                            if c.inputs.len() != 1 {
                                self.fail("closure arity");
                                return None;
                            }
                            let fl = flow(&c.body);
                            let mut b = (*c.body).clone();
                            if fl.ret || fl.q {
                                if !(last && to_result) {
                                    self.fail("early return in a map closure that is not last before collect into Result");
                                    return None;
                                }
                                let mut f = None;
                                CloseRw { mode: ItemMode::ResultLast, err: errv.to_string(), fail: &mut f, depth: 0 }.visit_expr_mut(&mut b);
                                if let Some(f) = f {
                                    self.fail(f);
                                    return None;
                                }
                            }
                            let bind = self.bind(&c.inputs[0], pe(quote!(#cur_ident)));
                            if last && to_result {
                                // tail of the closure body decides
                                let (stmts, tail) = split_tail(&b);
                                if let Some(t) = tail.as_ref().and_then(|t| call_arg(t, "Ok")) {
                                    body.extend(quote!(#bind #(#stmts)* let #nv = #t;));
                                } else if let Some(t) = tail {
                                    let r = self.id("r");
                                    body.extend(quote!(#bind #(#stmts)* let #r = #t;));
                                    body.extend(quote!(let #nv = match #r { Ok(__v) => __v, Err(__e) => { #errv = Some(__e); break; } };));
                                } else {
                                    self.fail("closure without value");
                                    return None;
                                }
                                result_item = false;
                                done_inline = true;
                            } else {
                                body.extend(quote!(#bind let #nv = #b;));
                            }
                        }
                        Expr::Path(_) => body.extend(quote!(let #nv = #f(#cur_ident);)),
                        _ => {
                            self.fail("map with an unsupported callable");
                            return None;
                        }
                    }
                    cur_ident = nv;
                }
                "filter_map" | "map_while" => {
                    let nv = self.id("x");
                    let stop = name == "map_while";
                    let mut f = strip_paren(&a.args[0]).clone();
                    if let Expr::Closure(c) = &mut f {
                        let fl = flow(&c.body);
                        if fl.ret || fl.q {
                            let mut bad = None;
                            CloseRw { mode: if stop { ItemMode::OptionStop } else { ItemMode::OptionSkip }, err: errv.to_string(), fail: &mut bad, depth: 0 }.visit_expr_mut(&mut c.body);
                            if let Some(b) = bad {
                                self.fail(b);
                                return None;
                            }
                        }
                    }
                    let e = match self.apply(&f, pe(quote!(#cur_ident))) {
                        Some(e) => e,
                        None => {
                            self.fail("filter_map closure");
                            return None;
                        }
                    };
                    if stop {
                        body.extend(quote!(let #nv = match #e { Some(__v) => __v, None => { break; } };));
                    } else {
                        body.extend(quote!(let #nv = match #e { Some(__v) => __v, None => { continue; } };));
                    }
                    cur_ident = nv;
                }
                "filter" | "take_while" | "skip_while" => {
                    let f = strip_paren(&a.args[0]).clone();
                    let e = match self.apply(&f, pe(quote!((&#cur_ident)))) {
                        Some(e) => e,
                        None => {
                            self.fail("predicate closure");
                            return None;
                        }
                    };
                    match name.as_str() {
                        "filter" => body.extend(quote!(if !(#e) { continue; })),
                        "take_while" => body.extend(quote!(if !(#e) { break; })),
                        _ => {
                            let s = format_ident!("__skip_t{}_", k);
                            pre.extend(quote!(let mut #s = true;));
                            body.extend(quote!(if #s { if #e { continue; } #s = false; }));
                        }
                    }
                }
                _ => {
                    let _ = flat_clone;
                    self.fail(format!("unsupported adapter {}", name));
                    return None;
                }
            }
        }
        let _ = done_inline;
        let (init, step, fin): (TokenStream, TokenStream, TokenStream) = match term.as_str() {
            "collect" => {
                let mut init = if has_infer(&vec_ty) { quote!(let mut #acc = Vec::new();) } else {
                    let t = vec_ty.clone().unwrap();
                    quote!(let mut #acc: #t = Vec::new();)
                };
                let mut step = quote!();
                if to_result {
                    if has_infer(&err_ty) {
                        init.extend(quote!(let mut #errv = None;));
                    } else {
                        let t = err_ty.clone().unwrap();
                        init.extend(quote!(let mut #errv: Option<#t> = None;));
                    }
                    if result_item {
                        step.extend(quote!(match #cur_ident { Ok(__v) => { #acc.push(__v); } Err(__e) => { #errv = Some(__e); break; } }));
                    } else {
                        step.extend(quote!(#acc.push(#cur_ident);));
                    }
                    (init, step, quote!(match #errv { Some(__e) => Err(__e), None => Ok(#acc) }))
                } else {
                    step.extend(quote!(#acc.push(#cur_ident);));
                    if to_status {
                        (init, step, quote!(Status::from_iter(#acc)))
                    } else {
                        (init, step, quote!(#acc))
                    }
                }
            }
            "sum" => (quote!(let mut #acc = 0;), quote!(#acc = #acc + #cur_ident;), quote!(#acc)),
            "count" => (quote!(let mut #acc: usize = 0;), quote!(#acc = #acc + 1;), quote!(#acc)),
            "all" | "any" => {
                let f = strip_paren(&m.args[0]).clone();
                let e = self.apply(&f, pe(quote!(#cur_ident)))?;
                if term == "all" {
                    (quote!(let mut #acc = true;), quote!(if !(#e) { #acc = false; break; }), quote!(#acc))
                } else {
                    (quote!(let mut #acc = false;), quote!(if #e { #acc = true; break; }), quote!(#acc))
                }
            }
            "position" => {
                let f = strip_paren(&m.args[0]).clone();
                let e = self.apply(&f, pe(quote!(#cur_ident)))?;
                (
                    quote!(let mut #acc: Option<usize> = None; let mut #cnt: usize = 0;),
                    quote!(if #e { #acc = Some(#cnt); break; } #cnt = #cnt + 1;),
                    quote!(#acc),
                )
            }
            "rposition" if adapters.is_empty() => {
                // the last element satisfying a pure predicate, found in order
                let f = strip_paren(&m.args[0]).clone();
                let e = self.apply(&f, pe(quote!(#cur_ident)))?;
                (
                    quote!(let mut #acc: Option<usize> = None; let mut #cnt: usize = 0;),
                    quote!(if #e { #acc = Some(#cnt); } #cnt = #cnt + 1;),
                    quote!(#acc),
                )
            }
            "find" => {
                let f = strip_paren(&m.args[0]).clone();
                let e = self.apply(&f, pe(quote!((&#cur_ident))))?;
                (quote!(let mut #acc = None;), quote!(if #e { #acc = Some(#cur_ident); break; }), quote!(#acc))
            }
            "next" => (quote!(let mut #acc = None;), quote!(#acc = Some(#cur_ident); break;), quote!(#acc)),
            _ => {
                self.fail(format!("unsupported terminal {}", term));
                return None;
            }
        };
        // a temporary the iterator borrows from lives as long as the loop
        let mut src = src;
        let mut keep = quote!();
        if let Expr::MethodCall(c) = &mut src {
            if matches!(strip_paren(&c.receiver), Expr::MethodCall(_) | Expr::Call(_)) {
                let id = format_ident!("__src_t{}_", k);
                let r = c.receiver.clone();
                keep = quote!(let #id = #r;);
                *c.receiver = pe(quote!(#id));
            }
        }
        Some(pe(quote!({
            #keep
            let mut #it = #src;
            #pre0
            #init
            #pre
            loop {
                #inv
                #top
                let #v0 = match #next { Some(__v) => __v, None => { break; } };
                #body
                #step
            }
            #fin
        })))
    }
}

/// |x| Reverse(K(x)): the closure |x| K(x)
fn reverse_key(f: &Expr) -> Option<Expr> {
    let mut c = match strip_paren(f) {
        Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
        _ => return None,
    };
    let mut body: &Expr = strip_paren(&c.body);
    if let Expr::Block(bl) = body {
        match &bl.block.stmts[..] {
            [Stmt::Expr(e, None)] => body = strip_paren(e),
            _ => return None,
        }
    }
    let k = match body {
        Expr::Call(x) if x.args.len() == 1 && matches!(&*x.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Reverse")) => x.args[0].clone(),
        _ => return None,
    };
    *c.body = k;
    Some(Expr::Closure(c))
}

/// The key and the direction of a comparison |a, b| K(a).cmp(&K(b)) or |a, b| K(b).cmp(&K(a)).
fn sort_key(f: &Expr) -> Option<(Expr, bool)> {
    let c = match strip_paren(f) {
        Expr::Closure(c) if c.inputs.len() == 2 => c,
        _ => return None,
    };
    let name = |p: &Pat| match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
        _ => None,
    };
    let (a, b) = (name(&c.inputs[0])?, name(&c.inputs[1])?);
    let mut body: &Expr = strip_paren(&c.body);
    if let Expr::Block(bl) = body {
        match &bl.block.stmts[..] {
            [Stmt::Expr(e, None)] => body = strip_paren(e),
            _ => return None,
        }
    }
    let mut rev = false;
    let mut m = match body {
        Expr::MethodCall(m) => m,
        _ => return None,
    };
    if m.method == "reverse" && m.args.is_empty() {
        rev = true;
        m = match strip_paren(&m.receiver) {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
    }
    if m.method != "cmp" || m.args.len() != 1 {
        return None;
    }
    struct Sub<'a>(&'a str, &'a str, bool, bool);
    impl<'a> VisitMut for Sub<'a> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.is_ident(self.0) {
                self.2 = true;
                p.path = Ident::new(self.1, Span::call_site()).into();
            } else if p.path.is_ident(self.1) {
                self.3 = true;
            }
        }
    }
    let mut l = strip_ref_paren(&m.receiver).clone();
    let mut r = strip_ref_paren(&m.args[0]).clone();
    // which parameter is on the left?
    let mut s = Sub(&a, "__el", false, false);
    s.visit_expr_mut(&mut l);
    let left_a = s.2;
    let mut s = Sub(&b, "__el", false, false);
    s.visit_expr_mut(&mut l);
    if left_a == s.2 {
        return None;
    }
    let (other, this) = if left_a { (&b, &a) } else { (&a, &b) };
    let mut s = Sub(other, "__el", false, false);
    s.visit_expr_mut(&mut r);
    let mut s2 = Sub(this, "__el2", false, false);
    s2.visit_expr_mut(&mut r);
    if !s.2 || s2.2 || l.to_token_stream().to_string() != r.to_token_stream().to_string() {
        return None;
    }
    Some((pe(quote!(|__el| #l)), left_a == rev))
}

/// Functions that hand out a boxed lazy iterator: `Box::new(<iterator>)` becomes the list of its elements,
/// and iterators that are named once and used once are put where they are used.
pub struct Lazy;
const LAZY: &[&str] = &["map", "filter", "filter_map", "map_while", "chain", "take_while", "skip_while", "enumerate", "take", "skip", "into_iter", "iter"];
fn lazy_expr(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Range(r) => r.start.is_some(),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.last().map_or(false, |s| s.ident == "once")),
        Expr::MethodCall(m) => LAZY.contains(&m.method.to_string().as_str()),
        _ => false,
    }
}
impl Lazy {
    fn body(b: &mut Block, out: &ReturnType) {
        Lazy.visit_block_mut(b);
        struct Item(Option<Type>);
        impl<'ast> Visit<'ast> for Item {
            fn visit_assoc_type(&mut self, a: &'ast AssocType) {
                if a.ident == "Item" {
                    self.0 = Some(a.ty.clone());
                }
            }
        }
        let mut it = Item(None);
        it.visit_return_type(out);
        struct Bx(Type);
        impl VisitMut for Bx {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(c) = e {
                    if c.func.to_token_stream().to_string().replace(' ', "") == "Box::new" && c.args.len() == 1 && lazy_expr(&c.args[0]) {
                        let a = &c.args[0];
                        let t = &self.0;
                        *e = pe(quote!(#a.collect::<Vec<#t>>()));
                    }
                }
            }
        }
        Bx(it.0.unwrap_or_else(|| syn::parse_quote!(_))).visit_block_mut(b);
    }
    pub fn file(f: &mut File) {
        struct Fns;
        impl VisitMut for Fns {
            fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
                let t = f.sig.output.to_token_stream().to_string();
                if t.contains("Box <") && t.contains("Iterator <") {
                    Lazy::body(&mut f.block, &f.sig.output);
                }
            }
            fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
                let t = f.sig.output.to_token_stream().to_string();
                if t.contains("Box <") && t.contains("Iterator <") {
                    Lazy::body(&mut f.block, &f.sig.output);
                }
            }
        }
        Fns.visit_file_mut(f);
    }
}
impl VisitMut for Lazy {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(x)) if x.diverge.is_none() && p.by_ref.is_none() && p.subpat.is_none() && lazy_expr(&x.expr) => Some((p.ident.to_string(), (*x.expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, init)) = hit {
                struct Uses<'a>(&'a str, usize, usize);
                impl<'ast, 'a> Visit<'ast> for Uses<'a> {
                    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
                        if p.path.is_ident(self.0) {
                            self.1 += 1 + self.2;
                        }
                    }
                    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                        if p.ident == self.0 {
                            self.1 += 9;
                        }
                    }
                    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
                        self.2 += 1;
                        visit::visit_expr_closure(self, c);
                        self.2 -= 1;
                    }
                    fn visit_expr_loop(&mut self, c: &'ast ExprLoop) {
                        self.2 += 1;
                        visit::visit_expr_loop(self, c);
                        self.2 -= 1;
                    }
                    fn visit_expr_while(&mut self, c: &'ast ExprWhile) {
                        self.2 += 1;
                        visit::visit_expr_while(self, c);
                        self.2 -= 1;
                    }
                    fn visit_expr_for_loop(&mut self, c: &'ast ExprForLoop) {
                        self.2 += 1;
                        visit::visit_expr_for_loop(self, c);
                        self.2 -= 1;
                    }
                    fn visit_macro(&mut self, m: &'ast Macro) {
                        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == self.0) {
                            self.1 += 9;
                        }
                    }
                }
                // the next statement uses it, and nothing happens before it does
                let mut u = Uses(&name, 0, 0);
                for s in &b.stmts[i + 1..] {
                    u.visit_stmt(s);
                }
                let mut first = Uses(&name, 0, 0);
                if let Some(s) = b.stmts[i + 1..].iter().find(|s| !matches!(s, Stmt::Local(l) if l.init.as_ref().map_or(false, |x| lazy_expr(&x.expr)))) {
                    first.visit_stmt(s);
                }
                let in_lets = u.1 == 1 && first.1 == 0;
                let mut ok = u.1 == 1 && first.1 == 1;
                if in_lets {
                    // used by another named iterator further down, before anything else happens
                    let mut t = Uses(&name, 0, 0);
                    for s in b.stmts[i + 1..].iter().take_while(|s| matches!(s, Stmt::Local(l) if l.init.as_ref().map_or(false, |x| lazy_expr(&x.expr)))) {
                        t.visit_stmt(s);
                    }
                    ok = t.1 == 1;
                }
                if ok {
                    struct Put<'a>(&'a str, &'a Expr);
                    impl<'a> VisitMut for Put<'a> {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if let Expr::Path(p) = e {
                                if p.path.is_ident(self.0) {
                                    let x = self.1;
                                    *e = pe(quote!((#x)));
                                    return;
                                }
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    for s in b.stmts[i + 1..].iter_mut() {
                        Put(&name, &init).visit_stmt_mut(s);
                    }
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
    }
}

fn collect_ref_idents(p: &Pat, out: &mut BTreeSet<String>) {
    match p {
        Pat::Ident(i) => {
            out.insert(i.ident.to_string());
        }
        // (index, item): the index is not a reference
        Pat::Tuple(t) => {
            if let Some(l) = t.elems.last() {
                collect_ref_idents(l, out);
            }
        }
        _ => {}
    }
}
#[allow(non_snake_case)]
fn Literal_usize(k: usize) -> proc_macro2::Literal {
    proc_macro2::Literal::usize_unsuffixed(k)
}

/// Split a closure body into statements and tail expression.
fn split_tail(e: &Expr) -> (Vec<Stmt>, Option<Expr>) {
    match strip_paren(e) {
        Expr::Block(b) if b.label.is_none() => {
            let mut st = b.block.stmts.clone();
            match st.pop() {
                Some(Stmt::Expr(t, None)) => (st, Some(t)),
                Some(x) => {
                    st.push(x);
                    (st, None)
                }
                None => (st, None),
            }
        }
        other => (vec![], Some(other.clone())),
    }
}

/// Replace literal string patterns by bindings plus equality conditions.
fn lower_pat(ctx: &mut Ctx, p: &mut Pat, conds: &mut Vec<Expr>) {
    let mut repl: Option<Pat> = None;
    match p {
        Pat::Lit(l) => match &l.lit {
            Lit::ByteStr(b) => {
                let id = ctx.id("p");
                let lit = ctx.lit(&b.value());
                conds.push(pe(quote!(xeq(#id.xslice(), #lit))));
                repl = Some(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None }));
            }
            Lit::Str(b) => {
                let id = ctx.id("p");
                let lit = ctx.lit(b.value().as_bytes());
                conds.push(pe(quote!(xeq(#id.xslice(), #lit))));
                repl = Some(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None }));
            }
            Lit::Byte(b) => {
                let v = proc_macro2::Literal::u8_suffixed(b.value());
                repl = Some(syn::parse::Parser::parse2(Pat::parse_single, quote!(#v)).unwrap());
            }
            _ => {}
        },
        Pat::Reference(r) => {
            lower_pat(ctx, &mut r.pat, conds);
            if matches!(&*r.pat, Pat::Ident(_)) {
                repl = Some((*r.pat).clone());
            }
        }
        Pat::Tuple(t) => {
            for e in t.elems.iter_mut() {
                lower_pat(ctx, e, conds);
            }
        }
        Pat::TupleStruct(t) => {
            for e in t.elems.iter_mut() {
                lower_pat(ctx, e, conds);
            }
        }
        Pat::Paren(t) => lower_pat(ctx, &mut t.pat, conds),
        Pat::Range(r) => {
            r.limits = RangeLimits::Closed(Default::default());
        }
        Pat::Or(o) => {
            for e in o.cases.iter_mut() {
                let n = conds.len();
                lower_pat(ctx, e, conds);
                if conds.len() != n {
                    ctx.fail("string literal inside a nested or-pattern");
                }
            }
        }
        _ => {}
    }
    if let Some(r) = repl {
        *p = r;
    }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        // record Option/Result kinds of simple lets
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let Some(k) = self.is_option(&init.expr) {
                self.let_kind.insert(i.ident.to_string(), k);
            }
        }
        let t = match &l.pat {
            Pat::Type(t) => Some(t.ty.to_token_stream().to_string()),
            _ => None,
        };
        if let Some(init) = &mut l.init {
            self.expected.push(t);
            self.visit_top_expr(&mut init.expr);
            self.expected.pop();
            if let Some((_, e)) = &mut init.diverge {
                self.visit_expr_mut(e);
            }
        }
        if let Pat::Ident(i) = &mut l.pat {
            let _ = i;
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            match s {
                Stmt::Macro(m) => {
                    let mac = &m.mac;
                    let semi = m.semi_token;
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: mac.clone() });
                    self.visit_expr_mut(&mut e);
                    *s = Stmt::Expr(e, semi);
                }
                Stmt::Local(l) => self.visit_local_mut(l),
                Stmt::Expr(e, _) => {
                    self.expected.push(None);
                    self.visit_expr_mut(e);
                    self.expected.pop();
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => self.fail("nested item"),
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.expected.push(None);
        self.visit_top_expr(e);
        self.expected.pop();
    }
}

impl<'a> Ctx<'a> {
    /// Visit an expression that keeps the current expected type.
    pub fn visit_top_expr(&mut self, e: &mut Expr) {
        // attributes on expressions are dropped
        match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "__vx_inv" | "__vx_txt" => return,
                    "format" => {
                        if let Some(mut args) = macro_args(&m.mac) {
                            for a in args.iter_mut().skip(1) {
                                self.visit_expr_mut(a);
                            }
                            if let Some(x) = self.format(&args) {
                                *e = x;
                                return;
                            }
                        }
                        self.fail("format! with an unsupported format string");
                    }
                    "write" | "writeln" => {
                        if let Some(mut args) = macro_args(&m.mac) {
                            for a in args.iter_mut() {
                                if !matches!(a, Expr::Lit(_)) {
                                    self.visit_expr_mut(a);
                                }
                            }
                            if args.len() >= 2 {
                                let dst = args.remove(0);
                                if name == "writeln" {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &args[0] {
                                        let v = format!("{}\n", s.value());
                                        args[0] = pe(LitStr::new(&v, Span::call_site()).to_token_stream());
                                    }
                                }
                                if let Some(x) = self.format(&args) {
                                    *e = pe(quote!(#dst.xwrite_fmt(#x)));
                                    return;
                                }
                            }
                        }
                        self.fail("write! with an unsupported format string");
                    }
                    "eprint" | "eprintln" => {
                        if let Some(mut args) = macro_args(&m.mac) {
                            for a in args.iter_mut() {
                                if !matches!(a, Expr::Lit(_)) {
                                    self.visit_expr_mut(a);
                                }
                            }
                            if let Some(x) = self.format(&args) {
                                *e = pe(quote!(crate::prelude::io::xeprint(#x)));
                                return;
                            }
                        }
                        self.fail("eprint! with an unsupported format string");
                    }
                    "vec" => {
                        // vec![x; n] or vec![a, b]
                        let ts = m.mac.tokens.clone();
                        if let Ok(r) = syn::parse2::<ExprRepeat>(quote!([#ts])) {
                            let mut x = (*r.expr).clone();
                            let mut n = (*r.len).clone();
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut n);
                            *e = pe(quote!(xvec_repeat(#x, #n)));
                            return;
                        }
                        if let Some(mut args) = macro_args(&m.mac) {
                            for a in args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            if args.is_empty() {
                                *e = pe(quote!(Vec::new()));
                            } else {
                                let v = self.id("v");
                                *e = pe(quote!({ let mut #v = Vec::new(); #(#v.push(#args);)* #v }));
                            }
                            return;
                        }
                        self.fail("vec! shape");
                    }
                    "unreachable" | "unimplemented" | "panic" | "todo" => {
                        *e = pe(quote!(xpanic()));
                        return;
                    }
                    "assert" | "debug_assert" => {
                        if let Some(mut args) = macro_args(&m.mac) {
                            if !args.is_empty() {
                                self.visit_expr_mut(&mut args[0]);
                                let c = &args[0];
                                *e = pe(quote!(xassert(#c)));
                                return;
                            }
                        }
                        self.fail("assert! shape");
                    }
                    "eprintln" | "println" => {
                        self.fail(format!("{}! in a function under contract", name));
                    }
                    _ => self.fail(format!("macro {}!", name)),
                }
                return;
            }
            Expr::Lit(l) => {
                match &l.lit {
                    Lit::ByteStr(b) => {
                        let v = b.value();
                        *e = self.lit(&v);
                    }
                    Lit::Str(b) => {
                        let v = b.value();
                        *e = self.lit(v.as_bytes());
                    }
                    Lit::Byte(b) => {
                        let v = proc_macro2::Literal::u8_suffixed(b.value());
                        *e = pe(quote!(#v));
                    }
                    _ => {}
                }
                return;
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.fail("labelled loop");
                    return;
                }
                let mut src = (*f.expr).clone();
                let srcx = match self.sources(&src) {
                    Some(s) => s,
                    None => {
                        // a list written in place: named, so that it lives as long as the loop
                        if let Expr::Reference(rf) = strip_paren(&src) {
                            if matches!(strip_paren(&rf.expr), Expr::Array(_)) {
                                let id = self.id("arr");
                                let init = src.clone();
                                let mut pre = pe(init.to_token_stream());
                                self.visit_expr_mut(&mut pre);
                                let mut fl = f.clone();
                                fl.expr = Box::new(pe(quote!(#id)));
                                let mut inner = Expr::ForLoop(fl);
                                self.visit_expr_mut(&mut inner);
                                *e = pe(quote!({ let #id = #pre; #inner }));
                                return;
                            }
                        }
                        if matches!(strip_paren(&src), Expr::Range(_)) {
                            src = pe(quote!(xrange(#src)));
                            src
                        } else {
                            pe(quote!((#src).xiter()))
                        }
                    }
                };
                let mut srcx = srcx;
                if let Expr::Call(c) = &srcx {
                    // xrange(a..b)
                    if c.func.to_token_stream().to_string() == "xrange" {
                        if let Expr::Range(r) = strip_paren(&c.args[0]) {
                            let (a, b) = (r.start.clone(), r.end.clone());
                            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (a, b, &r.limits) {
                                srcx = pe(quote!(xrange(#a, #b)));
                            } else {
                                self.fail("range shape in for loop");
                            }
                        }
                    }
                }
                // visit the pieces of the source
                self.visit_children(&mut srcx);
                let mut body = f.body.clone();
                let (k, inv) = self.inv();
                self.visit_block_mut(&mut body);
                let it = format_ident!("__it_t{}_", k);
                let next: Expr = pe(quote!(#it.xnext()));
                let v = self.id("x");
                let bind = self.bind(&f.pat, pe(quote!(#v)));
                let stmts = &body.stmts;
                *e = pe(quote!({
                    let mut #it = #srcx;
                    loop {
                        #inv
                        let #v = match #next { Some(__v) => __v, None => { break; } };
                        #bind
                        #(#stmts)*
                    }
                }));
                return;
            }
            Expr::While(wl) => {
                if wl.label.is_some() {
                    self.fail("labelled loop");
                    return;
                }
                let (_k, inv) = self.inv();
                if let Expr::Let(l) = &*wl.cond {
                    let (p, x) = (l.pat.clone(), l.expr.clone());
                    let mut ne: Expr = pe(quote!(match #x { #p => {}, _ => { break; } }));
                    if let Expr::Match(m) = &mut ne {
                        *m.arms[0].body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: wl.body.clone() });
                    }
                    self.visit_expr_mut(&mut ne);
                    *e = pe(quote!(loop { #inv #ne }));
                    return;
                }
                self.visit_expr_mut(&mut wl.cond);
                self.visit_block_mut(&mut wl.body);
                let st = block_stmts(inv);
                for (i, s) in st.into_iter().enumerate() {
                    wl.body.stmts.insert(i, s);
                }
                return;
            }
            Expr::Loop(l) => {
                if l.label.is_some() {
                    self.fail("labelled loop");
                    return;
                }
                let (_k, inv) = self.inv();
                self.visit_block_mut(&mut l.body);
                let st = block_stmts(inv);
                for (i, s) in st.into_iter().enumerate() {
                    l.body.stmts.insert(i, s);
                }
                return;
            }
            Expr::MethodCall(_) => {
                let mut mc = match e {
                    Expr::MethodCall(m) => m.clone(),
                    _ => unreachable!(),
                };
                // special idiom
                let txt: String = mc.to_token_stream().to_string().replace(' ', "");
                if mc.method == "collect" && txt.ends_with(".iter().flatten().cloned().collect()") {
                    if let Some(base) = strip_n(&mc, 4) {
                        let mut b = base.clone();
                        self.visit_expr_mut(&mut b);
                        *e = pe(quote!(xflatten(&(#b))));
                        return;
                    }
                }
                // x.for_each(|p| body): for p in x { body; }
                if mc.method == "for_each" && mc.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&mc.args[0]) {
                        let fl = flow(&c.body);
                        if c.inputs.len() == 1 && !fl.ret && !fl.q {
                            let (r, p, b) = (&mc.receiver, &c.inputs[0], &c.body);
                            let p = match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            *e = pe(quote!({ for #p in #r { #b; } }));
                            self.notes.insert("for_each -> for".into());
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                // x.sort_by_key(f): the keys of all elements, then a sort by these keys
                if (mc.method == "sort_by_key" || mc.method == "sort_by_cached_key") && mc.args.len() == 1 {
                    let r = &mc.receiver;
                    let f = &mc.args[0];
                    if let Some(f) = reverse_key(f) {
                        *e = pe(quote!({ let __keys: Vec<_> = #r.iter().map(#f).collect(); #r.xsort_keys(__keys, true, true) }));
                        self.notes.insert("sort_by_key -> keys, then a sort by them".into());
                        self.visit_expr_mut(e);
                        return;
                    }
                    *e = pe(quote!({ let __keys: Vec<Vec<u8>> = #r.iter().map(#f).collect(); #r.xsort_with(__keys) }));
                    self.notes.insert("sort_by_key -> keys, then a sort by them".into());
                    self.visit_expr_mut(e);
                    return;
                }
                // x.sort_by(|a, b| K(b).cmp(&K(a))): the keys of all elements, then a stable sort by them
                if (mc.method == "sort_by" || mc.method == "sort_unstable_by") && mc.args.len() == 1 {
                    if let Some((f, desc)) = sort_key(&mc.args[0]) {
                        let r = &mc.receiver;
                        let stable = mc.method == "sort_by";
                        *e = pe(quote!({ let __keys: Vec<_> = #r.iter().map(#f).collect(); #r.xsort_keys(__keys, #desc, #stable) }));
                        self.notes.insert("sort_by -> keys, then a sort by them".into());
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                // [a, b, ..].join(sep)
                if (mc.method == "join" || mc.method == "concat") && mc.args.len() == (mc.method == "join") as usize {
                    if let Expr::Array(a) = strip_ref_paren(&mc.receiver) {
                        let mut sep = vec![];
                        let mut ok = true;
                        if let Some(x) = mc.args.first() {
                            let x = match strip_ref_paren(x) {
                                Expr::Cast(c) => strip_ref_paren(&c.expr).clone(),
                                y => y.clone(),
                            };
                            match &x {
                                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => sep = s.value().into_bytes(),
                                Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => sep = s.value(),
                                _ => ok = false,
                            }
                        }
                        if ok {
                            let mut parts: Vec<Expr> = vec![];
                            for (i, x) in a.elems.iter().enumerate() {
                                if i > 0 && !sep.is_empty() {
                                    parts.push(self.lit(&sep));
                                }
                                let mut x = x.clone();
                                self.visit_expr_mut(&mut x);
                                parts.push(pe(quote!((#x).xslice())));
                            }
                            if parts.is_empty() {
                                parts.push(self.lit(b""));
                            }
                            let mut it = parts.into_iter();
                            let first = it.next().unwrap();
                            let mut x = pe(quote!(xcat0(#first)));
                            for p in it {
                                x = pe(quote!(xcat(#x, #p)));
                            }
                            self.notes.insert("array join -> concatenation".into());
                            *e = x;
                            return;
                        }
                    }
                }
                if let Some(mut x) = self.chain(&mc) {
                    // lower what the fused loop contains (closure bodies, source)
                    self.visit_fused(&mut x);
                    *e = x;
                    return;
                }
                if self.err.is_some() {
                    return;
                }
                let name = mc.method.to_string();
                let clos0 = mc.args.first().map(|a| matches!(strip_paren(a), Expr::Closure(_))).unwrap_or(false);
                let path0 = mc.args.first().map(|a| matches!(strip_paren(a), Expr::Path(_))).unwrap_or(false);
                let r = (*mc.receiver).clone();
                let combin = match (name.as_str(), mc.args.len()) {
                    ("expect", 1) if matches!(mc.args[0], Expr::Lit(_)) || mc.args[0].to_token_stream().to_string().contains("lits") => Some(pe(quote!(#r.unwrap()))),
                    ("ok_or_else", 1) => {
                        let b = self.thunk(&mc.args[0]);
                        b.map(|b| pe(quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })))
                    }
                    ("map_err", 1) => {
                        let b = self.apply(&mc.args[0], pe(quote!(__e)));
                        b.map(|b| pe(quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#b) })))
                    }
                    ("unwrap_or_else", 1) => {
                        if let Expr::Closure(c) = strip_paren(&mc.args[0]) {
                            let b = &c.body;
                            if c.inputs.is_empty() {
                                Some(pe(quote!(match #r { Some(__v) => __v, None => #b })))
                            } else {
                                let b = self.apply(&mc.args[0], pe(quote!(__e)));
                                b.map(|b| pe(quote!(match #r { Ok(__v) => __v, Err(__e) => #b })))
                            }
                        } else {
                            None
                        }
                    }
                    ("map", 1) | ("and_then", 1) if clos0 || path0 => {
                        // a wrong guess is a type error in the extracted text, not a wrong program
                        let opt = self.is_option(&r).unwrap_or(true);
                        let m = name == "map";
                        if opt && !m {
                            unquestion(&mut mc.args[0]);
                        }
                        let b = self.apply(&mc.args[0], pe(quote!(__v)));
                        b.map(|b| match (opt, m) {
                            (true, true) => pe(quote!(match #r { Some(__v) => Some(#b), None => None })),
                            (true, false) => pe(quote!(match #r { Some(__v) => #b, None => None })),
                            (false, true) => pe(quote!(match #r { Ok(__v) => Ok(#b), Err(__e) => Err(__e) })),
                            (false, false) => pe(quote!(match #r { Ok(__v) => #b, Err(__e) => Err(__e) })),
                        })
                    }
                    ("or", 1) => {
                        let d = &mc.args[0];
                        match self.is_option(&r).or_else(|| self.is_option(d)) {
                            Some(true) => Some(pe(quote!({ let __r = #r; let __d = #d; match __r { Some(__v) => Some(__v), None => __d } }))),
                            Some(false) => Some(pe(quote!({ let __r = #r; let __d = #d; match __r { Ok(__v) => Ok(__v), Err(_) => __d } }))),
                            None => {
                                self.fail("cannot tell Option from Result for .or()");
                                return;
                            }
                        }
                    }
                    ("ok_or", 1) => {
                        let d = &mc.args[0];
                        Some(pe(quote!({ let __d = #d; match #r { Some(__v) => Ok(__v), None => Err(__d) } })))
                    }
                    ("map_or", 2) => {
                        let opt = self.is_option(&r).unwrap_or(true);
                        let d = mc.args[0].clone();
                        let b = self.apply(&mc.args[1], pe(quote!(__v)));
                        b.map(|b| if opt { pe(quote!({ let __d = #d; match #r { Some(__v) => #b, None => __d } })) } else { pe(quote!({ let __d = #d; match #r { Ok(__v) => #b, Err(_) => __d } })) })
                    }
                    ("map_or_else", 2) => {
                        let opt = match strip_paren(&mc.args[0]) {
                            Expr::Closure(c) => c.inputs.is_empty(),
                            _ => self.is_option(&r).unwrap_or(true),
                        };
                        let b = self.apply(&mc.args[1], pe(quote!(__v)));
                        if opt {
                            let d = self.thunk(&mc.args[0]);
                            b.and_then(|b| d.map(|d| pe(quote!(match #r { Some(__v) => #b, None => #d }))))
                        } else {
                            let d = self.apply(&mc.args[0], pe(quote!(__e)));
                            b.and_then(|b| d.map(|d| pe(quote!(match #r { Ok(__v) => #b, Err(__e) => #d }))))
                        }
                    }
                    ("is_some_and", 1) => {
                        let b = self.apply(&mc.args[0], pe(quote!(__v)));
                        b.map(|b| pe(quote!(match #r { Some(__v) => #b, None => false })))
                    }
                    ("is_none_or", 1) => {
                        let b = self.apply(&mc.args[0], pe(quote!(__v)));
                        b.map(|b| pe(quote!(match #r { Some(__v) => #b, None => true })))
                    }
                    ("is_ok_and", 1) => {
                        let b = self.apply(&mc.args[0], pe(quote!(__v)));
                        b.map(|b| pe(quote!(match #r { Ok(__v) => #b, Err(_) => false })))
                    }
                    ("then", 1) if clos0 => {
                        let b = self.thunk(&mc.args[0]);
                        b.map(|b| pe(quote!(if #r { Some(#b) } else { None })))
                    }
                    ("then_some", 1) => {
                        let d = &mc.args[0];
                        Some(pe(quote!({ let __d = #d; if #r { Some(__d) } else { None } })))
                    }
                    ("or_else", 1) if clos0 => match Some(matches!(strip_paren(&mc.args[0]), Expr::Closure(c) if c.inputs.is_empty())) {
                        Some(true) => {
                            let b = self.thunk(&mc.args[0]);
                            b.map(|b| pe(quote!(match #r { Some(__v) => Some(__v), None => #b })))
                        }
                        Some(false) => {
                            let b = self.apply(&mc.args[0], pe(quote!(__e)));
                            b.map(|b| pe(quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => #b })))
                        }
                        None => None,
                    },
                    ("filter", 1) if clos0 => {
                        let b = self.apply(&mc.args[0], pe(quote!((&__v))));
                        b.map(|b| pe(quote!(match #r { Some(__v) => if #b { Some(__v) } else { None }, None => None })))
                    }
                    ("xor_else", 1) if clos0 => {
                        self.fail(format!("combinator {}", name));
                        None
                    }
                    _ => None,
                };
                if let Some(mut c) = combin {
                    self.notes.insert("Option/Result combinator -> match".into());
                    self.visit_children(&mut c);
                    *e = c;
                    return;
                }
                self.visit_children(e);
                if let Expr::MethodCall(m) = e {
                    let r = m.receiver.clone();
                    match (m.method.to_string().as_str(), m.args.len()) {
                        ("split", 1) => {
                            if let Some(b) = byte_pred(&m.args[0]) {
                                *e = pe(quote!((#r).xsplit(#b)));
                            }
                        }
                        ("starts_with", 1) | ("ends_with", 1) | ("strip_prefix", 1) | ("strip_suffix", 1) | ("eq_ignore_ascii_case", 1) => {
                            let a = &m.args[0];
                            if !matches!(strip_paren(a), Expr::Closure(_) | Expr::Lit(_)) {
                                let n = format_ident!("x{}", m.method);
                                *e = pe(quote!((#r).#n((#a).xslice())));
                            }
                        }
                        ("contains", 1) => {
                            if !matches!(strip_paren(&r), Expr::Range(_)) {
                                let a = &m.args[0];
                                if let Expr::Reference(x) = strip_paren(a) {
                                    if let Expr::Lit(ExprLit { lit: Lit::Byte(_), .. }) = strip_paren(&x.expr) {
                                        let x = &x.expr;
                                        *e = pe(quote!((#r).xcontains(#x)));
                                        return;
                                    }
                                }
                            }
                            if let Expr::Range(rg) = strip_paren(&r) {
                                let a = &m.args[0];
                                if let (Some(lo), Some(hi)) = (&rg.start, &rg.end) {
                                    let x = strip_ref(a);
                                    *e = match rg.limits {
                                        RangeLimits::Closed(_) => pe(quote!((#lo <= #x && #x <= #hi))),
                                        RangeLimits::HalfOpen(_) => pe(quote!((#lo <= #x && #x < #hi))),
                                    };
                                }
                            }
                        }
                        _ => {}
                    }
                }
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                let mut arms: Vec<Arm> = vec![];
                let expected = self.expected.last().cloned().flatten();
                for arm in m.arms.drain(..) {
                    let mut cases: Vec<Pat> = match &arm.pat {
                        Pat::Or(o) if pat_has_strlit(&arm.pat) => o.cases.iter().cloned().collect(),
                        p => vec![p.clone()],
                    };
                    for p in cases.iter_mut() {
                        let mut a = arm.clone();
                        a.attrs.clear();
                        let mut conds = vec![];
                        lower_pat(self, p, &mut conds);
                        a.pat = p.clone();
                        if let Some((_, g)) = &mut a.guard {
                            self.visit_expr_mut(g);
                        }
                        if !conds.is_empty() {
                            let g = a.guard.as_ref().map(|x| x.1.clone());
                            let all: Expr = match g {
                                Some(g) => pe(quote!(#(#conds)&&* && (#g))),
                                None => pe(quote!(#(#conds)&&*)),
                            };
                            a.guard = Some((Default::default(), Box::new(all)));
                        }
                        self.expected.push(expected.clone());
                        self.visit_top_expr(&mut a.body);
                        self.expected.pop();
                        a.comma = Some(Default::default());
                        arms.push(a);
                    }
                }
                m.arms = arms;
                return;
            }
            Expr::If(i) if matches!(&*i.cond, Expr::Let(l) if pat_has_strlit(&l.pat)) => {
                if let Expr::Let(l) = &*i.cond {
                    let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                    let el = i.else_branch.as_ref().map(|(_, e)| quote!(#e)).unwrap_or(quote!({}));
                    *e = pe(quote!(match #x { #p => #t, _ => #el }));
                }
                self.visit_expr_mut(e);
                return;
            }
            Expr::If(i) => {
                // if let with literal patterns
                let mut conds = vec![];
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    lower_pat(self, &mut l.pat, &mut conds);
                } else {
                    self.visit_expr_mut(&mut i.cond);
                }
                if !conds.is_empty() {
                    self.fail("if let with a string pattern");
                }
                let exp = self.expected.last().cloned().flatten();
                self.visit_block_tail(&mut i.then_branch, exp.clone());
                if let Some((_, el)) = &mut i.else_branch {
                    self.expected.push(exp);
                    self.visit_top_expr(el);
                    self.expected.pop();
                }
                return;
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    self.fail("labelled block");
                }
                let exp = self.expected.last().cloned().flatten();
                self.visit_block_tail(&mut b.block, exp);
                return;
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                self.notes.insert("unsafe block treated as a plain block".into());
                self.visit_top_expr(e);
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)) => {
                for side in [&mut b.left, &mut b.right] {
                    if let Expr::Path(p) = &**side {
                        if let Some(id) = p.path.get_ident() {
                            if self.refs.contains(&id.to_string()) {
                                **side = pe(quote!((*#id)));
                            }
                        }
                    }
                    self.visit_expr_mut(side);
                }
                return;
            }
            Expr::Cast(c) => {
                self.visit_expr_mut(&mut c.expr);
                if let Type::Reference(_) = &*c.ty {
                    let x = &c.expr;
                    let t = c.ty.to_token_stream().to_string().replace(' ', "");
                    if t == "&[u8]" {
                        *e = pe(quote!((#x).xslice()));
                    } else {
                        self.fail("cast to a reference type");
                    }
                }
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    let t = self.ret_type.clone();
                    self.expected.push(Some(t));
                    self.visit_top_expr(x);
                    self.expected.pop();
                }
                return;
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(nospace(&c.func).as_str(), "drop" | "mem::drop" | "std::mem::drop") => {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                *e = pe(quote!((#x).xdrop()));
                return;
            }
            Expr::Call(c) => {
                // Ok(X) with a known expected type
                let mut exp: Option<String> = None;
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("Ok") || p.path.is_ident("Some") {
                        if let Some(Some(t)) = self.expected.last() {
                            exp = first_generic(t);
                        }
                    }
                }
                for a in c.args.iter_mut() {
                    self.expected.push(exp.clone());
                    self.visit_top_expr(a);
                    self.expected.pop();
                }
                // Box::new
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if s == "Box::new" {
                        let a = &c.args[0];
                        *e = pe(quote!(XBox::xbox(#a)));
                    }
                }
                return;
            }
            Expr::Closure(_) => {
                self.fail("closure that could not be inlined");
                return;
            }
            Expr::Paren(p) => {
                self.visit_top_expr(&mut p.expr);
                return;
            }
            _ => {}
        }
        self.visit_children(e);
    }

    fn visit_block_tail(&mut self, b: &mut Block, exp: Option<String>) {
        let tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
        if tail {
            let last = b.stmts.pop().unwrap();
            self.visit_block_mut(b);
            if let Stmt::Expr(mut x, None) = last {
                self.expected.push(exp);
                self.visit_top_expr(&mut x);
                self.expected.pop();
                b.stmts.push(Stmt::Expr(x, None));
            }
        } else {
            self.visit_block_mut(b);
        }
    }
    pub fn lower_fn(&mut self, b: &mut Block) {
        let t = self.ret_type.clone();
        self.visit_block_tail(b, Some(t));
    }

    fn visit_children(&mut self, e: &mut Expr) {
        self.expected.push(None);
        visit_mut::visit_expr_mut(self, e);
        self.expected.pop();
    }

    /// A fused loop was just built: lower its pieces, but do not number the loop again.
    fn visit_fused(&mut self, e: &mut Expr) {
        if let Expr::Block(b) = e {
            for s in b.block.stmts.iter_mut() {
                match s {
                    Stmt::Local(l) => self.visit_local_mut(l),
                    Stmt::Expr(Expr::Loop(l), _) => {
                        let first = l.body.stmts.remove(0);
                        self.visit_block_mut(&mut l.body);
                        l.body.stmts.insert(0, first);
                    }
                    Stmt::Expr(x, _) => self.visit_expr_mut(x),
                    _ => {}
                }
            }
        } else {
            self.visit_expr_mut(e);
        }
    }

    fn thunk(&mut self, f: &Expr) -> Option<Expr> {
        match strip_paren(f) {
            Expr::Closure(c) if c.inputs.is_empty() => {
                let fl = flow(&c.body);
                if fl.ret || fl.q {
                    self.fail("early return in a closure");
                    return None;
                }
                Some((*c.body).clone())
            }
            Expr::Path(_) => Some(pe(quote!(#f()))),
            _ => None,
        }
    }
}

fn strip_ref_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_ref_paren(&p.expr),
        Expr::Group(p) => strip_ref_paren(&p.expr),
        Expr::Reference(r) => strip_ref_paren(&r.expr),
        _ => e,
    }
}
fn strip_ref(e: &Expr) -> Expr {
    match strip_paren(e) {
        Expr::Reference(r) => (*r.expr).clone(),
        x => pe(quote!((*#x))),
    }
}

fn strip_n(m: &ExprMethodCall, n: usize) -> Option<Expr> {
    let mut cur = Expr::MethodCall(m.clone());
    for _ in 0..n {
        cur = match strip_paren(&cur) {
            Expr::MethodCall(m) => (*m.receiver).clone(),
            _ => return None,
        };
    }
    Some(cur)
}

fn pat_has_strlit(p: &Pat) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_lit(&mut self, l: &'ast Lit) {
            if matches!(l, Lit::Str(_) | Lit::ByteStr(_)) {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

fn first_generic(t: &str) -> Option<String> {
    let ty: Type = syn::parse_str(t).ok()?;
    if let Type::Path(p) = ty {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
            if let Some(GenericArgument::Type(t)) = a.args.first() {
                return Some(t.to_token_stream().to_string());
            }
        }
    }
    None
}

pub fn hints_of(c: Option<&FnC>) -> BTreeMap<String, String> {
    c.map(|c| c.hints.clone()).unwrap_or_default()
}

fn nospace(t: &Expr) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
