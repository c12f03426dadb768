//! Shared cells and boxed evaluation closures, made explicit ("store passing", "defunctionalisation").
//! Runs before the lowering; every rule is listed in DESIGN.md ("What the extraction changes").
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;
use crate::lower::{pe, pat_names};

pub struct Cells {
    pub alias: HashMap<String, Expr>,
    pub threaded: HashSet<String>,
    pub vt: String,
    pub vclos: Vec<String>,
    pub boxes: bool,
    pub ord: usize,
    pub locals: HashSet<String>,
    pub caps: Vec<Vec<String>>,
    pub notes: BTreeMap<String, usize>,
    pub err: Option<String>,
}
pub fn is_tracker_closure(c: &ExprClosure) -> bool {
    matches!(c.inputs.first(), Some(Pat::Type(t)) if matches!(&*t.ty, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_))))
}
struct Locals(HashSet<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}
pub fn locals_of(sig: &Signature, b: &Block) -> HashSet<String> {
    let mut l = Locals(HashSet::new());
    for a in sig.inputs.iter() { if let FnArg::Typed(t) = a { for n in pat_names(&t.pat) { l.0.insert(n); } } }
    l.visit_block(b);
    l.0
}
struct Free<'a> { locals: &'a HashSet<String>, bound: HashSet<String>, out: Vec<String> }
impl<'a, 'b> Visit<'b> for Free<'a> {
    fn visit_expr_path(&mut self, p: &'b ExprPath) {
        if let Some(i) = p.path.get_ident() { let n = i.to_string(); if self.locals.contains(&n) && !self.bound.contains(&n) && !self.out.contains(&n) { self.out.push(n); } }
    }
}
/// variables captured by a closure, in order of first use (maps of the tracker excluded)
pub fn captures(c: &ExprClosure, locals: &HashSet<String>, aliases: &HashSet<String>) -> Vec<String> {
    let mut inner = Locals(HashSet::new());
    for p in c.inputs.iter() { for n in pat_names(p) { inner.0.insert(n); } }
    inner.visit_expr(&c.body);
    let mut f = Free { locals, bound: inner.0, out: vec![] };
    for a in aliases { f.bound.insert(a.clone()); }
    f.visit_expr(&c.body);
    f.out
}
const MAPS: [&str; 2] = ["virtual_comms", "query_map"];
const CELLS: [&str; 2] = ["tracker_rc", "tracker"];
/// names bound to a clone of a shared map anywhere in the function
pub fn map_clones(b: &Block) -> HashMap<String, String> {
    struct V(HashMap<String, String>);
    impl<'a> Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Some(i), [n]) = (&l.init, pat_names(&l.pat).as_slice()) {
                if let Expr::MethodCall(m) = &*i.expr { if m.method == "clone" { if let Expr::Field(f) = &*m.receiver { if let Member::Named(x) = &f.member { if MAPS.contains(&x.to_string().as_str()) { self.0.insert(n.clone(), x.to_string()); } } } } }
            }
            visit::visit_local(self, l);
        }
    }
    let mut v = V(HashMap::new()); v.visit_block(b); v.0
}
pub struct FindClos { pub want: usize, pub seen: usize, pub got: Option<ExprClosure> }
impl<'a> Visit<'a> for FindClos {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if is_tracker_closure(c) { if self.seen == self.want && self.got.is_none() { self.got = Some(c.clone()); } self.seen += 1; }
        else { visit::visit_expr_closure(self, c); }
    }
}
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), Expr::Reference(r) => strip(&r.expr), _ => e } }

impl Cells {
    fn note(&mut self, s: &str) { *self.notes.entry(s.into()).or_insert(0) += 1; }
    fn root(&self, e: &Expr) -> Expr {
        // self inside an evaluation closure is never written; the maps are reached through clones
        e.clone()
    }
    /// the place a shared cell stands for
    fn cell(&self, e: &Expr, map_only: bool) -> Option<Expr> {
        match strip(e) {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.alias.get(&i.to_string())).cloned(),
            Expr::Field(f) => {
                let Member::Named(n) = &f.member else { return None };
                let n = n.to_string();
                if MAPS.contains(&n.as_str()) { return Some(self.root(strip(e))); }
                if !map_only && CELLS.contains(&n.as_str()) { return Some(pe(quote!(zk_tr))); }
                None
            }
            _ => None,
        }
    }
    fn resolve(&self, e: &Expr) -> Option<Expr> {
        if let Expr::MethodCall(m) = strip(e) {
            let n = m.method.to_string();
            if !m.args.is_empty() { return None }
            if n == "borrow" || n == "borrow_mut" { return self.resolve(&m.receiver).or_else(|| self.cell(&m.receiver, false)); }
            if n == "clone" { if let Expr::Field(f) = strip(&m.receiver) { if let Member::Named(x) = &f.member { if MAPS.contains(&x.to_string().as_str()) { return self.cell(&m.receiver, true); } } } }
        }
        None
    }
}
impl VisitMut for Cells {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.alias.clone();
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            if let Stmt::Local(l) = &mut s {
                let names = pat_names(&l.pat);
                if let (Some(i), [n]) = (&l.init, names.as_slice()) {
                    if let Some(p) = self.resolve(&i.expr) { self.alias.insert(n.clone(), p); self.note("borrow of a shared cell replaced by the value in it (RefCell borrow panics dropped)"); continue; }
                }
                self.visit_stmt_mut(&mut s);
                for n in names { self.alias.remove(&n); }
            } else { self.visit_stmt_mut(&mut s); }
            b.stmts.push(s);
        }
        self.alias = saved;
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // the pattern is not an expression; only its type and the initialiser matter
        if let Some(i) = &mut l.init { self.visit_expr_mut(&mut i.expr); if let Some((_, d)) = &mut i.diverge { self.visit_expr_mut(d); } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(p) = self.resolve(e) {
            let is_clone = matches!(strip(e), Expr::MethodCall(m) if m.method == "clone");
            if !is_clone { *e = p; return; }
        }
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some(x) = self.alias.get(&i.to_string()) { *e = x.clone(); } } return; }
        if let Expr::Closure(c) = e {
            if is_tracker_closure(c) {
                let k = self.ord; self.ord += 1;
                let al: HashSet<String> = self.alias.keys().cloned().collect();
                let caps = captures(c, &self.locals, &al);
                let Some(nm) = self.vclos.get(k).cloned() else { if self.err.is_none() { self.err = Some("evaluation closure without a variant".into()); } return };
                self.note("evaluation closure replaced by a constructor of its captured variables; its body is extracted as a function");
                let v = Ident::new(&nm, proc_macro2::Span::call_site());
                let ids: Vec<Ident> = caps.iter().map(|n| Ident::new(n, proc_macro2::Span::call_site())).collect();
                *e = if ids.is_empty() { pe(quote!(VFn::#v)) } else { pe(quote!(VFn::#v(#(#ids),*))) };
                self.caps.push(caps);
                return;
            }
        }
        // a macro's expression arguments (assert!)
        if let Expr::Macro(m) = e { self.visit_macro(&mut m.mac); return; }
        visit_mut::visit_expr_mut(self, e);
        let is_tr = |x: &Expr| { let t = strip(x).to_token_stream().to_string(); t == "zk_tr" || t == "self" && false };
        match e {
            Expr::MethodCall(m) => {
                if self.threaded.contains(&m.method.to_string()) && !is_tr(&m.receiver) { m.args.push(pe(quote!(zk_tr))); }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func).clone() {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 {
                        let two = format!("{}::{}", segs[segs.len() - 2], segs[segs.len() - 1]);
                        if two == "Rc::new" || two == "RefCell::new" { let x = c.args[0].clone(); self.note("Rc::new/RefCell::new of a shared map replaced by the map"); *e = x; }
                        else if two == "HashMap::new" && p.path.segments.iter().all(|s| matches!(s.arguments, syn::PathArguments::None)) { *c.func = pe(quote!(zk_empty_map)); }
                        else if two == "Rc::ptr_eq" { *c.func = pe(quote!(zk_ptr_eq)); }
                        else if two == "Box::new" && self.boxes { let x = c.args[0].clone(); *e = if matches!(x, Expr::Path(_)) && x.to_token_stream().to_string().starts_with(|c: char| c.is_lowercase()) && !x.to_token_stream().to_string().contains("::") { pe(quote!((#x).clone())) } else { x }; }
                        else if self.threaded.contains(&two) { c.args.push(pe(quote!(zk_tr))); }
                    } else if segs.len() == 1 && self.threaded.contains(&segs[0]) && !self.locals.contains(&segs[0]) { c.args.push(pe(quote!(zk_tr)));
                    } else if self.boxes && segs.len() == 1 && self.locals.contains(&segs[0]) {
                        let f = &p.path; let a = &c.args; let vt: Expr = parse_str(&self.vt).unwrap();
                        *e = pe(quote!(#f.zk_call(#a, #vt)));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { let mut mac = m.mac.clone(); self.visit_macro(&mut mac); m.mac = mac; return; }
        visit_mut::visit_stmt_mut(self, s);
    }
}
impl Cells {
    fn visit_macro(&mut self, m: &mut Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if ["assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq", "vec"].contains(&n.as_str()) {
            if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                m.tokens = args.to_token_stream();
            }
        }
    }
}
