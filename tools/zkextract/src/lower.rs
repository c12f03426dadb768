//! Statement-preserving lowering of the Rust used in zk_sql to the Rust subset Verus accepts.
//! Every rule is listed in DESIGN.md ("What the extraction changes").
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub enum Item {
    Ref(Expr),         // &place
    MutRef(Expr),      // &mut place
    RefE(Expr),        // expression of reference type
    Val(Expr),
    Tuple(Vec<Item>),
}
#[derive(Clone)]
pub struct Produced {
    pub stmts: Vec<Stmt>,
    pub guard: Option<Expr>,
    /// statements after the guard is known true
    pub inner: Vec<Stmt>,
    pub item: Item,
}
#[derive(Clone)]
pub struct Iter {
    pub setup: Vec<Stmt>,
    pub n: Expr, // usize expression (cheap to duplicate)
    pub get: Rc<dyn Fn(&mut Low, Expr) -> R<Produced>>,
    pub filtered: bool,
    pub post: Vec<Stmt>, // statements after the loop (write-back of a map iterated mutably)
}
pub type R<T> = std::result::Result<T, String>;

pub struct Low {
    pub uid: usize,
    pub err: Option<String>,
    pub local_ref: HashMap<String, bool>, // name -> declared type is a reference
    pub typemap: BTreeMap<String, String>,
    pub assoc: HashMap<String, Type>,
    pub fty: Vec<String>,    // generic params standing for a field
    pub drop_generic: Vec<String>,
    pub notes: BTreeMap<String, usize>,
    pub anchors_let: Vec<String>,
    pub anchors_call: Vec<String>,
    pub nq: usize,
    pub may_panic: bool, pub veq: bool,
    pub sum_ty: Option<Type>,
    pub cfg: HashMap<String, bool>,
    pub keep_ops: bool,
    pub maps: Vec<String>,
    pub sets: Vec<String>,
    pub ncmp: usize,
    /// inside a chain collected into Result and followed by `?`: an early return of an error from the closure returns it from the function
    pub closure_return: bool,
}

pub fn pe(ts: TokenStream) -> Expr {
    let s = ts.to_string();
    parse2(ts).unwrap_or_else(|e| panic!("internal expr parse {e}: {s}"))
}
pub fn ps(ts: TokenStream) -> Vec<Stmt> {
    let s = ts.to_string();
    let b: Block = parse2(quote!({ #ts })).unwrap_or_else(|e| panic!("internal stmt parse {e}: {s}"));
    b.stmts
}
fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Index(i) => is_simple(&i.expr) && (is_simple(&i.index) || matches!(&*i.index, Expr::Lit(_))),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => is_simple(&u.expr),
        Expr::Paren(p) => is_simple(&p.expr),
        _ => false,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}
impl Item {
    pub fn expr(&self) -> Expr {
        match self {
            Item::Ref(p) => pe(quote!(&#p)),
            Item::MutRef(p) => pe(quote!(&mut #p)),
            Item::RefE(e) | Item::Val(e) => e.clone(),
            Item::Tuple(v) => {
                let es: Vec<Expr> = v.iter().map(|x| x.expr()).collect();
                pe(quote!((#(#es),*)))
            }
        }
    }
}

impl Low {
    fn note(&mut self, s: &str) {
        *self.notes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn fresh(&mut self) -> usize {
        self.uid += 1;
        self.uid
    }
    fn fail<T>(&self, m: impl Into<String>) -> R<T> {
        Err(m.into())
    }

    // ---------- iterator recognition ----------
    pub fn as_iter(&mut self, e: &Expr) -> R<Option<Iter>> {
        let e = strip(e);
        match e {
            Expr::Range(r) => Ok(Some(self.range_iter(r)?)),
            Expr::Macro(m) if m.mac.path.is_ident("cfg_into_iter") => {
                let inner: Expr = m.mac.parse_body().map_err(|e| e.to_string())?;
                self.note("cfg_into_iter! treated as sequential iteration");
                match self.as_iter(&inner)? {
                    Some(i) => Ok(Some(i)),
                    None => Ok(Some(self.seq_iter(&inner, 2)?)),
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" | "par_iter" if m.args.is_empty() => {
                        if name.starts_with("par") { self.note("rayon parallel iterator treated as sequential iteration"); }
                        Ok(Some(self.seq_iter(&m.receiver, 0)?))
                    }
                    "iter_mut" | "par_iter_mut" if m.args.is_empty() => {
                        if name.starts_with("par") { self.note("rayon parallel iterator treated as sequential iteration"); }
                        Ok(Some(self.seq_iter(&m.receiver, 1)?))
                    }
                    "keys" | "values" if m.args.is_empty() => {
                        self.note("iteration over a HashMap: entries in an arbitrary order");
                        let f = id(&format!("zk_{name}")); let r = &m.receiver;
                        Ok(Some(self.seq_iter(&pe(quote!(#f(&#r))), 0)?))
                    }
                    "into_iter" | "into_par_iter" if m.args.is_empty() => {
                        if name.contains("par") { self.note("rayon parallel iterator treated as sequential iteration"); }
                        if let Some(i) = self.as_iter(&m.receiver)? { return Ok(Some(i)); }
                        let k = self.value_kind(&m.receiver);
                        Ok(Some(self.seq_iter(&m.receiver, k)?))
                    }
                    "enumerate" => {
                        let Some(it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        if it.filtered { return self.fail("enumerate after filter") }
                        let g = it.get.clone();
                        Ok(Some(Iter { get: Rc::new(move |l, k| { let mut p = g(l, k.clone())?; p.item = Item::Tuple(vec![Item::Val(k), p.item]); Ok(p) }), ..it }))
                    }
                    "rev" => {
                        let Some(it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        if it.filtered { return self.fail("rev after filter") }
                        let g = it.get.clone(); let n = it.n.clone();
                        Ok(Some(Iter { get: Rc::new(move |l, k| g(l, pe(quote!(#n - 1 - #k)))), ..it }))
                    }
                    "skip" | "take" | "step_by" => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        if it.filtered { return self.fail("skip/take after filter") }
                        let u = self.fresh();
                        let (a, nn) = (id(&format!("zk_a{u}")), id(&format!("zk_m{u}")));
                        let mut arg = m.args[0].clone(); self.visit_expr_mut(&mut arg);
                        let n = it.n.clone(); let g = it.get.clone();
                        it.setup.extend(ps(quote!(let #a = #arg;)));
                        match name.as_str() {
                            "skip" => {
                                it.setup.extend(ps(quote!(let #nn = if #n > #a { #n - #a } else { 0 };)));
                                it.get = Rc::new(move |l, k| g(l, pe(quote!((#k + #a)))));
                            }
                            "take" => it.setup.extend(ps(quote!(let #nn = if #n < #a { #n } else { #a };))),
                            _ => {
                                it.setup.extend(ps(quote!(let #nn = (#n + #a - 1) / #a;)));
                                it.get = Rc::new(move |l, k| g(l, pe(quote!((#k * #a)))));
                            }
                        }
                        it.n = pe(quote!(#nn));
                        Ok(Some(it))
                    }
                    "zip" => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        let arg = &m.args[0];
                        let it2 = match self.as_iter(arg)? { Some(i) => i, None => { let k = self.value_kind(arg); self.seq_iter(arg, k)? } };
                        if it.filtered || it2.filtered || !it2.post.is_empty() { return self.fail("zip after filter") }
                        let u = self.fresh(); let nn = id(&format!("zk_m{u}"));
                        let (n1, n2) = (it.n.clone(), it2.n.clone());
                        it.setup.extend(it2.setup.clone());
                        it.setup.extend(ps(quote!(let #nn = if #n1 < #n2 { #n1 } else { #n2 };)));
                        let (g1, g2) = (it.get.clone(), it2.get.clone());
                        it.n = pe(quote!(#nn));
                        it.get = Rc::new(move |l, k| {
                            let mut p = g1(l, k.clone())?; let q = g2(l, k)?;
                            p.stmts.extend(q.stmts);
                            p.item = Item::Tuple(vec![p.item, q.item]); Ok(p) });
                        Ok(Some(it))
                    }
                    "chain" => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        let arg = &m.args[0];
                        let it2 = match self.as_iter(arg)? { Some(i) => i, None => { let k = self.value_kind(arg); self.seq_iter(arg, k)? } };
                        if it.filtered || it2.filtered { return self.fail("chain after filter") }
                        let u = self.fresh(); let nn = id(&format!("zk_m{u}")); let cc = id(&format!("zk_c{u}"));
                        let (n1, n2) = (it.n.clone(), it2.n.clone());
                        it.setup.extend(it2.setup.clone());
                        it.setup.extend(ps(quote!(let #nn = #n1 + #n2;)));
                        let (g1, g2) = (it.get.clone(), it2.get.clone());
                        it.n = pe(quote!(#nn));
                        it.get = Rc::new(move |l, k| {
                            let p = g1(l, k.clone())?; let q = g2(l, pe(quote!((#k - #n1))))?;
                            let (a, b) = (p.item.expr(), q.item.expr());
                            let isref = matches!(p.item, Item::Ref(_) | Item::RefE(_));
                            let (ps1, qs1) = (p.stmts, q.stmts);
                            let stmts = ps(quote!(let #cc = if #k < #n1 { #(#ps1)* #a } else { #(#qs1)* #b };));
                            let ce = pe(quote!(#cc));
                            Ok(Produced { stmts, guard: None, inner: vec![], item: if isref { Item::RefE(ce) } else { Item::Val(ce) } }) });
                        Ok(Some(it))
                    }
                    "cloned" | "copied" if m.args.is_empty() => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        let g = it.get.clone();
                        it.get = Rc::new(move |l, k| { let mut p = g(l, k)?;
                            p.item = match &p.item { Item::Ref(x) => Item::Val(pe(quote!((#x).zk_clone()))), Item::RefE(x) => Item::Val(pe(quote!((#x).zk_clone()))), _ => return Err("cloned on values".into()) }; Ok(p) });
                        Ok(Some(it))
                    }
                    "map" => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        let g = it.get.clone(); let f = m.args[0].clone();
                        it.get = Rc::new(move |l, k| {
                            let mut p = g(l, k)?;
                            let (st, e) = l.apply(&f, &[p.item.clone()])?;
                            if p.guard.is_some() { p.inner.extend(st) } else { p.stmts.extend(st) }
                            p.item = Item::Val(e); Ok(p) });
                        Ok(Some(it))
                    }
                    "filter" => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        let g = it.get.clone(); let f = m.args[0].clone(); it.filtered = true;
                        it.get = Rc::new(move |l, k| {
                            let mut p = g(l, k)?;
                            if p.guard.is_some() { return Err("double filter".into()) }
                            let ri = match &p.item { Item::Tuple(_) => p.item.clone(), x => Item::RefE({ let e = x.expr(); pe(quote!(&#e)) }) };
                            let (st, e) = l.apply(&f, &[ri])?;
                            p.stmts.extend(st); p.guard = Some(e); Ok(p) });
                        Ok(Some(it))
                    }
                    "filter_map" => {
                        let Some(mut it) = self.as_iter(&m.receiver)? else { return Ok(None) };
                        let g = it.get.clone(); let f = m.args[0].clone(); it.filtered = true;
                        it.get = Rc::new(move |l, k| {
                            let mut p = g(l, k)?;
                            if p.guard.is_some() { return Err("double filter".into()) }
                            // only the form  |x| (cond).then(|| e)
                            let Expr::Closure(c) = strip(&f) else { return Err("filter_map without closure".into()) };
                            let Expr::MethodCall(mc) = strip(&c.body) else { return Err("filter_map form".into()) };
                            if mc.method != "then" { return Err("filter_map form".into()) }
                            let Expr::Closure(inner) = strip(&mc.args[0]) else { return Err("filter_map then".into()) };
                            let mut st = vec![]; let mut subst = vec![];
                            l.bind(&c.inputs[0], &p.item, &mut st, &mut subst)?;
                            let mut cond = (*mc.receiver).clone(); let mut val = (*inner.body).clone();
                            subst_all(&mut cond, &subst); subst_all(&mut val, &subst);
                            l.visit_expr_mut(&mut cond); l.visit_expr_mut(&mut val);
                            p.stmts.extend(st); p.guard = Some(cond); p.item = Item::Val(val); Ok(p) });
                        Ok(Some(it))
                    }
                    _ => Ok(None),
                }
            }
            _ => Ok(None),
        }
    }
    fn value_kind(&self, e: &Expr) -> u8 {
        match strip(e) {
            Expr::Reference(r) if r.mutability.is_none() => 0,
            Expr::Reference(_) => 1,
            Expr::Path(p) => match p.path.get_ident().and_then(|i| self.local_ref.get(&i.to_string())) {
                Some(true) => 0,
                _ => 2,
            },
            Expr::MethodCall(m) if m.method == "as_slice" || m.method == "as_ref" => 0,
            _ => 2,
        }
    }
    fn seq_iter(&mut self, e: &Expr, kind: u8) -> R<Iter> {
        let mut e = strip(e).clone();
        if let Expr::Reference(r) = &e { e = (*r.expr).clone(); }
        let mut e = strip(&e).clone();
        let mut setup = vec![]; let mut post = vec![];
        let u = self.fresh();
        // slice with a range: base + offset
        let (mut base, lo, hi): (Expr, Option<Expr>, Option<Expr>) = match &e {
            Expr::Index(ix) => match strip(&ix.index) {
                Expr::Range(r) => {
                    let mut lo = r.start.as_ref().map(|x| (**x).clone());
                    let mut hi = r.end.as_ref().map(|x| (**x).clone());
                    if let Some(x) = lo.as_mut() { self.visit_expr_mut(x) }
                    if let Some(x) = hi.as_mut() { self.visit_expr_mut(x) }
                    if matches!(r.limits, RangeLimits::Closed(_)) { return self.fail("inclusive slice range") }
                    ((*ix.expr).clone(), lo, hi)
                }
                _ => (e.clone(), None, None),
            },
            _ => { (std::mem::replace(&mut e, pe(quote!(()))), None, None) }
        };
        self.visit_expr_mut(&mut base);
        if self.maps.contains(&base.to_token_stream().to_string().replace(' ', "")) {
            let s = id(&format!("zk_s{u}"));
            self.note("iteration over a HashMap: entries in an arbitrary order");
            if kind == 1 {
                setup.extend(ps(quote!(let mut #s = zk_entries(&#base);)));
                post.extend(ps(quote!(zk_put_values(&mut #base, #s);)));
            } else { setup.extend(ps(quote!(let #s = zk_entries(&#base);))); }
            base = pe(quote!(#s));
        }
        if self.sets.contains(&base.to_token_stream().to_string().replace(' ', "")) {
            if kind == 1 { return self.fail("iter_mut over a set") }
            let s = id(&format!("zk_s{u}"));
            self.note("iteration over a HashSet: elements in an arbitrary order");
            setup.extend(ps(quote!(let #s = zk_elems(&#base);)));
            base = pe(quote!(#s));
        }
        if !is_simple(&base) {
            let s = id(&format!("zk_s{u}"));
            if kind == 1 { return self.fail("iter_mut over a complex expression") }
            if kind == 0 { setup.extend(ps(quote!(let #s = &#base;))); } else { setup.extend(ps(quote!(let #s = #base;))); }
            base = pe(quote!(#s));
        }
        let nn = id(&format!("zk_l{u}"));
        let off = match (&lo, &hi) {
            (None, None) => { setup.extend(ps(quote!(let #nn = #base.len();))); None }
            (Some(l), None) => {
                let o = id(&format!("zk_o{u}"));
                setup.extend(ps(quote!(let #o = #l; zk_assert(#o <= #base.len()); let #nn = #base.len() - #o;))); Some(o) }
            (None, Some(h)) => { setup.extend(ps(quote!(let #nn = #h; zk_assert(#nn <= #base.len());))); None }
            (Some(l), Some(h)) => {
                let o = id(&format!("zk_o{u}")); let hh = id(&format!("zk_h{u}"));
                setup.extend(ps(quote!(let #o = #l; let #hh = #h; zk_assert(#o <= #hh && #hh <= #base.len()); let #nn = #hh - #o;))); Some(o) }
        };
        let get: Rc<dyn Fn(&mut Low, Expr) -> R<Produced>> = Rc::new(move |_l, k| {
            let idx = match &off { Some(o) => pe(quote!(#o + #k)), None => k };
            let place = pe(quote!(#base[#idx]));
            let item = match kind { 0 => Item::Ref(place), 1 => Item::MutRef(place), _ => Item::Val(pe(quote!(#place.zk_clone()))) };
            Ok(Produced { stmts: vec![], guard: None, inner: vec![], item })
        });
        Ok(Iter { setup, n: pe(quote!(#nn)), get, filtered: false, post })
    }
    fn range_iter(&mut self, r: &ExprRange) -> R<Iter> {
        let u = self.fresh();
        let (Some(lo), Some(hi)) = (&r.start, &r.end) else { return self.fail("open range") };
        let (mut lo, mut hi) = ((**lo).clone(), (**hi).clone());
        self.visit_expr_mut(&mut lo);
        self.visit_expr_mut(&mut hi);
        let incl = matches!(r.limits, RangeLimits::Closed(_));
        let zero = matches!(strip(&lo), Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_digits()=="0"));
        let nn = id(&format!("zk_l{u}"));
        if zero && !incl {
            let setup = ps(quote!(let #nn = #hi;));
            return Ok(Iter { setup, n: pe(quote!(#nn)), filtered: false, post: vec![], get: Rc::new(|_l, k| Ok(Produced { stmts: vec![], guard: None, inner: vec![], item: Item::Val(k) })) });
        }
        let (a, b) = (id(&format!("zk_a{u}")), id(&format!("zk_b{u}")));
        let setup = if incl { ps(quote!(let #a = #lo; let #b = #hi; let #nn = if #b >= #a { #b - #a + 1 } else { 0 };)) }
                    else { ps(quote!(let #a = #lo; let #b = #hi; let #nn = if #b > #a { #b - #a } else { 0 };)) };
        Ok(Iter { setup, n: pe(quote!(#nn)), filtered: false, post: vec![], get: Rc::new(move |_l, k| Ok(Produced { stmts: vec![], guard: None, inner: vec![], item: Item::Val(pe(quote!((#a + #k)))) })) })
    }
    // bind a pattern to an item: emits lets and substitutions (for &mut items)
    pub fn bind(&mut self, p: &Pat, it: &Item, st: &mut Vec<Stmt>, subst: &mut Vec<(String, Expr)>) -> R<()> {
        match p {
            Pat::Wild(_) => Ok(()),
            Pat::Type(t) => self.bind(&t.pat, it, st, subst),
            Pat::Paren(t) => self.bind(&t.pat, it, st, subst),
            Pat::Ident(pi) => {
                let n = &pi.ident; let m = &pi.mutability;
                match it {
                    Item::MutRef(pl) => { subst.push((n.to_string(), pl.clone())); Ok(()) }
                    _ => {
                        let isref = matches!(it, Item::Ref(_) | Item::RefE(_));
                        self.local_ref.insert(n.to_string(), isref);
                        let e = it.expr(); st.extend(ps(quote!(let #m #n = #e;))); Ok(()) }
                }
            }
            Pat::Reference(r) => {
                let inner = match it {
                    Item::Ref(pl) => Item::Val(pl.clone()),
                    Item::RefE(e) => Item::Val(pe(quote!(*#e))),
                    _ => return self.fail("reference pattern on a non-reference item"),
                };
                self.bind(&r.pat, &inner, st, subst)
            }
            Pat::Tuple(t) => match it {
                Item::Tuple(v) => {
                    if v.len() != t.elems.len() { return self.fail("tuple arity") }
                    for (q, i) in t.elems.iter().zip(v.iter()) { self.bind(q, i, st, subst)?; }
                    Ok(())
                }
                Item::Ref(pl) | Item::MutRef(pl) => {
                    for (k, q) in t.elems.iter().enumerate() {
                        let ix = Index::from(k);
                        let f = pe(quote!(#pl.#ix));
                        let i = if matches!(it, Item::Ref(_)) { Item::Ref(f) } else { Item::MutRef(f) };
                        self.bind(q, &i, st, subst)?;
                    }
                    Ok(())
                }
                Item::RefE(e) => {
                    for (k, q) in t.elems.iter().enumerate() {
                        let ix = Index::from(k);
                        self.bind(q, &Item::Ref(pe(quote!((#e).#ix))), st, subst)?;
                    }
                    Ok(())
                }
                Item::Val(e) => {
                    // one evaluation of e, then componentwise
                    let u = self.fresh(); let tn = id(&format!("zk_t{u}"));
                    let mut names = vec![];
                    for k in 0..t.elems.len() { names.push(id(&format!("{tn}_{k}"))); }
                    st.extend(ps(quote!(let (#(#names),*) = #e;)));
                    for (q, nm) in t.elems.iter().zip(names.iter()) {
                        self.bind(q, &Item::Val(pe(quote!(#nm))), st, subst)?;
                    }
                    Ok(())
                }
            },
            _ => self.fail(format!("pattern {}", p.to_token_stream())),
        }
    }
    /// apply a closure (or function path) to items
    pub fn apply(&mut self, f: &Expr, items: &[Item]) -> R<(Vec<Stmt>, Expr)> {
        match strip(f) {
            Expr::Closure(c) => {
                let mut st = vec![]; let mut subst = vec![];
                for (p, i) in c.inputs.iter().zip(items) { self.bind(p, i, &mut st, &mut subst)?; }
                let mut body = (*c.body).clone();
                let mut rf = RetFinder { ret: false, tr: false };
                syn::visit::Visit::visit_expr(&mut rf, &body);
                if (rf.ret || rf.tr) && !self.closure_return { return self.fail("return or ? inside an inlined closure") }
                subst_all(&mut body, &subst);
                self.visit_expr_mut(&mut body);
                if let Expr::Block(b) = &body {
                    if b.label.is_none() {
                        let mut ss = b.block.stmts.clone();
                        if let Some(Stmt::Expr(_, None)) = ss.last() {
                            let Some(Stmt::Expr(e, None)) = ss.pop() else { unreachable!() };
                            st.extend(ss);
                            return Ok((st, e));
                        }
                        st.extend(ss);
                        return Ok((st, pe(quote!(()))));
                    }
                }
                Ok((st, body))
            }
            Expr::Path(_) => {
                let es: Vec<Expr> = items.iter().map(|i| i.expr()).collect();
                let mut e = pe(quote!(#f(#(#es),*)));
                self.visit_expr_mut(&mut e);
                Ok((vec![], e))
            }
            _ => self.fail("unsupported function value"),
        }
    }
    /// a loop over `it`, running `body(item)`
    pub fn make_loop(&mut self, it: &Iter, label: Option<&Label>, pre: Vec<Stmt>, body: &mut dyn FnMut(&mut Low, &Item) -> R<Vec<Stmt>>) -> R<Vec<Stmt>> {
        self.make_loop_from(it, label, None, pre, body)
    }
    pub fn make_loop_from(&mut self, it: &Iter, label: Option<&Label>, from: Option<Expr>, pre: Vec<Stmt>, body: &mut dyn FnMut(&mut Low, &Item) -> R<Vec<Stmt>>) -> R<Vec<Stmt>> {
        let u = self.fresh();
        let (iv, nv, kv) = (id(&format!("zk_i__{u}")), id(&format!("zk_n__{u}")), id(&format!("zk_k__{u}")));
        let n = &it.n;
        let mut out = it.setup.clone();
        match from { None => out.extend(ps(quote!(let #nv = #n; let mut #iv = #nv - #nv;))), Some(f0) => out.extend(ps(quote!(let #nv = #n; let mut #iv = #f0;))) }
        out.extend(pre);
        let p = (it.get)(self, pe(quote!(#kv)))?;
        let b = body(self, &p.item)?; let b2 = b.clone();
        let (st, inner) = (p.stmts, p.inner);
        let core = match p.guard { Some(g) => ps(quote!(if #g { #(#inner)* #(#b)* })), None => b };
        let ul = Lit::Int(LitInt::new(&u.to_string(), Span::call_site()));
        let mark = format!("L{u}");
        let ms = LitStr::new(&format!("start {mark}"), Span::call_site());
        let me = LitStr::new(&format!("end {mark}"), Span::call_site());
        let mb = LitStr::new(&format!("before {mark}"), Span::call_site());
        let ma = LitStr::new(&format!("after {mark}"), Span::call_site());
        let mi = LitStr::new(&format!("item {mark}"), Span::call_site());
        out.extend(ps(quote!(
            zk_at!(#mb);
            #label while #iv < #nv { zk_inv!(#ul); zk_at!(#ms); let #kv = #iv; #iv = #iv + 1; #(#st)* zk_at!(#mi); #(#core)* zk_at!(#me); }
            zk_at!(#ma);
        )));
        if !it.post.is_empty() {
            let mut rf = RetFinder { ret: false, tr: false };
            for s in &b2 { syn::visit::Visit::visit_stmt(&mut rf, s); }
            if rf.ret || rf.tr { return self.fail("return or ? inside a loop over the values of a map") }
            out.extend(it.post.clone());
        }
        Ok(out)
    }
    fn ty_of_turbofish(m: &ExprMethodCall) -> Option<Type> {
        m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| match a { GenericArgument::Type(t) => Some(t.clone()), _ => None })
    }
    fn zero_of(&mut self, t: &Option<Type>, one: bool) -> Expr {
        let s = t.as_ref().map(|t| { let mut t = t.clone(); self.visit_type_mut(&mut t); t.to_token_stream().to_string() }).unwrap_or("F".into());
        match s.as_str() {
            "usize" | "u64" | "u32" | "u128" | "i64" | "i128" => { let l = LitInt::new(&format!("{}{}", if one { 1 } else { 0 }, s), Span::call_site()); pe(quote!(#l)) }
            _ => if one { pe(quote!(F::one())) } else { pe(quote!(F::zero())) },
        }
    }
    /// try to lower a sink; hint = expected type
    pub fn sink(&mut self, m: &ExprMethodCall, hint: Option<&Type>, try_: bool) -> R<Option<Expr>> {
        let name = m.method.to_string();
        let names = ["collect", "sum", "product", "fold", "for_each", "all", "any", "count", "reduce", "max", "min"];
        if !names.contains(&name.as_str()) { return Ok(None) }
        // rayon  .fold(id, f).map(g).reduce(id2, h)
        if name == "reduce" && m.args.len() == 2 {
            return self.rayon_reduce(m);
        }
        let Some(it) = self.as_iter(&m.receiver)? else { return Ok(None) };
        let u = self.fresh();
        let acc = id(&format!("zk_acc__{u}"));
        let tf = Self::ty_of_turbofish(m).or_else(|| hint.cloned());
        match name.as_str() {
            "for_each" => {
                let f = m.args[0].clone();
                let st = self.make_loop(&it, None, vec![], &mut |l, item| {
                    let (mut s, e) = l.apply(&f, &[item.clone()])?;
                    if !matches!(&e, Expr::Tuple(t) if t.elems.is_empty()) { s.extend(vec![Stmt::Expr(e, Some(Default::default()))]); }
                    Ok(s) })?;
                Ok(Some(pe(quote!({ #(#st)* }))))
            }
            "collect" => {
                let is_res = tf.as_ref().map(|t| t.to_token_stream().to_string().starts_with("Result")).unwrap_or(false);
                if is_res && !try_ { return self.fail("collect into Result without ?") }
                let elem = collect_elem(tf.as_ref());
                let decl = match elem {
                    Some(mut t) => { self.visit_type_mut(&mut t); ps(quote!(let mut #acc: Vec<#t> = Vec::new();)) }
                    None => ps(quote!(let mut #acc = Vec::new();)),
                };
                let old = std::mem::replace(&mut self.closure_return, is_res);
                let st = self.make_loop(&it, None, decl, &mut |_l, item| {
                    let e = item.expr();
                    Ok(if is_res { ps(quote!(#acc.push(#e?);)) } else { ps(quote!(#acc.push(#e);)) }) });
                self.closure_return = old;
                let st = st?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            "sum" | "product" => {
                let one = name == "product";
                let z = self.zero_of(&tf, one);
                let decl = ps(quote!(let mut #acc = #z;));
                let st = self.make_loop(&it, None, decl, &mut |_l, item| {
                    let e = item.expr();
                    Ok(if one { ps(quote!(#acc = #acc * #e;)) } else { ps(quote!(#acc = #acc + #e;)) }) })?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            "fold" => {
                let mut init = m.args[0].clone(); let f = m.args[1].clone();
                self.visit_expr_mut(&mut init);
                let decl = ps(quote!(let mut #acc = #init;));
                let st = self.make_loop(&it, None, decl, &mut |l, item| {
                    let (mut s, e) = l.apply(&f, &[Item::Val(pe(quote!(#acc))), item.clone()])?;
                    s.extend(ps(quote!(#acc = #e;))); Ok(s) })?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            "all" | "any" => {
                let f = m.args[0].clone(); let all = name == "all";
                let init = if all { pe(quote!(true)) } else { pe(quote!(false)) };
                let decl = ps(quote!(let mut #acc = #init;));
                let st = self.make_loop(&it, None, decl, &mut |l, item| {
                    let (mut s, e) = l.apply(&f, &[item.clone()])?;
                    s.extend(if all { ps(quote!(if !(#e) { #acc = false; })) } else { ps(quote!(if #e { #acc = true; })) }); Ok(s) })?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            "count" => {
                let decl = ps(quote!(let mut #acc = 0usize;));
                let st = self.make_loop(&it, None, decl, &mut |_l, _| Ok(ps(quote!(#acc = #acc + 1;))))?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            "max" | "min" => {
                let mx = name == "max";
                let decl = ps(quote!(let mut #acc = None;));
                let st = self.make_loop(&it, None, decl, &mut |_l, item| {
                    let e = item.expr();
                    Ok(if mx { ps(quote!(#acc = zk_opt_max(#acc, #e);)) } else { ps(quote!(#acc = zk_opt_min(#acc, #e);)) }) })?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            "reduce" => {
                let f = m.args[0].clone();
                let decl = ps(quote!(let mut #acc = None;));
                let st = self.make_loop(&it, None, decl, &mut |l, item| {
                    let e0 = item.expr();
                    let a = id(&format!("zk_r{u}")); let b = id(&format!("zk_v{u}"));
                    let (s, e) = l.apply(&f, &[Item::Val(pe(quote!(#a))), Item::Val(pe(quote!(#b)))])?;
                    Ok(ps(quote!(let #b = #e0; #acc = match #acc { None => Some(#b), Some(#a) => { #(#s)* Some(#e) } };))) })?;
                Ok(Some(pe(quote!({ #(#st)* #acc }))))
            }
            _ => Ok(None),
        }
    }
    fn rayon_reduce(&mut self, m: &ExprMethodCall) -> R<Option<Expr>> {
        // X.fold(id, f)[.map(g)].reduce(id2, h): one chunk; result h(id2(), g(fold))
        let (mapf, foldc) = match strip(&m.receiver) {
            Expr::MethodCall(mm) if mm.method == "map" => match strip(&mm.receiver) {
                Expr::MethodCall(ff) if ff.method == "fold" => (Some(mm.args[0].clone()), ff.clone()),
                _ => return Ok(None),
            },
            Expr::MethodCall(ff) if ff.method == "fold" => (None, ff.clone()),
            _ => return Ok(None),
        };
        let Some(it) = self.as_iter(&foldc.receiver)? else { return Ok(None) };
        self.note("rayon fold/map/reduce: any split into consecutive chunks, each folded from the identity, results combined left to right");
        // outer loop over chunks
        let uo = self.fresh();
        let red = id(&format!("zk_acc__{}", self.fresh()));
        let (iv, nv) = (id(&format!("zk_i__{uo}")), id(&format!("zk_n__{uo}")));
        let hv = id(&format!("zk_h{}", self.fresh()));
        let n = it.n.clone();
        let mut out = it.setup.clone();
        let (s1, id2) = self.apply(&m.args[0], &[])?;
        out.extend(ps(quote!(let #nv = #n; let mut #iv = #nv - #nv;)));
        out.extend(s1); out.extend(ps(quote!(let mut #red = #id2;)));
        // one chunk: from iv (inclusive) to hv (exclusive)
        let u = self.fresh();
        let acc = id(&format!("zk_acc__{u}"));
        let (s0, init) = self.apply(&foldc.args[0], &[])?;
        let mut pre = s0; pre.extend(ps(quote!(let mut #acc = #init;)));
        let f = foldc.args[1].clone();
        let inner_it = Iter { setup: vec![], n: pe(quote!(#hv)), get: it.get.clone(), filtered: it.filtered, post: vec![] };
        let mut st = self.make_loop_from(&inner_it, None, Some(pe(quote!(#iv))), pre, &mut |l, item| {
            let (mut s, e) = l.apply(&f, &[Item::Val(pe(quote!(#acc))), item.clone()])?;
            s.extend(ps(quote!(#acc = #e;))); Ok(s) })?;
        let mut res = pe(quote!(#acc));
        if let Some(g) = mapf {
            let (s, e) = self.apply(&g, &[Item::Val(res)])?;
            let r = id(&format!("zk_part__{u}"));
            st.extend(s); st.extend(ps(quote!(let #r = #e;)));
            res = pe(quote!(#r));
        }
        let (s2, e2) = self.apply(&m.args[1], &[Item::Val(pe(quote!(#red))), Item::Val(res)])?;
        st.extend(s2); st.extend(ps(quote!(#red = #e2;)));
        let ul = Lit::Int(LitInt::new(&uo.to_string(), Span::call_site()));
        let mk = |w: &str| LitStr::new(&format!("{w} L{uo}"), Span::call_site());
        let (ms, me, mb, ma) = (mk("start"), mk("end"), mk("before"), mk("after"));
        out.extend(ps(quote!(
            zk_at!(#mb);
            while #iv < #nv { zk_inv!(#ul); zk_at!(#ms); let #hv = zk_chunk_end(#iv, #nv); #(#st)* #iv = #hv; zk_at!(#me); }
            zk_at!(#ma);
        )));
        Ok(Some(pe(quote!({ #(#out)* #red }))))
    }
    fn seterr(&mut self, s: String) {
        if self.err.is_none() { self.err = Some(s) }
    }
    fn cfg_keep(&mut self, attrs: &[Attribute]) -> bool {
        for a in attrs {
            if a.path().is_ident("cfg") {
                let s = a.meta.to_token_stream().to_string().replace(' ', "");
                let k = match s.as_str() {
                    "cfg(feature=\"parallel\")" => true,
                    "cfg(not(feature=\"parallel\"))" => false,
                    "cfg(debug_assertions)" => true,
                    "cfg(test)" => false,
                    "cfg(zksql_verif)" => false,
                    "cfg(feature=\"extensive_sanity_checks\")" => false,
                    _ => { self.seterr(format!("cfg {s}")); true }
                };
                if !k { return false }
            }
        }
        true
    }
}

fn collect_elem(t: Option<&Type>) -> Option<Type> {
    let Type::Path(p) = t? else { return None };
    let s = p.path.segments.last()?;
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let GenericArgument::Type(t0) = a.args.first()? else { return None };
    if s.ident == "Result" { return collect_elem(Some(t0)); }
    if s.ident != "Vec" { return None }
    if t0.to_token_stream().to_string().contains('_') && matches!(t0, Type::Infer(_)) { return None }
    Some(t0.clone())
}

struct Subst<'a>(&'a [(String, Expr)]);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = strip(&u.expr) {
                    if let Some(i) = p.path.get_ident() {
                        if let Some((_, pl)) = self.0.iter().find(|(n, _)| i == n) { *e = pl.clone(); return; }
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some((_, pl)) = self.0.iter().find(|(n, _)| i == n) { *e = pl.clone(); return; }
            }
        }
        // a bare `&mut` item handed to a function: lent as a shared reference (does not type-check if the callee wants `&mut`)
        let args = match e { Expr::Call(c) => Some(&mut c.args), Expr::MethodCall(c) => Some(&mut c.args), _ => None };
        if let Some(args) = args { for a in args.iter_mut() {
            if let Expr::Path(p) = strip(a) { if let Some(i) = p.path.get_ident() {
                if let Some((_, pl)) = self.0.iter().find(|(n, _)| i == n) { *a = pe(quote!(&#pl)); }
            } }
        } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // shadowing by closure parameters
        let names: Vec<String> = c.inputs.iter().flat_map(pat_names).collect();
        let rest: Vec<(String, Expr)> = self.0.iter().filter(|(n, _)| !names.contains(n)).cloned().collect();
        Subst(&rest).visit_expr_mut(&mut c.body);
    }
}
pub fn pat_names(p: &Pat) -> Vec<String> {
    match p {
        Pat::Ident(i) => vec![i.ident.to_string()],
        Pat::Reference(r) => pat_names(&r.pat),
        Pat::Type(r) => pat_names(&r.pat),
        Pat::Paren(r) => pat_names(&r.pat),
        Pat::Tuple(t) => t.elems.iter().flat_map(pat_names).collect(),
        Pat::TupleStruct(t) => t.elems.iter().flat_map(pat_names).collect(),
        _ => vec![],
    }
}
fn subst_all(e: &mut Expr, s: &[(String, Expr)]) {
    if !s.is_empty() { Subst(s).visit_expr_mut(e) }
}
/// `Some(&p)` -> `Some(p)` with `let p = *p`
fn unref_pat(p: &mut Pat, out: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => {
            let inner = (*r.pat).clone();
            if let Pat::Ident(pi) = &inner {
                let n = &pi.ident;
                out.extend(ps(quote!(let #n = *#n;)));
                *p = inner.clone();
            }
        }
        Pat::TupleStruct(t) => for q in t.elems.iter_mut() { unref_pat(q, out) },
        Pat::Tuple(t) => for q in t.elems.iter_mut() { unref_pat(q, out) },
        Pat::Paren(t) => unref_pat(&mut t.pat, out),
        _ => {}
    }
}

/// `xs.iter().map(..)`, `(a..b).map(..)` and the like, not ended by anything
fn lazy_chain(e: &Expr) -> bool {
    let lazy = ["map", "filter", "filter_map", "zip", "enumerate", "rev", "skip", "take", "step_by", "chain", "cloned", "copied"];
    let Expr::MethodCall(m) = strip(e) else { return false };
    if !lazy.contains(&m.method.to_string().as_str()) { return false }
    let mut r = strip(&m.receiver).clone();
    loop {
        match r {
            Expr::Range(_) => return true,
            Expr::MethodCall(ref x) => {
                let n = x.method.to_string();
                if ["iter", "into_iter", "par_iter"].contains(&n.as_str()) && x.args.is_empty() { return true }
                if !lazy.contains(&n.as_str()) { return false }
                r = strip(&x.receiver).clone();
            }
            _ => return false,
        }
    }
}
fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match strip(&c.func) { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}
/// `return` or `?` belonging to this closure body itself (nested closures excluded)
struct RetFinder { ret: bool, tr: bool }
impl<'ast> syn::visit::Visit<'ast> for RetFinder {
    fn visit_expr_return(&mut self, _e: &'ast ExprReturn) { self.ret = true; }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) { self.tr = true; syn::visit::visit_expr_try(self, e); }
    fn visit_expr_closure(&mut self, _c: &'ast ExprClosure) {}
}
struct CallFinder<'a> { name: &'a str, found: bool }
impl<'a, 'ast> syn::visit::Visit<'ast> for CallFinder<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        if call_name(e).as_deref() == Some(self.name) { self.found = true; }
        syn::visit::visit_expr(self, e);
    }
    fn visit_block(&mut self, _b: &'ast Block) {}
}

impl VisitMut for Low {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts0 = std::mem::take(&mut b.stmts);
        let mut stmts: Vec<Stmt> = vec![];
        for mut s in stmts0 {
            // several fallible arguments: one `let` each, in evaluation order
            if let Stmt::Local(l) = &mut s {
                if let Some(init) = &mut l.init {
                    if let Expr::Call(c) = &mut *init.expr {
                        if c.args.len() > 1 && c.args.iter().all(|a| matches!(a, Expr::Try(t) if matches!(&*t.expr, Expr::MethodCall(_)))) {
                            for a in c.args.iter_mut() {
                                let q = quote::format_ident!("zk_q{}", self.nq); self.nq += 1;
                                let old = a.clone();
                                stmts.extend(ps(quote!(let #q = #old;)));
                                *a = pe(quote!(#q));
                            }
                            self.note("several fallible arguments of one call bound in evaluation order");
                        }
                    }
                }
            }
            stmts.push(s);
        }
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            // cfg + attributes
            let attrs = match &s { Stmt::Local(l) => l.attrs.clone(), Stmt::Expr(e, _) => expr_attrs(e), Stmt::Macro(m) => m.attrs.clone(), Stmt::Item(_) => vec![] };
            if !self.cfg_keep(&attrs) { self.note("statement under an inactive cfg dropped"); continue; }
            clear_attrs(&mut s);
            // anchors requested on the original statement
            let mut after: Vec<String> = vec![];
            if let Stmt::Local(l) = &s {
                for n in pat_names(&l.pat) { if self.anchors_let.contains(&n) { after.push(format!("let {n}")); } }
            }
            let mut calls: Vec<String> = vec![];
            for n in self.anchors_call.clone() {
                let mut f = CallFinder { name: &n, found: false };
                syn::visit::Visit::visit_stmt(&mut f, &s);
                if f.found { calls.push(n); }
            }
            match &mut s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "start_timer" | "end_timer" | "println" | "print" | "eprintln" | "dbg" => { self.note("tracing macro dropped"); continue }
                        "zk_at" | "zk_inv" => { out.push(s); continue }
                        _ => {
                            let semi = m.semi_token.is_some();
                            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                            self.visit_expr_mut(&mut e);
                            if semi && ["panic", "unreachable", "todo", "unimplemented"].contains(&n.as_str()) {
                                e = if self.may_panic { pe(quote!(return zk_may_panic())) } else { pe(quote!(return zk_panic())) };
                            }
                            s = Stmt::Expr(e, if semi { Some(Default::default()) } else { None });
                        }
                    }
                }
                Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        if let Expr::Macro(m) = &*init.expr {
                            if m.mac.path.is_ident("start_timer") { self.note("tracing macro dropped"); continue; }
                        }
                        if let (Pat::Wild(_), Expr::Lit(_)) = (&l.pat, &*init.expr) { self.note("`let _ = literal` dropped"); continue; }
                    }
                    if let Pat::Type(t) = &l.pat {
                        if let Pat::Ident(i) = &*t.pat { let r = matches!(*t.ty, Type::Reference(_)); self.local_ref.insert(i.ident.to_string(), r); }
                    } else if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        let r = matches!(strip(&init.expr), Expr::Reference(_));
                        self.local_ref.insert(i.ident.to_string(), r);
                    }
                    // a let-bound lazy iterator is the sequence it yields
                    if let Some(init) = &mut l.init {
                        if lazy_chain(&init.expr) { let old = (*init.expr).clone(); *init.expr = pe(quote!(#old.collect::<Vec<_>>())); self.note("let-bound iterator treated as the sequence it yields"); }
                    }
                    // ref pattern
                    let hint = if let Pat::Type(t) = &l.pat { Some((*t.ty).clone()) } else { None };
                    let mut extra = vec![];
                    if let Some(init) = &mut l.init {
                        if let Some(h) = &hint {
                            if let Expr::MethodCall(mc) = strip(&init.expr).clone() {
                                match self.sink(&mc, Some(h), false) { Ok(Some(e)) => { *init.expr = e; } Ok(None) => self.visit_expr_mut(&mut init.expr), Err(m) => { self.seterr(m); } }
                            } else { self.visit_expr_mut(&mut init.expr) }
                        } else { self.visit_expr_mut(&mut init.expr) }
                        if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d) }
                        if let Pat::Reference(_) = &l.pat {
                            if let Pat::Reference(r) = l.pat.clone() {
                                l.pat = (*r.pat).clone();
                                let e = init.expr.clone(); init.expr = Box::new(pe(quote!(*(#e))));
                            }
                        }
                    }
                    unref_pat(&mut l.pat, &mut extra);
                    self.visit_pat_mut(&mut l.pat);
                    out.push(s); out.extend(extra);
                    for a in after { let ls = LitStr::new(&a, Span::call_site()); out.extend(ps(quote!(zk_at!(#ls);))); }
                    for a in calls { let ls = LitStr::new(&format!("call {a}"), Span::call_site()); out.extend(ps(quote!(zk_at!(#ls);))); }
                    continue;
                }
                Stmt::Expr(e, semi) => {
                    if let Expr::ForLoop(f) = e {
                        match self.lower_for(f) { Ok(v) => { out.extend(v); continue; } Err(m) => { self.seterr(m); continue; } }
                    }
                    let is_unit_for_each = matches!(e, Expr::MethodCall(m) if m.method == "for_each");
                    self.visit_expr_mut(e);
                    if is_unit_for_each { if let Expr::Block(bb) = e { out.extend(bb.block.stmts.clone()); continue; } }
                    let _ = semi;
                }
                Stmt::Item(_) => {}
            }
            out.push(s);
            for a in calls {
                let ls = LitStr::new(&format!("call {a}"), Span::call_site());
                if matches!(out.last(), Some(Stmt::Expr(_, None))) && !matches!(out.last(), Some(Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::While(_), None))) { continue }
                out.extend(ps(quote!(zk_at!(#ls);)));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // sinks first (they look at the un-lowered chain)
        match e {
            Expr::Call(c) if c.args.len() == 1 && matches!(strip(&c.func), Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "from_iter").unwrap_or(false)) => {
                // T::from_iter(chain) gets what the chain collects to
                if let Expr::MethodCall(m) = strip(&c.args[0]).clone() {
                    let cn = m.method.to_string();
                    if cn == "into_iter" && m.args.is_empty() && !matches!(strip(&m.receiver), Expr::MethodCall(_)) { c.args[0] = (*m.receiver).clone(); }
                    else if ["map", "filter", "filter_map", "zip", "enumerate", "rev", "skip", "take", "step_by", "chain", "cloned", "copied", "into_iter"].contains(&cn.as_str()) { c.args[0] = pe(quote!(#m.collect::<Vec<_>>())); }
                    else if cn == "iter" && m.args.is_empty() { c.args[0] = pe(quote!(#m.cloned().collect::<Vec<_>>())); }
                }
            }
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = strip(&t.expr).clone() {
                    match self.sink(&m, None, true) {
                        Ok(Some(x)) => {
                            let is_res = m.method == "collect" && m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("Result")).unwrap_or(false);
                            *e = if is_res { x } else { pe(quote!(#x?)) };
                            return;
                        }
                        Ok(None) => {}
                        Err(msg) => { self.seterr(msg); return; }
                    }
                }
            }
            Expr::MethodCall(m) => {
                // v.extend(chain) appends what the chain collects to
                if m.method == "extend" && m.args.len() == 1 {
                    if let Expr::MethodCall(c) = strip(&m.args[0]).clone() {
                        let cn = c.method.to_string();
                        if ["map", "filter", "filter_map", "zip", "enumerate", "rev", "skip", "take", "step_by", "chain", "cloned", "copied", "into_iter"].contains(&cn.as_str()) { m.args[0] = pe(quote!(#c.collect::<Vec<_>>())); }
                        else if cn == "iter" { m.args[0] = pe(quote!(#c.cloned().collect::<Vec<_>>())); }
                    }
                }
                // v.sort_by(|&i, &j| (a, b).cmp(&(c, d))): the comparator keeps its body and gets its contract from the unit
                if (m.method == "sort_by" || m.method == "sort_unstable_by") && m.args.len() == 1 {
                    let Expr::Closure(c) = strip(&m.args[0]).clone() else { self.seterr("sort_by without a closure".into()); return };
                    let k = self.ncmp; self.ncmp += 1;
                    let mut recv = (*m.receiver).clone(); self.visit_expr_mut(&mut recv);
                    let items = [Item::RefE(pe(quote!(zk_p))), Item::RefE(pe(quote!(zk_q)))];
                    match self.apply(&Expr::Closure(c), &items) {
                        Ok((st, b)) => {
                            let kl = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
                            *e = pe(quote!(zk_sort_by(&mut #recv, |zk_p, zk_q| { zk_cmp!(#kl); #(#st)* #b }, zk_le!(#kl))));
                        }
                        Err(msg) => self.seterr(msg),
                    }
                    return;
                }
                if m.method == "cmp" && m.args.len() == 1 {
                    let mut arg = strip(&m.args[0]).clone();
                    if let Expr::Reference(r) = &arg { arg = strip(&r.expr).clone(); }
                    if let (Expr::Tuple(x), Expr::Tuple(y)) = (strip(&m.receiver).clone(), arg) {
                        if x.elems.len() == 2 && y.elems.len() == 2 {
                            let (mut a, mut b, mut c, mut d) = (x.elems[0].clone(), x.elems[1].clone(), y.elems[0].clone(), y.elems[1].clone());
                            for z in [&mut a, &mut b, &mut c, &mut d] { self.visit_expr_mut(z); }
                            *e = pe(quote!(zk_cmp2(#a, #b, #c, #d))); return;
                        }
                    }
                }
                if (m.method == "sort" || m.method == "sort_unstable") && m.args.is_empty() { m.method = id("zk_sort"); }
                let mc = m.clone();
                let hint = self.sum_ty.clone();
                match self.sink(&mc, if mc.method == "sum" || mc.method == "product" { hint.as_ref() } else { None }, false) {
                    Ok(Some(x)) => { *e = x; return; }
                    Ok(None) => {}
                    Err(msg) => { self.seterr(msg); return; }
                }
            }
            Expr::ForLoop(f) => {
                match self.lower_for(f) { Ok(v) => { *e = pe(quote!({ #(#v)* })); } Err(m) => self.seterr(m) }
                return;
            }
            _ => {}
        }
        // generic
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" => {
                        let ts = m.mac.tokens.clone();
                        if let Ok(mut r) = parse2::<ExprRepeat>(quote!([#ts])) {
                            self.visit_expr_mut(&mut r.expr); self.visit_expr_mut(&mut r.len);
                            let (a, b) = (&r.expr, &r.len);
                            *e = pe(quote!(zk_vec_repeat(#a, #b)));
                        } else if let Ok(mut r) = parse2::<ExprArray>(quote!([#ts])) {
                            for x in r.elems.iter_mut() { self.visit_expr_mut(x); }
                            let el = &r.elems;
                            *e = if el.is_empty() { pe(quote!(Vec::new())) } else { pe(quote!(vec![#el])) };
                        } else { self.seterr("vec! form".into()) }
                    }
                    "assert" | "debug_assert" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match args { Ok(a) => { let mut c = a[0].clone(); self.visit_expr_mut(&mut c); *e = if self.may_panic { pe(quote!(zk_assert_or_panic(#c))) } else { pe(quote!(zk_assert(#c))) }; } Err(x) => self.seterr(x.to_string()) }
                    }
                    "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match args { Ok(a) => { let (mut c, mut d) = (a[0].clone(), a[1].clone()); self.visit_expr_mut(&mut c); self.visit_expr_mut(&mut d);
                            let op = if n == "assert_ne" { quote!(!=) } else { quote!(==) };
                            *e = if self.may_panic { pe(quote!(zk_assert_or_panic(#c #op #d))) } else { pe(quote!(zk_assert(#c #op #d))) }; } Err(x) => self.seterr(x.to_string()) }
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => { *e = if self.may_panic { pe(quote!(zk_may_panic())) } else { pe(quote!(zk_panic())) }; }
                    "to_bytes" => {
                        match m.mac.parse_body::<Expr>() { Ok(mut a) => { self.visit_expr_mut(&mut a); *e = pe(quote!(zk_to_bytes(#a))); } Err(x) => self.seterr(x.to_string()) }
                    }
                    "format" => { self.note("format! string content dropped"); *e = pe(quote!(zk_string())); }
                    "zk_at" | "zk_inv" => {}
                    "println" | "end_timer" | "start_timer" => { *e = pe(quote!(())); }
                    _ => self.seterr(format!("macro {n}!")),
                }
                return;
            }
            Expr::Lit(l) => {
                if let Lit::ByteStr(b) = &l.lit { let v = String::from_utf8_lossy(&b.value()).to_string(); l.lit = Lit::Str(LitStr::new(&v, Span::call_site())); self.note("byte-string literal read as a string literal"); }
                return;
            }
            Expr::MethodCall(m) if m.method == "as_ref" && m.args.is_empty() && matches!(strip(&m.receiver), Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) => {
                *e = strip(&m.receiver).clone(); self.note("byte-string literal read as a string literal");
                return;
            }
            Expr::Unsafe(_) => { self.seterr("unsafe block".into()); }
            Expr::While(w) => {
                let u = self.fresh();
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let ul = Lit::Int(LitInt::new(&u.to_string(), Span::call_site()));
                let (ms, me, mb, ma) = (LitStr::new(&format!("start L{u}"), Span::call_site()), LitStr::new(&format!("end L{u}"), Span::call_site()), LitStr::new(&format!("before L{u}"), Span::call_site()), LitStr::new(&format!("after L{u}"), Span::call_site()));
                let (c, bs, lab) = (&w.cond, &w.body.stmts, &w.label);
                *e = pe(quote!({ zk_at!(#mb); #lab while #c { zk_inv!(#ul); zk_at!(#ms); #(#bs)* zk_at!(#me); } zk_at!(#ma); }));
                return;
            }
            Expr::Loop(_) => self.seterr("loop".into()),
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut extra = vec![]; unref_pat(&mut l.pat, &mut extra);
                    if !extra.is_empty() { let old = std::mem::take(&mut i.then_branch.stmts); i.then_branch.stmts = extra; i.then_branch.stmts.extend(old); }
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    let mut extra = vec![]; unref_pat(&mut a.pat, &mut extra);
                    if !extra.is_empty() { let b = &a.body; *a.body = pe(quote!({ #(#extra)* #b })); }
                }
            }
            _ => {}
        }
        if let Expr::Struct(st) = e {
            let keep: punctuated::Punctuated<FieldValue, Token![,]> = st.fields.iter().filter(|f| !f.expr.to_token_stream().to_string().replace("std :: marker :: ", "").starts_with("PhantomData")).cloned().collect();
            st.fields = keep;
        }
        visit_mut::visit_expr_mut(self, e);
        // post rules
        match e {
            Expr::Binary(b) if self.veq && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { pe(quote!((#l).zk_eq(&(#r)))) } else { pe(quote!(!(#l).zk_eq(&(#r)))) };
            }
            Expr::Binary(b) if !self.keep_ops => {
                let op = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)), BinOp::SubAssign(_) => Some(quote!(-)), BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)), BinOp::RemAssign(_) => Some(quote!(%)), BinOp::ShlAssign(_) => Some(quote!(<<)),
                    BinOp::ShrAssign(_) => Some(quote!(>>)), BinOp::BitAndAssign(_) => Some(quote!(&)), BinOp::BitOrAssign(_) => Some(quote!(|)), BinOp::BitXorAssign(_) => Some(quote!(^)), _ => None };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    if let Expr::Unary(u) = strip(l) { if let (UnOp::Deref(_), Expr::Call(c)) = (&u.op, strip(&u.expr)) {
                        if c.func.to_token_stream().to_string().replace(' ', "") == "Arc::make_mut" && matches!(b.op, BinOp::AddAssign(_)) {
                            if let Expr::Reference(rf) = strip(&c.args[0]) {
                                let p = &rf.expr;
                                self.note("*Arc::make_mut(&mut p) += x becomes p = Arc::new((*p).zk_add_assign(x))");
                                *e = pe(quote!(#p = Arc::new((*#p).zk_add_assign(#r))));
                                return;
                            }
                        }
                    } }
                    let r2 = match strip(r) { Expr::Lit(_) | Expr::Path(_) => quote!(#r), _ => quote!((#r)) };
                    *e = pe(quote!(#l = #l #op #r2));
                }
            }
            Expr::Index(ix) if !self.maps.is_empty() && self.maps.contains(&ix.expr.to_token_stream().to_string().replace(' ', "")) => {
                let (m, k) = (&ix.expr, &ix.index);
                *e = pe(quote!((*#m.zk_at(#k))));
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.veq { for a in m.args.iter_mut() { if let Expr::Array(x) = strip(a) { let el = &x.elems; *a = pe(quote!(vec![#el])); } } }
                match n.as_str() {
                    "deref" if m.args.is_empty() => m.method = id("zk_deref"),
                    "unwrap" if m.args.is_empty() && self.may_panic => m.method = id("zk_may_unwrap"),
                    "clone" if m.args.is_empty() => m.method = id("zk_clone"),
                    "or_insert" if m.args.len() == 1 => {
                        if let Expr::MethodCall(en) = strip(&m.receiver).clone() { if en.method == "entry" && en.args.len() == 1 {
                            let (r, k, d) = (&en.receiver, &en.args[0], &m.args[0]);
                            *e = pe(quote!(zk_entry_or(&mut #r, #k, #d)));
                        } }
                    }
                    "to_vec" => m.method = id("zk_to_vec"),
                    "resize" => m.method = id("zk_resize"),
                    "sort" if m.args.is_empty() => m.method = id("zk_sort"),
                    "extend_from_slice" | "extend" => m.method = id("zk_extend"),
                    "as_ref" if m.args.is_empty() => m.method = id("zk_as_ref"),
                    "cloned" | "copied" => m.method = id("zk_cloned"),
                    "pow" => m.method = id("zk_pow"),
                    "to_string" | "to_owned" => { self.note("string content dropped"); *e = pe(quote!(zk_string())); }
                    "concat" => {
                        if let Expr::Array(a) = strip(&m.receiver) { if a.elems.len() == 2 { let (x, y) = (&a.elems[0], &a.elems[1]); *e = pe(quote!(zk_concat2(#x, #y))); } }
                    }
                    "unwrap_or_else" => {
                        let r = &m.receiver; 
                        if let Expr::Path(p) = strip(&m.args[0]) { *e = pe(quote!(match #r { Some(zk_v) => zk_v, None => #p() })); }
                    }
                    "ok_or_else" => {
                        let r = &m.receiver;
                        if let Expr::Closure(c) = strip(&m.args[0]) { let b = &c.body; *e = pe(quote!((match #r { Some(zk_v) => Ok(zk_v), None => Err(#b) }))); }
                    }
                    "ok_or" => { let (r, b) = (&m.receiver, &m.args[0]); *e = pe(quote!((match #r { Some(zk_v) => Ok(zk_v), None => Err(#b) }))); }
                    "unwrap_or_default" => { let r = &m.receiver; *e = pe(quote!(match #r { Some(zk_v) => zk_v, None => F::zero() })); }
                    _ => {}
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if s == "F::from" { *c.func = pe(quote!(F::zk_from)); }
                    else if s == "Arc::as_ptr" { *c.func = pe(quote!(zk_arc_as_ptr)); }
                    else if s == "F::default" { *c.func = pe(quote!(F::zero)); }
                }
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Reference(r) if matches!(&*r.elem, Type::Infer(_))) => { let x = (*c.expr).clone(); *e = x; }
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if s == "F::from" { *e = pe(quote!(F::zk_from)); }
            }
            _ => {}
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.typemap.get(&s) { *t = parse_str(r).unwrap(); return; }
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(a) = self.assoc.get(&p.path.segments[1].ident.to_string()) { *t = a.clone(); self.visit_type_mut(t); return; }
            }
        }
        // shared cells and boxed evaluation closures (see cells.rs)
        if let Type::Path(p) = t {
            if let Some(seg) = p.path.segments.last() { if let PathArguments::AngleBracketed(a) = &seg.arguments { if a.args.len() == 1 { if let GenericArgument::Type(x) = &a.args[0] {
                if seg.ident == "Box" && matches!(x, Type::TraitObject(_)) { *t = parse_str("VFn").unwrap(); return; }
                if seg.ident == "Rc" { if let Type::Path(q) = x { let s2 = q.path.segments.last().unwrap(); if s2.ident == "RefCell" { if let PathArguments::AngleBracketed(b) = &s2.arguments { if let GenericArgument::Type(y) = &b.args[0] {
                    let is_tr = matches!(y, Type::Path(z) if z.path.segments.last().unwrap().ident.to_string().ends_with("Tracker"));
                    *t = if is_tr { parse_str("ZkCell").unwrap() } else { y.clone() };
                    if !is_tr { self.visit_type_mut(t); }
                    return;
                } } } } }
            } } } }
        }
        if let Type::ImplTrait(i) = t {
            let s = i.to_token_stream().to_string();
            if s.contains("IntoIterator") {
                for b in i.bounds.iter() { if let TypeParamBound::Trait(tb) = b { if let PathArguments::AngleBracketed(a) = &tb.path.segments.last().unwrap().arguments {
                    for g in a.args.iter() { if let GenericArgument::AssocType(at) = g { let mut ty = at.ty.clone(); self.visit_type_mut(&mut ty); self.note("impl IntoIterator parameter treated as Vec"); *t = parse2(quote!(Vec<#ty>)).unwrap(); return; } }
                } } }
            }
        }
        visit_mut::visit_type_mut(self, t);
        let s = t.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.typemap.get(&s) { *t = parse_str(r).unwrap(); }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // drop generic arguments that are dropped generic parameters
        visit_mut::visit_path_mut(self, p);
        let s = p.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.typemap.get(&s) { *p = parse_str(r).unwrap_or(p.clone()); }
        let keep = ["Vec", "Option", "Result", "Arc", "HashMap", "Rc", "Box", "HashSet", "BTreeMap"];
        for seg in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                if keep.contains(&seg.ident.to_string().as_str()) { continue }
                let all = a.args.iter().all(|g| match g { GenericArgument::Type(t) => { let s = t.to_token_stream().to_string().replace(' ', ""); self.fty.contains(&s) || self.drop_generic.contains(&s) || s == "F" || s == "_" } GenericArgument::Lifetime(_) => true, _ => false });
                if all { seg.arguments = PathArguments::None; }
            }
        }
        if p.segments.len() >= 1 {
            let f = p.segments[0].ident.to_string();
            if self.fty.contains(&f) { p.segments[0].ident = id("F"); }
            if p.segments.len() == 2 && self.typemap.contains_key(&f) && !f.is_empty() {
                if let Ok(pp) = parse_str::<Path>(&self.typemap[&f]) { p.segments[0] = pp.segments[0].clone(); }
            }
            if p.segments.len() == 3 {
                let f2 = format!("{}::{}", f, p.segments[1].ident);
                if let Some(r) = self.typemap.get(&f2) { if let Ok(mut pp) = parse_str::<Path>(r) { pp.segments.push(p.segments[2].clone()); *p = pp; } }
            }
            if p.segments.len() == 3 && p.segments[1].ident == "ScalarField" { let l = p.segments[2].clone(); *p = parse2(quote!(F::#l)).unwrap(); }
        }
        let s = p.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.typemap.get(&s) { if let Ok(pp) = parse_str(r) { *p = pp; } }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(q) = &p.qself {
            // <E as Pairing>::ScalarField::x  and  <PolyIOP<F> as SumCheck<F>>::verify
            let qs = q.ty.to_token_stream().to_string().replace(' ', "");
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() >= 3 && segs[1] == "ScalarField" { let l = p.path.segments.last().unwrap().clone(); *p = parse2(quote!(F::#l)).unwrap(); return; }
            let tail = p.path.segments.last().unwrap().ident.to_string();
            let tr = &segs[q.position.saturating_sub(1)];
            let nm = id(&format!("{}__{}", tr, tail));
            let _ = qs;
            *p = parse2(quote!(#nm)).unwrap();
            return;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}
impl Low {
    pub fn lower_for(&mut self, f: &ExprForLoop) -> R<Vec<Stmt>> {
        let it = match self.as_iter(&f.expr)? { Some(i) => i, None => { let k = self.value_kind(&f.expr); self.seq_iter(&f.expr, k)? } };
        let pat = (*f.pat).clone(); let body = f.body.clone();
        self.make_loop(&it, f.label.as_ref(), vec![], &mut |l, item| {
            let mut st = vec![]; let mut subst = vec![];
            l.bind(&pat, item, &mut st, &mut subst)?;
            let mut b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() });
            subst_all(&mut b, &subst);
            let Expr::Block(mut bb) = b else { unreachable!() };
            l.visit_block_mut(&mut bb.block);
            // a tail expression in a for body is a unit statement
            if let Some(Stmt::Expr(_, s)) = bb.block.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()); } }
            st.extend(bb.block.stmts);
            Ok(st)
        })
    }
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::ForLoop(x) => x.attrs.clone(), Expr::MethodCall(x) => x.attrs.clone(), Expr::Block(x) => x.attrs.clone(), Expr::If(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(), Expr::Macro(x) => x.attrs.clone(), Expr::Assign(x) => x.attrs.clone(), Expr::Binary(x) => x.attrs.clone(), Expr::Return(x) => x.attrs.clone(), Expr::Match(x) => x.attrs.clone(), Expr::While(x) => x.attrs.clone(),
        _ => vec![],
    }
}
fn clear_attrs(s: &mut Stmt) {
    struct C;
    impl VisitMut for C { fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); } }
    // only clear on this statement's own node: nested statements still need their cfgs
    match s {
        Stmt::Local(l) => l.attrs.clear(),
        Stmt::Macro(m) => m.attrs.clear(),
        Stmt::Expr(e, _) => match e {
            Expr::ForLoop(x) => x.attrs.clear(), Expr::MethodCall(x) => x.attrs.clear(), Expr::Block(x) => x.attrs.clear(), Expr::If(x) => x.attrs.clear(),
            Expr::Call(x) => x.attrs.clear(), Expr::Macro(x) => x.attrs.clear(), Expr::Assign(x) => x.attrs.clear(), Expr::Binary(x) => x.attrs.clear(), Expr::Return(x) => x.attrs.clear(), Expr::Match(x) => x.attrs.clear(), Expr::While(x) => x.attrs.clear(), _ => {} },
        _ => {}
    }
    let _ = C;
}
