mod lower;
mod cells;
use lower::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::path::{Path as FsPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

struct Ctx {
    repo: PathBuf,
    files: HashMap<String, File>,
    typemap: BTreeMap<String, String>,
    out: String,
    bodies: Vec<(String, String)>, // key, tokens of "fn key() body"
    pending: HashMap<String, Pending>,
    report: Vec<String>,
    notes: BTreeMap<String, usize>,
    included: HashSet<PathBuf>,
    uid: usize,
    defined: HashSet<String>,
    threaded: HashSet<String>, import: bool,
}
struct Pending {
    sections: BTreeMap<String, String>,
    loops: Vec<usize>, // uid by ordinal
    name: String,
    ren: Vec<(String, String)>,
    used: HashSet<String>,
}
fn die(kind: &str, msg: String) -> ! {
    println!("{{\"status\":\"{}\",\"detail\":{:?}}}", kind, msg);
    std::process::exit(3);
}
fn json_esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => {}, c => o.push(c) } }
    o
}
struct Found {
    sig: Signature,
    block: Block,
    self_ty: Option<Type>,
    assoc: HashMap<String, Type>,
    generics: Vec<Generics>,
    line: usize,
}
fn inactive(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && { let s = a.meta.to_token_stream().to_string().replace(' ', ""); s == "cfg(test)" || s == "cfg(not(feature=\"parallel\"))" || s == "cfg(zksql_verif)" })
}
fn last_ident(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => last_ident(&r.elem), _ => String::new() }
}
fn find_fn(items: &[Item_], ty: Option<&str>, tr: Option<&str>, name: &str) -> Option<Found> {
    for it in items {
        match it {
            Item_::Fn(f) if ty.is_none() && f.sig.ident == name && !inactive(&f.attrs) => {
                return Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None, assoc: HashMap::new(), generics: vec![f.sig.generics.clone()], line: f.sig.ident.span().start().line });
            }
            Item_::Impl(i) if ty.is_some() && last_ident(&i.self_ty) == ty.unwrap() && !inactive(&i.attrs) => {
                if let Some(t) = tr { match &i.trait_ { Some((_, p, _)) if p.segments.last().unwrap().ident == t => {}, _ => continue } }
                let mut assoc = HashMap::new();
                for x in &i.items { if let ImplItem::Type(t) = x { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == name && !inactive(&f.attrs) {
                            return Some(Found { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some((*i.self_ty).clone()), assoc, generics: vec![i.generics.clone(), f.sig.generics.clone()], line: f.sig.ident.span().start().line });
                        }
                    }
                }
            }
            Item_::Mod(m) if !inactive(&m.attrs) => { if let Some((_, its)) = &m.content { if let Some(f) = find_fn(its, ty, tr, name) { return Some(f); } } }
            _ => {}
        }
    }
    None
}
use syn::Item as Item_;

impl Ctx {
    fn file(&mut self, p: &str) -> File {
        if !self.files.contains_key(p) {
            let full = self.repo.join(p);
            let s = std::fs::read_to_string(&full).unwrap_or_else(|e| die("lost-anchor", format!("{p}: {e}")));
            let f = parse_file(&s).unwrap_or_else(|e| die("unsupported", format!("{p}: {e}")));
            self.files.insert(p.to_string(), f);
        }
        self.files[p].clone()
    }
    fn low(&mut self, f: &Found) -> Low {
        let mut fty = vec![]; let mut dropg = vec![];
        for g in &f.generics {
            let mut bounds: Vec<(String, String)> = g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some((t.ident.to_string(), t.bounds.to_token_stream().to_string())) } else { None }).collect();
            if let Some(w) = &g.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { bounds.push((t.bounded_ty.to_token_stream().to_string(), t.bounds.to_token_stream().to_string())); } } }
            for (n, b) in bounds {
                if b.contains("Field") { fty.push(n); } else { dropg.push(n); }
            }
        }
        let mut typemap = self.typemap.clone();
        for n in fty.clone() { typemap.insert(n, "F".into()); }
        for n in dropg.clone() {
            for proj in [format!("{n}::ScalarField"), format!("<{n}asPairing>::ScalarField")] { typemap.insert(proj.clone(), "F".into()); fty.push(proj); }
        }
        self.uid += 1000;
        Low { uid: self.uid, err: None, local_ref: HashMap::new(), typemap, assoc: f.assoc.clone(), fty, drop_generic: dropg, notes: BTreeMap::new(), anchors_let: vec![], anchors_call: vec![], may_panic: false, veq: false, sum_ty: None, cfg: HashMap::new(), keep_ops: false, maps: vec![], sets: vec![], ncmp: 0, nq: 0, closure_return: false }
    }
    fn do_fn(&mut self, head: &str, sections: BTreeMap<String, String>, closure: bool) {
        // head: file::[Trait for ]Type::name or file::name ; options after " as newname"
        let (head, opts) = match head.split_once(" | ") { Some((a, b)) => (a.trim(), b.trim().to_string()), None => (head.trim(), String::new()) };
        let opt = |k: &str| -> Option<String> { opts.split_whitespace().find_map(|o| if o == k { Some(String::new()) } else { o.strip_prefix(&format!("{k}=")).map(|s| s.to_string()) }) };
        let mut parts: Vec<&str> = head.split("::").map(|s| s.trim()).collect();
        let file = parts.remove(0).to_string();
        let name = parts.pop().unwrap().to_string();
        let tyspec = parts.pop();
        let (tr, ty) = match tyspec { Some(t) => match t.split_once(" for ") { Some((a, b)) => (Some(a.trim()), Some(b.trim())), None => (None, Some(t)) }, None => (None, None) };
        let f = self.file(&file);
        let Some(mut found) = find_fn(&f.items, ty, tr, &name) else { die("lost-anchor", format!("function {head} not found")) };
        let mut cell = cells::Cells { alias: HashMap::new(), threaded: if opt("thread").is_some() { self.threaded.clone() } else { HashSet::new() }, vt: opt("vt").unwrap_or(if closure { "zk_vt".into() } else { "self".into() }), vclos: opt("vclos").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(), boxes: closure || opt("vclos").is_some() || opt("cells").is_some(), ord: 0, locals: cells::locals_of(&found.sig, &found.block), caps: vec![], notes: BTreeMap::new(), err: None };
        if cell.threaded.iter().any(|t| t.contains("::")) { let own: Vec<String> = cell.threaded.iter().filter_map(|t| t.split_once("::").filter(|(a, _)| Some(*a) == ty).map(|(_, b)| format!("Self::{b}"))).collect(); cell.threaded.extend(own); }
        if closure {
            let n: usize = opt("n").map(|s| s.parse().unwrap()).unwrap_or(0);
            let mut fc = cells::FindClos { want: n, seen: 0, got: None };
            syn::visit::Visit::visit_block(&mut fc, &found.block);
            let Some(c) = fc.got else { die("lost-anchor", format!("{head}: evaluation closure {n} not found")) };
            let maps = cells::map_clones(&found.block);
            let al: HashSet<String> = maps.keys().cloned().collect();
            let caps = cells::captures(&c, &cell.locals, &al);
            let args: Vec<(String, String)> = opt("args").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once(':').unwrap(); (a.to_string(), b.to_string()) }).collect();
            if args.len() != caps.len() { die("lost-anchor", format!("{head}: the closure captures {:?}", caps)); }
            for (k, v) in &maps { cell.alias.insert(k.clone(), parse_str(&format!("zk_vt.{v}")).unwrap()); }
            let mut params: Vec<String> = vec![]; let mut lets: Vec<Stmt> = vec![];
            for ((a, t), n) in args.iter().zip(caps.iter()) { params.push(format!("{a}: {t}")); if a != n { lets.extend(ps(format!("let {n} = {a};").parse().unwrap())); } }
            let Pat::Type(pt) = &c.inputs[0] else { unreachable!() };
            let pn = match &*pt.pat { Pat::Ident(i) => i.ident.to_string(), _ => "zk_pt".into() };
            params.push(format!("zk_point: {}", pt.ty.to_token_stream())); params.push("zk_vt: &VerifierTracker".into());
            lets.extend(ps(format!("let {pn} = zk_point;").parse().unwrap()));
            if let ReturnType::Type(_, t) = &c.output { found.sig.output = ReturnType::Type(Default::default(), t.clone()); } else { found.sig.output = parse_str("-> Result<E::ScalarField, PolyIOPErrors>").unwrap(); }
            let sg: Signature = parse_str(&format!("fn x({})", params.join(", "))).unwrap_or_else(|e| die("unsupported", format!("{head}: {e}")));
            found.sig.inputs = sg.inputs;
            match *c.body { Expr::Block(b) => { found.block = b.block; } e => { found.block = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] }; } }
            lets.extend(found.block.stmts); found.block.stmts = lets; found.self_ty = None;
            found.line = pt.colon_token.span.start().line;
        } else if let Some(t) = opt("thread") {
            found.sig.inputs.push(parse_str(&format!("zk_tr: &mut {t}")).unwrap());
        }
        if closure || opt("thread").is_some() || opt("vclos").is_some() || opt("cells").is_some() {
            VisitMut::visit_block_mut(&mut cell, &mut found.block);
            if let Some(e) = &cell.err { die("unsupported", format!("{head}: {e}")); }
            for (k, v) in &cell.notes { *self.notes.entry(k.clone()).or_insert(0) += v; }
        }
        let newname = opt("as").unwrap_or(name.clone());
        let external = opt("external").is_some() || self.import;
        let mut low = self.low(&found);
        low.may_panic = opt("maypanic").is_some();
        low.veq = opt("veq").is_some();
        low.sets = opt("sets").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
        low.maps = opt("maps").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
        if let Some(t) = opt("sumty") { low.sum_ty = Some(parse_str(&t).unwrap()); }
        for k in sections.keys() {
            if let Some(n) = k.strip_prefix("after-let ") { let n = n.split(" #").next().unwrap().trim().to_string(); if !low.anchors_let.contains(&n) { low.anchors_let.push(n); } }
            if let Some(n) = k.strip_prefix("after-call ") { let n = n.split(" #").next().unwrap().trim().to_string(); if !low.anchors_call.contains(&n) { low.anchors_call.push(n); } }
        }
        // signature
        let mut args: Vec<String> = vec![];
        let mut prelets: Vec<Stmt> = vec![];
        for (ai, a) in found.sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => if r.reference.is_none() && matches!(&found.self_ty, Some(Type::Reference(_))) { args.push("&self".into()) } else { args.push(r.to_token_stream().to_string()) },
                FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    let is_ref = matches!(ty, Type::Reference(_));
                    if let Pat::Ident(i) = &*t.pat { low.local_ref.insert(i.ident.to_string(), is_ref); }
                    low.visit_type_mut(&mut ty);
                    match &*t.pat {
                        Pat::Ident(i) => {
                            let nm = i.ident.to_string();
                            let nm2 = nm.strip_prefix('_').filter(|s| !s.is_empty()).map(|_| nm.clone()).unwrap_or(nm);
                            let m = if i.mutability.is_some() { "mut " } else { "" };
                            args.push(format!("{}{}: {}", m, nm2, ty.to_token_stream()));
                        }
                        Pat::Wild(_) => args.push(format!("_zk{}: {}", ai, ty.to_token_stream())),
                        _ => die("unsupported", format!("{head}: parameter pattern")),
                    }
                }
            }
        }
        let ret = match &found.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => { let mut t = (**t).clone(); low.visit_type_mut(&mut t); Some(t.to_token_stream().to_string()) }
        };
        let retname = sections.get("ret").map(|s| s.trim().to_string()).unwrap_or("ret".into());
        let generics = opt("generics").unwrap_or_default();
        let mut sig = format!("fn {}{}({})", newname, generics, args.join(", "));
        if let Some(r) = &ret { let r = sections.get("rettype").map(|s| s.trim().to_string()).unwrap_or(r.clone()); sig.push_str(&format!(" -> ({}: {})", retname, r)); }
        let mut spec = String::new();
        for k in ["requires", "ensures", "decreases"] { if let Some(t) = sections.get(k) { let t = t.trim_end(); let t = t.trim(); let t = if t.ends_with(',') { t.to_string() } else { format!("{t},") }; spec.push_str(&format!("\n    {k}\n        {t}")); } }
        let key = format!("zk_f_{}", self.bodies.len());
        let self_ty = found.self_ty.as_ref().map(|t| { let mut t = t.clone(); if let Type::Reference(r) = &t { t = (*r.elem).clone(); } low.visit_type_mut(&mut t); t.to_token_stream().to_string() });
        let mut block = found.block.clone();
        prelets.extend(std::mem::take(&mut block.stmts)); block.stmts = prelets;
        if !external {
            low.visit_block_mut(&mut block);
            // types inside the body were visited by the same visitor
            if let Some(e) = &low.err { die("unsupported", format!("{head}: {e}")); }
            // pretail / tail / entry anchors
            if sections.contains_key("pretail") { if let Some(last) = block.stmts.pop() { block.stmts.extend(ps(quote!(zk_at!("pretail");))); block.stmts.push(last); } }
            if sections.contains_key("tail") {
                if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
                    let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() };
                    let e = match e { Expr::Return(r) => *r.expr.unwrap(), e => e };
                    block.stmts.extend(ps(quote!(let zk_ret = #e; zk_at!("tail");)));
                    block.stmts.push(Stmt::Expr(pe(quote!(zk_ret)), None));
                } else if let Some(Stmt::Expr(Expr::Return(_), Some(_))) = block.stmts.last() {
                    let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.pop() else { unreachable!() };
                    let e = *r.expr.unwrap();
                    block.stmts.extend(ps(quote!(let zk_ret = #e; zk_at!("tail");)));
                    block.stmts.push(Stmt::Expr(pe(quote!(zk_ret)), None));
                } else { block.stmts.extend(ps(quote!(zk_at!("tail");))); }
            }
            let mut b2 = Block { brace_token: Default::default(), stmts: ps(quote!(zk_at!("entry");)) };
            b2.stmts.extend(block.stmts);
            block = b2;
            self.uid = low.uid;
            let txt = format!("fn {}() {}\n", key, block.to_token_stream());
            // loop ordinals by first occurrence of the marker
            let mut loops: Vec<usize> = vec![];
            let toks = txt.clone();
            let mut pos = 0;
            // first occurrence of either zk_n__U or zk_inv ! (U)
            let mut occ: Vec<(usize, usize)> = vec![];
            while let Some(p) = toks[pos..].find("zk_n__") { let s = pos + p + 6; let u: String = toks[s..].chars().take_while(|c| c.is_ascii_digit()).collect(); occ.push((s, u.parse().unwrap())); pos = s; }
            pos = 0;
            while let Some(p) = toks[pos..].find("\"before L") { let s = pos + p + 9; let u: String = toks[s..].chars().take_while(|c| c.is_ascii_digit()).collect(); occ.push((s, u.parse().unwrap())); pos = s; }
            occ.sort();
            for (_, u) in occ { if !loops.contains(&u) { loops.push(u) } }
            self.pending.insert(key.clone(), Pending { sections: sections.clone(), loops, name: head.to_string(), ren: opts.split_whitespace().filter_map(|o| o.strip_prefix("ren=")).filter_map(|s| s.split_once(':')).map(|(a, b)| (a.to_string(), b.to_string())).collect(), used: HashSet::new() });
            self.bodies.push((key.clone(), txt));
        } else {
            self.bodies.push((key.clone(), String::new()));
        }
        for (k, v) in &low.notes { *self.notes.entry(k.clone()).or_insert(0) += v; }
        self.report.push(format!("{{\"fn\":\"{}\",\"as\":\"{}\",\"file\":\"{}\",\"line\":{},\"external\":{},\"imported\":{}}}", json_esc(head), newname, file, found.line, external, self.import));
        let attrs = sections.get("attrs").cloned().unwrap_or_default();
        self.defined.insert(newname.clone());
        let vis = "pub ";
        let open = format!("// ZKFN-BEGIN {}\n", head);
        let body = if external { "{ unimplemented!() }".to_string() } else { format!("@@BODY {key}@@") };
        let extattr = if external && opt("external").is_none() { "#[verifier::external_body] /*imported*/\n" } else if external { "#[verifier::external_body]\n" } else if opt("isolate").is_some() { "" } else { "#[verifier::loop_isolation(false)]\n" };
        match self_ty {
            Some(t) if opt("free").is_none() => {
                let t = opt("selfty").unwrap_or(t);
                self.out.push_str(&format!("{open}impl {t} {{\n{attrs}{extattr}{vis}{sig}{spec}\n{body}\n}}\n// ZKFN-END\n"));
            }
            _ => self.out.push_str(&format!("{open}{attrs}{extattr}{vis}{sig}{spec}\n{body}\n// ZKFN-END\n")),
        }
    }
    fn do_struct(&mut self, head: &str) {
        let (head, opts) = match head.split_once(" | ") { Some((a, b)) => (a.trim(), b.trim().to_string()), None => (head.trim(), String::new()) };
        let opt = |k: &str| -> Option<String> { opts.split_whitespace().find_map(|o| if o == k { Some(String::new()) } else { o.strip_prefix(&format!("{k}=")).map(|s| s.to_string()) }) };
        let drops: Vec<String> = opt("drop").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
        let (file, name) = head.split_once("::").unwrap();
        let f = self.file(file);
        fn find(items: &[Item_], name: &str) -> Option<ItemStruct> {
            for i in items { match i { Item_::Struct(s) if s.ident == name => return Some(s.clone()), _ => {} } }
            None
        }
        for i in &f.items {
            let Item_::Enum(e) = i else { continue };
            if e.ident != name { continue }
            let fnd = Found { sig: parse_quote!(fn x()), block: parse_quote!({}), self_ty: None, assoc: HashMap::new(), generics: vec![e.generics.clone()], line: 0 };
            let mut low = self.low(&fnd);
            let mut e = e.clone(); e.attrs.clear(); e.generics = Default::default(); e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() { v.attrs.clear(); for fl in v.fields.iter_mut() { fl.attrs.clear(); low.visit_type_mut(&mut fl.ty); } }
            let attrs = opt("derive").map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
            self.out.push_str(&format!("{attrs}{}\n", e.to_token_stream()));
            return;
        }
        let Some(s) = find(&f.items, name) else { die("lost-anchor", format!("struct {head} not found")) };
        let fnd = Found { sig: parse_quote!(fn x()), block: parse_quote!({}), self_ty: None, assoc: HashMap::new(), generics: vec![s.generics.clone()], line: 0 };
        let mut low = self.low(&fnd);
        let mut fields = String::new();
        let mut tuple = vec![];
        for fl in s.fields.iter() {
            let mut t = fl.ty.clone();
            if t.to_token_stream().to_string().contains("PhantomData") { continue }
            low.visit_type_mut(&mut t);
            match &fl.ident {
                Some(i) => { if drops.contains(&i.to_string()) { continue } fields.push_str(&format!("    pub {}: {},\n", i, t.to_token_stream())); }
                None => tuple.push(format!("pub {}", t.to_token_stream())),
            }
        }
        let nm = opt("as").unwrap_or(name.to_string());
        let attrs = opt("derive").map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
        if !tuple.is_empty() { self.out.push_str(&format!("{attrs}pub struct {}({});\n", nm, tuple.join(", "))); }
        else { self.out.push_str(&format!("{attrs}pub struct {} {{\n{}}}\n", nm, fields)); }
    }
    fn unit(&mut self, path: &FsPath) {
        let canon = path.canonicalize().unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        if !self.included.insert(canon) { return }
        let text = std::fs::read_to_string(path).unwrap();
        let mut lines = text.lines().peekable();
        while let Some(l) = lines.next() {
            let t = l.trim_start();
            if let Some(r) = t.strip_prefix("//@import ") { let p = path.parent().unwrap().join(r.trim()); let old = self.import; self.import = true; self.unit(&p); self.import = old; }
            else if let Some(r) = t.strip_prefix("//@include ") { let p = path.parent().unwrap().join(r.trim()); self.unit(&p); }
            else if let Some(r) = t.strip_prefix("//@typemap ") { let (a, b) = r.split_once("=>").unwrap(); self.typemap.insert(a.trim().replace(' ', ""), b.trim().to_string()); }
            else if let Some(r) = t.strip_prefix("//@struct ") { self.do_struct(r); }
            else if let Some(r) = t.strip_prefix("//@threaded ") { for w in r.split_whitespace() { self.threaded.insert(w.to_string()); } }
            else if let Some((r, clos)) = t.strip_prefix("//@fn ").map(|r| (r, false)).or_else(|| t.strip_prefix("//@closure ").map(|r| (r, true))) {
                let mut secs: BTreeMap<String, String> = BTreeMap::new(); let mut cur = String::new();
                loop {
                    let Some(l) = lines.next() else { panic!("unterminated //@fn {r}") };
                    let t = l.trim_start();
                    if t.starts_with("//@end") { break }
                    if let Some(s) = t.strip_prefix("//@@ ") { cur = s.split_whitespace().collect::<Vec<_>>().join(" "); secs.entry(cur.clone()).or_default(); continue }
                    let e = secs.entry(cur.clone()).or_default(); e.push_str(l); e.push('\n');
                }
                self.do_fn(r, secs, clos);
            } else {
                // a lemma of an imported file is proved in that file's own unit
                if self.import && ["pub proof fn", "pub broadcast proof fn", "proof fn", "broadcast proof fn"].iter().any(|p| t.starts_with(p)) { self.out.push_str("#[verifier::external_body] /*imported*/ "); }
                self.out.push_str(l); self.out.push('\n');
            }
        }
    }
    fn finish(&mut self) -> String {
        let all: String = self.bodies.iter().map(|b| b.1.clone()).collect();
        let mut child = std::process::Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=140"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().expect("rustfmt");
        let mut si = child.stdin.take().unwrap();
        let h = std::thread::spawn(move || { si.write_all(all.as_bytes()).unwrap(); });
        let o = child.wait_with_output().unwrap(); h.join().unwrap();
        if !o.status.success() { die("unsupported", format!("rustfmt: {}", String::from_utf8_lossy(&o.stderr))); }
        let fm = String::from_utf8(o.stdout).unwrap();
        let mut out = self.out.clone();
        let keys: Vec<String> = self.bodies.iter().filter(|b| !b.1.is_empty()).map(|b| b.0.clone()).collect();
        for (i, k) in keys.iter().enumerate() {
            let st = fm.find(&format!("fn {k}()")).unwrap();
            let en = if i + 1 < keys.len() { fm.find(&format!("fn {}()", keys[i + 1])).unwrap() } else { fm.len() };
            let txt = fm[st..en].trim_end();
            let b = txt.find('{').unwrap();
            let mut body = txt[b..].to_string();
            let p = self.pending.get_mut(k).unwrap();
            // zk_inv
            for (ord, u) in p.loops.clone().iter().enumerate() {
                let m = format!("zk_inv!({u});");
                let Some(pos) = body.find(&m) else { continue };
                let br = body[..pos].rfind('{').unwrap();
                let mut cl = String::new();
                let is_iter = body.contains(&format!("zk_n__{u} "));
                let user = p.sections.get(&format!("inv {ord}")).cloned().unwrap_or_default();
                if p.sections.contains_key(&format!("inv {ord}")) { p.used.insert(format!("inv {ord}")); }
                let ens = p.sections.get(&format!("loop-ensures {ord}")).cloned();
                if ens.is_some() { p.used.insert(format!("loop-ensures {ord}")); }
                let user = user.trim().to_string();
                let user = if user.is_empty() || user.ends_with(',') { user } else { format!("{user},") };
                if is_iter { cl.push_str(&format!("\n        invariant\n            0 <= zk_i__{u} <= zk_n__{u},\n            {user}")); }
                else if !user.is_empty() { cl.push_str(&format!("\n        invariant\n            {user}")); }
                if let Some(e) = ens { cl.push_str(&format!("\n        ensures {}", e.trim())); }
                let dec = p.sections.get(&format!("decreases {ord}")).cloned();
                if dec.is_some() { p.used.insert(format!("decreases {ord}")); }
                if let Some(d) = dec { cl.push_str(&format!("\n        decreases {}", d.trim())); }
                else if is_iter { cl.push_str(&format!("\n        decreases zk_n__{u} - zk_i__{u}")); }
                body = format!("{}{}\n    {{{}", body[..br].trim_end(), cl, &body[pos + m.len()..]);
            }
            // contracts of comparators
            for q in 0.. {
                let m = format!("zk_cmp!({q});");
                let Some(pos) = body.find(&m) else { break };
                let br = body[..pos].rfind('{').unwrap();
                for n in ["cmp", "cmp-le"] { let k = format!("{n} {q}"); if p.sections.contains_key(&k) { p.used.insert(k); } }
                let c = p.sections.get(&format!("cmp {q}")).cloned().unwrap_or_default();
                let le = p.sections.get(&format!("cmp-le {q}")).cloned().unwrap_or("arbitrary()".into());
                body = format!("{}-> (zk_o: Ordering) {} {{{}", &body[..br], c.trim(), &body[pos + m.len()..]);
                body = body.replace(&format!("zk_le!({q})"), &format!("Ghost({})", le.trim()));
            }
            // anchors
            let mut res = String::new();
            let mut counts: HashMap<String, usize> = HashMap::new();
            for l in body.lines() {
                let t = l.trim();
                if let Some(r) = t.strip_prefix("zk_at!(\"") {
                    let a = r.trim_end_matches("\");").to_string();
                    let key = if let Some((w, u)) = a.split_once(" L") { match u.parse::<usize>().ok().and_then(|u| p.loops.iter().position(|x| *x == u)) { Some(o) => format!("{w} {o}"), None => a.clone() } }
                        else if let Some(n) = a.strip_prefix("let ") { format!("after-let {n}") }
                        else if let Some(n) = a.strip_prefix("call ") { format!("after-call {n}") } else { a.clone() };
                    let c = counts.entry(key.clone()).or_insert(0); *c += 1;
                    // the first such statement, or the k-th with a section marked "#k"
                    let key = if (key.starts_with("after-let") || key.starts_with("after-call")) && *c > 1 { format!("{key} #{c}") } else { key };
                    if let Some(t) = p.sections.get(&key) { p.used.insert(key.clone()); res.push_str(t); }
                    continue;
                }
                res.push_str(l); res.push('\n');
            }
            let mut body = res;
            // rename loop variables by ordinal
            // (in reverse so that __1001 is not a prefix problem: match on word boundary)
            for (ord, u) in p.loops.iter().enumerate() {
                for v in ["zk_i", "zk_n", "zk_k", "zk_acc"] {
                    body = replace_word(&body, &format!("{v}__{u}"), &format!("{v}{ord}"));
                }
            }
            // accumulators are created just before their loop: uid differs by construction, rename by order
            let mut accs: Vec<String> = vec![];
            let mut pos = 0;
            while let Some(q) = body[pos..].find("zk_acc__") { let s = pos + q + 8; let u: String = body[s..].chars().take_while(|c| c.is_ascii_digit()).collect(); if !accs.contains(&u) { accs.push(u.clone()); } pos = s; }
            for (o, u) in accs.iter().enumerate() { body = replace_word(&body, &format!("zk_acc__{u}"), &format!("zk_acc{o}")); }
            for (pre, _) in [("zk_l", 0), ("zk_m", 0), ("zk_a", 0), ("zk_b", 0), ("zk_s", 0), ("zk_o", 0), ("zk_h", 0), ("zk_c", 0), ("zk_t", 0), ("zk_r", 0), ("zk_v", 0), ("zk_id__", 0), ("zk_part__", 0)] {
                body = renumber(&body, pre);
            }
            for (a, b) in &p.ren { body = replace_ident(&body, a, b); }
            if let Some(vt) = p.sections.get("vartype") {
                for l in vt.lines() { if let Some((n, t)) = l.split_once(':') { let (n, t) = (n.trim(), t.trim());
                    for m in ["let mut ", "let "] { body = body.replace(&format!("{m}{n} = "), &format!("{m}{n}: {t} = ")); body = body.replace(&format!("{m}{n};"), &format!("{m}{n}: {t};")); } } }
            }
            for s in p.sections.keys() {
                if s.starts_with("opt-") { continue }
                if ["ret", "rettype", "requires", "ensures", "decreases", "attrs", "vartype"].contains(&s.as_str()) { continue }
                if !p.used.contains(s) { die("lost-anchor", format!("{}: annotation '{}' has no place in the current code", p.name, s)); }
            }
            out = out.replace(&format!("@@BODY {k}@@"), &body);
        }
        out
    }
}
fn replace_word(s: &str, a: &str, b: &str) -> String {
    let mut o = String::with_capacity(s.len()); let mut pos = 0;
    while let Some(p) = s[pos..].find(a) {
        let st = pos + p; let en = st + a.len();
        let nx = s[en..].chars().next().unwrap_or(' ');
        o.push_str(&s[pos..st]);
        if nx.is_ascii_alphanumeric() { o.push_str(a) } else { o.push_str(b) }
        pos = en;
    }
    o.push_str(&s[pos..]); o
}
fn replace_ident(s: &str, a: &str, b: &str) -> String {
    let mut o = String::with_capacity(s.len()); let mut pos = 0;
    while let Some(p) = s[pos..].find(a) {
        let st = pos + p; let en = st + a.len();
        let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
        let nx = s[en..].chars().next().unwrap_or(' '); let pv = s[..st].chars().next_back().unwrap_or(' ');
        o.push_str(&s[pos..st]);
        if w(nx) || w(pv) { o.push_str(a) } else { o.push_str(b) }
        pos = en;
    }
    o.push_str(&s[pos..]); o
}
/// renumber generated temporaries zk_l1003 -> zk_l0.. in order of occurrence (numbers >= 1000 only)
fn renumber(s: &str, pre: &str) -> String {
    let mut seen: Vec<String> = vec![]; let mut pos = 0;
    while let Some(p) = s[pos..].find(pre) {
        let st = pos + p + pre.len(); let u: String = s[st..].chars().take_while(|c| c.is_ascii_digit()).collect();
        if u.len() >= 4 && !seen.contains(&u) { seen.push(u); }
        pos = st;
    }
    let mut o = s.to_string();
    for (i, u) in seen.iter().enumerate() { o = replace_word(&o, &format!("{pre}{u}"), &format!("{}{i}", pre.trim_end_matches('_'))); }
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: zkextract REPO UNIT OUT"); std::process::exit(2) }
    let mut c = Ctx { repo: PathBuf::from(&a[1]), files: HashMap::new(), typemap: BTreeMap::new(), out: String::new(), bodies: vec![], pending: HashMap::new(), report: vec![], notes: BTreeMap::new(), included: HashSet::new(), uid: 0, defined: HashSet::new(), threaded: HashSet::new(), import: false };
    c.unit(FsPath::new(&a[2]));
    let out = c.finish();
    std::fs::write(&a[3], out).unwrap();
    let notes: Vec<String> = c.notes.iter().map(|(k, v)| format!("\"{}\":{}", json_esc(k), v)).collect();
    println!("{{\"status\":\"ok\",\"functions\":[{}],\"notes\":{{{}}}}}", c.report.join(","), notes.join(","));
}
