//! the rewriting of one function
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Info { pub loops: Vec<String>, pub closures: usize, pub calls: Vec<String>, pub early: bool }

type R<T> = std::result::Result<T, String>;

pub fn derives(attrs: &[Attribute]) -> String {
    attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(" ")
}

const KEEP: &[&str] = &["Vec", "Option", "Result", "Box", "HashMap", "HashSet", "Arc", "RefCell"];

/// generic arguments of project and arkworks types are dropped: the field, the hash and the step circuit are fixed
/// abstract sorts
struct Ty;
impl VisitMut for Ty {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            if KEEP.contains(&s.ident.to_string().as_str()) { continue; }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let keep = a.args.iter().all(|x| matches!(x, GenericArgument::Const(_)));
                if !keep || a.args.is_empty() { s.arguments = PathArguments::None; }
            }
        }
        // absolute and crate paths lose their module part
        if p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if f == "crate" || f == "super" || f == "kzg" || f == "std" || f == "core" {
                let n = p.segments.len();
                let keep = if n >= 2 && p.segments[n - 2].ident.to_string().chars().next().map_or(false, |c| c.is_uppercase()) { 2 } else { 1 };
                p.segments = p.segments.iter().skip(n - keep).cloned().collect();
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(tp) = t {
            if let Some(q) = tp.qself.take() { if tp.path.segments.len() == 0 { *t = *q.ty; } }
        }
        if let Type::ImplTrait(i) = t {
            let s = i.to_token_stream().to_string();
            if s.contains("Into < Fr >") || s.contains("Into") { *t = parse_quote!(Fr); }
            else if s.contains("RngCore") || s.contains("Rng") { *t = parse_quote!(StdRng); }
        }
    }
}

pub fn ty_str_path(p: &Path) -> String {
    let mut q = p.clone();
    for s in q.segments.iter_mut() { if let PathArguments::AngleBracketed(a) = &mut s.arguments { for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { Ty.visit_type_mut(t); } } } }
    q.segments.last().unwrap().to_token_stream().to_string()
}

fn is_phantom(t: &Type) -> bool { t.to_token_stream().to_string().contains("PhantomData") }

pub fn struct_str(s: &ItemStruct) -> (String, String) {
    let mut s = s.clone();
    let d = derives(&s.attrs);
    s.attrs.clear();
    s.generics = Default::default();
    s.vis = parse_quote!(pub);
    match &mut s.fields {
        Fields::Named(n) => {
            n.named = n.named.iter().filter(|f| !is_phantom(&f.ty)).cloned().collect();
            for f in n.named.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); Ty.visit_type_mut(&mut f.ty); }
        }
        Fields::Unnamed(n) => {
            n.unnamed = n.unnamed.iter().filter(|f| !is_phantom(&f.ty)).cloned().collect();
            for f in n.unnamed.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); Ty.visit_type_mut(&mut f.ty); }
        }
        _ => {}
    }
    (s.to_token_stream().to_string(), d)
}

thread_local! { pub static ARRF: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default(); }
thread_local! { pub static LITS: std::cell::RefCell<BTreeMap<String, String>> = Default::default(); }

struct Rw<'a> { owner: String, info: Info, err: Option<String>, consts: &'a BTreeMap<String, String>, arrays: Vec<String>, iters: Vec<String>, intos: Vec<String>, refs: Vec<String>, n: usize, divq: bool }

fn p2(s: &str) -> Expr { parse_str(s).unwrap_or_else(|e| panic!("internal: {s}: {e}")) }

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Index(i) => simple(&i.expr),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}

/// an index-based sequence: statements that set it up, its length, and the element at an index
struct Seq1 { setup: Vec<TokenStream>, len: TokenStream, elem: Box<dyn Fn(TokenStream) -> (Vec<TokenStream>, ElemX)>, range_start: Option<TokenStream> }
/// an element, kept as a tuple tree so that patterns can be taken apart statically
#[derive(Clone)]
enum ElemX { E(TokenStream), T(Vec<ElemX>) }
impl ElemX {
    fn ts(&self) -> TokenStream { match self { ElemX::E(t) => t.clone(), ElemX::T(v) => { let v: Vec<_> = v.iter().map(|x| x.ts()).collect(); quote!((#(#v),*)) } } }
}

fn bind(pat: &Pat, e: &ElemX, out: &mut Vec<TokenStream>, n: &mut usize) -> R<()> {
    match (pat, e) {
        (Pat::Tuple(t), ElemX::T(v)) if t.elems.len() == v.len() => { for (p, x) in t.elems.iter().zip(v) { bind(p, x, out, n)?; } Ok(()) }
        (Pat::Tuple(t), ElemX::E(x)) => {
            *n += 1;
            let id = format_ident!("__p{}", *n);
            out.push(quote!(let #id = #x;));
            for (k, p) in t.elems.iter().enumerate() { let ix = Index::from(k); bind(p, &ElemX::E(quote!(#id.#ix)), out, n)?; }
            Ok(())
        }
        (Pat::TupleStruct(t), _) => {
            // by match ergonomics on a reference
            *n += 1;
            let id = format_ident!("__p{}", *n);
            let x = e.ts();
            out.push(quote!(let #id = #x;));
            for (k, p) in t.elems.iter().enumerate() { let ix = Index::from(k); bind(p, &ElemX::E(quote!(&#id.#ix)), out, n)?; }
            Ok(())
        }
        (Pat::Wild(_), _) => { let x = e.ts(); out.push(quote!(let _ = #x;)); Ok(()) }
        (Pat::Paren(p), _) => bind(&p.pat, e, out, n),
        (Pat::Type(p), _) => bind(&p.pat, e, out, n),
        (Pat::Reference(p), ElemX::E(x)) => bind(&p.pat, &ElemX::E(quote!(*#x)), out, n),
        (p, _) => { let x = e.ts(); out.push(quote!(let #p = #x;)); Ok(()) }
    }
}

impl<'a> Rw<'a> {
    fn fail(&mut self, m: impl Into<String>) { if self.err.is_none() { self.err = Some(m.into()); } }
    /// the name of a constant: `Owner::NAME` or `NAME`
    fn const_key(&self, p: &Path) -> String {
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if v.len() == 2 && v[0] == "Self" { format!("{}::{}", self.owner, v[1]) } else { v.join("::") }
    }
    fn fresh(&mut self) -> usize { self.n += 1; self.n }

    /// the source or adapter chain `e` as an index-based sequence for loop number k
    fn seq(&mut self, e: &Expr, k: usize) -> R<Seq1> {
        match e {
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.iters.contains(&i.to_string())) => {
                let q = self.fresh();
                let s = format_ident!("__s{}_{}", k, q);
                return Ok(Seq1 { setup: vec![quote!(let #s = #p;)], len: quote!(VNth::v_len(&#s)), elem: Box::new(move |i| (vec![], ElemX::E(quote!(VNth::v_nth(&#s, #i))))), range_start: None });
            }
            Expr::Paren(p) => return self.seq(&p.expr, k),
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                let (a, b) = (r.start.as_ref().ok_or("open range")?, r.end.as_ref().ok_or("open range")?);
                let (a, b) = (self.ex(a), self.ex(b));
                let m = self.fresh();
                let (ia, ib) = (format_ident!("__a{}_{}", k, m), format_ident!("__b{}_{}", k, m));
                return Ok(Seq1 { setup: vec![quote!(let #ia = #a;), quote!(let #ib = #b;)], len: quote!((if #ib < #ia { 0 } else { #ib - #ia })),
                    elem: { let ia = ia.clone(); Box::new(move |i| (vec![], ElemX::E(quote!((#ia + #i))))) }, range_start: Some(quote!(#ia, #ib)) });
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => {
                        let x = self.ex(&m.receiver);
                        let q = self.fresh();
                        let (t, s) = (format_ident!("__t{}_{}", k, q), format_ident!("__s{}_{}", k, q));
                        let setup = if simple(&m.receiver) { vec![quote!(let #s = (#x).v_slice();)] } else { vec![quote!(let #t = #x;), quote!(let #s = #t.v_slice();)] };
                        return Ok(Seq1 { setup, len: quote!(VNth::v_len(&#s)), elem: Box::new(move |i| (vec![], ElemX::E(quote!(VNth::v_nth(&#s, #i))))), range_start: None });
                    }
                    ("into_iter", 0) => return self.seq_or_value(&m.receiver, k),
                    ("elements", 0) => {
                        let x = self.ex(&m.receiver);
                        let q = self.fresh();
                        let s = format_ident!("__s{}_{}", k, q);
                        return Ok(Seq1 { setup: vec![quote!(let #s = (#x).v_elements();)], len: quote!(VNth::v_len(&#s)), elem: Box::new(move |i| (vec![], ElemX::E(quote!(VNth::v_nth(&#s, #i))))), range_start: None });
                    }
                    ("split", 1) => {
                        let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] else { return Err("split at something else than a character".into()) };
                        let x = self.ex(&m.receiver);
                        let q = self.fresh();
                        let s = format_ident!("__s{}_{}", k, q);
                        return Ok(Seq1 { setup: vec![quote!(let #s = (#x).v_split(#c);)], len: quote!(VNth::v_len(&#s)), elem: Box::new(move |i| (vec![], ElemX::E(quote!(VNth::v_nth(&#s, #i))))), range_start: None });
                    }
                    ("chunks", 1) => {
                        let x = self.ex(&m.receiver);
                        let w = self.ex(&m.args[0]);
                        let q = self.fresh();
                        let (s, wv) = (format_ident!("__s{}_{}", k, q), format_ident!("__w{}_{}", k, q));
                        return Ok(Seq1 { setup: vec![quote!(let #s = (#x).v_slice();), quote!(let #wv = #w;)], len: quote!(vchunks_len(#s, #wv)), elem: Box::new(move |i| (vec![], ElemX::E(quote!(vchunk(#s, #wv, #i))))), range_start: None });
                    }
                    ("zip", 1) => {
                        let a = self.seq(&m.receiver, k)?;
                        let b = self.seq_or_value(&m.args[0], k)?;
                        let mut setup = a.setup;
                        setup.extend(b.setup);
                        let (la, lb) = (a.len, b.len);
                        let (ea, eb) = (a.elem, b.elem);
                        return Ok(Seq1 { setup, len: quote!(vmin(#la, #lb)), range_start: None,
                            elem: Box::new(move |i| { let (mut s, x) = ea(i.clone()); let (s2, y) = eb(i); s.extend(s2); (s, ElemX::T(vec![x, y])) }) });
                    }
                    ("enumerate", 0) => {
                        let a = self.seq(&m.receiver, k)?;
                        let ea = a.elem;
                        return Ok(Seq1 { setup: a.setup, len: a.len, range_start: None, elem: Box::new(move |i| { let (s, x) = ea(i.clone()); (s, ElemX::T(vec![ElemX::E(i), x])) }) });
                    }
                    ("map", 1) => {
                        let a = self.seq(&m.receiver, k)?;
                        let ea = a.elem;
                        match &m.args[0] {
                            Expr::Closure(c) => {
                                let mut c = c.clone();
                                c.body = Box::new(unreturn(&c.body));
                                if has_return(&c.body) { return Err("return inside a closure".into()); }
                                let body = self.ex(&c.body);
                                let pat = c.inputs.first().cloned().ok_or("closure without parameter")?;
                                let q = self.fresh();
                                let id = format_ident!("__e{}_{}", k, q);
                                let (mut t0, mut n) = (vec![], self.n);
                                bind(&pat, &ElemX::E(quote!(x)), &mut t0, &mut n)?;
                                self.n += 40;
                                let n0 = self.n;
                                let fin = matches!(&*c.body, Expr::Block(_));
                                return Ok(Seq1 { setup: a.setup, len: a.len, range_start: None, elem: Box::new(move |i| {
                                    let (mut s, x) = ea(i);
                                    let mut n = n0;
                                    let mut lets = vec![];
                                    let _ = bind(&pat, &x, &mut lets, &mut n);
                                    let _ = fin;
                                    s.push(quote!(let #id = { #(#lets)* #body };));
                                    (s, ElemX::E(quote!(#id)))
                                }) });
                            }
                            Expr::Path(p) => {
                                let mut p = p.clone();
                                Ty.visit_path_mut(&mut p.path);
                                self.info.calls.push(last(&p.path));
                                return Ok(Seq1 { setup: a.setup, len: a.len, range_start: None, elem: Box::new(move |i| { let (s, x) = ea(i); let x = x.ts(); (s, ElemX::E(quote!(#p(#x)))) }) });
                            }
                            _ => return Err("map over an unknown function".into()),
                        }
                    }
                    ("rev", 0) => {
                        let a = self.seq(&m.receiver, k)?;
                        let ea = a.elem;
                        let q = self.fresh();
                        let l = format_ident!("__r{}_{}", k, q);
                        let mut setup = a.setup;
                        let la = a.len;
                        setup.push(quote!(let #l: usize = #la;));
                        return Ok(Seq1 { setup, len: quote!(#l), range_start: None, elem: { let l = l.clone(); Box::new(move |i| ea(quote!((#l - 1 - #i)))) } });
                    }
                    ("take", 1) => { let a = self.seq(&m.receiver, k)?; let t = self.ex(&m.args[0]); let la = a.len; return Ok(Seq1 { setup: a.setup, len: quote!(vmin(#la, #t)), elem: a.elem, range_start: None }); }
                    ("skip", 1) => {
                        let a = self.seq(&m.receiver, k)?;
                        let t = self.ex(&m.args[0]);
                        let ea = a.elem;
                        let la = a.len;
                        let t2 = t.clone();
                        return Ok(Seq1 { setup: a.setup, len: quote!(vminus(#la, #t)), range_start: None, elem: Box::new(move |i| ea(quote!((#i + #t2)))) });
                    }
                    ("step_by", 1) => {
                        let a = self.seq(&m.receiver, k)?;
                        let t = self.ex(&m.args[0]);
                        let ea = a.elem;
                        let la = a.len;
                        let t2 = t.clone();
                        return Ok(Seq1 { setup: a.setup, len: quote!(vceil(#la, #t)), range_start: None, elem: Box::new(move |i| ea(quote!((#i * #t2)))) });
                    }
                    ("cloned", 0) | ("copied", 0) => { let a = self.seq(&m.receiver, k)?; let ea = a.elem; return Ok(Seq1 { setup: a.setup, len: a.len, range_start: None, elem: Box::new(move |i| { let (s, x) = ea(i); let x = x.ts(); (s, ElemX::E(quote!((*#x)))) }) }); }
                    ("filter", _) | ("flat_map", _) | ("filter_map", _) | ("take_while", _) | ("skip_while", _) | ("scan", _) | ("chain", _) | ("windows", _) | ("peekable", _) | ("iter_mut", _) | ("drain", _) => return Err(format!("iterator method {name}")),
                    _ => {}
                }
            }
            _ => {}
        }
        Err("not an iterator chain".into())
    }
    /// an argument of zip, or the collection of a for loop: a chain, or a value that is turned into an iterator
    fn seq_or_value(&mut self, e: &Expr, k: usize) -> R<Seq1> {
        if is_chain(e, &self.iters) { return self.seq(e, k); }
        let x = self.ex(e);
        let q = self.fresh();
        let s = format_ident!("__s{}_{}", k, q);
        Ok(Seq1 { setup: vec![quote!(let #s = #x;)], len: quote!(VNth::v_len(&#s)), elem: Box::new(move |i| (vec![], ElemX::E(quote!(VNth::v_nth(&#s, #i))))), range_start: None })
    }
    /// rewritten expression
    fn ex(&mut self, e: &Expr) -> Expr { let mut x = e.clone(); self.visit_expr_mut(&mut x); x }

    fn new_loop(&mut self, what: &str) -> usize { self.info.loops.push(what.to_string()); self.info.loops.len() }
    /// what the loop runs over is part of its kind: a range, or something else
    fn over(&mut self, k: usize, e: &Expr) {
        fn base(e: &Expr) -> &Expr { match e { Expr::Paren(p) => base(&p.expr), Expr::MethodCall(m) => base(&m.receiver), e => e } }
        if matches!(base(e), Expr::Range(_)) { self.info.loops[k - 1].push_str(" over a range"); }
    }

    fn while_loop(&mut self, k: usize, s: Seq1, pre: Vec<TokenStream>, body: impl Fn(Vec<TokenStream>, ElemX) -> TokenStream, result: TokenStream) -> TokenStream {
        let (i, l) = (format_ident!("__i{}", k), format_ident!("__L{}", k));
        let k_ = Literal(k);
        let setup = s.setup;
        if let Some(r) = s.range_start {
            // a plain range counts in its own variable
            let r: Vec<String> = r.to_string().split(',').map(|x| x.trim().to_string()).collect();
            let (a, b) = (format_ident!("{}", r[0]), format_ident!("{}", r[1]));
            let body = body(vec![quote!(let __c = #i; #i = #i + 1;)], ElemX::E(quote!(__c)));
            let body = rename(body, "__c", &format!("__c{k}"));
            return quote!({ #(#setup)* #(#pre)* let mut #i = #a; while #i < #b { __vx_loop!(#k_ r #a #b); #body } #result });
        }
        let len = s.len;
        let c = format_ident!("__c{}", k);
        let (st, el) = (s.elem)(quote!(#c));
        let mut pre_b = vec![quote!(let #c = #i; #i = #i + 1;)];
        pre_b.extend(st);
        let body = body(pre_b, el);
        quote!({ #(#setup)* let #l: usize = #len; #(#pre)* let mut #i: usize = 0; while #i < #l { __vx_loop!(#k_); #body } #result })
    }

    fn sink(&mut self, m: &ExprMethodCall) -> Option<R<Expr>> {
        let name = m.method.to_string();
        if !["collect", "fold", "reduce", "for_each", "all", "any", "sum", "product"].contains(&name.as_str()) || !is_chain(&m.receiver, &self.iters) { return None; }
        Some(self.sink2(m, &name))
    }
    fn sink2(&mut self, m: &ExprMethodCall, name: &str) -> R<Expr> {
        let k = self.new_loop(name);
        self.over(k, &m.receiver);
        let s = self.seq(&m.receiver, k)?;
        let v = format_ident!("__v{}", k);
        let i = format_ident!("__i{}", k);
        let clos = |m: &ExprMethodCall, j: usize| -> R<ExprClosure> { match m.args.get(j) { Some(Expr::Closure(c)) => { let mut c = c.clone(); c.body = Box::new(unreturn(&c.body)); if has_return(&c.body) { Err("return inside a closure".into()) } else { Ok(c) } }, _ => Err("closure expected".into()) } };
        let ts = match name {
            "collect" => {
                if let Some(t) = &m.turbofish {
                    let t = t.to_token_stream().to_string();
                    if t.contains("HashMap") {
                        // inserted one by one, in whatever order they come
                        let ts = self.while_loop(k, s, vec![quote!(let mut #v = HashMap::vdefault();)], |b, e| { match e { ElemX::T(x) if x.len() == 2 => { let (a, c) = (x[0].ts(), x[1].ts()); quote!(#(#b)* #v.v_insert(#a, #c);) }, e => { let e = e.ts(); quote!(#(#b)* let __e = #e; #v.v_insert(__e.0, __e.1);) } } }, quote!(#v));
                        return parse2(ts).map_err(|e| format!("internal: {e}"));
                    }
                    if !t.contains("Vec") { return Err("collect into something else than a vector".into()); }
                }
                let _ = i;
                self.while_loop(k, s, vec![quote!(let mut #v = Vec::new();)], |b, e| { let e = e.ts(); quote!(#(#b)* #v.push(#e);) }, quote!(#v))
            }
            "for_each" => {
                let c = clos(m, 0)?;
                let body = self.ex(&c.body);
                let mut n = self.n; self.n += 40;
                let pat = c.inputs[0].clone();
                n += 1;
                self.while_loop(k, s, vec![], move |b, e| { let mut l = vec![]; let mut n = n; let _ = bind(&pat, &e, &mut l, &mut n); quote!(#(#b)* #(#l)* #body;) }, quote!(()))
            }
            "all" | "any" => {
                let c = clos(m, 0)?;
                let body = self.ex(&c.body);
                let n = self.n; self.n += 40;
                let pat = c.inputs[0].clone();
                let (init, set) = if name == "all" { (quote!(true), quote!(if !__cond { #v = false; break; })) } else { (quote!(false), quote!(if __cond { #v = true; break; })) };
                self.while_loop(k, s, vec![quote!(let mut #v = #init;)], move |b, e| { let mut l = vec![]; let mut n = n; let _ = bind(&pat, &e, &mut l, &mut n); quote!(#(#b)* #(#l)* let __cond = #body; #set) }, quote!(#v))
            }
            "fold" => {
                let init = self.ex(&m.args[0]);
                let c = clos(m, 1)?;
                let body = self.ex(&c.body);
                let n = self.n; self.n += 40;
                let (pa, pe) = (c.inputs[0].clone(), c.inputs[1].clone());
                let v2 = v.clone();
                self.while_loop(k, s, vec![quote!(let mut #v = #init;)], move |b, e| { let mut l = vec![]; let mut n = n; let _ = bind(&pa, &ElemX::E(quote!(#v2)), &mut l, &mut n); let _ = bind(&pe, &e, &mut l, &mut n); quote!(#(#b)* #(#l)* #v2 = #body;) }, quote!(#v))
            }
            "sum" | "product" => {
                let (z, op) = if name == "sum" { (quote!(Fr::zero()), quote!(+)) } else { (quote!(Fr::one()), quote!(*)) };
                let v2 = v.clone();
                self.while_loop(k, s, vec![quote!(let mut #v = #z;)], move |b, e| { let e = e.ts(); quote!(#(#b)* #v2 = #v2 #op #e;) }, quote!(#v))
            }
            "reduce" => {
                let c = clos(m, 0)?;
                let body = self.ex(&c.body);
                let n = self.n; self.n += 40;
                let (pa, pe) = (c.inputs[0].clone(), c.inputs[1].clone());
                let l = format_ident!("__L{}", k);
                let k_ = Literal(k);
                let (setup, len) = (s.setup, s.len);
                let (s0, e0) = (s.elem)(quote!(0usize));
                let e0 = e0.ts();
                let c_ = format_ident!("__c{}", k);
                let (s1, e1) = (s.elem)(quote!(#c_));
                let mut lets = vec![];
                let mut n2 = n;
                if s0.iter().any(|t| t.to_string().contains("__vx_loop")) {
                    bind(&pa, &ElemX::E(quote!(__acc)), &mut lets, &mut n2)?;
                    bind(&pe, &ElemX::E(quote!(__elem)), &mut lets, &mut n2)?;
                    let e1 = e1.ts();
                    return parse2(quote!({ #(#setup)* let #l: usize = #len; let mut #v = None; let mut #i: usize = 0; while #i < #l { __vx_loop!(#k_); let #c_ = #i; #i = #i + 1; #(#s1)* let __elem = #e1; #v = match #v { None => Some(__elem), Some(__acc) => Some({ #(#lets)* #body }) }; } #v })).map_err(|e| format!("internal: {e}"));
                }
                bind(&pa, &ElemX::E(quote!(#v)), &mut lets, &mut n2)?;
                bind(&pe, &e1, &mut lets, &mut n2)?;
                quote!({ #(#setup)* let #l: usize = #len; if #l == 0 { None } else { #(#s0)* let mut #v = #e0; let mut #i: usize = 1; while #i < #l { __vx_loop!(#k_); let #c_ = #i; #i = #i + 1; #(#s1)* #(#lets)* #v = #body; } Some(#v) } })
            }
            _ => return Err(format!("iterator method {name}")),
        };
        parse2(ts).map_err(|e| format!("internal: {e}"))
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> R<Expr> {
        if f.label.is_some() { return Err("labelled loop".into()); }
        let k = self.new_loop("for");
        self.over(k, &f.expr);
        // for x in &mut v / v.iter_mut(): the element is the place itself
        let mutsrc: Option<Expr> = match &*f.expr {
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            Expr::MethodCall(m) if m.method == "iter_mut" => Some((*m.receiver).clone()),
            _ => None,
        };
        if let Some(src) = mutsrc {
            let Pat::Ident(p) = &*f.pat else { return Err("pattern over a mutable iterator".into()) };
            let (i, c, l) = (format_ident!("__i{}", k), format_ident!("__c{}", k), format_ident!("__L{}", k));
            let k_ = Literal(k);
            let mut body = f.body.clone();
            let mut s = DerefTo { id: p.ident.to_string(), to: parse_quote!(#src[#c]), bad: false };
            s.visit_block_mut(&mut body);
            if s.bad { return Err("mutable iteration variable used otherwise than through *".into()); }
            self.visit_block_mut(&mut body);
            let st = &body.stmts;
            return parse2(quote!({ let #l: usize = (#src).v_slice().len(); let mut #i: usize = 0; while #i < #l { __vx_loop!(#k_); let #c = #i; #i = #i + 1; #(#st)* } })).map_err(|e| e.to_string());
        }
        let s = self.seq_or_value(&f.expr, k)?;
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let n = self.n; self.n += 40;
        let pat = (*f.pat).clone();
        let st = body.stmts.clone();
        let ts = self.while_loop(k, s, vec![], move |b, e| { let mut l = vec![]; let mut n = n; let _ = bind(&pat, &e, &mut l, &mut n); quote!(#(#b)* #(#l)* #(#st)*) }, quote!());
        parse2(ts).map_err(|e| format!("internal: {e}"))
    }
}

struct DerefTo { id: String, to: Expr, bad: bool }
impl VisitMut for DerefTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) { if let Expr::Path(p) = &*u.expr { if p.path.is_ident(&self.id) { *e = self.to.clone(); return; } } } }
        if let Expr::Path(p) = e { if p.path.is_ident(&self.id) { self.bad = true; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn rename(t: TokenStream, from: &str, to: &str) -> TokenStream {
    t.into_iter().map(|x| match x {
        proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(to, i.span())),
        proc_macro2::TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), rename(g.stream(), from, to)); h.set_span(g.span()); proc_macro2::TokenTree::Group(h) }
        x => x,
    }).collect()
}
#[allow(non_snake_case)]
fn Literal(k: usize) -> proc_macro2::Literal { proc_macro2::Literal::usize_unsuffixed(k) }

fn has_return(e: &Expr) -> bool {
    struct H(bool);
    impl<'a> syn::visit::Visit<'a> for H {
        fn visit_expr(&mut self, e: &'a Expr) { if matches!(e, Expr::Closure(_)) { return; } if matches!(e, Expr::Return(_) | Expr::Try(_)) { self.0 = true; } syn::visit::visit_expr(self, e); }
    }
    let mut h = H(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

fn is_chain(e: &Expr, its: &[String]) -> bool {
    match e {
        Expr::Paren(p) => is_chain(&p.expr, its),
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| its.contains(&i.to_string())),
        Expr::Range(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "into_iter" | "iter_mut" | "chunks" => true,
                "split" => m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. })),
                "elements" if m.args.is_empty() => true,
                "map" | "zip" | "enumerate" | "rev" | "take" | "skip" | "step_by" | "cloned" | "copied" | "filter" | "flat_map" | "chain" | "filter_map" => is_chain(&m.receiver, its),
                _ => false,
            }
        }
        _ => false,
    }
}

fn last(p: &Path) -> String { p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") }

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) { Ty.visit_path_mut(p); }
    fn visit_type_mut(&mut self, t: &mut Type) { Ty.visit_type_mut(t); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let hid = match &s {
                Stmt::Local(l) => crate::hidden(&l.attrs),
                Stmt::Macro(m) => crate::hidden(&m.attrs) || m.mac.path.segments.last().map_or(false, |s| ["println", "eprintln", "print", "eprint", "debug_assert", "debug_assert_eq"].contains(&s.ident.to_string().as_str())),
                Stmt::Expr(e, _) => expr_attrs(e).map_or(false, |a| crate::hidden(a)),
                _ => false,
            };
            if hid { continue; }
            match s {
                Stmt::Macro(m) => {
                    let t = m.mac.tokens.clone();
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    match mac(&name, t) {
                        Ok(mut e) => { self.visit_expr_mut(&mut e); out.push(Stmt::Expr(e, Some(Default::default()))); }
                        Err(x) => self.fail(x),
                    }
                }
                Stmt::Item(_) => self.fail("item inside a function"),
                Stmt::Local(mut l) => {
                    if let Pat::Ident(p) = &l.pat { if let Some(i) = &l.init { if matches!(&*i.expr, Expr::Repeat(_) | Expr::Array(_)) { self.arrays.push(p.ident.to_string()); } } }
                    l.attrs.clear();
                    // a variable that holds an iterator: `let it = x.iter();` holds the sequence instead
                    if let Pat::Ident(p) = &l.pat {
                        let id = p.ident.to_string();
                        let it = match &l.init { Some(i) if i.diverge.is_none() => match &*i.expr {
                            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => Some((*m.receiver).clone()).map(|r| (r, true)),
                            Expr::MethodCall(m) if m.args.is_empty() && m.method == "into_iter" && !is_chain(&m.receiver, &self.iters) => Some(((*m.receiver).clone(), false)),
                            _ => None }, _ => None };
                        if let Some((r, by_ref)) = it {
                            let r = self.ex(&r);
                            let pi = &p.ident;
                            out.push(if by_ref { parse_quote!(let #pi = (#r).v_slice();) } else { parse_quote!(let #pi = #r;) });
                            self.iters.push(id);
                            continue;
                        }
                        self.iters.retain(|x| *x != id);
                        self.refs.retain(|x| *x != id);
                        if let Some(i) = &l.init { if matches!(&*i.expr, Expr::Reference(_)) { self.refs.push(id); } }
                    }
                    visit_mut::visit_local_mut(self, &mut l);
                    // let [a, b] = e;
                    if let (Pat::Slice(ps), Some(i)) = (&l.pat, &l.init) {
                        let n = ps.elems.len();
                        let id = format_ident!("__arr{}", self.fresh());
                        let e = &i.expr;
                        let nl = Literal(n);
                        out.push(parse_quote!(let #id: [_; #nl] = #e;));
                        for (k, p) in ps.elems.iter().enumerate() { if matches!(p, Pat::Rest(_)) { self.fail("slice pattern"); } let kl = Literal(k); out.push(parse_quote!(let #p = #id[#kl];)); }
                        continue;
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, semi));
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Group(g) => { *e = (*g.expr).clone(); return self.visit_expr_mut(e); }
            Expr::MethodCall(m) => {
                // X.serialize_uncompressed(W).expect(..) / .unwrap()
                if (m.method == "expect" || m.method == "unwrap") && matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "serialize_uncompressed" || x.method == "serialize_compressed") {
                    let Expr::MethodCall(x) = (*m.receiver).clone() else { unreachable!() };
                    let w = match &x.args[0] { Expr::Call(c) => c.args[0].clone(), a => a.clone() };
                    let recv = self.ex(&x.receiver);
                    let meth = if x.method == "serialize_uncompressed" { format_ident!("vserialize") } else { format_ident!("vserialize_compressed") };
                    *e = parse_quote!(#recv.#meth(#w));
                    return;
                }
                // conversion of a parameter `impl Into<Fr>`
                if m.method == "into" && m.args.is_empty() { if let Expr::Path(p) = &*m.receiver { if p.path.get_ident().map_or(false, |i| self.intos.contains(&i.to_string())) { let p = p.clone(); *e = parse_quote!(into_fr(#p)); return; } } }
                if let Some(r) = self.sink(m) {
                    match r { Ok(x) => *e = x, Err(x) => self.fail(x) }
                    return;
                }
                // x[a..b].try_into().unwrap(): a slice of a known length taken as an array
                if (m.method == "unwrap" || m.method == "expect") && matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "try_into" && matches!(&*x.receiver, Expr::Index(i) if matches!(&*i.index, Expr::Range(_)))) {
                    let Expr::MethodCall(x) = (*m.receiver).clone() else { unreachable!() };
                    let r = x.receiver;
                    let r = self.ex(&parse_quote!(&#r));
                    *e = parse_quote!(v_try_array(#r));
                    return;
                }
                // array.map(closure), option.map(closure)
                if m.method == "map" && m.args.len() == 1 && !is_chain(&m.receiver, &self.iters) {
                    let c: Option<ExprClosure> = match &m.args[0] { Expr::Closure(c) => Some(c.clone()), Expr::Path(p) => Some(parse_quote!(|__p| #p(__p))), _ => None };
                    if let Some(c) = c { if !has_return(&c.body) && c.inputs.len() == 1 {
                        let mut base = (*m.receiver).clone();
                        loop { base = match base { Expr::MethodCall(x) if x.args.is_empty() && (x.method == "clone" || x.method == "each_ref") => *x.receiver, Expr::Paren(x) => *x.expr, Expr::Reference(x) => *x.expr, x => break { base = x; } } }
                        let arr = match &base { Expr::Path(p) => self.arrays.iter().any(|a| p.path.is_ident(a)), Expr::Array(_) | Expr::Repeat(_) => true,
                            Expr::Field(f) => matches!(&f.member, Member::Named(i) if ARRF.with(|s| s.borrow().contains(&i.to_string()))), _ => false };
                        let pat = c.inputs[0].clone();
                        if arr {
                            let k = self.new_loop("array map");
                            let unit = matches!(&base, Expr::Repeat(r) if matches!(&*r.expr, Expr::Tuple(t) if t.elems.is_empty()));
                            let s = if unit {
                                let Expr::Repeat(r) = &base else { unreachable!() };
                                let n = self.ex(&r.len);
                                Seq1 { setup: vec![], len: quote!(#n), elem: Box::new(move |_| (vec![], ElemX::E(quote!(())))), range_start: None }
                            } else {
                                let p = match &base { Expr::Path(_) | Expr::Field(_) => base.clone(), x => self.ex(x) };
                                let cl = !matches!(&base, Expr::Path(_));
                                let id = format_ident!("__a{}", k);
                                let setup = if matches!(&base, Expr::Path(_) | Expr::Field(_)) { vec![] } else { vec![quote!(let #id = #p;)] };
                                let p: Expr = if setup.is_empty() { p } else { parse_quote!(#id) };
                                let q = p.clone();
                                Seq1 { setup, len: quote!((#p).v_slice().len()), elem: Box::new(move |i| (vec![], ElemX::E(if cl { quote!(#q[#i].vclone()) } else { quote!(#q[#i]) }))), range_start: None }
                            };
                            let body = self.ex(&c.body);
                            let n = self.n; self.n += 40;
                            let v = format_ident!("__v{}", k);
                            let ts = self.while_loop(k, s, vec![quote!(let mut #v = Vec::new();)], |b, e| { let mut l = vec![]; let mut n = n; let _ = bind(&pat, &e, &mut l, &mut n); quote!(#(#b)* #(#l)* let __x = #body; #v.push(__x);) }, quote!(v_to_array(#v)));
                            match parse2(ts) { Ok(x) => *e = x, Err(x) => self.fail(x.to_string()) }
                        } else {
                            // a value of type Option (on any other type the result does not compile, and nothing is claimed)
                            let r = self.ex(&m.receiver);
                            let body = self.ex(&c.body);
                            let pat = match pat { Pat::Type(t) => *t.pat, p => p };
                            *e = parse_quote!((match #r { Some(#pat) => Some(#body), None => None }));
                        }
                        return;
                    } }
                }
                if ["fold", "reduce", "for_each", "filter", "flat_map", "windows", "scan", "drain", "retain", "sort_by", "dedup", "product"].contains(&m.method.to_string().as_str()) { self.fail(format!("method {}", m.method)); }
                match m.method.to_string().as_str() {
                    "into" if m.args.is_empty() => {
                        m.method = format_ident!("vinto");
                        if let Expr::Lit(l) = &mut *m.receiver { if let Lit::Int(i) = &l.lit { if i.suffix().is_empty() { l.lit = Lit::Int(LitInt::new(&format!("{}i32", i.base10_digits()), i.span())); } } }
                    }
                    "clone" if m.args.is_empty() => m.method = format_ident!("vclone"),
                    "to_string" | "to_vec" | "chars" | "take" | "unwrap_or_default" | "gen" | "pow" | "parse" | "square" | "copy_from_slice" | "append" | "unwrap_or" | "resize" | "next_power_of_two" | "ilog2" | "checked_shl" | "to_le_bytes" | "get_mut" | "first_mut" | "first" | "last" | "last_mut" | "rotate_left" | "rotate_right" | "insert" | "remove" | "get" | "strip_prefix" | "as_ref" | "as_slice" | "abs" | "is_zero" | "is_one" | "inverse" | "is_empty" | "iter" | "reverse" | "as_mut" => {
                        let n = format!("v_{}", m.method);
                        if ["first_mut", "first", "last", "is_empty", "as_ref", "unwrap_or", "as_slice", "take"].contains(&m.method.to_string().as_str()) { } else { m.method = format_ident!("{}", n); }
                    }
                    _ => {}
                }
                self.info.calls.push(format!(".{}", m.method));
                visit_mut::visit_expr_method_call_mut(self, m);
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    if let Some(q) = p.qself.take() {
                        // <T>::f(..)
                        let Type::Path(tp) = *q.ty else { self.fail("qualified path"); return };
                        let mut path = tp.path.clone();
                        let tail: Vec<PathSegment> = p.path.segments.iter().skip(q.position).cloned().collect();
                        for s in tail { path.segments.push(s); }
                        p.path = path;
                    }
                    Ty.visit_path_mut(&mut p.path);
                    let n = p.path.segments.len();
                    if n >= 2 {
                        let (t, f) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
                        if f == "from" { if t == "String" { c.func = Box::new(p2("vstring")); } else { p.path.segments[n - 1].ident = format_ident!("vfrom"); } }
                        else if f == "default" && t != "Default" { p.path.segments[n - 1].ident = format_ident!("vdefault"); }
                        else if f == "default" && t == "Default" { c.func = Box::new(p2("VDef::v_def")); }
                        else if f == "from_le_bytes" && t == "u64" { c.func = Box::new(p2("vle64")); }
                        else if f == "with_capacity" && t == "Vec" { c.func = Box::new(p2("vec_with_capacity")); }
                    }
                }
                if let Expr::Path(p) = &*c.func { self.info.calls.push(last(&p.path)); }
                visit_mut::visit_expr_call_mut(self, c);
            }
            Expr::ForLoop(f) => { let f = f.clone(); match self.for_loop(&f) { Ok(x) => *e = x, Err(x) => self.fail(x) } }
            Expr::While(w) => {
                if w.label.is_some() { self.fail("labelled loop"); return; }
                let k = Literal(self.new_loop("while"));
                visit_mut::visit_expr_while_mut(self, w);
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#k);));
            }
            Expr::Loop(w) => {
                if w.label.is_some() { self.fail("labelled loop"); return; }
                let k = Literal(self.new_loop("loop"));
                visit_mut::visit_expr_loop_mut(self, w);
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#k);));
            }
            Expr::Closure(c) => {
                self.info.closures += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                let k = Literal(self.info.closures);
                let b = &c.body;
                if let ReturnType::Type(_, t) = &mut c.output { Ty.visit_type_mut(t); }
                let b: Expr = match &**b { Expr::Block(b) => { let s = &b.block.stmts; parse_quote!({ __vx_closure!(#k); #(#s)* }) } b => parse_quote!({ __vx_closure!(#k); #b }) };
                c.body = Box::new(b);
            }
            // &x[a..b]
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) => {
                let Expr::Index(i) = (*r.expr).clone() else { unreachable!() };
                let Expr::Range(g) = &*i.index else { unreachable!() };
                if !matches!(g.limits, RangeLimits::HalfOpen(_)) { self.fail("closed range"); return; }
                let x = self.ex(&i.expr);
                let a = g.start.as_ref().map(|a| self.ex(a));
                let b = g.end.as_ref().map(|a| self.ex(a));
                *e = match (a, b) {
                    (Some(a), Some(b)) => parse_quote!(v_range(&#x, #a, #b)),
                    (Some(a), None) => parse_quote!(v_range_from(&#x, #a)),
                    (None, Some(b)) => parse_quote!(v_range(&#x, 0, #b)),
                    (None, None) => parse_quote!((#x).v_slice()),
                };
            }
            Expr::Try(_) | Expr::Return(_) => { self.info.early = true; visit_mut::visit_expr_mut(self, e); }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match mac(&name, m.mac.tokens.clone()) { Ok(mut x) => { self.visit_expr_mut(&mut x); *e = x; } Err(x) => self.fail(x) }
            }
            Expr::Binary(b) => {
                visit_mut::visit_expr_binary_mut(self, b);
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)), BinOp::SubAssign(_) => Some(parse_quote!(-)), BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)), BinOp::RemAssign(_) => Some(parse_quote!(%)), _ => None,
                };
                if let Some(op) = op { let (l, r) = (&b.left, &b.right); *e = parse_quote!(#l = #l #op (#r)); return; }
                // x & (2^k - 1) and x >> k on machine words (vu takes only those) as remainder and quotient
                let lit = match &*b.right { Expr::Lit(l) => match &l.lit { Lit::Int(i) => i.base10_parse::<u64>().ok(), _ => None }, _ => None };
                if let Some(v) = lit {
                    let l = &b.left;
                    let l: Expr = match &**l { Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) => parse_quote!(*#l), x => x.clone() };
                    let place = &b.left;
                    match b.op {
                        BinOp::BitAnd(_) if v < (1 << 32) && (v + 1).is_power_of_two() => { let n = Literal((v + 1) as usize); *e = parse_quote!((vu(#l) % #n)); return; }
                        BinOp::BitAndAssign(_) if v < (1 << 32) && (v + 1).is_power_of_two() => { let n = Literal((v + 1) as usize); *e = parse_quote!(#place = (vu(#l) % #n)); return; }
                        BinOp::Shr(_) if v < 32 => { let n = Literal(1usize << v); *e = parse_quote!((vu(#l) / #n)); return; }
                        BinOp::ShrAssign(_) if v < 32 => { let n = Literal(1usize << v); *e = parse_quote!(#place = (vu(#l) / #n)); return; }
                        _ => {}
                    }
                }
                if matches!(b.op, BinOp::Rem(_)) {
                    if let Expr::Path(p) = &*b.left { if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) { let (l, r) = (&b.left, &b.right); *e = parse_quote!((*#l) % #r); } }
                    return;
                }
                if self.divq && matches!(b.op, BinOp::Div(_)) && !matches!(&*b.right, Expr::Lit(_)) { let (l, r) = (&b.left, &b.right); *e = parse_quote!(VDivQ::vdivq(#l, #r)); return; }
                // an operator on references: in function form, which is the same call
                let f = match b.op { BinOp::Add(_) => "Add::add", BinOp::Sub(_) => "Sub::sub", BinOp::Mul(_) => "Mul::mul", BinOp::Div(_) => "Div::div", _ => return };
                let mut l = &*b.left;
                while let Expr::Paren(p) = l { l = &p.expr; }
                let isref = match l { Expr::Reference(_) => true, Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())), _ => false };
                if isref { let f: Path = parse_str(f).unwrap(); let (l, r) = (&b.left, &b.right); *e = parse_quote!(#f(#l, #r)); }
            }
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() <= 2 && LITS.with(|l| l.borrow().contains_key(&self.const_key(&p.path))) => {
                let k = self.const_key(&p.path);
                *e = p2(&LITS.with(|l| l.borrow()[&k].clone()));
            }
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 2 && ["ZERO", "ONE", "GENERATOR"].contains(&p.path.segments[1].ident.to_string().as_str()) => {
                let f = format_ident!("{}", match p.path.segments[1].ident.to_string().as_str() { "ZERO" => "zero", "ONE" => "one", _ => "v_generator" });
                let t = &p.path.segments[0];
                *e = parse_quote!(#t::#f());
            }
            Expr::Struct(s) => {
                Ty.visit_path_mut(&mut s.path);
                s.fields = s.fields.iter().filter(|f| !f.member.to_token_stream().to_string().contains("phantom")).cloned().collect();
                for f in s.fields.iter_mut() { self.visit_expr_mut(&mut f.expr); }
            }
            Expr::Unsafe(_) | Expr::Async(_) | Expr::Await(_) => self.fail("unsafe or async"),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn expr_attrs(e: &Expr) -> Option<&[Attribute]> {
    Some(match e { Expr::Block(x) => &x.attrs, Expr::Call(x) => &x.attrs, Expr::MethodCall(x) => &x.attrs, Expr::Macro(x) => &x.attrs, Expr::If(x) => &x.attrs, Expr::ForLoop(x) => &x.attrs, _ => return None })
}

/// a closure bound to a name that is only ever called is put in place at its calls; its parameters become bindings
fn inline_closures(b: &mut Block) {
    use std::collections::HashMap as M;
    use syn::visit::Visit;
    #[derive(Default)]
    struct C { bound: M<String, usize>, uses: M<String, usize>, calls: M<String, usize>, clos: M<String, ExprClosure> }
    impl<'a> Visit<'a> for C {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { *self.bound.entry(p.ident.to_string()).or_default() += 1; syn::visit::visit_pat_ident(self, p); }
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { *self.uses.entry(i.to_string()).or_default() += 1; } }
        fn visit_macro(&mut self, m: &'a Macro) { for t in m.tokens.clone() { fn go(t: proc_macro2::TokenTree, u: &mut M<String, usize>) { match t { proc_macro2::TokenTree::Ident(i) => *u.entry(i.to_string()).or_default() += 1, proc_macro2::TokenTree::Group(g) => for x in g.stream() { go(x, u) }, _ => {} } } go(t, &mut self.uses); } }
        fn visit_expr_call(&mut self, c: &'a ExprCall) { if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { *self.calls.entry(i.to_string()).or_default() += 1; } } syn::visit::visit_expr_call(self, c); }
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if let Expr::Closure(c) = &*i.expr { if !has_return(&c.body) && c.capture.is_none() { self.clos.insert(p.ident.to_string(), c.clone()); } } }
            syn::visit::visit_local(self, l);
        }
    }
    let mut c = C::default();
    c.visit_block(b);
    // names a closure mentions must have one binding, so that they mean the same at the call
    let ok: M<String, ExprClosure> = c.clos.iter().filter(|(n, k)| {
        let mut d = C::default();
        d.visit_expr(&k.body);
        for p in &k.inputs { d.visit_pat(p); }
        let (calls, uses) = (c.calls.get(*n).copied().unwrap_or(0), c.uses.get(*n).copied().unwrap_or(0));
        c.bound.get(*n) == Some(&1) && calls > 0 && calls == uses && d.uses.keys().all(|u| d.bound.contains_key(u) || c.bound.get(u).copied().unwrap_or(0) <= 1) && !d.uses.contains_key(*n)
    }).map(|(n, k)| (n.clone(), k.clone())).collect();
    struct I(M<String, ExprClosure>);
    impl VisitMut for I {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!((&l.pat, &l.init), (Pat::Ident(p), Some(i)) if self.0.contains_key(&p.ident.to_string()) && matches!(&*i.expr, Expr::Closure(_)))));
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    if let Some(k) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())).cloned() {
                        if k.inputs.len() != c.args.len() { return; }
                        let lets: Vec<TokenStream> = k.inputs.iter().zip(c.args.iter()).map(|(p, a)| quote!(let #p = #a;)).collect();
                        let mut body = (*k.body).clone();
                        self.visit_expr_mut(&mut body);
                        let body = if let Expr::Block(bl) = &body { let s = &bl.block.stmts; quote!(#(#s)*) } else { quote!(#body) };
                        *e = match &k.output { ReturnType::Type(_, t) => parse_quote!({ #(#lets)* let __cl: #t = { #body }; __cl }), _ => parse_quote!({ #(#lets)* #body }) };
                    }
                }
            }
        }
    }
    if !ok.is_empty() { I(ok).visit_block_mut(b); }
}

/// format!: literal pieces and plain placeholders, joined
fn fmt(a: &syn::punctuated::Punctuated<Expr, Token![,]>) -> R<Expr> {
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = a.first() else { return Err("format! without a literal".into()) };
    let f = f.value();
    let mut e: Expr = parse_quote!(vfmt());
    let (mut lit, mut k) = (String::new(), 1);
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}'); }
            '{' => {
                let mut n = String::new();
                loop { match it.next() { Some('}') => break, Some(x) => n.push(x), None => return Err("format string".into()) } }
                let x: Expr = if n.is_empty() { k += 1; a.iter().nth(k - 1).cloned().ok_or("format arguments")? } else if let Ok(i) = parse_str::<Ident>(&n) { parse_quote!(#i) } else { return Err(format!("format placeholder {{{n}}}")) };
                if matches!(&x, Expr::Assign(_)) { return Err("named format argument".into()); }
                if !lit.is_empty() { let l = std::mem::take(&mut lit); e = parse_quote!(#e.v_lit(#l)); }
                e = match &x { Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => parse_quote!(#e.v_lit(#l)), _ => parse_quote!(#e.v_arg(&(#x))) };
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { e = parse_quote!(#e.v_lit(#lit)); }
    Ok(e)
}

/// `if c { return x; } rest` at the top of a closure's block as `if c { x } else { rest }`
fn unreturn(e: &Expr) -> Expr {
    let Expr::Block(b) = e else { return e.clone() };
    if !has_return(e) { return e.clone(); }
    fn go(st: &[Stmt]) -> Vec<Stmt> {
        for (i, s) in st.iter().enumerate() {
            match s {
                Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() => if let Some(Stmt::Expr(Expr::Return(r), _)) = f.then_branch.stmts.last() {
                    let n = f.then_branch.stmts.len() - 1;
                    let mut then = f.then_branch.stmts[..n].to_vec();
                    match &r.expr { Some(x) => then.push(Stmt::Expr((**x).clone(), None)), None => {} }
                    let rest = go(&st[i + 1..]);
                    let c = &f.cond;
                    let mut out = st[..i].to_vec();
                    out.push(Stmt::Expr(parse_quote!(if #c { #(#then)* } else { #(#rest)* }), None));
                    return out;
                },
                Stmt::Expr(Expr::Return(r), _) if i + 1 == st.len() => { let mut out = st[..i].to_vec(); if let Some(x) = &r.expr { out.push(Stmt::Expr((**x).clone(), None)); } return out; }
                _ => {}
            }
        }
        st.to_vec()
    }
    let st = go(&b.block.stmts);
    parse_quote!({ #(#st)* })
}

/// a local RefCell becomes the variable it holds; the run-time check of its borrows is dropped
fn uncell(b: &mut Block) {
    struct U(std::collections::HashSet<String>);
    fn cell(e: &Expr, names: &std::collections::HashSet<String>) -> Option<(Ident, String)> {
        let Expr::MethodCall(m) = e else { return None };
        let Expr::Path(p) = &*m.receiver else { return None };
        let i = p.path.get_ident()?;
        if m.args.is_empty() && names.contains(&i.to_string()) { Some((i.clone(), m.method.to_string())) } else { None }
    }
    impl VisitMut for U {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                let Stmt::Local(mut l) = s else { out.push(s); continue };
                let (id, ty) = match &l.pat { Pat::Ident(p) => (Some(p.ident.clone()), None), Pat::Type(t) => (if let Pat::Ident(p) = &*t.pat { Some(p.ident.clone()) } else { None }, Some((*t.ty).clone())), _ => (None, None) };
                if let (Some(id), Some(i)) = (&id, &mut l.init) {
                    if let Expr::Call(c) = &*i.expr { if let Expr::Path(p) = &*c.func { if p.path.to_token_stream().to_string().replace(' ', "").ends_with("RefCell::new") {
                        let x = &c.args[0];
                        self.0.insert(id.to_string());
                        let inner = ty.and_then(|t| if let Type::Path(p) = t { if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments { a.args.first().cloned() } else { None } } else { None });
                        out.push(match inner { Some(t) => parse_quote!(let mut #id: #t = #x;), None => parse_quote!(let mut #id = #x;) });
                        continue;
                    } } }
                    if let Some((n, m)) = cell(&i.expr, &self.0) { if n == *id && (m == "borrow_mut" || m == "borrow") { continue; } }
                }
                out.push(Stmt::Local(l));
            }
            b.stmts = out;
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Some((i, m)) = cell(e, &self.0) {
                match m.as_str() {
                    "borrow" | "borrow_mut" | "into_inner" => { *e = parse_quote!(#i); return; }
                    "take" => { *e = parse_quote!(v_take(&mut #i)); return; }
                    _ => {}
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    if b.to_token_stream().to_string().contains("RefCell") { U(Default::default()).visit_block_mut(b); }
}

/// macros
fn mac(name: &str, t: TokenStream) -> R<Expr> {
    use syn::parse::Parser;
    use syn::punctuated::Punctuated;
    let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()).map_err(|e| e.to_string());
    Ok(match name {
        "assert" => { let a = args()?; let c = &a[0]; parse_quote!(vassert(#c)) }
        "assert_eq" => { let a = args()?; let (x, y) = (&a[0], &a[1]); parse_quote!(vassert(#x == #y)) }
        "assert_ne" => { let a = args()?; let (x, y) = (&a[0], &a[1]); parse_quote!(vassert(#x != #y)) }
        "panic" | "todo" | "unreachable" | "unimplemented" => parse_quote!(vpanic()),
        "vec" => {
            if t.to_string().contains(';') {
                let p = |i: syn::parse::ParseStream| -> Result<(Expr, Expr)> { let a: Expr = i.parse()?; let _: Token![;] = i.parse()?; let b: Expr = i.parse()?; Ok((a, b)) };
                if let Ok((a, b)) = p.parse2(t.clone()) { return Ok(parse_quote!(vec_repeat(#a, #b))); }
            }
            let a = args()?;
            if a.is_empty() { return Ok(parse_quote!(Vec::new())); }
            let xs: Vec<&Expr> = a.iter().collect();
            let n = xs.len();
            let _ = n;
            parse_quote!({ let mut __w = Vec::new(); #(__w.push(#xs);)* __w })
        }
        "format" if std::env::var("VX_FMT").is_ok() => return fmt(&args()?),
        "format" => parse_quote!(vformat()),
        _ => return Err(format!("macro {name}!")),
    })
}

pub fn rewrite(sig: &Signature, block: &Block, consts: &BTreeMap<String, String>, owner: Option<&Type>, divq: bool) -> R<(String, String, Info)> {
    let mut sig = sig.clone();
    let mut b = block.clone();
    let mut rw = Rw { owner: owner.map(crate::tyname).unwrap_or_default(), info: Info::default(), err: None, consts, arrays: vec![], iters: vec![], intos: vec![], refs: vec![], n: 0, divq };
    for a in sig.inputs.iter() { if let FnArg::Typed(t) = a { if let (Pat::Ident(p), Type::Reference(_)) = (&*t.pat, &*t.ty) { rw.refs.push(p.ident.to_string()); } } }
    for a in sig.inputs.iter() { if let FnArg::Typed(t) = a { if let (Pat::Ident(p), Type::ImplTrait(i)) = (&*t.pat, &*t.ty) { if i.to_token_stream().to_string().contains("Into") { rw.intos.push(p.ident.to_string()); } } } }
    uncell(&mut b);
    inline_closures(&mut b);
    rw.visit_block_mut(&mut b);
    if let Some(e) = rw.err { return Err(e); }
    // generics: only const parameters stay
    sig.generics.params = sig.generics.params.iter().filter(|p| matches!(p, GenericParam::Const(_))).cloned().collect();
    sig.generics.where_clause = None;
    // mutable by-value parameters are re-bound in the body, so that the contract can speak about the argument
    let mut rebind = vec![];
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => {
                t.attrs.clear();
                Ty.visit_type_mut(&mut t.ty);
                if let Pat::Ident(p) = &mut *t.pat { if p.mutability.take().is_some() { let i = &p.ident; rebind.push(quote!(let mut #i = #i;)); } }
            }
            FnArg::Receiver(r) => { if r.reference.is_none() && r.mutability.take().is_some() { rebind.push(quote!(let mut self_ = self;)); } }
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        Ty.visit_type_mut(t);
        let s = t.to_token_stream().to_string();
        if s.starts_with("Self ::") {
            let n = s.trim_start_matches("Self ::").trim().to_string();
            if let Some(c) = rw.consts.get(&n) {
                let mut ty: Type = parse_str(c).map_err(|e| e.to_string())?;
                Ty.visit_type_mut(&mut ty);
                **t = ty;
            }
        }
    }
    let st = &b.stmts;
    let mut body = quote!({ #(#rebind)* __vx_start!(); #(#st)* });
    if rebind.iter().any(|r| r.to_string().contains("self_")) { body = quote!({ #(#rebind)* __vx_start!(); #(#st)* }); body = rename_self(body); }
    let ins = &sig.inputs;
    let (gi, _, _) = sig.generics.split_for_impl();
    let id = &sig.ident;
    let _ = owner;
    let out = match &sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
    let sigs = format!("fn {} {} ({})\u{1}{}", id, gi.to_token_stream(), ins.to_token_stream(), out);
    Ok((sigs, pretty(&body), rw.info))
}
fn rename_self(t: TokenStream) -> TokenStream {
    // `let mut self_ = self;` keeps its right-hand side
    let mut first = true;
    fn go(t: TokenStream, first: &mut bool) -> TokenStream {
        t.into_iter().map(|x| match x {
            proc_macro2::TokenTree::Ident(i) if i == "self" => { if *first { *first = false; proc_macro2::TokenTree::Ident(i) } else { proc_macro2::TokenTree::Ident(proc_macro2::Ident::new("self_", i.span())) } }
            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), first))),
            x => x,
        }).collect()
    }
    go(t, &mut first)
}

/// token text with line breaks at statements and blocks
pub fn pretty(t: &TokenStream) -> String {
    fn go(t: TokenStream, o: &mut String, d: usize, paren: bool) {
        let mut prev_joint = false;
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                    o.push_str(a);
                    let br = a == "{";
                    if br { o.push('\n'); o.push_str(&"  ".repeat(d + 1)); }
                    go(g.stream(), o, d + 1, !br);
                    if br { o.push('\n'); o.push_str(&"  ".repeat(d)); }
                    o.push_str(b);
                    if br { o.push('\n'); o.push_str(&"  ".repeat(d)); } else { o.push(' '); }
                    prev_joint = false;
                }
                proc_macro2::TokenTree::Punct(p) => {
                    o.push(p.as_char());
                    prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                    if p.as_char() == ';' && !paren { o.push('\n'); o.push_str(&"  ".repeat(d)); } else if !prev_joint { o.push(' '); }
                }
                x => { let _ = prev_joint; o.push_str(&x.to_string()); o.push(' '); }
            }
        }
    }
    let mut o = String::new();
    go(t.clone(), &mut o, 0, false);
    o
}
