//! vx: cuts functions and structs out of the current sources and rewrites them, mechanically, into the subset of
//! Rust that Verus accepts. usage: vx <repo-root> <file>...   prints one JSON document.
//! What the rewriting does and drops is listed in DESIGN.md ("Extraction").
mod rw;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// cfg(test), cfg(vp_hooks), #[test]
pub fn hidden(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t == "#[test]" || (t.starts_with("#[cfg(") && (t.contains("test") || t.contains("vp_hooks")) && !t.contains("not("))
    })
}

pub fn tyname(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", tyname(&r.elem)),
        _ => t.to_token_stream().to_string(),
    }
}

struct Out { fns: Vec<String>, structs: Vec<String> }

fn do_fn(file: &str, owner: Option<&Type>, trt: Option<&Path>, consts: &BTreeMap<String, String>, sig: &Signature, block: &Block, span: (usize, usize), o: &mut Out) {
    let name = sig.ident.to_string();
    let mut key = String::new();
    if let Some(t) = owner { key.push_str(&tyname(t)); key.push_str("::"); }
    if let Some(p) = trt {
        let l = p.segments.last().unwrap();
        key.push_str(&l.to_token_stream().to_string().replace(' ', ""));
        key.push_str("::");
    }
    key.push_str(&name);
    let r = rw::rewrite(sig, block, consts, owner, false);
    let q = match rw::rewrite(sig, block, consts, owner, true) { Ok(x) => x.1, Err(_) => String::new() };
    let (err, sigs, body, info) = match r {
        Ok(x) => (String::new(), x.0, x.1, x.2),
        // the signature is kept, so that callers can still be checked against the contract
        Err(e) => (e, rw::rewrite(sig, &parse_quote!({}), consts, owner, false).map(|x| x.0).unwrap_or_default(), String::new(), rw::Info::default()),
    };
    let params: Vec<String> = sig.inputs.iter().map(|a| match a { FnArg::Receiver(_) => "self".to_string(), FnArg::Typed(t) => t.pat.to_token_stream().to_string().replace("mut ", "") }).collect();
    let mut own = owner.map(|t| tyname(t)).unwrap_or_default();
    if own.starts_with('&') { own = own[1..].to_string(); }
    o.fns.push(format!("{{\"file\":{},\"key\":{},\"owner\":{},\"owner_ref\":{},\"trait\":{},\"name\":{},\"error\":{},\"sig\":{},\"body\":{},\"body_divq\":{},\"loops\":[{}],\"closures\":{},\"calls\":[{}],\"params\":[{}],\"lines\":[{},{}],\"early\":{}}}",
        js(file), js(&key), js(&own), matches!(owner, Some(Type::Reference(_))), js(&trt.map(|p| rw::ty_str_path(p)).unwrap_or_default()), js(&name), js(&err), js(&sigs), js(&body), js(if q == body { "" } else { &q }),
        info.loops.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), info.closures,
        info.calls.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        params.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), span.0, span.1, info.early));
}

/// constants whose value is a literal: their uses are replaced by the value
fn consts(items: &[Item]) {
    let mut put = |k: String, ty: &Type, e: &Expr| {
        let t = ty.to_token_stream().to_string().replace(' ', "");
        let mut e = e.clone();
        loop { let x = match &e { Expr::Paren(p) => (*p.expr).clone(), Expr::Group(p) => (*p.expr).clone(), _ => break }; e = x; }
        if let Expr::Lit(l) = &e {
            let v = match &l.lit { Lit::Str(_) => e.to_token_stream().to_string(), Lit::Int(i) => format!("({}{})", i.base10_digits(), if i.suffix().is_empty() { t.as_str() } else { i.suffix() }), _ => return };
            rw::LITS.with(|m| m.borrow_mut().insert(k, v));
        }
    };
    for it in items {
        match it {
            Item::Struct(s) if !hidden(&s.attrs) => for f in &s.fields { if let (Type::Array(_), Some(i)) = (&f.ty, &f.ident) { rw::ARRF.with(|m| m.borrow_mut().insert(i.to_string())); } },
            Item::Const(c) if !hidden(&c.attrs) => put(c.ident.to_string(), &c.ty, &c.expr),
            Item::Impl(i) if !hidden(&i.attrs) => for x in &i.items { if let ImplItem::Const(c) = x { put(format!("{}::{}", tyname(&i.self_ty), c.ident), &c.ty, &c.expr) } },
            _ => {}
        }
    }
}

fn items(file: &str, items: &[Item], o: &mut Out) {
    for it in items {
        match it {
            Item::Fn(f) if !hidden(&f.attrs) => {
                let s = (f.sig.ident.span().start().line, f.block.brace_token.span.close().end().line);
                do_fn(file, None, None, &BTreeMap::new(), &f.sig, &f.block, s, o)
            }
            Item::Impl(i) if !hidden(&i.attrs) => {
                let mut consts = BTreeMap::new();
                for x in &i.items {
                    if let ImplItem::Type(t) = x { consts.insert(t.ident.to_string(), t.ty.to_token_stream().to_string()); }
                }
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if hidden(&f.attrs) { continue; }
                        let s = (f.sig.ident.span().start().line, f.block.brace_token.span.close().end().line);
                        do_fn(file, Some(&i.self_ty), i.trait_.as_ref().map(|t| &t.1), &consts, &f.sig, &f.block, s, o);
                    }
                }
            }
            Item::Struct(s) if !hidden(&s.attrs) => {
                let (txt, derives) = rw::struct_str(s);
                o.structs.push(format!("{{\"file\":{},\"name\":{},\"text\":{},\"derives\":{}}}", js(file), js(&s.ident.to_string()), js(&txt), js(&derives)));
            }
            Item::Enum(s) if !hidden(&s.attrs) => {
                let mut e = s.clone();
                let derives = rw::derives(&e.attrs);
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                o.structs.push(format!("{{\"file\":{},\"name\":{},\"text\":{},\"derives\":{}}}", js(file), js(&s.ident.to_string()), js(&e.to_token_stream().to_string()), js(&derives)));
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out { fns: vec![], structs: vec![] };
    let mut errs = vec![];
    for f in &a[2..] {
        if let Ok(x) = std::fs::read_to_string(std::path::Path::new(&a[1]).join(f)).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) { consts(&x.items); }
    }
    for f in &a[2..] {
        let p = std::path::Path::new(&a[1]).join(f);
        match std::fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) {
            Ok(x) => items(f, &x.items, &mut o),
            Err(e) => errs.push(format!("{}", js(&format!("{f}: {e}")))),
        }
    }
    println!("{{\"functions\":[{}],\"structs\":[{}],\"errors\":[{}]}}", o.fns.join(",\n"), o.structs.join(",\n"), errs.join(","));
}
