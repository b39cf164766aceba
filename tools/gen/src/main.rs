//! Drives the real schema parser and code generator of /repo (xsd-internal) on requests read from stdin.
#[path = "../../json.rs"]
mod json;
use json::J;
use quote::ToTokens;
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[cfg(feature = "full")]
use xsd_internal::ast::{Name, Namespace, Namespaces};
use xsd_internal::xsd::schema::{Schema, SchemaError};

fn ty(t: &syn::Type) -> J {
    match t {
        syn::Type::Tuple(t) if t.elems.is_empty() => J::s("()"),
        syn::Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            let n = seg.ident.to_string();
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return J::Arr(vec![J::s(n), ty(t)]);
                }
            }
            J::s(n)
        }
        t => J::s(t.to_token_stream().to_string()),
    }
}

fn types(code: &str) -> Result<Vec<J>, String> {
    let f = syn::parse_file(code).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for i in f.items {
        match i {
            syn::Item::Struct(s) => {
                let mut o = vec![("name".to_string(), J::s(s.ident.to_string()))];
                match &s.fields {
                    syn::Fields::Named(n) => {
                        o.push(("kind".into(), J::s("struct")));
                        o.push(("fields".into(), J::Arr(n.named.iter().map(|f| J::Arr(vec![J::s(f.ident.as_ref().unwrap().to_string()), ty(&f.ty)])).collect())));
                    }
                    syn::Fields::Unnamed(n) => {
                        o.push(("kind".into(), J::s("tuple")));
                        o.push(("fields".into(), J::Arr(n.unnamed.iter().map(|f| ty(&f.ty)).collect())));
                    }
                    syn::Fields::Unit => {
                        o.push(("kind".into(), J::s("struct")));
                        o.push(("fields".into(), J::Arr(vec![])));
                    }
                }
                out.push(J::Obj(o));
            }
            syn::Item::Enum(e) => {
                let o = vec![
                    ("name".to_string(), J::s(e.ident.to_string())),
                    ("kind".into(), J::s("enum")),
                    ("variants".into(), J::Arr(e.variants.iter().map(|v| {
                        let fs: Vec<J> = v.fields.iter().map(|f| ty(&f.ty)).collect();
                        J::Arr(vec![J::s(v.ident.to_string()), J::Arr(fs)])
                    }).collect())),
                ];
                out.push(J::Obj(o));
            }
            _ => {}
        }
    }
    Ok(out)
}

fn schema_err(e: &SchemaError) -> J {
    let mut o = vec![("ok".to_string(), J::Bool(false)), ("msg".into(), J::s(e.to_string())), ("debug".into(), J::s(format!("{:?}", e)))];
    match e {
        SchemaError::Xsd { err, file, row, col } => {
            o.push(("kind".into(), J::s("Xsd")));
            o.push(("xsd".into(), J::s(format!("{:?}", err).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())));
            o.push(("file".into(), J::s(file.clone())));
            o.push(("inner".into(), J::s(err.to_string())));
            o.push(("row".into(), J::Num(*row as f64)));
            o.push(("col".into(), J::Num(*col as f64)));
        }
        SchemaError::Open { file, .. } => {
            o.push(("kind".into(), J::s("Open")));
            o.push(("file".into(), J::s(file.clone())));
        }
        SchemaError::NotFound { name } => {
            o.push(("kind".into(), J::s("NotFound")));
            o.push(("name".into(), J::s(name.clone())));
        }
    }
    J::Obj(o)
}

#[cfg(feature = "full")]
fn ns_of(s: &Schema, n: &Name) -> J {
    match n.namespace {
        Namespace::None => J::Null,
        Namespace::Id(id) => J::s(s.context().namespaces.get_by_id(id).namespace.clone()),
    }
}

fn item_names(code: &str) -> J {
    match types(code) {
        Ok(t) => J::Arr(t.iter().map(|t| t.get("name").unwrap().clone()).collect()),
        Err(e) => J::s(e),
    }
}

fn run(req: &J) -> J {
    match req.gs("op").unwrap() {
        "gen" => {
            let parsed = if let Some(data) = req.gs("data") { Schema::parse(data, req.gs("path").unwrap()) } else { Schema::parse_file(req.gs("path").unwrap()) };
            let s = match parsed { Ok(s) => s, Err(e) => return schema_err(&e) };
            let code = match s.generate_all() { Ok(c) => c.to_string(), Err(e) => return schema_err(&e) };
            let mut o = vec![("ok".to_string(), J::Bool(true))];
            #[cfg(feature = "full")]
            o.push(("elements".into(), J::Arr(s.elements().map(|(n, r)| J::Arr(vec![ns_of(&s, n), J::s(n.name.clone()), J::s(format!("{:?}", r).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())])).collect())));
            #[cfg(feature = "full")]
            o.push(("namespaces".into(), J::Arr(s.context().namespaces.iter().map(|(i, d)| J::Arr(vec![J::Num(i as f64), J::s(d.namespace.clone()), J::s(d.prefix.clone())])).collect())));
            match types(&code) {
                Ok(t) => o.push(("types".into(), J::Arr(t))),
                Err(e) => o.push(("synerr".into(), J::s(e))),
            }
            o.push(("code".into(), J::s(code)));
            J::Obj(o)
        }
        // generate_element_and_dependencies, one call per entry of `calls` ([ns|null, local]), sharing already_generated;
        // `marked` is put into already_generated first
        #[cfg(feature = "full")]
        "deps" => {
            let s = match Schema::parse_file(req.gs("path").unwrap()) { Ok(s) => s, Err(e) => return schema_err(&e) };
            let find = |j: &J| -> Option<&Name> {
                let ns = &j.arr()[0]; let local = j.arr()[1].str().unwrap();
                s.elements().map(|(n, _)| n).find(|n| n.name == local && ns_of(&s, n) == *ns)
            };
            let mut done: HashSet<&Name> = HashSet::new();
            for m in req.get("marked").map(|m| m.arr()).unwrap_or(&[]) { if let Some(n) = find(m) { done.insert(n); } }
            let mut out = vec![];
            for c in req.get("calls").unwrap().arr() {
                let n = match find(c) { Some(n) => n, None => { out.push(J::s("no such name")); continue } };
                let r = s.generate_element_and_dependencies(n, &mut done);
                let mut o = vec![];
                match r {
                    Ok(t) => o.push(("emitted".to_string(), item_names(&t.to_string()))),
                    Err(e) => o.push(("err".to_string(), J::s(e.to_string()))),
                }
                o.push(("marked".into(), J::Arr(done.iter().map(|n| J::Arr(vec![ns_of(&s, n), J::s(n.name.clone())])).collect())));
                out.push(J::Obj(o));
            }
            J::Obj(vec![("ok".into(), J::Bool(true)), ("calls".into(), J::Arr(out))])
        }
        #[cfg(feature = "full")]
        "nsreg" => {
            let mut n = Namespaces::default();
            let mut out = vec![];
            for u in req.get("uris").unwrap().arr() {
                let id = match n.get_or_insert(u.str().unwrap()) { Namespace::Id(i) => i, Namespace::None => usize::MAX };
                let table = n.iter().map(|(i, d)| J::Arr(vec![J::Num(i as f64), J::s(d.namespace.clone()), J::s(d.prefix.clone())])).collect();
                let got = match n.get(u.str().unwrap()) { Namespace::Id(i) => J::Num(i as f64), _ => J::Null };
                let d = n.get_by_id(id);
                out.push(J::Arr(vec![J::Num(id as f64), got, J::s(d.namespace.clone()), J::s(d.prefix.clone()), J::Arr(table)]));
            }
            J::Obj(vec![("ok".into(), J::Bool(true)), ("steps".into(), J::Arr(out))])
        }
        o => J::Obj(vec![("ok".into(), J::Bool(false)), ("msg".into(), J::s(format!("bad op {o}")))]),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let req = J::parse(&line);
        let r = catch_unwind(AssertUnwindSafe(|| run(&req))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            J::Obj(vec![("ok".into(), J::Bool(false)), ("panic".into(), J::s(m))])
        });
        let mut o = stdout.lock();
        writeln!(o, "{}", r.render()).unwrap();
        o.flush().unwrap();
    }
}
