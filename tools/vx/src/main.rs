//! vx: mechanical extraction of /repo's functions into the dialect Verus accepts.
//! stdin: one JSON configuration; stdout: one JSON document with every item of the given source file, rewritten.
//! The rewriting is purely syntactic and the same for every function (see DESIGN.md, "What the extraction does").
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Cfg {
    consts: BTreeMap<String, String>,
    mutself: BTreeSet<String>,
    mutcall: BTreeSet<String>,
    mutref: BTreeSet<String>,
    mutbind: BTreeSet<String>,
    rename: BTreeMap<String, String>,
    types: BTreeMap<String, String>,
    methods: BTreeMap<String, String>,
    iter_map: BTreeSet<String>,
    opaque: BTreeSet<String>,
    result_map: BTreeSet<String>,
    keep_eq: bool,
    quote: bool,
    drop_lt: bool,
    mods: BTreeSet<String>,
    strip: BTreeSet<String>,
    reborrow: BTreeSet<String>,
    module: String,
}

fn set(v: &Value, k: &str) -> BTreeSet<String> {
    v[k].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
fn map(v: &Value, k: &str) -> BTreeMap<String, String> {
    v[k].as_object().map(|a| a.iter().map(|(k, s)| (k.clone(), s.as_str().unwrap().to_string())).collect()).unwrap_or_default()
}

struct Rw<'c> {
    c: &'c Cfg,
    spec: bool,
    loops: usize,
    tmp: usize,
    lits: BTreeSet<String>,
    calls: BTreeSet<String>,
    err: Vec<String>,
    fname: String,
    maps: usize,
}

/// methods of std's Option and others that keep their name in specifications
const SPEC_KEEP: &[&str] = &["is_none", "is_some", "is_ok", "is_err", "len"];

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// Turn a block with early returns into an expression without; None if it has another shape.
fn noret(stmts: &[Stmt], k: &[Stmt]) -> Option<Expr> {
    let Some((s, rest)) = stmts.split_first() else {
        return if k.is_empty() { Some(parse_quote!(())) } else { noret(k, &[]) };
    };
    let cont: Vec<Stmt> = rest.iter().chain(k).cloned().collect();
    match s {
        Stmt::Local(l) => {
            if l.init.as_ref().is_some_and(|i| has_return(&i.expr) || i.diverge.is_some()) { return None; }
            let r = noret(&cont, &[])?;
            Some(parse_quote!({ #l #r }))
        }
        Stmt::Expr(e, semi) => {
            if !has_return(e) {
                if semi.is_none() && cont.is_empty() { return Some(e.clone()); }
                if matches!(e, Expr::If(_)) && cont.is_empty() { return Some(e.clone()); }
                let r = noret(&cont, &[])?;
                return Some(parse_quote!({ #e; #r }));
            }
            match e {
                Expr::Return(r) => r.expr.as_deref().map(|x| x.clone()).filter(|x| !has_return(x)),
                Expr::If(i) => {
                    if has_return(&i.cond) { return None; }
                    let c = &i.cond;
                    let t = noret(&i.then_branch.stmts, &cont)?;
                    let f = match &i.else_branch {
                        Some((_, b)) => match &**b {
                            Expr::Block(b) => noret(&b.block.stmts, &cont)?,
                            o => noret(&[Stmt::Expr(o.clone(), None)], &cont)?,
                        },
                        None => noret(&cont, &[])?,
                    };
                    Some(parse_quote!(if #c { #t } else { #f }))
                }
                Expr::Match(m) => {
                    if has_return(&m.expr) { return None; }
                    let mut m = m.clone();
                    for a in &mut m.arms {
                        let b = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] };
                        let x = noret(&b, &cont)?;
                        a.body = Box::new(parse_quote!({ #x }));
                        a.comma = None;
                    }
                    Some(Expr::Match(m))
                }
                Expr::Block(b) => { let all: Vec<Stmt> = b.block.stmts.iter().cloned().collect(); noret(&all, &cont) }
                _ => None,
            }
        }
        _ => None,
    }
}

fn closure_expr(c: &ExprClosure) -> Option<Expr> {
    if !has_return(&c.body) { return Some((*c.body).clone()); }
    match &*c.body {
        Expr::Block(b) => noret(&b.block.stmts, &[]),
        _ => None,
    }
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn nosp(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }

impl<'c> Rw<'c> {
    fn t(&mut self, p: &str) -> Ident { self.tmp += 1; format_ident!("__{}{}", p, self.tmp) }

    fn str_of_pat(&self, p: &Pat) -> Option<String> {
        match p {
            Pat::Lit(PatLit { lit: Lit::Str(s), .. }) => Some(s.value()),
            Pat::Ident(i) if i.subpat.is_none() => self.c.consts.get(&i.ident.to_string()).cloned(),
            Pat::Path(p) => p.path.segments.last().and_then(|s| self.c.consts.get(&s.ident.to_string())).cloned(),
            _ => None,
        }
    }
    fn has_str(&self, p: &Pat) -> bool {
        struct V<'a, 'c>(bool, &'a Rw<'c>);
        impl<'a> Visit<'a> for V<'_, '_> {
            fn visit_pat(&mut self, p: &'a Pat) {
                if self.1.str_of_pat(p).is_some() { self.0 = true; }
                syn::visit::visit_pat(self, p)
            }
        }
        let mut v = V(false, self);
        v.visit_pat(p);
        v.0
    }
    /// or-patterns containing string literals are split, so that each alternative can have its guard
    fn split(&self, p: &Pat) -> Vec<Pat> {
        if !self.has_str(p) { return vec![p.clone()]; }
        match p {
            Pat::Or(o) => o.cases.iter().flat_map(|c| self.split(c)).collect(),
            Pat::Paren(p) => self.split(&p.pat),
            Pat::TupleStruct(t) => self.cross(t.elems.iter()).into_iter().map(|es| { let mut t = t.clone(); t.elems = es.into_iter().collect(); Pat::TupleStruct(t) }).collect(),
            Pat::Tuple(t) => self.cross(t.elems.iter()).into_iter().map(|es| { let mut t = t.clone(); t.elems = es.into_iter().collect(); Pat::Tuple(t) }).collect(),
            _ => vec![p.clone()],
        }
    }
    fn cross<'a>(&self, ps: impl Iterator<Item = &'a Pat>) -> Vec<Vec<Pat>> {
        let mut r: Vec<Vec<Pat>> = vec![vec![]];
        for p in ps {
            let a = self.split(p);
            r = r.into_iter().flat_map(|x| a.iter().map(move |y| { let mut x = x.clone(); x.push(y.clone()); x }).collect::<Vec<_>>()).collect();
        }
        r
    }
    /// replace string literals in the pattern by bindings; returns the guards
    fn unlit(&mut self, p: &mut Pat) -> Vec<Expr> {
        let mut g = vec![];
        if let Some(s) = self.str_of_pat(p) {
            let v = self.t("l");
            *p = parse_quote!(#v);
            let l = LitStr::new(&s, proc_macro2::Span::call_site());
            g.push(parse_quote!(#v == #l));
            return g;
        }
        match p {
            Pat::TupleStruct(t) => for e in t.elems.iter_mut() { g.extend(self.unlit(e)) },
            Pat::Tuple(t) => for e in t.elems.iter_mut() { g.extend(self.unlit(e)) },
            Pat::Paren(t) => g.extend(self.unlit(&mut t.pat)),
            Pat::Reference(t) => g.extend(self.unlit(&mut t.pat)),
            Pat::Struct(t) => for f in t.fields.iter_mut() {
                if self.has_str(&f.pat) { f.colon_token = Some(Default::default()); g.extend(self.unlit(&mut f.pat)) }
            },
            _ => {}
        }
        g
    }
    fn fix_match(&mut self, m: &mut ExprMatch) -> bool {
        if !m.arms.iter().any(|a| self.has_str(&a.pat)) { return false; }
        let mut arms = vec![];
        for a in &m.arms {
            for p in self.split(&a.pat) {
                let mut a = a.clone();
                a.pat = p;
                let mut g = self.unlit(&mut a.pat);
                if let Some((_, x)) = &a.guard { g.push((**x).clone()); }
                if !g.is_empty() {
                    let mut it = g.into_iter();
                    let f = it.next().unwrap();
                    let e = it.fold(f, |x, y| parse_quote!(#x && (#y)));
                    a.guard = Some((Default::default(), Box::new(e)));
                }
                a.comma = Some(Default::default());
                arms.push(a);
            }
        }
        m.arms = arms;
        true
    }

    /// apply closure or function `f` to the value bound to `v`: (pattern, expression)
    fn apply(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 { return None; }
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let b = closure_expr(c)?;
                Some((p, b))
            }
            Expr::Path(p) => {
                let v = self.t("v");
                let s = path_str(&p.path);
                let e: Expr = if s == "String::from" || s == "Cow::Borrowed" || s == "Cow::Owned" || s == "Into::into" || s == "From::from" { parse_quote!(#v.into()) } else { parse_quote!(#p(#v)) };
                Some((parse_quote!(#v), e))
            }
            _ => None,
        }
    }
    fn apply0(&mut self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.len() <= 1 => closure_expr(c),
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    fn is_iter_chain(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                matches!(n.as_str(), "iter" | "into_iter" | "children" | "attributes" | "chars" | "rev" | "take_while" | "zip" | "enumerate" | "peekable" | "keys" | "values" | "namespaces" | "split_whitespace")
                    || ((n == "map" || n == "filter") && self.is_iter_chain(&m.receiver))
                    || (n == "clone" && self.is_iter_chain(&m.receiver))
            }
            _ => false,
        }
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let n = m.method.to_string();
        let a: Vec<&Expr> = m.args.iter().collect();
        let is_iter = self.is_iter_chain(r);
        match (n.as_str(), a.len()) {
            ("or_else", 1) => { let e = self.apply0(a[0])?; let v = self.t("v"); Some(parse_quote!(match #r { Some(#v) => Some(#v), None => #e })) }
            ("unwrap_or_else", 1) => { let e = self.apply0(a[0])?; let v = self.t("v");
                if matches!(a[0], Expr::Closure(c) if c.inputs.len() == 1) { return Some(parse_quote!(match #r { Ok(#v) => #v, Err(_) => #e })); }
                Some(parse_quote!(match #r { Some(#v) => #v, None => #e })) }
            ("ok_or_else", 1) => { let e = self.apply0(a[0])?; let v = self.t("v"); Some(parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#e) })) }
            ("ok_or", 1) => { let e = a[0]; let v = self.t("v"); Some(parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#e) })) }
            ("map_err", 1) => { let (p, e) = self.apply(a[0])?; let v = self.t("v"); Some(parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#e) })) }
            ("and_then", 1) => { let (p, e) = self.apply(a[0])?; Some(parse_quote!(match #r { Some(#p) => #e, None => None })) }
            ("is_some_and", 1) => { let (p, e) = self.apply(a[0])?; Some(parse_quote!(match #r { Some(#p) => #e, None => false })) }
            ("is_none_or", 1) => { let (p, e) = self.apply(a[0])?; Some(parse_quote!(match #r { Some(#p) => #e, None => true })) }
            ("inspect", 1) if !is_iter => { let (p, e) = self.apply(a[0])?; let v = self.t("v"); Some(parse_quote!(match #r { Some(#v) => { { let #p = &#v; #e }; Some(#v) }, None => None })) }
            ("filter", 1) if !is_iter => { let (p, e) = self.apply(a[0])?; let v = self.t("v"); Some(parse_quote!(match #r { Some(#v) => { if { let #p = &#v; #e } { Some(#v) } else { None } }, None => None })) }
            ("map_or", 2) => { let (p, e) = self.apply(a[1])?; let d = a[0]; Some(parse_quote!(match #r { Some(#p) => #e, None => #d })) }
            ("map", 1) if !is_iter => {
                self.maps += 1;
                let key = format!("{}#{}", self.fname, self.maps);
                let (p, e) = self.apply(a[0])?;
                if self.c.iter_map.contains(&key) { return None; }
                if self.c.result_map.contains(&key) { let v = self.t("v"); return Some(parse_quote!(match #r { Ok(#p) => Ok(#e), Err(#v) => Err(#v) })); }
                Some(parse_quote!(match #r { Some(#p) => Some(#e), None => None }))
            }
            ("flatten", 0) if !is_iter => { let v = self.t("v"); Some(parse_quote!(match #r { Some(#v) => #v, None => None })) }
            ("transpose", 0) => { let v = self.t("v"); Some(parse_quote!(match #r { Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#v)) => Err(#v), None => Ok(None) })) }
            _ => None,
        }
    }

    /// an iterator adaptor with a closure: the closure gets its own expression as its contract
    fn adaptor(&mut self, m: &ExprMethodCall) -> Option<TokenStream> {
        let n = m.method.to_string();
        let bool_ret = matches!(n.as_str(), "filter" | "take_while" | "skip_while" | "find" | "position" | "any" | "all");
        if !(bool_ret || n == "map") || m.args.len() != 1 { return None; }
        let mut recv = (*m.receiver).clone();
        let (pat, body): (Pat, Expr) = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                (p, closure_expr(c)?)
            }
            Expr::Path(p) => { let v = self.t("v"); (parse_quote!(#v), parse_quote!(#p(#v))) }
            _ => return None,
        };
        self.visit_expr_mut(&mut recv);
        let mut ex = body.clone();
        let mut sp = body;
        self.visit_expr_mut(&mut ex);
        let s0 = self.spec; self.spec = true;
        self.visit_expr_mut(&mut sp);
        self.spec = s0;
        let name = format_ident!("x_{}", n);
        let q = self.t("q");
        let bind = if matches!(pat, Pat::Ident(_)) { quote!() } else { quote!(let #pat = #q;) };
        let arg: Pat = if matches!(pat, Pat::Ident(_)) { pat.clone() } else { parse_quote!(#q) };
        let k = self.tmp; self.tmp += 1;
        let k = Literal(k);
        self.calls.insert(name.to_string());
        // markers are turned into Verus closure syntax by the assembler
        let rt = if bool_ret { quote!(bool) } else { quote!(_) };
        Some(quote!(#recv.#name(__vx_closure!(#k; #arg; #rt; { #bind #sp }; { #bind #ex }))))
    }
}
/// methods of the standard library get the name of their model
fn xname(n: &str) -> String {
    match n {
                    "into" => "x_into".into(), "as_deref" => "x_as_deref".into(), "as_ref" => "x_as_ref".into(), "unwrap_or_default" => "x_unwrap_or_default".into(),
                    "clone" | "cloned" | "copied" => format!("x_{}", n), "extend" => "x_extend".into(), "collect" => "x_collect".into(), "expect" => "x_expect".into(), "unwrap" => "x_unwrap".into(),
                    "is_empty" => "x_is_empty".into(), "first" => "x_first".into(), "replace" => "x_replace".into(), "starts_with" => "x_starts_with".into(), "as_str" => "x_as_str".into(),
                    "last" => "x_last".into(), "find_map" => "x_find_map".into(), "iter" => "x_iter".into(), "into_iter" => "x_into_iter".into(), "trim" => "x_trim".into(), "parse" => "x_parse".into(), "contains" => "x_contains".into(),
                    "eq" => "x_eq".into(), "ne" => "x_ne".into(), "remove" => "x_remove".into(), "insert" => "x_insert".into(), "get" => "x_get".into(), "contains_key" => "x_contains_key".into(), "keys" => "x_keys".into(), "values" => "x_values".into(),
                    "enumerate" => "x_enumerate".into(), "rev" => "x_rev".into(), "peekable" => "x_peekable".into(), "peek" => "x_peek".into(), "entry" => "x_entry".into(), "or_default" => "x_or_default".into(), "unwrap_or" => "x_unwrap_or".into(),
                    "as_bytes" => "x_as_bytes".into(), "chars" => "x_chars".into(), "fold" => "x_fold".into(), "zip" => "x_zip".into(), "append_all" => "x_append_all".into(), "to_ascii_uppercase" => "x_to_ascii_uppercase".into(),
                    _ => n.to_string() }
}
struct Literal(usize);
impl ToTokens for Literal { fn to_tokens(&self, t: &mut TokenStream) { proc_macro2::Literal::usize_unsuffixed(self.0).to_tokens(t) } }

fn fmt_parts(mac: &Macro) -> Option<(Vec<std::result::Result<String, Expr>>, String)> {
    let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let mut it = args.into_iter();
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = it.next() else { return None };
    let f = f.value();
    let mut parts = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { cur.push('{'); i += 1; }
            '}' if cs.get(i + 1) == Some(&'}') => { cur.push('}'); i += 1; }
            '{' => {
                let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                if !cur.is_empty() { parts.push(Ok(std::mem::take(&mut cur))); }
                if inner.is_empty() { parts.push(Err(it.next()?)); }
                else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') && !inner.chars().next().unwrap().is_numeric() { let id = format_ident!("{}", inner); parts.push(Err(parse_quote!(#id))); }
                else { return None; }
                i = j;
            }
            c => cur.push(c),
        }
        i += 1;
    }
    if !cur.is_empty() || parts.is_empty() { parts.push(Ok(cur)); }
    Some((parts, f))
}

/// the parts of a quote!: words and punctuation one by one, string literals, interpolations, repetitions of one variable
enum QP { W(String), S(String), V(Ident), R(Vec<String>, Ident, Vec<String>) }
fn quote_parts(t: TokenStream) -> Option<Vec<QP>> {
    use proc_macro2::{Delimiter, TokenTree as T};
    let v: Vec<T> = t.into_iter().collect();
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            T::Punct(p) if p.as_char() == '#' => match v.get(i + 1) {
                Some(T::Ident(id)) => { r.push(QP::V(id.clone())); i += 1; }
                Some(T::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut j = i + 2;
                    while j < v.len() && !matches!(&v[j], T::Punct(p) if p.as_char() == '*') { j += 1; }
                    if j != i + 2 { return None; } // a separator
                    let (mut a, mut b, mut x) = (vec![], vec![], None);
                    for p in quote_parts(g.stream())? { match p { QP::W(w) => if x.is_none() { a.push(w) } else { b.push(w) }, QP::V(id) => if x.is_none() { x = Some(id) } else { return None }, _ => return None } }
                    r.push(QP::R(a, x?, b)); i = j;
                }
                _ => r.push(QP::W("#".into())),
            },
            T::Punct(p) => r.push(QP::W(p.as_char().to_string())),
            T::Ident(id) => r.push(QP::W(id.to_string())),
            T::Literal(l) => match parse_str::<LitStr>(&l.to_string()) { Ok(s) => r.push(QP::S(s.value())), Err(_) => r.push(QP::W(l.to_string())) },
            T::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if !o.is_empty() { r.push(QP::W(o.into())); }
                r.extend(quote_parts(g.stream())?);
                if !c.is_empty() { r.push(QP::W(c.into())); }
            }
        }
        i += 1;
    }
    // the full path of a type of the standard prelude is the type
    for (m, t) in [("option", "Option"), ("vec", "Vec"), ("string", "String"), ("boxed", "Box")] { for c in ["std", "core", "alloc"] { for lead in [true, false] {
        let mut pat: Vec<String> = vec![];
        if lead { pat.extend([":".to_string(), ":".to_string()]); }
        pat.extend([c.to_string(), ":".into(), ":".into(), m.to_string(), ":".into(), ":".into(), t.to_string()]);
        let mut k = 0;
        while k + pat.len() <= r.len() {
            if (0..pat.len()).all(|z| matches!(&r[k + z], QP::W(w) if *w == pat[z])) { r.splice(k..k + pat.len(), [QP::W(t.to_string())]); }
            k += 1;
        }
    } } }
    Some(r)
}

impl VisitMut for Rw<'_> {
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(u)) if !nosp(&u.tree).starts_with(|c: char| c.is_uppercase())));
        for s in &mut b.stmts {
            // statement macros are expressions to us
            if let Stmt::Macro(m) = s {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, m.semi_token);
            }
            // let-else
            if let Stmt::Local(l) = s {
                l.attrs.clear();
                if let Some(i) = &l.init {
                    if let Some((_, d)) = &i.diverge {
                        // let P = e else { d }  ->  let vars = match e { P => vars, _ => d }
                        let mut vs: Vec<Ident> = vec![];
                        struct V<'a>(&'a mut Vec<Ident>);
                        impl<'b> Visit<'b> for V<'_> { fn visit_pat_ident(&mut self, p: &'b PatIdent) { self.0.push(p.ident.clone()); } }
                        V(&mut vs).visit_pat(&l.pat);
                        let (p, e) = (&l.pat, &i.expr);
                        let n: Stmt = parse_quote!(let (#(#vs),*) = match #e { #p => (#(#vs),*), _ => #d };);
                        *s = n;
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b)
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions are dropped
        match e {
            Expr::While(x) => x.attrs.clear(),
            Expr::ForLoop(x) => x.attrs.clear(),
            Expr::Loop(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            Expr::If(x) => x.attrs.clear(),
            _ => {}
        }
        // 1. rewriting from the outside in
        loop {
            let new: Option<Expr> = match e {
                Expr::Try(t) => { let x = &t.expr; let (a, b) = (self.t("v"), self.t("e")); Some(parse_quote!(match #x { Ok(#a) => #a, Err(#b) => return Err(XFrom::x_from(#b)) })) }
                Expr::MethodCall(m) => {
                    if matches!(m.method.to_string().as_str(), "borrow_mut" | "borrow") && m.args.is_empty() {
                        let r = &m.receiver;
                        Some(if m.method == "borrow_mut" { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) })
                    } else if let (true, Expr::MethodCall(k)) = (m.method == "or_default" && m.args.is_empty(), &*m.receiver) {
                        if k.method == "entry" && k.args.len() == 1 { let (r, a) = (&k.receiver, &k.args[0]); Some(parse_quote!(#r.x_entry_or_default(#a))) } else { None }
                    } else if m.method == "get" && m.args.is_empty() {
                        Some((*m.receiver).clone())
                    } else { let m = m.clone(); self.combinator(&m) }
                }
                Expr::Match(m) => { let mut m2 = m.clone(); if self.fix_match(&mut m2) { Some(Expr::Match(m2)) } else { None } }
                Expr::If(i) => match &*i.cond {
                    Expr::Let(l) if self.has_str(&l.pat) => {
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        let f: Expr = i.else_branch.as_ref().map(|b| (*b.1).clone()).unwrap_or(parse_quote!({}));
                        Some(parse_quote!(match #x { #p => #t, _ => #f }))
                    }
                    _ => None,
                },
                Expr::ForLoop(f) => {
                    let k = Literal(self.loops);
                    let it = format_ident!("__it{}", self.loops);
                    let (p, x, b) = (&f.pat, &f.expr, &f.body);
                    let label = &f.label;
                    self.loops += 1;
                    if let Expr::Reference(r) = &**x {
                        if r.mutability.is_some() {
                            let v = &r.expr;
                            let ix = format_ident!("__ix{}", self.loops - 1);
                            let st = &b.stmts;
                            let new: Expr = parse_quote!({ let mut #ix: usize = 0; __vx_pre!(#k); #label loop { __vx_inv!(#k); if #ix < #v.len() { __vx_lbody!(#k); let #p = x_get_mut(&mut #v, #ix); #ix = #ix + 1; #(#st)* } else { break; } } });
                            *e = new;
                            continue;
                        }
                    }
                    let st = &b.stmts;
                    Some(parse_quote!({ let mut #it = XIntoIter::x_into_iter(#x); __vx_pre!(#k); #label loop { __vx_inv!(#k); match #it.next() { Some(#p) => { __vx_lbody!(#k); #(#st)* }, None => { break; } } } }))
                }
                Expr::While(w) => {
                    let k = Literal(self.loops);
                    self.loops += 1;
                    let label = &w.label;
                    let st = &w.body.stmts;
                    match &*w.cond {
                        Expr::Let(l) => { let (p, x) = (&l.pat, &l.expr); Some(parse_quote!({ __vx_pre!(#k); #label loop { __vx_inv!(#k); match #x { #p => { __vx_lbody!(#k); #(#st)* }, _ => { break; } } } })) }
                        c => Some(parse_quote!({ __vx_pre!(#k); #label loop { __vx_inv!(#k); if #c { __vx_lbody!(#k); #(#st)* } else { break; } } })),
                    }
                }
                Expr::Loop(l) => {
                    let marked = l.body.stmts.first().is_some_and(|s| s.to_token_stream().to_string().starts_with("__vx_inv"));
                    if marked { None } else {
                        let k = Literal(self.loops);
                        self.loops += 1;
                        let label = &l.label;
                        let st = &l.body.stmts;
                        Some(parse_quote!({ __vx_pre!(#k); #label loop { __vx_inv!(#k); __vx_lbody!(#k); #(#st)* } }))
                    }
                }
                Expr::Macro(m) => {
                    let n = path_str(&m.mac.path);
                    match n.as_str() {
                        "matches" => {
                            struct A(Expr, Pat, Option<Expr>);
                            impl parse::Parse for A { fn parse(i: parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(A(e, p, g)) } }
                            match m.mac.parse_body::<A>() { Ok(A(x, p, g)) => { let g = g.map(|g| quote!(if #g)); Some(parse_quote!(match #x { #p #g => true, _ => false })) } Err(_) => None }
                        }
                        "vec" => {
                            match m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                                Ok(a) => { let a: Vec<_> = a.into_iter().collect(); if a.is_empty() { Some(parse_quote!(Vec::new())) } else if a.len() <= 4 { let f = format_ident!("x_vec{}", a.len()); Some(parse_quote!(#f(#(#a),*))) } else { let v = self.t("vec"); Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v })) } }
                                Err(_) => None,
                            }
                        }
                        "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(x_unreachable())),
                        "assert" | "debug_assert" => { match m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { Ok(a) => { let c = &a[0]; Some(parse_quote!(x_assert((#c)))) } Err(_) => None } }
                        "eprintln" | "println" | "eprint" | "print" => Some(parse_quote!(())),
                        "format" | "format_ident" => match fmt_parts(&m.mac) {
                            Some((ps, _)) => {
                                let mut acc: Option<Expr> = None;
                                for p in ps {
                                    let x: Expr = match p { Ok(s) => { let l = LitStr::new(&s, proc_macro2::Span::call_site()); parse_quote!(XDisp::x_disp(&#l)) } Err(a) => parse_quote!(XDisp::x_disp(&(#a))) };
                                    acc = Some(match acc { None => x, Some(a) => parse_quote!(x_cat(#a, #x)) });
                                }
                                let a = acc.unwrap();
                                Some(if n == "format" { a } else { parse_quote!(x_ident(#a)) })
                            }
                            None => { self.err.push(format!("format string of {}", n)); None }
                        },
                        "quote" if self.c.quote => {
                            match quote_parts(m.mac.tokens.clone()) {
                                Some(ps) => {
                                    let mut acc: Option<Expr> = None;
                                    for p in ps {
                                        let sp = self.spec;
                                        let x: Expr = match p {
                                            QP::W(w) => { let l = LitStr::new(&w, proc_macro2::Span::call_site()); if sp { parse_quote!(tw_s(#l)) } else { parse_quote!(tw(#l)) } }
                                            QP::S(w) => { let l = LitStr::new(&w, proc_macro2::Span::call_site()); if sp { parse_quote!(XTok::tok_s(#l)) } else { parse_quote!(XTok::x_tok(#l)) } }
                                            QP::V(v) => { if sp { parse_quote!(XTok::tok_s(&#v)) } else { parse_quote!(XTok::x_tok(&#v)) } }
                                            QP::R(a, v, b) => { let f = |t: Vec<String>| -> Expr { let mut e: Expr = if sp { parse_quote!(t0_s()) } else { parse_quote!(t0()) }; for w in t { let l = LitStr::new(&w, proc_macro2::Span::call_site()); e = if sp { parse_quote!(tcat_s(#e, tw_s(#l))) } else { parse_quote!(tcat(#e, tw(#l))) }; } e };
                                                let (a, b) = (f(a), f(b)); if sp { parse_quote!(XRep::rep_s(#v, #a, #b)) } else { parse_quote!(XRep::x_rep(#v, #a, #b)) } }
                                        };
                                        acc = Some(match acc { None => x, Some(a) => if sp { parse_quote!(tcat_s(#a, #x)) } else { parse_quote!(tcat(#a, #x)) } });
                                    }
                                    Some(match acc { Some(a) => a, None => if self.spec { parse_quote!(t0_s()) } else { parse_quote!(t0()) } })
                                }
                                None => { self.err.push("quote".to_string()); None }
                            }
                        }
                        "quote" => { Some(parse_quote!(x_quote())) }
                        _ => None,
                    }
                }
                _ => None,
            };
            match new { Some(n) => *e = n, None => break }
        }
        // adaptors produce their own (already rewritten) tokens
        if let Expr::MethodCall(m) = e { if self.c.opaque.contains(&format!("{}:{}", self.fname, m.method)) { *e = parse_quote!(x_opaque()); return; } }
        if let Expr::MethodCall(m) = e {
            let m2 = m.clone();
            if self.is_iter_chain(&m2.receiver) || matches!(m2.method.to_string().as_str(), "take_while" | "skip_while" | "find" | "position" | "any" | "all") || self.c.iter_map.contains(&format!("{}:{}", self.fname, m2.method)) {
                if let Some(t) = self.adaptor(&m2) { *e = Expr::Verbatim(t); return; }
            }
        }
        // 2. children
        visit_mut::visit_expr_mut(self, e);
        // 3. from the inside out
        let c = self.c;
        let new: Option<Expr> = match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                self.lits.insert(s.value());
                Some(if self.spec { parse_quote!(&xlit_s(#s)) } else { parse_quote!(xlit(#s)) })
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !c.keep_eq => {
                let (l, r) = (&b.left, &b.right);
                let q: Expr = if self.spec { parse_quote!(XEq::eq_s(&(#l), &(#r))) } else { parse_quote!(XEq::x_eq(&(#l), &(#r))) };
                Some(if matches!(b.op, BinOp::Ne(_)) { parse_quote!((!(#q))) } else { q })
            }
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && !c.keep_eq => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(XAddAssign::x_add_assign(&mut #l, #r))) }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let n2 = c.methods.get(&n).cloned().unwrap_or_else(|| xname(&n));
                let vec_of = n == "collect" && m.turbofish.as_ref().is_some_and(|t| nosp(&t.args).starts_with("Vec<"));
                let n2 = if vec_of { "x_collect_vec".to_string() } else { n2 };
                m.turbofish = None;
                if self.spec && !SPEC_KEEP.contains(&n.as_str()) { m.method = format_ident!("{}_s", n2); } else { m.method = format_ident!("{}", n2); }
                self.calls.insert(n2.clone());
                if c.mutcall.contains(&n) { for a in m.args.iter_mut() { mutarg(a) } }
                None
            }
            Expr::Call(k) => {
                if let Expr::Path(p) = &mut *k.func {
                    let s = path_str(&p.path);
                    if self.spec { if let Some(l) = p.path.segments.last_mut() { let n = l.ident.to_string(); if n.chars().next().is_some_and(|c| c.is_lowercase()) && !n.ends_with("_s") { l.ident = format_ident!("{}_s", n); } } }
                    self.calls.insert(s.clone());
                    if c.mutcall.iter().any(|m| s.ends_with(m.as_str())) { for a in k.args.iter_mut() { mutarg(a) } }
                    match s.as_str() {
                        "Cow::Owned" | "Cow::Borrowed" if k.args.len() == 1 => { if let Some(Expr::MethodCall(m)) = k.args.first_mut() { if m.method == "x_collect" { m.method = format_ident!("x_collect_vec"); } } let a = &k.args[0]; Some(if self.spec { parse_quote!(XCow::cow_s(#a)) } else { parse_quote!(XCow::x_cow(#a)) }) }
                        "RefCell::new" | "Cell::new" if k.args.len() == 1 => Some(k.args[0].clone()),
                        "Box::new" if k.args.len() == 1 => { let a = &k.args[0]; let f = format_ident!("{}", c.rename.get("Box::new").map(|s| s.as_str()).unwrap_or("x_box")); Some(parse_quote!(#f(#a))) }
                        "Default::default" => Some(parse_quote!(XDefault::x_default())),
                        _ if s.ends_with("::default") => { let t = &p.path.segments[p.path.segments.len() - 2].ident; Some(parse_quote!(<#t as XDefault>::x_default())) }
                        "mem::take" | "std::mem::take" => { let a = &k.args[0]; Some(parse_quote!(x_take(#a))) }
                        "mem::replace" | "std::mem::replace" => { let (a, b) = (&k.args[0], &k.args[1]); Some(parse_quote!(x_mem_replace(#a, #b))) }
                        "String::from" => { let a = &k.args[0]; Some(parse_quote!(XInto::x_into(#a))) }
                        "String::new" => Some(parse_quote!(XStr::new())),
                        "HashMap::new" | "HashSet::new" | "VecDeque::new" => { let t = format_ident!("{}", match s.as_str() { "HashMap::new" => "XMap", "HashSet::new" => "XSet", _ => "XDeque" }); Some(parse_quote!(#t::new())) }
                        "HashSet::with_capacity" => Some(parse_quote!(XSet::new())),
                        "HashMap::with_capacity" => Some(parse_quote!(XMap::new())),
                        "u32::from_str" | "usize::from_str" | "Decimal::from_str" | "u64::from_str" => { let t = &p.path.segments[0].ident; let a = &k.args[0]; Some(parse_quote!(<#t as XFromStr>::x_from_str(#a))) }
                        _ => None,
                    }
                } else { None }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let s = path_str(&p.path);
                let last = p.path.segments.last().unwrap().ident.to_string();
                if let Some(l) = c.consts.get(&last) { if p.path.segments.len() <= 5 && last.chars().all(|c| !c.is_lowercase()) {
                    self.lits.insert(l.clone());
                    let q: Expr = if self.spec { parse_quote!(&xlit_s(#l)) } else { parse_quote!(xlit(#l)) };
                    *e = q; return;
                } }
                match c.rename.get(&s) { Some(r) => Some(parse_str(r).expect("rename")), None => None }
            }
            Expr::Reference(r) => {
                // & of a literal is the literal
                if let (None, Expr::Path(p)) = (r.mutability, &*r.expr) { if c.reborrow.contains(&path_str(&p.path)) { let x = &r.expr; *e = parse_quote!(#x.x_reb()); return; } }
                if let Expr::Call(k) = &*r.expr { if nosp(&k.func) == "xlit" { Some((*r.expr).clone()) } else { None } } else { None }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }

    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.err.push(format!("closure {}", nosp(&*c).chars().take(60).collect::<String>()));
        visit_mut::visit_expr_closure_mut(self, c)
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if self.c.mutbind.contains(&i.ident.to_string()) && i.by_ref.is_none() { i.mutability = Some(Default::default()); }
        }
        visit_mut::visit_pat_mut(self, p)
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s = path_str(p);
        if let Some(r) = self.c.rename.get(&s) {
            let mut q: Path = parse_str(r).expect("rename");
            if let (Some(a), Some(b)) = (q.segments.last_mut(), p.segments.last()) { if a.arguments.is_none() { a.arguments = b.arguments.clone(); } }
            *p = q;
            return;
        }
        // drop module prefixes that the configuration does not keep
        while p.segments.len() > 1 && (matches!(p.segments[0].ident.to_string().as_str(), "crate" | "super" | "std" | "self") || self.c.strip.contains(&p.segments[0].ident.to_string())) {
            let v: Vec<_> = p.segments.iter().skip(1).cloned().collect();
            p.segments = v.into_iter().collect();
            p.leading_colon = None;
        }
        p.leading_colon = None;
        for k in 0..p.segments.len().saturating_sub(1) {
            if k + 2 == p.segments.len() && self.c.mods.contains(&p.segments[k].ident.to_string()) && p.segments[k + 1].ident.to_string().starts_with(|c: char| c.is_lowercase()) {
                let mut l = p.segments[k + 1].clone();
                l.ident = format_ident!("{}_{}", p.segments[k].ident, l.ident);
                p.segments = std::iter::once(l).collect();
                return;
            }
        }
        // names of modules mean nothing for types
        if p.segments.len() > 1 && p.segments.iter().rev().skip(1).all(|x| self.c.mods.contains(&x.ident.to_string())) { let l = p.segments.last().unwrap().clone(); p.segments = std::iter::once(l).collect(); }
        let s = path_str(p);
        if let Some(r) = self.c.rename.get(&s) {
            let mut q: Path = parse_str(r).expect("rename");
            if let (Some(a), Some(b)) = (q.segments.last_mut(), p.segments.last()) { if a.arguments.is_none() { a.arguments = b.arguments.clone(); } }
            *p = q;
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = nosp(&*t);
        if let Some(r) = self.c.types.get(&s) { *t = parse_str(r).expect("type"); return; }
        match t {
            Type::Path(p) if p.qself.is_none() => {
                let last = p.path.segments.last().unwrap().clone();
                let n = last.ident.to_string();
                let args: Vec<GenericArgument> = match &last.arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter(|a| !matches!(a, GenericArgument::Lifetime(_))).cloned().collect(), _ => vec![] };
                match n.as_str() {
                    "str" | "String" => { *t = parse_quote!(XStr); return; }
                    "Cow" => {
                        if let Some(GenericArgument::Type(Type::Slice(sl))) = args.first() { let mut el = (*sl.elem).clone(); self.visit_type_mut(&mut el); *t = parse_quote!(Vec<#el>); }
                        else if let Some(GenericArgument::Type(a)) = args.first() { let mut a = a.clone(); self.visit_type_mut(&mut a); *t = a; }
                        return;
                    }
                    "RefCell" | "Cell" => { if let Some(GenericArgument::Type(a)) = args.first() { let mut a = a.clone(); self.visit_type_mut(&mut a); *t = a; return; } }
                    "Box" => {
                        if let Some(GenericArgument::Type(Type::TraitObject(o))) = args.first() {
                            if let Some(it) = iter_item(&o.bounds) { let mut it = it; self.visit_type_mut(&mut it); *t = parse_quote!(XIter<#it>); return; }
                            *t = parse_quote!(XErr); return;
                        }
                    }
                    "HashMap" | "HashSet" | "VecDeque" => { let id = format_ident!("{}", match n.as_str() { "HashMap" => "XMap", "HashSet" => "XSet", _ => "XDeque" }); let mut a = last.arguments.clone(); self.visit_path_arguments_mut(&mut a); *t = parse_quote!(#id #a); return; }
                    _ => {}
                }
            }
            Type::Slice(sl) => { let mut el = (*sl.elem).clone(); self.visit_type_mut(&mut el); *t = parse_quote!(Vec<#el>); return; }
            Type::ImplTrait(o) => {
                if let Some(it) = iter_item(&o.bounds) { let mut it = it; self.visit_type_mut(&mut it); *t = parse_quote!(XIter<#it>); return; }
            }
            _ => {}
        }
        visit_mut::visit_type_mut(self, t);
        if self.c.drop_lt { if let Type::Reference(r) = t { r.lifetime = None; } }
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        if let Some(l) = b.path.segments.last_mut() { match l.ident.to_string().as_str() { "Into" => l.ident = format_ident!("XInto"), "AsRef" => l.ident = format_ident!("XAsRef"), "Write" => l.ident = format_ident!("XWrite"), _ => {} } }
        let last = b.path.segments.last().cloned();
        if let Some(l) = last { if l.ident.to_string().starts_with('X') { b.path.segments = std::iter::once(l).collect(); b.path.leading_colon = None; } }
        visit_mut::visit_trait_bound_mut(self, b)
    }
}

fn mutarg(a: &mut Expr) { if let Expr::Reference(r) = a { r.mutability = Some(Default::default()) } }

fn iter_item(bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last()?;
            if l.ident == "Iterator" || l.ident == "IntoIterator" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    for x in &a.args { if let GenericArgument::AssocType(at) = x { if at.ident == "Item" { return Some(at.ty.clone()); } } }
                }
            }
        }
    }
    None
}

fn function(c: &Cfg, owner: &str, attrs: &[Attribute], vis: &Visibility, sig: &Signature, block: &Block) -> Value {
    let path = if owner.is_empty() { sig.ident.to_string() } else { format!("{}::{}", owner, sig.ident) };
    let mut rw = Rw { c, spec: false, loops: 0, tmp: 0, lits: Default::default(), calls: Default::default(), err: vec![], fname: path.clone(), maps: 0 };
    let mut s = sig.clone();
    let mut b = block.clone();
    rw.visit_block_mut(&mut b);
    let mut self_by = "none";
    // impl-trait arguments become type parameters
    let mut extra: Vec<TokenStream> = vec![];
    for (i, a) in s.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                self_by = if r.reference.is_some() { if r.mutability.is_some() { "mut" } else { "ref" } } else { "own" };
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    struct V;
                    impl VisitMut for V { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = format_ident!("__self") } } }
                    V.visit_block_mut(&mut b);
                    b.stmts.insert(0, parse_quote!(let mut __self = self;));
                }
                if r.reference.is_some() && (c.mutself.contains(&path) || c.mutself.contains(&sig.ident.to_string())) { let lt = r.reference.as_ref().and_then(|x| x.1.clone()); *r = parse_quote!(& #lt mut self); }
            }
            FnArg::Typed(t) => {
                if !matches!(&*t.ty, Type::Reference(_)) { rw.visit_pat_mut(&mut t.pat); }
                if let Type::ImplTrait(o) = &mut *t.ty {
                    let into = o.bounds.iter().any(|b| nosp(b).contains("IntoIterator<"));
                    if into || iter_item(&o.bounds).is_none() {
                        if let (true, Some(mut it)) = (into, iter_item(&o.bounds)) {
                            let g = format_ident!("P{}", i);
                            rw.visit_type_mut(&mut it);
                            extra.push(quote!(#g: XIntoIter<#it> + XClone));
                            *t.ty = parse_quote!(#g);
                            continue;
                        }
                        let g = format_ident!("P{}", i);
                        let mut o2 = o.clone();
                        for b in o2.bounds.iter_mut() { rw.visit_type_param_bound_mut(b); }
                        let bs = &o2.bounds;
                        extra.push(quote!(#g: #bs));
                        *t.ty = parse_quote!(#g);
                        continue;
                    }
                }
                if let Type::Reference(r) = &mut *t.ty {
                    if let Type::Path(p) = &*r.elem { if c.mutref.contains(&p.path.segments.last().unwrap().ident.to_string()) { r.mutability = Some(Default::default()); } }
                }
                rw.visit_type_mut(&mut t.ty);
            }
        }
    }
    if let ReturnType::Type(_, t) = &mut s.output { rw.visit_type_mut(t); }
    let mut g = s.generics.clone();
    rw.visit_generics_mut(&mut g);
    let gp = g.params.iter().map(|p| p.to_token_stream().to_string()).chain(extra.iter().map(|x| x.to_string())).collect::<Vec<_>>().join(", ");
    let wh = g.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    let ret = match &s.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => t.to_token_stream().to_string() };
    let stmts = &b.stmts;
    json!({"kind": "fn", "path": path, "name": if self_by != "none" && !owner.starts_with('<') { c.methods.get(&sig.ident.to_string()).cloned().unwrap_or_else(|| xname(&sig.ident.to_string())) } else { sig.ident.to_string() }, "vis": vis.to_token_stream().to_string(), "generics": gp, "where": wh,
        "inputs": s.inputs.to_token_stream().to_string(), "ret": ret, "self_by": self_by, "body": quote!(#(#stmts)*).to_string(), "loops": rw.loops,
        "lits": rw.lits, "calls": rw.calls, "err": rw.err, "src": block.to_token_stream().to_string(), "test": is_test(attrs)})
}

fn is_test(a: &[Attribute]) -> bool { a.iter().any(|a| { let s = nosp(a); s.contains("cfg(test)") || s.contains("#[test]") }) }
fn derives(a: &[Attribute]) -> Vec<String> {
    let mut r = vec![];
    for a in a { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { r.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
    r
}
fn strip_field_attrs(f: &mut Fields) -> Vec<(String, bool)> {
    let mut r = vec![];
    for (i, x) in f.iter_mut().enumerate() {
        let from = x.attrs.iter().any(|a| a.path().is_ident("from"));
        r.push((x.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), from));
        x.attrs.clear();
    }
    r
}

fn items(c: &Cfg, is: &[Item], out: &mut Vec<Value>) {
    for it in is {
        let mut rw = Rw { c, spec: false, loops: 0, tmp: 0, lits: Default::default(), calls: Default::default(), err: vec![], fname: String::new(), maps: 0 };
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => out.push(function(c, "", &f.attrs, &f.vis, &f.sig, &f.block)),
            Item::Impl(i) => {
                let mut ty = (*i.self_ty).clone();
                let owner = match &ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), o => nosp(o) };
                rw.visit_type_mut(&mut ty);
                let mut g = i.generics.clone();
                rw.visit_generics_mut(&mut g);
                let tr = i.trait_.as_ref().map(|(_, p, _)| { let mut p = p.clone(); rw.visit_path_mut(&mut p); p.to_token_stream().to_string() });
                let (ig, _, wh) = g.split_for_impl();
                let mut fns = vec![];
                for x in &i.items { if let ImplItem::Fn(f) = x { fns.push(function(c, &match &tr { Some(t) => format!("<{} as {}>", owner, t.split('<').next().unwrap().trim()), None => owner.clone() }, &f.attrs, &f.vis, &f.sig, &f.block)); } }
                out.push(json!({"kind": "impl", "owner": owner, "generics": ig.to_token_stream().to_string(), "ty": ty.to_token_stream().to_string(), "where": wh.to_token_stream().to_string(), "trait": tr, "fns": fns}));
            }
            Item::Struct(s) => {
                let mut s2 = s.clone();
                let d = derives(&s.attrs);
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                if let Some(r) = c.rename.get(&s.ident.to_string()) { s2.ident = format_ident!("{}", r); }
                strip_field_attrs(&mut s2.fields);
                for f in s2.fields.iter_mut() { f.vis = parse_quote!(pub); }
                rw.visit_item_struct_mut(&mut s2);
                out.push(json!({"kind": "struct", "path": s2.ident.to_string(), "text": s2.to_token_stream().to_string(), "derives": d, "generics": s.generics.to_token_stream().to_string(), "fields": s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())).collect::<Vec<_>>()}));
            }
            Item::Enum(s) => {
                let mut s2 = s.clone();
                let d = derives(&s.attrs);
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                let mut from = vec![];
                let dv = s.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| v.ident.to_string());
                for v in s2.variants.iter_mut() {
                    v.attrs.clear();
                    for (_, fr) in strip_field_attrs(&mut v.fields) { if fr { let mut t = v.fields.iter().next().unwrap().ty.clone(); rw.visit_type_mut(&mut t); from.push(json!([v.ident.to_string(), t.to_token_stream().to_string()])); } }
                }
                rw.visit_item_enum_mut(&mut s2);
                out.push(json!({"kind": "enum", "path": s.ident.to_string(), "text": s2.to_token_stream().to_string(), "derives": d, "from": from, "default": dv, "variants": s.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>()}));
            }
            Item::Const(k) => { let t = nosp(&*k.ty); if t == "&str" || t == "&'staticstr" { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*k.expr { out.push(json!({"kind": "const", "path": k.ident.to_string(), "value": s.value()})); } } }
            Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, is)) = &m.content { let mut sub = vec![]; items(c, is, &mut sub); out.push(json!({"kind": "mod", "path": m.ident.to_string(), "items": sub})); },
            Item::Use(u) => out.push(json!({"kind": "use", "text": u.to_token_stream().to_string()})),
            _ => {}
        }
    }
}

fn use_names(t: &UseTree, m: &str, f: &mut dyn FnMut(&str, &str)) {
    match t {
        UseTree::Path(p) => use_names(&p.tree, &p.ident.to_string(), f),
        UseTree::Name(n) => f(m, &n.ident.to_string()),
        UseTree::Group(g) => for x in &g.items { use_names(x, m, f) },
        _ => {}
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).expect("configuration");
    let mut reply = vec![];
    for q in v.as_array().expect("list of requests") {
        let mut c = Cfg { mods: set(q, "mods"), strip: set(q, "strip"), reborrow: set(q, "reborrow"), module: q["module"].as_str().unwrap_or("").to_string(), consts: map(q, "consts"), mutself: set(q, "mutself"), mutcall: set(q, "mutcall"), mutref: set(q, "mutref"), mutbind: set(q, "mutbind"), rename: map(q, "rename"), types: map(q, "types"),
            methods: map(q, "methods"), iter_map: set(q, "iter_map"), opaque: set(q, "opaque"), result_map: set(q, "result_map"), quote: q["quote"].as_bool().unwrap_or(false), keep_eq: q["keep_eq"].as_bool().unwrap_or(false), drop_lt: q["drop_lt"].as_bool().unwrap_or(false) };
        let src = match q["text"].as_str() { Some(t) => t.to_string(), None => std::fs::read_to_string(q["file"].as_str().expect("file")).unwrap_or_default() };
        match parse_file(&src) {
            Ok(f) => {
                // functions of the file itself and functions imported from other modules, by their bare name
                if !c.module.is_empty() { for i in &f.items { if let Item::Fn(x) = i { c.rename.entry(x.sig.ident.to_string()).or_insert(format!("{}_{}", c.module, x.sig.ident)); } } }
                for i in &f.items { if let Item::Use(u) = i { use_names(&u.tree, "", &mut |m, n| { if c.mods.contains(m) && n.starts_with(|x: char| x.is_lowercase()) { c.rename.insert(n.to_string(), format!("{}_{}", m, n)); } }) } }
                let mut out = vec![]; items(&c, &f.items, &mut out); reply.push(json!({"items": out})) }
            Err(e) => reply.push(json!({"error": e.to_string()})),
        }
    }
    println!("{}", Value::Array(reply));
}
