//! Mechanical extraction of the functions of /repo/src into a Verus-friendly
//! dialect.  Input: the crate's source directory.  Output: one JSON document
//! with every type and function (bodies rewritten by the rules of
//! DESIGN.md "What the extraction changes"), the regexes and the grammar.
//! The extractor never looks at contracts; check.py splices those in at the
//! `__vmark` positions.

mod grammar;
mod rewrite;

use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::*;

pub fn last_ident(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

pub fn type_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => last_ident(&p.path),
        Type::Reference(r) => type_ident(&r.elem),
        Type::Tuple(_) => "tuple".into(),
        Type::Paren(p) => type_ident(&p.elem),
        Type::Slice(_) => "slice".into(),
        _ => "other".into(),
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
        || attrs.iter().any(|a| a.path().is_ident("test"))
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(last_ident(&m.path));
                Ok(())
            });
        }
    }
    out
}

fn rs_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            rs_files(&p, out)
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p)
        }
    }
}

/// Expands a call of a local `macro_rules!` with one arm whose matcher is a
/// comma separated list of `$name:frag`.
fn expand_macro(def: &ItemMacro, call: &Macro) -> Option<Vec<Item>> {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let (pat, body) = match &toks[..] {
        [TokenTree::Group(a), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(b), ..]
            if b.delimiter() == Delimiter::Brace =>
        {
            if toks.len() > 5 {
                return None;
            }
            (a.stream(), b.stream())
        }
        _ => return None,
    };
    let mut names = vec![];
    let pt: Vec<TokenTree> = pat.into_iter().collect();
    let mut i = 0;
    while i < pt.len() {
        match (&pt[i], pt.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '$' => {
                names.push(n.to_string());
                i += 4; // $ name : frag
                if let Some(TokenTree::Punct(c)) = pt.get(i) {
                    if c.as_char() == ',' {
                        i += 1
                    } else {
                        return None;
                    }
                }
            }
            _ => return None,
        }
    }
    let mut args: Vec<TokenStream> = vec![TokenStream::new()];
    for t in call.tokens.clone() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
            _ => args.last_mut().unwrap().extend([t]),
        }
    }
    if args.last().map(|a| a.is_empty()).unwrap_or(false) {
        args.pop();
    }
    if args.len() != names.len() {
        return None;
    }
    let map: BTreeMap<String, TokenStream> = names.into_iter().zip(args).collect();
    fn subst(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match (&v[i], v.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(n)))
                    if p.as_char() == '$' && map.contains_key(&n.to_string()) =>
                {
                    out.extend(map[&n.to_string()].clone());
                    i += 2;
                }
                (TokenTree::Group(g), _) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map));
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                    i += 1;
                }
                (t, _) => {
                    out.extend([(*t).clone()]);
                    i += 1;
                }
            }
        }
        out
    }
    let f: File = parse2(subst(body, &map)).ok()?;
    Some(f.items)
}

struct Ctx {
    types: Vec<Value>,
    fns: Vec<Value>,
    notes: Vec<String>,
    regexes: Vec<Value>,
    /// inherent associated function names per type (so `T::from` can be told
    /// apart from the trait method)
    inherent: BTreeMap<String, Vec<String>>,
    traits: Vec<(String, String)>,
}

fn strip_docs(attrs: &mut Vec<Attribute>) {
    attrs.clear()
}

fn pub_fields(f: &mut Fields) {
    for fl in f.iter_mut() {
        strip_docs(&mut fl.attrs);
        fl.vis = parse_quote!(pub);
    }
}

impl Ctx {
    fn item_type(&mut self, name: String, gens: &Generics, ts: proc_macro2::TokenStream, der: Vec<String>, kind: &str, file: &str) {
        let (ig, tg, _) = gens.split_for_impl();
        self.types.push(json!({
            "name": name, "kind": kind, "text": rewrite::pretty(ts), "derives": der,
            "impl_generics": ig.to_token_stream().to_string(),
            "ty_generics": tg.to_token_stream().to_string(), "file": file,
        }));
    }

    fn func(&mut self, imp: Option<&ItemImpl>, sig: &Signature, block: &Block, file: &str) {
        let mut r = rewrite::Rewriter::new(&self.inherent);
        let self_ty = imp.map(|i| (*i.self_ty).clone());
        let self_name = self_ty.as_ref().map(type_ident);
        let (kind, trait_name, trait_arg) = match imp.and_then(|i| i.trait_.as_ref()) {
            None => (if imp.is_some() { "inherent" } else { "free" }, String::new(), String::new()),
            Some((_, p, _)) => {
                let seg = p.segments.last().unwrap();
                let mut arg = String::new();
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        arg = type_ident(t);
                    }
                }
                ("trait", seg.ident.to_string(), arg)
            }
        };
        let m = sig.ident.to_string();
        let key = match (kind, &self_name) {
            ("free", _) => m.clone(),
            ("inherent", Some(s)) => format!("{}::{}", s, m),
            (_, Some(s)) => format!(
                "{}::{}@{}{}", s, m, trait_name,
                if trait_arg.is_empty() { String::new() } else { format!("<{}>", trait_arg) }
            ),
            _ => m.clone(),
        };
        let mut sig = sig.clone();
        let mut block = block.clone();
        // Self / Self::Error / Self::Err inside trait impls
        if let Some(i) = imp {
            let mut assoc = BTreeMap::new();
            for it in &i.items {
                if let ImplItem::Type(t) = it {
                    assoc.insert(t.ident.to_string(), t.ty.clone());
                }
            }
            rewrite::subst_self(&mut sig, &mut block, self_ty.as_ref().unwrap(), &assoc);
        }
        let locals = rewrite::locals(&sig, &block);
        let params: Vec<Value> = sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Receiver(r) => json!({"name": "self", "ty": r.to_token_stream().to_string()}),
                FnArg::Typed(t) => json!({"name": t.pat.to_token_stream().to_string(), "ty": rewrite::ty_str(&t.ty)}),
            })
            .collect();
        let orig = rewrite::pretty(quote!(#sig #block));
        let out = r.function(&mut sig, &mut block);
        for (name, lit) in &r.regexes {
            self.regexes.push(json!({"fn": key, "name": name, "pattern": lit}));
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => rewrite::ty_str(t),
        };
        let inputs = sig.inputs.to_token_stream().to_string();
        let (gens, wher) = (sig.generics.to_token_stream().to_string(),
            sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default());
        let (imp_g, imp_t, imp_w) = match imp {
            Some(i) => (
                i.generics.params.to_token_stream().to_string(),
                rewrite::ty_str(&i.self_ty),
                i.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default(),
            ),
            None => Default::default(),
        };
        let trait_arg_full = imp
            .and_then(|i| i.trait_.as_ref())
            .and_then(|(_, p, _)| match &p.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => a.args.first().map(|t| {
                    if let GenericArgument::Type(t) = t { rewrite::ty_str(t) } else { t.to_token_stream().to_string() }
                }),
                _ => None,
            })
            .unwrap_or_default();
        let body = match out {
            Ok(b) => json!(b),
            Err(e) => json!({ "error": e }),
        };
        self.fns.push(json!({
            "key": key, "kind": kind, "self": self_name, "trait": trait_name, "trait_arg": trait_arg,
            "trait_arg_full": trait_arg_full, "name": m, "generics": gens, "where": wher,
            "inputs": inputs, "params": params, "ret": ret,
            "impl_generics": imp_g, "impl_ty": imp_t, "impl_where": imp_w,
            "body": body, "locals": locals, "loops": r.loops, "returns": r.returns,
            "calls": r.calls, "methods": r.methods, "closures": r.closures_left,
            "orig": orig, "file": file,
        }));
    }

    fn items(&mut self, items: &[Item], file: &str, macros: &mut BTreeMap<String, ItemMacro>) {
        for it in items {
            match it {
                Item::Struct(s) if !is_test(&s.attrs) => {
                    let mut s = s.clone();
                    let d = derives(&s.attrs);
                    strip_docs(&mut s.attrs);
                    s.vis = parse_quote!(pub);
                    pub_fields(&mut s.fields);
                    rewrite::fix_types_in_fields(&mut s.fields);
                    let k = if matches!(s.fields, Fields::Unit) { "unit" } else { "struct" };
                    self.item_type(s.ident.to_string(), &s.generics.clone(), s.to_token_stream(), d, k, file);
                }
                Item::Enum(s) if !is_test(&s.attrs) => {
                    let mut s = s.clone();
                    let d = derives(&s.attrs);
                    strip_docs(&mut s.attrs);
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        strip_docs(&mut v.attrs);
                        for f in v.fields.iter_mut() {
                            strip_docs(&mut f.attrs);
                        }
                        rewrite::fix_types_in_fields(&mut v.fields);
                    }
                    self.item_type(s.ident.to_string(), &s.generics.clone(), s.to_token_stream(), d, "enum", file);
                }
                Item::Type(t) if !is_test(&t.attrs) => {
                    // aliases are expanded by the rewriter (Result, Pair)
                    let mut t = t.clone();
                    strip_docs(&mut t.attrs);
                    self.item_type(t.ident.to_string(), &t.generics.clone(), t.to_token_stream(), vec![], "alias", file);
                }
                Item::Const(c) if !is_test(&c.attrs) => {
                    let mut c = c.clone();
                    strip_docs(&mut c.attrs);
                    c.vis = parse_quote!(pub);
                    self.item_type(c.ident.to_string(), &c.generics.clone(), c.to_token_stream(), vec![], "const", file);
                }
                Item::Fn(f) if !is_test(&f.attrs) => self.func(None, &f.sig, &f.block, file),
                Item::Impl(i) if !is_test(&i.attrs) => {
                    for m in &i.items {
                        if let ImplItem::Fn(f) = m {
                            if !is_test(&f.attrs) {
                                self.func(Some(i), &f.sig, &f.block, file)
                            }
                        }
                    }
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(its, file, macros)
                    }
                }
                Item::Macro(m) if !is_test(&m.attrs) => {
                    if m.mac.path.is_ident("macro_rules") {
                        macros.insert(m.ident.as_ref().unwrap().to_string(), m.clone());
                    } else if let Some(d) = macros.get(&last_ident(&m.mac.path)).cloned() {
                        match expand_macro(&d, &m.mac) {
                            Some(its) => self.items(&its, file, macros),
                            None => self.notes.push(format!("{}: macro {} not expanded", file, last_ident(&m.mac.path))),
                        }
                    } else {
                        self.notes.push(format!("{}: item macro {} ignored", file, last_ident(&m.mac.path)));
                    }
                }
                Item::Static(s) if !is_test(&s.attrs) => self.notes.push(format!("{}: static {} ignored", file, s.ident)),
                Item::Trait(t) if !is_test(&t.attrs) => self.notes.push(format!("{}: trait {} ignored", file, t.ident)),
                _ => {}
            }
        }
    }

    fn scan_inherent(&mut self, items: &[Item]) {
        for it in items {
            if let Item::Impl(i) = it {
                let s = type_ident(&i.self_ty);
                if i.trait_.is_none() {
                    for m in &i.items {
                        if let ImplItem::Fn(f) = m {
                            self.inherent.entry(s.clone()).or_default().push(f.sig.ident.to_string());
                        }
                    }
                } else {
                    self.traits.push((s, last_ident(&i.trait_.as_ref().unwrap().1)));
                }
            }
        }
    }
}

fn main() {
    let src = std::env::args().nth(1).unwrap_or_else(|| "/repo/src".into());
    let mut files = vec![];
    rs_files(Path::new(&src), &mut files);
    let mut cx = Ctx { types: vec![], fns: vec![], notes: vec![], regexes: vec![], inherent: Default::default(), traits: vec![] };
    let mut parsed = vec![];
    for f in &files {
        let text = std::fs::read_to_string(f).unwrap();
        match syn::parse_file(&text) {
            Ok(x) => parsed.push((f.strip_prefix(&src).unwrap().display().to_string(), x)),
            Err(e) => cx.notes.push(format!("{}: {}", f.display(), e)),
        }
    }
    for (_, f) in &parsed {
        cx.scan_inherent(&f.items)
    }
    let mut macros = BTreeMap::new();
    for (n, f) in &parsed {
        if n == "test_util.rs" {
            continue;
        }
        cx.items(&f.items, n, &mut macros)
    }
    let mut pest = None;
    for (_, f) in &parsed {
        for it in &f.items {
            if let Item::Struct(s) = it {
                for a in &s.attrs {
                    if a.path().is_ident("grammar") {
                        if let Meta::NameValue(nv) = &a.meta {
                            if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &nv.value {
                                pest = Some(l.value());
                            }
                        }
                    }
                }
            }
        }
    }
    let grammar = match pest {
        Some(p) => grammar::translate(&Path::new(&src).join(p)),
        None => json!({"error": "no #[grammar] attribute"}),
    };
    let regexes: Vec<Value> = cx
        .regexes
        .iter()
        .map(|r| {
            let mut r = r.clone();
            r["re"] = grammar::regex(r["pattern"].as_str().unwrap());
            r
        })
        .collect();
    println!(
        "{}",
        serde_json::to_string_pretty(&json!({
            "types": cx.types, "fns": cx.fns, "notes": cx.notes, "regexes": regexes, "grammar": grammar,
        }))
        .unwrap()
    );
}
