//! Expression and type rewriting (rules R1..R14 of DESIGN.md).
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- printing

pub fn pretty(ts: TokenStream) -> String {
    let mut out = String::new();
    pr(ts, &mut out, 0);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..ind {
        out.push_str("  ");
    }
}

fn pr(ts: TokenStream, out: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "__vmark" => {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    nl(out, ind);
                    out.push_str(&format!("/*@MARK {} @*/", g.stream().to_string().replace(' ', "")));
                    nl(out, ind);
                    i += 3;
                    if let Some(TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ';' {
                            i += 1
                        }
                    }
                    continue;
                }
                out.push_str("__vmark ");
            }
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push('{');
                    nl(out, ind + 1);
                    pr(g.stream(), out, ind + 1);
                    nl(out, ind);
                    out.push('}');
                    let cont = matches!(v.get(i + 1), Some(TokenTree::Ident(k)) if k == "else")
                        || matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                    if !cont {
                        nl(out, ind)
                    } else {
                        out.push(' ')
                    }
                }
                d => {
                    let (a, b) = match d {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    if a != "[" && out.ends_with(' ') && a == "(" {
                        // keep `if (..)` readable, calls tight enough
                    }
                    out.push_str(a);
                    pr(g.stream(), out, ind);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(b);
                    out.push(' ');
                }
            },
            TokenTree::Punct(p) => {
                if p.as_char() == ';' {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push(';');
                    nl(out, ind);
                } else {
                    out.push(p.as_char());
                    if p.spacing() == proc_macro2::Spacing::Alone {
                        out.push(' ')
                    }
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}

// ------------------------------------------------------------------- types

struct Ty;
impl VisitMut for Ty {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let full = segs.join("::");
            let last = segs.last().cloned().unwrap_or_default();
            let nargs = match &p.path.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => {
                    a.args.iter().filter(|x| matches!(x, GenericArgument::Type(_))).cloned().collect::<Vec<_>>()
                }
                _ => vec![],
            };
            let new: Option<Type> = match full.as_str() {
                "pest::error::Error" => Some(parse_quote!(VPestError)),
                "enquote::Error" => Some(parse_quote!(VEnquoteError)),
                "std::io::Error" | "io::Error" => Some(parse_quote!(VIoError)),
                "fmt::Formatter" | "std::fmt::Formatter" | "Formatter" => Some(parse_quote!(VFmt)),
                "fmt::Result" | "std::fmt::Result" => Some(parse_quote!(core::result::Result<(), VFmtError>)),
                "fmt::Error" | "std::fmt::Error" => Some(parse_quote!(VFmtError)),
                "Result" if nargs.len() == 1 => {
                    let a = &nargs[0];
                    Some(parse_quote!(core::result::Result<#a, Error>))
                }
                "std::result::Result" | "Result" if nargs.len() == 2 => {
                    let (a, b) = (&nargs[0], &nargs[1]);
                    Some(parse_quote!(core::result::Result<#a, #b>))
                }
                "std::vec::IntoIter" | "vec::IntoIter" | "IntoIter" if nargs.len() == 1 => {
                    let a = &nargs[0];
                    Some(parse_quote!(VIter<#a>))
                }
                "std::slice::Iter" | "slice::Iter" if nargs.len() == 1 => {
                    let a = &nargs[0];
                    let lt = match &p.path.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(x) => x.args.iter().find_map(|g| match g {
                            GenericArgument::Lifetime(l) => Some(l.clone()),
                            _ => None,
                        }),
                        _ => None,
                    };
                    Some(match lt {
                        Some(l) => parse_quote!(VIter<&#l #a>),
                        None => parse_quote!(VIter<& #a>),
                    })
                }
                "std::collections::HashMap" => Some(parse_quote!(HashMap<#(#nargs),*>)),
                "std::collections::HashSet" => Some(parse_quote!(HashSet<#(#nargs),*>)),
                _ => None,
            };
            if let Some(n) = new {
                *t = n;
                return;
            }
            // Pair<Rule> (error.rs) -> Pair
            if last == "Pair" {
                let lts: Vec<Lifetime> = match &p.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(x) => x
                        .args
                        .iter()
                        .filter_map(|g| match g {
                            GenericArgument::Lifetime(l) => Some(l.clone()),
                            _ => None,
                        })
                        .collect(),
                    _ => vec![],
                };
                *t = match lts.first() {
                    Some(l) => parse_quote!(Pair<#l>),
                    None => parse_quote!(Pair<'_>),
                };
                return;
            }
            if segs.len() > 1 && segs[0] == "crate" {
                let s = p.path.segments.last().unwrap().clone();
                *t = parse_quote!(#s);
            }
        }
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        if let Some(s) = b.path.segments.last_mut() {
            match s.ident.to_string().as_str() {
                "Into" => s.ident = Ident::new("VInto", Span::call_site()),
                "Read" => s.ident = Ident::new("VRead", Span::call_site()),
                "Display" => {
                    b.path = parse_quote!(VDisplay);
                    return;
                }
                "Iterator" => {}
                _ => {}
            }
        }
    }
}

pub fn fix_ty(t: &mut Type) {
    Ty.visit_type_mut(t)
}

pub fn ty_str(t: &Type) -> String {
    let mut t = t.clone();
    if let Type::ImplTrait(i) = &t {
        // impl Iterator<Item = T> -> VIter<T>
        for b in &i.bounds {
            if let TypeParamBound::Trait(tb) = b {
                let s = tb.path.segments.last().unwrap();
                if s.ident == "Iterator" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        for g in &a.args {
                            if let GenericArgument::AssocType(at) = g {
                                let mut x = at.ty.clone();
                                fix_ty(&mut x);
                                return quote!(VIter<#x>).to_string();
                            }
                        }
                    }
                }
            }
        }
    }
    fix_ty(&mut t);
    t.to_token_stream().to_string()
}

pub fn fix_types_in_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        fix_ty(&mut x.ty)
    }
}

struct SubstSelf<'a> {
    ty: &'a Type,
    assoc: &'a BTreeMap<String, Type>,
}
impl VisitMut for SubstSelf<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 2 && segs[0] == "Self" {
                if let Some(a) = self.assoc.get(&segs[1]) {
                    *t = a.clone();
                    self.visit_type_mut(t);
                    return;
                }
            }
            if segs.len() == 1 && segs[0] == "Self" {
                *t = self.ty.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let name = crate::type_ident(self.ty);
        if name == "tuple" || name == "other" || name == "slice" {
            return;
        }
        let id = Ident::new(&name, Span::call_site());
        match e {
            Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments[0].ident == "Self" => {
                p.path.segments[0].ident = id
            }
            Expr::Struct(s) if s.path.is_ident("Self") => s.path = parse_quote!(#id),
            Expr::Path(p) if p.path.is_ident("Self") => p.path = parse_quote!(#id),
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let id = Ident::new(&crate::type_ident(self.ty), Span::call_site());
        match p {
            Pat::TupleStruct(t) if t.path.segments[0].ident == "Self" => t.path.segments[0].ident = id,
            Pat::Path(t) if t.path.segments[0].ident == "Self" => t.path.segments[0].ident = id,
            Pat::Struct(t) if t.path.segments[0].ident == "Self" => t.path.segments[0].ident = id,
            _ => {}
        }
    }
}

/// R16: a guarded arm of a match on a mutable borrow, when all that can follow
/// it is the final wildcard, becomes a test inside the arm
fn unguard(m: &mut ExprMatch) {
    if !matches!(&*m.expr, Expr::Reference(r) if r.mutability.is_some()) {
        return;
    }
    fn path(p: &Pat) -> Option<String> {
        match p {
            Pat::TupleStruct(t) => Some(t.path.to_token_stream().to_string()),
            Pat::Struct(t) => Some(t.path.to_token_stream().to_string()),
            _ => None,
        }
    }
    let last = match m.arms.last() {
        Some(Arm { pat: Pat::Wild(_), guard: None, body, .. }) => body.clone(),
        _ => return,
    };
    let n = m.arms.len() - 1;
    let paths: Vec<Option<String>> = m.arms[..n].iter().map(|a| path(&a.pat)).collect();
    for k in 0..n {
        if m.arms[k].guard.is_none() || paths[k].is_none() {
            continue;
        }
        if paths[k + 1..].iter().any(|p| p.is_none() || p == &paths[k]) {
            continue;
        }
        let a = &mut m.arms[k];
        let g = a.guard.take().unwrap().1;
        let x = &a.body;
        a.body = Box::new(parse_quote!({ if #g { #x } else { #last } }));
    }
}

/// `self` of a by-value `mut self` method
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = parse_quote!(__me)
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("__me", i.span())),
                    TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream()))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone())
    }
}

pub fn subst_self(sig: &mut Signature, b: &mut Block, ty: &Type, assoc: &BTreeMap<String, Type>) {
    let mut s = SubstSelf { ty, assoc };
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            s.visit_type_mut(&mut t.ty)
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        s.visit_type_mut(t)
    }
    s.visit_block_mut(b)
}

// ------------------------------------------------------------------ locals

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && !self.0.contains(&n) {
            self.0.push(n)
        }
        visit::visit_pat_ident(self, p)
    }
}

pub fn locals(sig: &Signature, b: &Block) -> Vec<String> {
    let mut l = Locals(vec![]);
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            l.visit_pat(&t.pat)
        }
    }
    l.visit_block(b);
    l.0
}

// ---------------------------------------------------------------- rewriter

/// std methods whose calls are renamed to `v_<name>` (trusted stubs with
/// contracts, see contracts/prelude.rs)
const RENAME: &[&str] = &[
    "to_string", "to_owned", "split_at", "splitn", "split", "rsplitn", "rsplit", "contains", "to_ascii_lowercase",
    "to_ascii_uppercase", "to_lowercase", "eq_ignore_ascii_case", "starts_with", "ends_with", "trim",
    "strip_prefix", "strip_suffix", "split_once", "rsplit_once", "rfind", "char_indices", "matches",
    "chars", "bytes", "lines", "enumerate", "collect", "captures_iter", "find_iter", "parse", "is_match", "into",
    "try_into", "extend", "is_empty", "len", "next", "rev", "skip", "take", "zip", "chain", "cloned", "copied",
    "last", "first", "into_iter", "count", "into_inner", "as_bytes", "replace", "join", "concat", "as_str",
    "nth", "peekable", "peek", "saturating_sub", "saturating_add", "checked_sub", "checked_add",
    "unwrap_or", "unwrap_or_default", "ok", "get", "insert", "contains_key", "split_off", "truncate", "range",
    "start", "end", "as_span", "as_rule", "read_to_string", "unwrap", "ok_or", "push_str", "insert_str", "replace_range", "to_vec",
    "is_ascii_hexdigit", "is_ascii_digit", "is_ascii_alphanumeric", "is_ascii_alphabetic", "is_alphanumeric",
    "trim_start", "trim_end", "trim_start_matches", "trim_end_matches", "trim_matches", "is_ascii", "is_ascii_uppercase", "is_ascii_lowercase",
    "is_ascii_whitespace", "is_whitespace", "len_utf8", "is_numeric", "is_alphabetic",
    "flatten", "or", "sum", "max", "min", "as_deref", "is_char_boundary", "split_whitespace", "checked_add_signed", "swap_remove", "drain",
    "expect", "split_first", "split_last", "next_back", "first_mut", "last_mut", "append", "wrapping_add", "wrapping_sub", "abs", "pow",
];
const ITER_SRC: &[&str] = &[
    "iter", "into_iter", "chars", "bytes", "split", "splitn", "enumerate", "into_inner", "captures_iter", "lines",
    "skip", "take", "rev", "zip", "iter_mut", "keys", "values", "filter", "filter_map", "chain", "cloned", "copied",
    "char_indices", "split_whitespace", "find_iter", "iter_components", "iter_stages", "flat_map", "skip_while", "take_while", "rsplit", "rsplitn", "matches",
];
const ITER_CLOSURE: &[&str] = &["map", "filter", "filter_map", "find", "find_map", "any", "all", "position", "for_each"];
const OPT_CLOSURE: &[&str] = &[
    "map", "and_then", "or_else", "unwrap_or_else", "ok_or_else", "map_err", "map_or", "filter", "is_some_and", "map_or_else",
];

pub struct Rewriter<'a> {
    inherent: &'a BTreeMap<String, Vec<String>>,
    pub loops: Vec<Value>,
    stack: Vec<Option<usize>>,
    pub returns: usize,
    pub calls: BTreeSet<String>,
    pub methods: BTreeSet<String>,
    pub closures_left: usize,
    pub regexes: Vec<(String, String)>,
    errs: Vec<String>,
    lets: BTreeMap<String, usize>,
}

fn mark(name: String) -> TokenStream {
    let id = format_ident!("{}", name);
    quote!(__vmark!(#id);)
}

fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
        Expr::Paren(p) => is_lit(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && is_lit(&u.expr),
        _ => false,
    }
}

fn chain_is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ITER_SRC.contains(&n.as_str()) {
                // Option::filter etc: look further only for adaptors
                if n == "filter" {
                    return chain_is_iter(&m.receiver);
                }
                return true;
            }
            if n == "map" || n == "by_ref" || n == "peekable" {
                return chain_is_iter(&m.receiver);
            }
            false
        }
        Expr::Paren(p) => chain_is_iter(&p.expr),
        Expr::Range(_) => true,
        Expr::Verbatim(_) => false,
        _ => false,
    }
}

impl<'a> Rewriter<'a> {
    pub fn new(inherent: &'a BTreeMap<String, Vec<String>>) -> Self {
        Rewriter {
            inherent, loops: vec![], stack: vec![], returns: 0, calls: Default::default(), methods: Default::default(),
            closures_left: 0, regexes: vec![], errs: vec![], lets: Default::default(),
        }
    }

    pub fn function(&mut self, sig: &mut Signature, b: &mut Block) -> std::result::Result<String, String> {
        // by-value `mut` parameters become mutable locals
        let mut pre: Vec<Stmt> = vec![];
        for i in sig.inputs.iter_mut() {
            match i {
                FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
                    r.mutability = None;
                    RenameSelf.visit_block_mut(b);
                    pre.push(parse_quote!(let mut __me = self;));
                }
                FnArg::Typed(t) => {
                    if let Pat::Ident(p) = &mut *t.pat {
                        if p.mutability.is_some() && p.by_ref.is_none() {
                            p.mutability = None;
                            let id = &p.ident;
                            pre.push(parse_quote!(let mut #id = #id;));
                        }
                    }
                }
                _ => {}
            }
        }
        // types in the signature
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = i {
                if let Type::ImplTrait(it) = &mut *t.ty {
                    for bd in it.bounds.iter_mut() {
                        if let TypeParamBound::Trait(tb) = bd {
                            Ty.visit_trait_bound_mut(tb)
                        }
                    }
                } else {
                    fix_ty(&mut t.ty)
                }
            }
        }
        Ty.visit_generics_mut(&mut sig.generics);
        // locals statics / nested items
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) if m.mac.path.segments.last().unwrap().ident == "lazy_static" => self.lazy(&m.mac, &mut keep),
                Stmt::Item(Item::Macro(m)) if m.mac.path.segments.last().unwrap().ident == "lazy_static" => {
                    self.lazy(&m.mac, &mut keep)
                }
                Stmt::Item(Item::Use(_)) => {}
                other => keep.push(other),
            }
        }
        b.stmts = keep;
        self.visit_block_mut(b);
        pre.extend(std::mem::take(&mut b.stmts));
        b.stmts = pre;
        // function level marks
        let stmts = &b.stmts;
        let mut ts = mark("entry".into());
        let n = stmts.len();
        for (i, s) in stmts.iter().enumerate() {
            if i + 1 == n && matches!(s, Stmt::Expr(_, None)) {
                ts.extend(mark("tail".into()));
            }
            ts.extend(s.to_token_stream());
        }
        if n > 0 && !matches!(stmts[n - 1], Stmt::Expr(_, None)) {
            ts.extend(mark("tail".into()));
        }
        if let Some(e) = self.errs.first() {
            return Err(e.clone());
        }
        Ok(pretty(ts))
    }

    fn lazy(&mut self, m: &Macro, keep: &mut Vec<Stmt>) {
        // static ref NAME: Regex = Regex::new(LIT).unwrap();
        let v: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        let mut stmts: Vec<Vec<TokenTree>> = vec![vec![]];
        for t in v {
            if let TokenTree::Punct(p) = &t {
                if p.as_char() == ';' {
                    stmts.push(vec![]);
                    continue;
                }
            }
            stmts.last_mut().unwrap().push(t);
        }
        for s in stmts {
            if s.is_empty() {
                continue;
            }
            let ts: TokenStream = s.iter().cloned().collect();
            let txt = ts.to_string();
            let name = s
                .iter()
                .filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None })
                .find(|i| i != "static" && i != "ref" && i != "pub");
            let lit = find_str(&ts);
            match (name, lit) {
                (Some(n), Some(l)) if txt.contains("Regex :: new") => {
                    let id = format_ident!("{}", n);
                    let f = format_ident!("__regex_{}", n);
                    self.regexes.push((n, l));
                    let st: Stmt = parse_quote!(let #id = #f(););
                    keep.push(st);
                }
                _ => self.errs.push(format!("lazy_static not understood: {}", txt)),
            }
        }
    }

    fn new_loop(&mut self, kind: &str) -> usize {
        let k = self.loops.len();
        self.loops.push(json!({"kind": kind, "breaks": 0}));
        k
    }

    fn parse_args(&mut self, m: &Macro) -> Option<Vec<Expr>> {
        match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(p) => Some(p.into_iter().collect()),
            Err(_) => None,
        }
    }

    /// `"..{}.."`, args -> statements writing to `__f`
    fn fmt_pieces(&mut self, fmt: &str, args: &[Expr], f: &TokenStream) -> Option<TokenStream> {
        let mut out = TokenStream::new();
        let mut lit = String::new();
        let mut it = fmt.chars().peekable();
        let mut next = 0;
        let flush = |lit: &mut String, out: &mut TokenStream| {
            if !lit.is_empty() {
                let l = std::mem::take(lit);
                out.extend(quote!(VDisplay::fmt(#l, #f)?;));
            }
        };
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    lit.push('{')
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    lit.push('}')
                }
                '{' => {
                    let mut spec = String::new();
                    for d in it.by_ref() {
                        if d == '}' {
                            break;
                        }
                        spec.push(d)
                    }
                    flush(&mut lit, &mut out);
                    let (name, how) = match spec.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (spec.clone(), String::new()),
                    };
                    let arg: TokenStream = if name.is_empty() {
                        let a = args.get(next)?;
                        next += 1;
                        a.to_token_stream()
                    } else if let Ok(i) = name.parse::<usize>() {
                        args.get(i)?.to_token_stream()
                    } else {
                        let id = parse_str::<Ident>(&name).ok()?;
                        quote!(#id)
                    };
                    if how.is_empty() {
                        out.extend(quote!(VDisplay::fmt(&(#arg), #f)?;));
                    } else {
                        out.extend(quote!(v_fmt_unknown(#f)?;));
                    }
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut out);
        Some(out)
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "format" => {
                let mut a = self.parse_args(m)?;
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = a.first().cloned() {
                    let pieces = self.fmt_pieces(&s.value(), &a[1..], &quote!(&mut __f))?;
                    // `?` is not usable here: formatting into a String cannot fail
                    let p = pieces.to_string().replace(") ?", ") . v_unwrap ()");
                    let p: TokenStream = p.parse().ok()?;
                    let vis: Expr = Expr::Verbatim(quote!({ let mut __f = v_fmt_new(); #p __f.s }));
                    return Some(vis);
                }
                None
            }
            "write" | "writeln" => {
                let mut a = self.parse_args(m)?;
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                let f = a.first()?.to_token_stream();
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = a.get(1).cloned() {
                    let mut text = s.value();
                    if name == "writeln" {
                        text.push('\n')
                    }
                    let p = self.fmt_pieces(&text, &a[2..], &f)?;
                    return Some(Expr::Verbatim(quote!({ #p core::result::Result::<(), VFmtError>::Ok(()) })));
                }
                None
            }
            "vec" => {
                let t = m.tokens.to_string();
                if t.contains(';') {
                    return None;
                }
                let mut a = self.parse_args(m)?;
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                if a.is_empty() {
                    return Some(Expr::Verbatim(quote!(Vec::new())));
                }
                Some(Expr::Verbatim(quote!(v_vec([#(#a),*]))))
            }
            "matches" => {
                let (mut e, pat, guard) = m
                    .parse_body_with(|i: parse::ParseStream| {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g: Option<Expr> = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok((e, p, g))
                    })
                    .ok()?;
                self.visit_expr_mut(&mut e);
                match guard {
                    None => Some(Expr::Verbatim(quote!((match #e { #pat => true, _ => false })))),
                    Some(mut g) => {
                        self.visit_expr_mut(&mut g);
                        Some(Expr::Verbatim(quote!((match #e { #pat => #g, _ => false }))))
                    }
                }
            }
            "ensure" => {
                let mut a = self.parse_args(m)?;
                for x in a.iter_mut() {
                    self.visit_expr_mut(x)
                }
                let c = a.first()?.to_token_stream();
                let k = self.returns;
                self.returns += 1;
                let mk = mark(format!("ret{}", k));
                match a.get(1)? {
                    Expr::Struct(s) => {
                        let n = s.path.segments.last().unwrap().ident.clone();
                        let fs = s.fields.iter().map(|f| {
                            let (m, e) = (&f.member, &f.expr);
                            quote!(#m: (#e).v_into())
                        });
                        Some(Expr::Verbatim(quote!(if !(#c) { #mk return Err(Error::#n { #(#fs),* }); })))
                    }
                    Expr::Path(p) => {
                        let n = p.path.segments.last().unwrap().ident.clone();
                        Some(Expr::Verbatim(quote!(if !(#c) { #mk return Err(Error::#n); })))
                    }
                    _ => None,
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(Expr::Verbatim(quote!(v_panic()))),
            "assert" | "debug_assert" => {
                let mut a = self.parse_args(m)?;
                self.visit_expr_mut(&mut a[0]);
                let c = a[0].to_token_stream();
                Some(Expr::Verbatim(quote!(if !(#c) { v_panic::<()>() })))
            }
            "println" | "eprintln" | "print" | "eprint" => Some(Expr::Verbatim(quote!(()))),
            "__vmark" => Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })),
            _ => None,
        }
    }

    /// closure or path used as a function value -> (pattern, body)
    fn closure(&mut self, e: &Expr, nargs: usize) -> Option<(Vec<TokenStream>, TokenStream)> {
        match e {
            Expr::Closure(c) => {
                let pats: Vec<TokenStream> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => t.pat.to_token_stream(),
                        p => p.to_token_stream(),
                    })
                    .collect();
                let has_ret = {
                    struct R(bool);
                    impl<'a> Visit<'a> for R {
                        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                            self.0 = true
                        }
                        fn visit_expr_try(&mut self, _: &'a ExprTry) {
                            self.0 = true
                        }
                        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
                    }
                    let mut r = R(false);
                    r.visit_expr(&c.body);
                    r.0
                };
                if has_ret {
                    return None;
                }
                let mut b = (*c.body).clone();
                self.stack.push(None);
                self.visit_expr_mut(&mut b);
                self.stack.pop();
                Some((pats, b.to_token_stream()))
            }
            Expr::Path(p) => {
                let args: Vec<Ident> = (0..nargs).map(|i| format_ident!("__c{}", i)).collect();
                let mut call: Expr = parse_quote!(#p(#(#args),*));
                // `Some`, `String::from`, ...
                self.visit_expr_mut(&mut call);
                Some((args.iter().map(|a| a.to_token_stream()).collect(), call.to_token_stream()))
            }
            _ => None,
        }
    }

    fn iter_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let cl = m.args.first()?;
        if !matches!(cl, Expr::Closure(_) | Expr::Path(_)) {
            return None;
        }
        let mut recv = (*m.receiver).clone();
        self.visit_expr_mut(&mut recv);
        let k = self.new_loop(&name);
        let (pats, body) = self.closure(cl, 1)?;
        let pat = pats.first()?.clone();
        let it = format_ident!("__it{}", k);
        let s = format_ident!("__s{}", k);
        let out = format_ident!("__out{}", k);
        let x = format_ident!("__x{}", k);
        let (before, after, spec) = (mark(format!("loop{}_before", k)), mark(format!("loop{}_after", k)), mark(format!("loop{}_spec", k)));
        let (start, end, brk) = (mark(format!("loop{}_start", k)), mark(format!("loop{}_end", k)), mark(format!("loop{}_break", k)));
        let spec: TokenStream = {
            // no trailing `;` between `loop` and its body
            let v: Vec<TokenTree> = spec.into_iter().collect();
            v[..v.len() - 1].iter().cloned().collect()
        };
        let (init, step, result, breaks) = match name.as_str() {
            "map" => (quote!(let mut #out = Vec::new();),
                quote!(let #pat = #x; #start let __y = #body; #out.push(__y); #end), quote!(v_viter(#out)), 0),
            "filter" => (quote!(let mut #out = Vec::new();),
                quote!(let __keep = { let #pat = &#x; #start #body }; if __keep { #out.push(#x); } #end), quote!(v_viter(#out)), 0),
            "filter_map" => (quote!(let mut #out = Vec::new();),
                quote!(let #pat = #x; #start let __y = #body; if let Some(__z) = __y { #out.push(__z); } #end), quote!(v_viter(#out)), 0),
            "find" => (quote!(let mut #out = None;),
                quote!(let __keep = { let #pat = &#x; #start #body }; if __keep { #out = Some(#x); #brk break; } #end), quote!(#out), 1),
            "find_map" => (quote!(let mut #out = None;),
                quote!(let #pat = #x; #start let __y = #body; if __y.is_some() { #out = __y; #brk break; } #end), quote!(#out), 1),
            "any" => (quote!(let mut #out = false;),
                quote!(let #pat = #x; #start let __y = #body; if __y { #out = true; #brk break; } #end), quote!(#out), 1),
            "all" => (quote!(let mut #out = true;),
                quote!(let #pat = #x; #start let __y = #body; if !__y { #out = false; #brk break; } #end), quote!(#out), 1),
            "position" => {
                let n = format_ident!("__n{}", k);
                (quote!(let mut #out = None; let mut #n: usize = 0;),
                quote!(let #pat = #x; #start let __y = #body; if __y { #out = Some(#n); #brk break; } #n += 1; #end), quote!(#out), 1)
            }
            "for_each" => (quote!(), quote!(let #pat = #x; #start #body; #end), quote!(()), 0),
            _ => return None,
        };
        self.loops[k]["breaks"] = json!(breaks);
        Some(Expr::Verbatim(quote!({
            let mut #it = (#recv).v_iter();
            let ghost #s = #it.seq();
            #init
            #before
            loop #spec {
                match #it.v_next() { None => { break; } Some(#x) => { #step } }
            }
            #after
            #result
        })))
    }

    fn opt_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !m.args.iter().any(|a| matches!(a, Expr::Closure(_) | Expr::Path(_))) {
            return None;
        }
        let mut recv = (*m.receiver).clone();
        self.visit_expr_mut(&mut recv);
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let ts = match name.as_str() {
            "map" => {
                let (p, b) = self.closure(&a[0], 1)?;
                let p = p.first()?;
                quote!((match #recv { Some(#p) => Some(#b), None => None }))
            }
            "and_then" => {
                let (p, b) = self.closure(&a[0], 1)?;
                let p = p.first()?;
                quote!((match #recv { Some(#p) => #b, None => None }))
            }
            "or_else" => {
                let (p, b) = self.closure(&a[0], 0)?;
                if !p.is_empty() {
                    return None;
                }
                quote!((match #recv { Some(__z) => Some(__z), None => #b }))
            }
            "unwrap_or_else" => {
                let (p, b) = self.closure(&a[0], 0)?;
                if !p.is_empty() {
                    return None;
                }
                quote!((match #recv { Some(__z) => __z, None => #b }))
            }
            "ok_or_else" => {
                let (_, b) = self.closure(&a[0], 0)?;
                quote!((match #recv { Some(__z) => Ok(__z), None => Err(#b) }))
            }
            "map_err" => {
                let (p, b) = self.closure(&a[0], 1)?;
                let p = p.first()?;
                quote!((match #recv { Ok(__z) => Ok(__z), Err(#p) => Err(#b) }))
            }
            "is_some_and" => {
                let (p, b) = self.closure(&a[0], 1)?;
                let p = p.first()?;
                quote!((match #recv { Some(#p) => #b, None => false }))
            }
            "filter" => {
                let (p, b) = self.closure(&a[0], 1)?;
                let p = p.first()?;
                quote!((match #recv { Some(__z) => { let __k = { let #p = &__z; #b }; if __k { Some(__z) } else { None } } None => None }))
            }
            "map_or" => {
                let mut d = a[0].clone();
                self.visit_expr_mut(&mut d);
                let (p, b) = self.closure(&a[1], 1)?;
                let p = p.first()?;
                quote!((match #recv { Some(#p) => #b, None => #d }))
            }
            "map_or_else" => {
                let (_, d) = self.closure(&a[0], 0)?;
                let (p, b) = self.closure(&a[1], 1)?;
                let p = p.first()?;
                quote!((match #recv { Some(#p) => #b, None => #d }))
            }
            _ => return None,
        };
        Some(Expr::Verbatim(ts))
    }

    fn spec_mark(&self, k: usize) -> TokenStream {
        let id = format_ident!("loop{}_spec", k);
        quote!(__vmark!(#id))
    }

    /// `if let [a, "lit", ..] = E[..]` as (condition, bindings)
    fn slice_pat(&mut self, p: &PatSlice, e: &Expr) -> Option<(TokenStream, TokenStream)> {
        let base = match e {
            Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => (*i.expr).clone(),
            Expr::Reference(r) => match &*r.expr {
                Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => (*i.expr).clone(),
                _ => return None,
            },
            Expr::MethodCall(m) if m.method == "as_slice" => (*m.receiver).clone(),
            _ => return None,
        };
        let n = p.elems.len();
        let mut cond = quote!(#base.v_len() == #n);
        let mut binds = TokenStream::new();
        for (i, el) in p.elems.iter().enumerate() {
            match el {
                Pat::Lit(l) => {
                    let lit = &l.lit;
                    match lit {
                        Lit::Str(_) => cond.extend(quote!(&& v_eq(&#base[#i], &#lit))),
                        _ => cond.extend(quote!(&& #base[#i] == #lit)),
                    }
                }
                Pat::Ident(id) if id.subpat.is_none() => {
                    let nm = &id.ident;
                    binds.extend(quote!(let #nm = #base[#i];));
                }
                Pat::Wild(_) => {}
                _ => return None,
            }
        }
        Some((cond, binds))
    }

    /// `E[a..b]` -> `E.v_slice..`
    fn range_index(&self, i: &ExprIndex) -> Option<TokenStream> {
        let base = &i.expr;
        if let Expr::Range(r) = &*i.index {
            if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
                return None;
            }
            return Some(match (&r.start, &r.end) {
                (Some(a), Some(b)) => quote!(#base.v_slice(#a, #b)),
                (Some(a), None) => quote!(#base.v_slice_from(#a)),
                (None, Some(b)) => quote!(#base.v_slice_to(#b)),
                (None, None) => quote!(#base.v_slice_all()),
            });
        }
        None
    }
}

fn find_str(ts: &TokenStream) -> Option<String> {
    for t in ts.clone() {
        match t {
            TokenTree::Literal(l) => {
                if let Ok(Lit::Str(s)) = syn::parse_str::<Lit>(&l.to_string()) {
                    return Some(s.value());
                }
            }
            TokenTree::Group(g) => {
                if let Some(s) = find_str(&g.stream()) {
                    return Some(s);
                }
            }
            _ => {}
        }
    }
    None
}

impl VisitMut for Rewriter<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        fix_ty(t)
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut loc = Locals(vec![]);
            if let Stmt::Local(l) = &s {
                loc.visit_pat(&l.pat);
            }
            out.push(s);
            for v in loc.0 {
                let n = self.lets.entry(v.clone()).or_insert(0);
                *n += 1;
                let id = if *n == 1 { format_ident!("let_{}", v) } else { format_ident!("let_{}_{}", v, *n) };
                out.push(Stmt::Macro(StmtMacro { attrs: vec![], mac: parse_quote!(__vmark!(#id)), semi_token: Some(Default::default()) }));
            }
        }
        b.stmts = out;
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            match self.macro_expr(&mac) {
                Some(e) => *s = Stmt::Expr(e, m.semi_token),
                None => self.errs.push(format!("macro {} not translated", mac.path.to_token_stream())),
            }
            return;
        }
        if let Stmt::Item(i) = s {
            if !matches!(i, Item::Use(_)) {
                self.errs.push("nested item".into());
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s)
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- constructs handled before descending
        if let Expr::Match(m) = e {
            unguard(m);
        }
        match e {
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.macro_expr(&mac) {
                    Some(x) => *e = x,
                    None => self.errs.push(format!("macro {} not translated", mac.path.to_token_stream())),
                }
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.new_loop("for");
                let mut it_e = (*f.expr).clone();
                if let Expr::Range(_) = it_e {
                    it_e = parse_quote!(v_range_iter(#it_e));
                    if let Expr::Range(r) = &*f.expr {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            it_e = parse_quote!(v_range_iter(#a, #b));
                        } else {
                            self.errs.push("range loop".into());
                        }
                    }
                }
                self.visit_expr_mut(&mut it_e);
                let mut body = f.body.clone();
                self.stack.push(Some(k));
                self.visit_block_mut(&mut body);
                self.stack.pop();
                let pat = &f.pat;
                let it = format_ident!("__it{}", k);
                let s = format_ident!("__s{}", k);
                let spec = self.spec_mark(k);
                let (before, after) = (mark(format!("loop{}_before", k)), mark(format!("loop{}_after", k)));
                let (start, end) = (mark(format!("loop{}_start", k)), mark(format!("loop{}_end", k)));
                let stmts = &body.stmts;
                let tail_semi = match stmts.last() {
                    Some(Stmt::Expr(_, None)) => quote!(;),
                    _ => quote!(),
                };
                *e = Expr::Verbatim(quote!({
                    let mut #it = (#it_e).v_iter();
                    let ghost #s = #it.seq();
                    #before
                    loop #spec {
                        match #it.v_next() { None => { break; } Some(#pat) => { #start #(#stmts)* #tail_semi #end } }
                    }
                    #after
                }));
                return;
            }
            Expr::While(w) => {
                let k = self.new_loop("while");
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                let mut body = w.body.clone();
                self.stack.push(Some(k));
                self.visit_block_mut(&mut body);
                self.stack.pop();
                let spec = self.spec_mark(k);
                let (before, after) = (mark(format!("loop{}_before", k)), mark(format!("loop{}_after", k)));
                let (start, end) = (mark(format!("loop{}_start", k)), mark(format!("loop{}_end", k)));
                let stmts = &body.stmts;
                let tail_semi = match stmts.last() {
                    Some(Stmt::Expr(_, None)) => quote!(;),
                    _ => quote!(),
                };
                *e = match &cond {
                    Expr::Let(l) => {
                        self.loops[k]["kind"] = json!("whilelet");
                        let (p, x) = (&l.pat, &l.expr);
                        Expr::Verbatim(quote!({ #before loop #spec {
                            match #x { #p => { #start #(#stmts)* #tail_semi #end } _ => { break; } }
                        } #after }))
                    }
                    c => Expr::Verbatim(quote!({ #before while #c #spec { #start #(#stmts)* #tail_semi #end } #after })),
                };
                return;
            }
            Expr::Loop(w) => {
                let k = self.new_loop("loop");
                let mut body = w.body.clone();
                self.stack.push(Some(k));
                self.visit_block_mut(&mut body);
                self.stack.pop();
                let spec = self.spec_mark(k);
                let (before, after) = (mark(format!("loop{}_before", k)), mark(format!("loop{}_after", k)));
                let (start, end) = (mark(format!("loop{}_start", k)), mark(format!("loop{}_end", k)));
                let stmts = &body.stmts;
                *e = Expr::Verbatim(quote!({ #before loop #spec { #start #(#stmts)* #end } #after }));
                return;
            }
            Expr::Continue(_) => {
                if let Some(Some(k)) = self.stack.last() {
                    let m = mark(format!("loop{}_end", k));
                    *e = Expr::Verbatim(quote!({ #m continue; }));
                }
                return;
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    self.errs.push("labelled or valued break".into());
                }
                if let Some(Some(k)) = self.stack.last().cloned() {
                    let n = self.loops[k]["breaks"].as_u64().unwrap() + 1;
                    self.loops[k]["breaks"] = json!(n);
                    let m = mark(format!("loop{}_break", k));
                    *e = Expr::Verbatim(quote!({ #m break; }));
                }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let has_fn = m.args.iter().any(|a| {
                    matches!(a, Expr::Closure(_))
                        || matches!(a, Expr::Path(p) if p.path.segments.len() > 1 || p.path.is_ident("Some"))
                });
                if has_fn && ITER_CLOSURE.contains(&name.as_str()) && chain_is_iter(&m.receiver) {
                    let m = m.clone();
                    match self.iter_closure(&m) {
                        Some(x) => *e = x,
                        None => self.errs.push(format!("iterator closure in {}", name)),
                    }
                    return;
                }
                if has_fn && OPT_CLOSURE.contains(&name.as_str()) {
                    let m = m.clone();
                    match self.opt_closure(&m) {
                        Some(x) => *e = x,
                        None => self.errs.push(format!("closure in {}", name)),
                    }
                    return;
                }
                if name == "context" && m.args.len() == 1 {
                    let mut recv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut recv);
                    if let Expr::Path(p) = &m.args[0] {
                        let v = p.path.segments.last().unwrap().ident.clone();
                        *e = Expr::Verbatim(quote!((match #recv {
                            Ok(__v) => Ok(__v), Err(__e) => Err(Error::#v { source: __e }),
                        })));
                        return;
                    }
                    self.errs.push("context selector".into());
                    return;
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if let Pat::Slice(ps) = &*l.pat {
                        let mut base = (*l.expr).clone();
                        if let Expr::Index(ix) = &mut base {
                            self.visit_expr_mut(&mut ix.expr)
                        }
                        match self.slice_pat(ps, &base) {
                            Some((c, b)) => {
                                let mut th = i.then_branch.clone();
                                self.visit_block_mut(&mut th);
                                let stmts = &th.stmts;
                                let el = match &i.else_branch {
                                    Some((_, x)) => {
                                        let mut x = (**x).clone();
                                        self.visit_expr_mut(&mut x);
                                        match x {
                                            Expr::Block(_) | Expr::If(_) => quote!(else #x),
                                            _ => quote!(else { #x }),
                                        }
                                    }
                                    None => quote!(),
                                };
                                *e = Expr::Verbatim(quote!(if #c { #b #(#stmts)* } #el));
                                return;
                            }
                            None => {
                                self.errs.push("slice pattern".into());
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Closure(_) => {
                self.closures_left += 1;
                self.errs.push("closure".into());
                return;
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if matches!(&*i.index, Expr::Range(_)) && r.mutability.is_none() {
                        let mut i = i.clone();
                        self.visit_expr_mut(&mut i.expr);
                        if let Expr::Range(rg) = &mut *i.index {
                            if let Some(x) = &mut rg.start {
                                self.visit_expr_mut(x)
                            }
                            if let Some(x) = &mut rg.end {
                                self.visit_expr_mut(x)
                            }
                        }
                        match self.range_index(&i) {
                            Some(t) => *e = Expr::Verbatim(t),
                            None => self.errs.push("range index".into()),
                        }
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- after descending
        match e {
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => match self.range_index(i) {
                Some(t) => *e = Expr::Verbatim(t),
                None => self.errs.push("range index".into()),
            },
            Expr::Return(r) => {
                let k = self.returns;
                self.returns += 1;
                let m = mark(format!("ret{}", k));
                let r = r.clone();
                *e = Expr::Verbatim(quote!({ #m #r; }));
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                if let (BinOp::Add(_), Expr::Reference(_)) = (&b.op, &*b.right) {
                    // only strings are added to a borrow
                    let (l, r) = (&b.left, &b.right);
                    *e = Expr::Verbatim(quote!(v_concat(#l, #r)));
                    return;
                }
                if (eq || ne) && !is_lit(&b.left) && !is_lit(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    let l = strip_paren(l);
                    let r = strip_paren(r);
                    *e = if eq { Expr::Verbatim(quote!(v_eq(&#l, &#r))) } else { Expr::Verbatim(quote!((!v_eq(&#l, &#r)))) };
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.methods.insert(name.clone());
                if name == "iter" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = Expr::Verbatim(quote!((&#r).v_iter()));
                    return;
                }
                if name == "find" {
                    m.method = format_ident!("v_find");
                    return;
                }
                if name == "as_ref" || name == "fmt" || name == "clone" {
                    return;
                }
                if name == "get" && m.args.len() == 1 {
                    if let Expr::Range(r) = &m.args[0] {
                        if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let (x, a, b) = (&m.receiver, a, b);
                            *e = Expr::Verbatim(quote!(#x.v_get_range(#a, #b)));
                            return;
                        }
                    }
                }
                if RENAME.contains(&name.as_str()) {
                    m.method = format_ident!("v_{}", name);
                    if name == "collect" || name == "parse" {
                        // keep the turbofish of parse only
                        if name == "collect" {
                            m.turbofish = None;
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    if p.path.segments.len() > 1 {
                        let first = p.path.segments[0].ident.to_string();
                        if first == "crate" || first == "self" || first == "super" {
                            let segs: Punctuated<PathSegment, Token![::]> = p.path.segments.iter().skip(1).cloned().collect();
                            p.path.segments = segs;
                        }
                        if first == "std" || first == "core" {
                            let last = p.path.segments.last().unwrap().ident.clone();
                            if last == "from_utf8" {
                                p.path = parse_quote!(v_from_utf8);
                            }
                        }
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let full = segs.join("::");
                    self.calls.insert(full.clone());
                    if segs.len() == 2 && segs[1] == "from" && c.args.len() == 1 {
                        let own = self.inherent.get(&segs[0]).map(|v| v.contains(&"from".to_string())).unwrap_or(false);
                        if !own {
                            let t = p.path.segments[0].clone();
                            let a = &c.args[0];
                            *e = Expr::Verbatim(quote!(VInto::<#t>::v_into(#a)));
                            return;
                        }
                    }
                    if full == "unquote" || full == "enquote::unquote" {
                        p.path = parse_quote!(v_unquote);
                    }
                    if full == "u8::from_str_radix" {
                        p.path = parse_quote!(v_u8_radix);
                    }
                    if full == "u32::from_str_radix" {
                        p.path = parse_quote!(v_u32_radix);
                    }
                    if full == "char::from_u32" || full.ends_with("::char::from_u32") {
                        p.path = parse_quote!(v_from_u32);
                    }
                    if full == "Box::new" && c.args.len() == 1 {
                        return;
                    }
                    if full == "DockerfileParser::parse" {
                        p.path = parse_quote!(v_pest_parse);
                    }
                }
            }
            _ => {}
        }
    }
}

fn strip_paren(e: &Expr) -> TokenStream {
    match e {
        Expr::Paren(p) => p.expr.to_token_stream(),
        Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Index(_) | Expr::Lit(_) | Expr::Unary(_) | Expr::Verbatim(_) => {
            let t = e.to_token_stream();
            match e {
                Expr::Unary(_) => quote!((#t)),
                _ => t,
            }
        }
        _ => {
            let t = e.to_token_stream();
            quote!((#t))
        }
    }
}
