//! The parser that pest's derive writes for a grammar, read back: one expression per
//! generated function, in the notation that `extract` uses for the grammar itself.
//! Anything else than pest's combinators is reported as an error for that function.
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use syn::{Expr, Item, Lit, Stmt};

type R<T> = Result<T, String>;
fn bad<T>(e: &impl ToTokens) -> R<T> { Err(e.to_token_stream().to_string().chars().take(80).collect()) }
/// the body of `|state| ..`
fn closure(e: &Expr) -> R<&Expr> { match e { Expr::Closure(c) => Ok(inner(&c.body)), _ => bad(e) } }
fn inner(e: &Expr) -> &Expr {
    match e { Expr::Block(b) => match &b.block.stmts[..] {
        [Stmt::Expr(x, None)] => inner(x),
        // fails only where a limit on calls has been set (pest::set_call_limit); this crate sets none
        [Stmt::Local(l), Stmt::Expr(x, None)] if l.to_token_stream().to_string().replace(' ', "") == "letstate=state.check_stack_limit()?;" => inner(x),
        _ => e }, Expr::Paren(p) => inner(&p.expr), Expr::Group(g) => inner(&g.expr), _ => e }
}
fn path(e: &Expr) -> String { e.to_token_stream().to_string().replace(' ', "") }
fn text(e: &Expr) -> R<String> { match e { Expr::Lit(l) => match &l.lit { Lit::Str(s) => Ok(s.value()), _ => bad(e) }, _ => bad(e) } }
fn ch(e: &Expr) -> R<String> { match e { Expr::Lit(l) => match &l.lit { Lit::Char(c) => Ok(c.value().to_string()), _ => bad(e) }, _ => bad(e) } }
fn list(k: &str, mut v: Vec<Value>) -> Value { // seq to the right (core flattens it), alt to the left
    if k == "seq" { let mut t = v.pop().unwrap(); while let Some(x) = v.pop() { t = json!([k, x, t]); } t }
    else { let mut i = v.into_iter(); let mut t = i.next().unwrap(); for x in i { t = json!([k, t, x]); } t }
}
fn chain<'a>(e: &'a Expr, m: &str, out: &mut Vec<&'a Expr>) -> R<()> {
    match inner(e) {
        Expr::MethodCall(c) if c.method == m => { chain(&c.receiver, m, out)?; out.push(closure(&c.args[0])?); Ok(()) }
        x => { out.push(x); Ok(()) }
    }
}
fn skip(e: &Expr) -> bool { matches!(e, Expr::Call(c) if path(&c.func) == "super::hidden::skip") }
fn expr(e: &Expr) -> R<Value> {
    let e = inner(e);
    match e {
        Expr::Call(c) => match path(&c.func).strip_prefix("self::") { Some(n) => Ok(json!(["ref", n.trim_start_matches("r#")])), None => bad(e) },
        Expr::MethodCall(c) if c.method == "and_then" => {
            let mut v = vec![];
            chain(e, "and_then", &mut v)?;
            Ok(list("seq", v.into_iter().filter(|x| !skip(x)).map(expr).collect::<R<Vec<_>>>()?))
        }
        Expr::MethodCall(c) if c.method == "or_else" => {
            let mut v = vec![];
            chain(e, "or_else", &mut v)?;
            Ok(list("alt", v.into_iter().map(expr).collect::<R<Vec<_>>>()?))
        }
        Expr::MethodCall(c) if path(&c.receiver) == "state" => {
            let a: Vec<&Expr> = c.args.iter().collect();
            match c.method.to_string().as_str() {
                "sequence" => expr(closure(a[0])?),
                "repeat" => Ok(json!(["rep", expr(closure(a[0])?)?])),
                "optional" => {
                    let b = closure(a[0])?;
                    // (x ~ x*)? is how a repetition is written where blanks could be skipped between the rounds
                    if let Expr::MethodCall(m) = inner(b) { if m.method == "and_then" {
                        if let Expr::MethodCall(r) = closure(&m.args[0])? { if r.method == "repeat" && path(&r.receiver) == "state" {
                            if let Expr::MethodCall(q) = closure(&r.args[0])? { if q.method == "sequence" {
                                let mut v = vec![];
                                chain(closure(&q.args[0])?, "and_then", &mut v)?;
                                if v.len() == 2 && skip(v[0]) && expr(v[1])? == expr(&m.receiver)? { return Ok(json!(["rep", expr(v[1])?])); }
                            } }
                        } }
                    } }
                    Ok(json!(["opt", expr(b)?]))
                }
                "lookahead" => Ok(json!([if path(a[0]) == "true" { "pos" } else { "neg" }, expr(closure(a[1])?)?])),
                "match_string" => Ok(json!(["str", text(a[0])?])),
                "match_insensitive" => Ok(json!(["insens", text(a[0])?])),
                "match_range" => match inner(a[0]) { Expr::Range(r) => Ok(json!(["range", ch(r.start.as_ref().unwrap())?, ch(r.end.as_ref().unwrap())?])), x => bad(x) },
                "skip" if path(a[0]) == "1" => Ok(json!(["rng", 0, 0x10FFFF])),
                "start_of_input" => Ok(json!(["soi"])),
                "end_of_input" => Ok(json!(["eoi"])),
                _ => bad(e),
            }
        }
        _ => bad(e),
    }
}
/// the function of one rule: [kind, expression]
fn rule(name: &str, e: &Expr) -> R<Value> {
    let mut e = inner(e);
    let (mut emits, mut atom) = (false, String::new());
    loop {
        match e {
            Expr::MethodCall(c) if c.method == "rule" && path(&c.receiver) == "state" => {
                if path(&c.args[0]).replace("r#", "") != format!("Rule::{}", name) || emits { return bad(e); }
                emits = true; e = closure(&c.args[1])?;
            }
            Expr::MethodCall(c) if c.method == "atomic" && path(&c.receiver) == "state" && atom.is_empty() => { atom = path(&c.args[0]).rsplit("::").next().unwrap().to_string(); e = closure(&c.args[1])?; if atom == "CompoundAtomic" && emits { return bad(e); } }
            _ => break,
        }
    }
    let kind = match (emits, atom.as_str()) { (true, "") => "Normal", (false, "") => "Silent", (true, "Atomic") => "Atomic", (true, "CompoundAtomic") => "CompoundAtomic", _ => return bad(e) };
    Ok(json!([kind, expr(e)?]))
}
fn find<'a>(items: &'a [Item], name: &str) -> Option<&'a [Item]> {
    items.iter().find_map(|i| match i { Item::Mod(m) => m.content.as_ref().and_then(|c| if m.ident == name { Some(&c.1[..]) } else { find(&c.1, name) }), Item::Fn(f) => f.block.stmts.iter().find_map(|s| stmt(s, name)), Item::Impl(m) => m.items.iter().find_map(|x| match x { syn::ImplItem::Fn(f) => f.block.stmts.iter().find_map(|s| stmt(s, name)), _ => None }), _ => None })
}
fn stmt<'a>(s: &'a Stmt, name: &str) -> Option<&'a [Item]> { match s { Stmt::Item(i) => find(std::slice::from_ref(i), name), _ => None } }
fn main() {
    let g = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let code = pest_generator::derive_parser(quote!(#[derive(Parser)] #[grammar_inline = #g] struct P;), false);
    let file: syn::File = syn::parse2(code).unwrap();
    let fns = find(&file.items, "visible").expect("no generated rules");
    let skips = find(&file.items, "hidden").map(|v| v.iter().any(|i| matches!(i, Item::Fn(f) if f.sig.ident == "skip" && f.block.to_token_stream().to_string().replace(' ', "") == "{Ok(state)}"))).unwrap_or(false);
    let mut out = serde_json::Map::new();
    for i in fns { if let Item::Fn(f) = i {
        let n = f.sig.ident.to_string().trim_start_matches("r#").to_string();
        let b = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: (*f.block).clone() });
        let r = rule(&n, &b);
        out.insert(n, match r { Ok(v) => v, Err(e) => json!({"error": e}) });
    } }
    println!("{}", json!({"no_skip": skips, "rules": out}));
}
