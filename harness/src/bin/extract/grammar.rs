//! pest grammar and regex literals -> JSON syntax trees.
use serde_json::{json, Value};
use std::path::Path;

pub fn translate(p: &Path) -> Value {
    use pest_meta::parser::{self, Rule};
    let text = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(e) => return json!({"error": format!("{}: {}", p.display(), e)}),
    };
    let pairs = match parser::parse(Rule::grammar_rules, &text) {
        Ok(x) => x,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let rules = match parser::consume_rules(pairs) {
        Ok(r) => r,
        Err(e) => return json!({"error": format!("{:?}", e)}),
    };
    let rules: Vec<Value> = rules
        .iter()
        .map(|r| json!({"name": r.name, "ty": format!("{:?}", r.ty), "expr": expr(&r.expr)}))
        .collect();
    json!({ "rules": rules })
}

fn expr(e: &pest_meta::ast::Expr) -> Value {
    use pest_meta::ast::Expr::*;
    match e {
        Str(s) => json!(["str", s]),
        Insens(s) => json!(["insens", s]),
        Range(a, b) => json!(["range", a, b]),
        Ident(s) => json!(["ref", s]),
        PosPred(x) => json!(["pos", expr(x)]),
        NegPred(x) => json!(["neg", expr(x)]),
        Seq(a, b) => json!(["seq", expr(a), expr(b)]),
        Choice(a, b) => json!(["alt", expr(a), expr(b)]),
        Opt(x) => json!(["opt", expr(x)]),
        Rep(x) => json!(["rep", expr(x)]),
        RepOnce(x) => json!(["rep1", expr(x)]),
        RepExact(x, n) => json!(["repmm", expr(x), n, n]),
        RepMin(x, n) => json!(["repmin", expr(x), n]),
        RepMax(x, n) => json!(["repmm", expr(x), 0, n]),
        RepMinMax(x, n, m) => json!(["repmm", expr(x), n, m]),
        other => json!(["unsupported", format!("{:?}", other)]),
    }
}

pub fn regex(p: &str) -> Value {
    match regex_syntax::parse(p) {
        Ok(h) => hir(&h),
        Err(e) => json!(["unsupported", e.to_string()]),
    }
}

fn hir(h: &regex_syntax::hir::Hir) -> Value {
    use regex_syntax::hir::{Class, HirKind, Look};
    match h.kind() {
        HirKind::Empty => json!(["empty"]),
        HirKind::Literal(l) => match std::str::from_utf8(&l.0) {
            Ok(s) => json!(["str", s]),
            Err(_) => json!(["unsupported", "bytes"]),
        },
        HirKind::Class(Class::Unicode(c)) => {
            json!(["class", c.ranges().iter().map(|r| json!([r.start() as u32, r.end() as u32])).collect::<Vec<_>>()])
        }
        HirKind::Class(Class::Bytes(c)) => {
            if c.is_ascii() {
                json!(["class", c.ranges().iter().map(|r| json!([r.start() as u32, r.end() as u32])).collect::<Vec<_>>()])
            } else {
                json!(["unsupported", "byte class"])
            }
        }
        HirKind::Look(Look::Start) => json!(["start"]),
        HirKind::Look(Look::End) => json!(["end"]),
        HirKind::Look(l) => json!(["unsupported", format!("{:?}", l)]),
        HirKind::Repetition(r) => {
            json!(["rep", hir(&r.sub), r.min, r.max, r.greedy])
        }
        HirKind::Capture(c) => json!(["cap", c.index, hir(&c.sub)]),
        HirKind::Concat(v) => json!(["cat", v.iter().map(hir).collect::<Vec<_>>()]),
        HirKind::Alternation(v) => json!(["alt", v.iter().map(hir).collect::<Vec<_>>()]),
    }
}
