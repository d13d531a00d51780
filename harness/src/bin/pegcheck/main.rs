//! Differential check of the assumption behind every parse contract: that pest
//! executes the grammar as the parsing expressions of contracts/peg.rs do.
//! The terms come from grammar.py (JSON); pest's own parser is derived from the
//! same file; both run on generated texts, from every rule, and the trees of
//! pairs (rule, start, end, order) are compared.
//! usage: pegcheck <core.json> <repo> <seed> <ms> [<threads>]
#[path = "../oracle/gen.rs"]
#[allow(dead_code)]
mod gen;
use gen::*;
use pest::Parser;
use std::collections::HashMap;
use std::time::{Duration, Instant};

#[allow(dead_code)]
mod real {
    use pest_derive::Parser;
    #[derive(Parser)]
    #[grammar = "/repo/src/dockerfile_parser.pest"]
    pub struct P;
}

enum E { Nop, R(u32, u32), Soi, Eoi, Ref(usize), Neg(Box<E>), Pos(Box<E>), Cat(Box<E>, Box<E>), Alt(Box<E>, Box<E>), Star(Box<E>) }
#[derive(Clone, Copy, PartialEq)]
enum Ty { Normal, Silent, Atomic, Compound }
#[derive(PartialEq, Debug, Clone)]
struct N { rule: String, lo: usize, hi: usize, kids: Vec<N> }

fn expr(v: &serde_json::Value, ix: &HashMap<String, usize>) -> E {
    let b = |i: usize| Box::new(expr(&v[i], ix));
    match v[0].as_str().unwrap() {
        "Nop" => E::Nop, "Soi" => E::Soi, "Eoi" => E::Eoi,
        "R" => E::R(v[1].as_u64().unwrap() as u32, v[2].as_u64().unwrap() as u32),
        "Ref" => E::Ref(ix[v[1].as_str().unwrap()]),
        "Neg" => E::Neg(b(1)), "Pos" => E::Pos(b(1)),
        "Cat" => E::Cat(b(1), b(2)), "Alt" => E::Alt(b(1), b(2)), "Star" => E::Star(b(1)),
        k => panic!("{}", k),
    }
}
struct Gr { names: Vec<String>, ty: Vec<Ty>, body: Vec<E> }
// contracts/peg.rs: at_in, emits, peg
fn at_in(t: Ty, at: bool) -> bool { match t { Ty::Atomic => true, Ty::Compound => false, _ => at } }
fn emits(t: Ty, at: bool) -> bool { match t { Ty::Silent => false, Ty::Compound => true, _ => !at } }
struct Run<'a> { g: &'a Gr, s: &'a [char], fuel: u64 }
impl<'a> Run<'a> {
    fn peg(&mut self, e: &E, at: bool, i: usize) -> Option<Option<(usize, Vec<N>)>> {
        if self.fuel == 0 { return None; }
        self.fuel -= 1;
        Some(match e {
            E::Nop => Some((i, vec![])),
            E::R(a, b) => if i < self.s.len() && *a <= self.s[i] as u32 && self.s[i] as u32 <= *b { Some((i + 1, vec![])) } else { None },
            E::Soi => if i == 0 { Some((i, vec![])) } else { None },
            E::Eoi => if i == self.s.len() { Some((i, vec![])) } else { None },
            E::Ref(r) => {
                let (g, t) = (self.g, self.g.ty[*r]);
                match self.peg(&g.body[*r], at_in(t, at), i)? {
                    Some((j, o)) => Some(if emits(t, at) { (j, vec![N { rule: g.names[*r].clone(), lo: i, hi: j, kids: o }]) } else { (j, o) }),
                    None => None,
                }
            }
            E::Neg(x) => if self.peg(x, at, i)?.is_some() { None } else { Some((i, vec![])) },
            E::Pos(x) => if self.peg(x, at, i)?.is_some() { Some((i, vec![])) } else { None },
            E::Cat(a, b) => match self.peg(a, at, i)? {
                Some((j, mut o)) => match self.peg(b, at, j)? { Some((k, p)) => { o.extend(p); Some((k, o)) } None => None },
                None => None },
            E::Alt(a, b) => match self.peg(a, at, i)? { None => self.peg(b, at, i)?, y => y },
            E::Star(x) => {
                let (mut j, mut o) = (i, vec![]);
                while let Some((k, p)) = self.peg(x, at, j)? { if k == j { return None; } j = k; o.extend(p); }
                Some((j, o))
            }
        })
    }
}
fn tree(p: pest::iterators::Pair<real::Rule>, pos: &HashMap<usize, usize>, src: &str) -> N {
    let (lo, hi) = (p.as_span().start(), p.as_span().end());
    assert_eq!(p.as_str(), &src[lo..hi], "as_str is not the text of the span");
    N { rule: format!("{:?}", p.as_rule()), lo: pos[&lo], hi: pos[&hi], kids: p.into_inner().map(|k| tree(k, pos, src)).collect() }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let (repo, seed, ms) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let threads = a.get(5).map_or(2, |x| x.parse::<u64>().unwrap());
    let mut g = Gr { names: vec![], ty: vec![], body: vec![] };
    let mut ix = HashMap::new();
    for r in j.as_array().unwrap() { ix.insert(r[0].as_str().unwrap().to_string(), g.names.len()); g.names.push(r[0].as_str().unwrap().to_string()); }
    for r in j.as_array().unwrap() {
        g.ty.push(match r[1].as_str().unwrap() { "Normal" => Ty::Normal, "Silent" => Ty::Silent, "Atomic" => Ty::Atomic, _ => Ty::Compound });
        g.body.push(expr(&r[2], &ix));
    }
    let d = harvest(&repo);
    let mut corpus = vec![];
    for dir in ["tests", "examples", "src"] {
        if let Ok(rd) = std::fs::read_dir(format!("{}/{}", repo, dir)) { for e in rd.flatten() { let p = e.path(); if p.to_string_lossy().contains("ockerfile") { if let Ok(s) = std::fs::read_to_string(&p) { if s.len() < 3000 { corpus.push(s); } } } } }
    }
    corpus.sort();
    let (g, d, corpus) = (&g, &d, &corpus);
    let rules = real::Rule::all_rules();
    let t0 = Instant::now();
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|th| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
            let mut gg = G { r: Rng::new(seed ^ (th << 32)), d, corpus, big: false };
            let (mut n, mut ok, mut nodes, mut gaveup) = (0u64, 0u64, 0u64, 0u64);
            let mut seen = vec![0u64; rules.len()];
            while t0.elapsed() < Duration::from_millis(ms) {
                let all: Vec<usize> = (0..9).collect();
                let mut text = match gg.r.below(5) { 0 => gg.wild(&all), 1 => { let t = gg.doc(&all).0; gg.mutate(&t) } _ => gg.doc(&all).0 };
                if gg.r.one_in(3) { text = gg.mutate(&text); }
                if text.len() > 2000 { continue; }
                let c: Vec<char> = text.chars().collect();
                // the whole text as a document, then from every rule at some place
                let mut starts: Vec<(usize, real::Rule)> = vec![(0, real::Rule::dockerfile)];
                for _ in 0..40 { starts.push((gg.r.below(c.len() + 1), *gg.r.pick(rules))); }
                for (at, rule) in starts {
                    let sub: String = c[at..].iter().collect();
                    let cs = &c[at..];
                    let mut pos = HashMap::new();
                    for (k, (b, _)) in sub.char_indices().enumerate() { pos.insert(b, k); }
                    pos.insert(sub.len(), cs.len());
                    let name = format!("{:?}", rule);
                    let mut run = Run { g, s: cs, fuel: 3_000_000 };
                    let mine = match run.peg(&E::Ref(ix_of(g, &name)), false, 0) { Some(x) => x.map(|y| y.1), None => { gaveup += 1; continue } };
                    let theirs = real::P::parse(rule, &sub).ok().map(|ps| ps.map(|p| tree(p, &pos, &sub)).collect::<Vec<_>>());
                    n += 1;
                    if let Some(m) = &mine { ok += 1; seen[rules.iter().position(|r| *r == rule).unwrap()] += 1; nodes += count(m); }
                    if mine != theirs {
                        return (n, ok, nodes, gaveup, seen, Some(format!("rule {} on {:?}: contract semantics {:?}, pest {:?}", name, sub, mine, theirs)));
                    }
                }
            }
            (n, ok, nodes, gaveup, seen, None)
        }).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    let mut tot = (0, 0, 0, 0);
    let mut seen = vec![0u64; rules.len()];
    let mut bad = None;
    for (n, ok, nodes, gu, s, b) in out { tot = (tot.0 + n, tot.1 + ok, tot.2 + nodes, tot.3 + gu); for (x, y) in seen.iter_mut().zip(s) { *x += y; } bad = bad.or(b); }
    let unmatched: Vec<String> = rules.iter().zip(&seen).filter(|(_, n)| **n == 0).map(|(r, _)| format!("{:?}", r)).collect();
    println!("{}", serde_json::json!({"parses": tot.0, "matched": tot.1, "pairs_compared": tot.2, "gave_up": tot.3, "rules": rules.len(), "rules_never_matched": unmatched, "mismatch": bad}));
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
fn ix_of(g: &Gr, n: &str) -> usize { g.names.iter().position(|x| x == n).unwrap() }
fn count(v: &[N]) -> u64 { v.iter().map(|n| 1 + count(&n.kids)).sum() }
