// The parser that pest's derive writes for the grammar, against the grammar.
// gbody/grty are read back from the generated code (harness/src/bin/gengram);
// pest rewrites the expressions of a grammar before it writes code for them.
/// a ~ b, to the right
pub open spec fn rc(a: E, b: E) -> E decreases a { match a { E::Cat(x, y) => E::Cat(x, Box::new(rc(*y, b))), _ => E::Cat(Box::new(a), Box::new(b)) } }
/// a | b: a common beginning is tried once, characters are tried in ascending order
pub open spec fn mk(a: E, b: E) -> E
    decreases a, b
{
    match (a, b) {
        (E::Cat(x, y), E::Cat(u, z)) => if x == u { E::Cat(x, Box::new(mk(*y, *z))) } else { E::Alt(Box::new(a), Box::new(b)) },
        (E::R(p, q), E::R(m, n)) => if n < p { E::Alt(Box::new(b), Box::new(a)) } else { E::Alt(Box::new(a), Box::new(b)) },
        (E::R(p, q), E::Alt(h, t)) => match *h { E::R(m, n) => if n < p { E::Alt(h, Box::new(mk(a, *t))) } else { E::Alt(Box::new(a), Box::new(b)) }, _ => E::Alt(Box::new(a), Box::new(b)) },
        _ => E::Alt(Box::new(a), Box::new(b)),
    }
}
pub open spec fn ra(a: E, b: E) -> E decreases a { match a { E::Alt(x, y) => mk(*x, ra(*y, b)), _ => mk(a, b) } }
pub open spec fn norm(e: E) -> E
    decreases e
{
    match e {
        E::Cat(a, b) => rc(norm(*a), norm(*b)),
        E::Alt(a, b) => ra(norm(*a), norm(*b)),
        E::Neg(a) => E::Neg(Box::new(norm(*a))),
        E::Pos(a) => E::Pos(Box::new(norm(*a))),
        E::Star(a) => E::Star(Box::new(norm(*a))),
        _ => e,
    }
}
proof fn lemma_rc(a: E, b: E, at: bool, s: Str, i: int, f: nat)
    ensures peg(rc(a, b), at, s, i, f) == peg(E::Cat(Box::new(a), Box::new(b)), at, s, i, f)
    decreases a
{
    reveal_with_fuel(peg, 4);
    match a { E::Cat(x, y) => {
        match peg(*x, at, s, i, f) { PR::Ok(j, o) => {
            lemma_rc(*y, b, at, s, j, f);
            match peg(*y, at, s, j, f) { PR::Ok(k, p) => { match peg(b, at, s, k, f) { PR::Ok(l, q) => { assert((o + p) + q =~= o + (p + q)); } _ => {} } } _ => {} }
        } _ => {} }
    } _ => {} }
}
proof fn lemma_mk(a: E, b: E, at: bool, s: Str, i: int, f: nat)
    ensures peg(mk(a, b), at, s, i, f) == peg(E::Alt(Box::new(a), Box::new(b)), at, s, i, f)
    decreases a, b
{
    reveal_with_fuel(peg, 4);
    match (a, b) {
        (E::Cat(x, y), E::Cat(u, z)) => { if x == u { match peg(*x, at, s, i, f) { PR::Ok(j, o) => { lemma_mk(*y, *z, at, s, j, f); } _ => {} } } }
        (E::R(p, q), E::Alt(h, t)) => { match *h { E::R(m, n) => { if n < p { lemma_mk(a, *t, at, s, i, f); } } _ => {} } }
        _ => {}
    }
}
proof fn lemma_ra(a: E, b: E, at: bool, s: Str, i: int, f: nat)
    ensures peg(ra(a, b), at, s, i, f) == peg(E::Alt(Box::new(a), Box::new(b)), at, s, i, f)
    decreases a
{
    reveal_with_fuel(peg, 4);
    match a { E::Alt(x, y) => { lemma_mk(*x, ra(*y, b), at, s, i, f); lemma_ra(*y, b, at, s, i, f); } _ => { lemma_mk(a, b, at, s, i, f); } }
}
proof fn lemma_norm(e: E, at: bool, s: Str, i: int, f: nat)
    ensures peg(norm(e), at, s, i, f) == peg(e, at, s, i, f)
    decreases f, e
{
    match e {
        E::Cat(a, b) => {
            lemma_rc(norm(*a), norm(*b), at, s, i, f);
            lemma_norm(*a, at, s, i, f);
            match peg(*a, at, s, i, f) { PR::Ok(j, _) => { lemma_norm(*b, at, s, j, f); } _ => {} }
        }
        E::Alt(a, b) => { lemma_ra(norm(*a), norm(*b), at, s, i, f); lemma_norm(*a, at, s, i, f); lemma_norm(*b, at, s, i, f); }
        E::Neg(a) => { lemma_norm(*a, at, s, i, f); }
        E::Pos(a) => { lemma_norm(*a, at, s, i, f); }
        E::Star(a) => { if f > 0 {
            lemma_norm(*a, at, s, i, f);
            match peg(*a, at, s, i, f) { PR::Ok(j, _) => { lemma_norm(e, at, s, j, (f - 1) as nat); } _ => {} }
        } }
        _ => {}
    }
}

/// the generated parser: peg, with what the generated functions do
pub open spec fn gp(e: E, at: bool, s: Str, i: int, f: nat) -> PR
    decreases f, e
{
    match e {
        E::Nop | E::R(_, _) | E::Soi | E::Eoi => peg(e, at, s, i, f),
        E::Ref(r) => if f == 0 { PR::Fuel } else {
            match gp(gbody(r), at_in(grty(r), at), s, i, (f - 1) as nat) {
                PR::Ok(j, o) => if emits(grty(r), at) { PR::Ok(j, seq![It::Nd(PNode { rule: r, lo: i, hi: j, out: o })]) } else { PR::Ok(j, o) },
                x => x,
            }
        },
        E::Neg(x) => match gp(*x, at, s, i, f) { PR::Ok(_, _) => PR::Fail, PR::Fail => PR::Ok(i, seq![]), PR::Fuel => PR::Fuel },
        E::Pos(x) => match gp(*x, at, s, i, f) { PR::Ok(_, _) => PR::Ok(i, seq![]), y => y },
        E::Cat(a, b) => match gp(*a, at, s, i, f) {
            PR::Ok(j, o) => match gp(*b, at, s, j, f) { PR::Ok(k, p) => PR::Ok(k, o + p), y => y },
            y => y },
        E::Alt(a, b) => match gp(*a, at, s, i, f) { PR::Fail => gp(*b, at, s, i, f), y => y },
        E::Star(x) => if f == 0 { PR::Fuel } else {
            match gp(*x, at, s, i, f) {
                PR::Fail => PR::Ok(i, seq![]),
                PR::Fuel => PR::Fuel,
                PR::Ok(j, o) => match gp(e, at, s, j, (f - 1) as nat) { PR::Ok(k, p) => PR::Ok(k, o + p), y => y },
            } },
    }
}
proof fn lemma_gp(e: E, at: bool, s: Str, i: int, f: nat)
    ensures gp(e, at, s, i, f) == peg(e, at, s, i, f)
    decreases f, e
{
    match e {
        E::Ref(r) => { if f > 0 {
            let (t, g) = (at_in(rty(r), at), (f - 1) as nat);
            generated_rule(r);
            lemma_gp(gbody(r), t, s, i, g);
            lemma_norm(gbody(r), t, s, i, g);
            lemma_norm(body(r), t, s, i, g);
        } }
        E::Neg(x) => { lemma_gp(*x, at, s, i, f); }
        E::Pos(x) => { lemma_gp(*x, at, s, i, f); }
        E::Cat(a, b) => { lemma_gp(*a, at, s, i, f); match peg(*a, at, s, i, f) { PR::Ok(j, _) => { lemma_gp(*b, at, s, j, f); } _ => {} } }
        E::Alt(a, b) => { lemma_gp(*a, at, s, i, f); lemma_gp(*b, at, s, i, f); }
        E::Star(x) => { if f > 0 { lemma_gp(*x, at, s, i, f); match peg(*x, at, s, i, f) { PR::Ok(j, _) => { lemma_gp(e, at, s, j, (f - 1) as nat); } _ => {} } } }
        _ => {}
    }
}
/// C01: what the generated parser does with a text is what the grammar says
pub proof fn c01_generated(s: Str, f: nat)
    ensures gp(E::Ref(Rule::dockerfile), false, s, 0, f) == peg(E::Ref(Rule::dockerfile), false, s, 0, f)
{ lemma_gp(E::Ref(Rule::dockerfile), false, s, 0, f); }

// ---- literals: what match_string and match_insensitive are proved to do (pos.rs)
pub open spec fn lit(c: Seq<u32>) -> E
    decreases c.len()
{ if c.len() == 0 { E::Nop } else if c.len() == 1 { E::R(c[0], c[0]) } else { E::Cat(Box::new(E::R(c[0], c[0])), Box::new(lit(c.subrange(1, c.len() as int)))) } }
pub open spec fn any_case(c: u32) -> E {
    if 65 <= c <= 90 { E::Alt(Box::new(E::R((c + 32) as u32, (c + 32) as u32)), Box::new(E::R(c, c))) }
    else if 97 <= c <= 122 { E::Alt(Box::new(E::R(c, c)), Box::new(E::R((c - 32) as u32, (c - 32) as u32))) }
    else { E::R(c, c) }
}
pub open spec fn ilit(c: Seq<u32>) -> E
    decreases c.len()
{ if c.len() == 0 { E::Nop } else if c.len() == 1 { any_case(c[0]) } else { E::Cat(Box::new(any_case(c[0])), Box::new(ilit(c.subrange(1, c.len() as int)))) } }
pub open spec fn codes(t: Str) -> Seq<u32> { t.map_values(|c: char| c as u32) }
/// the items that a match of k characters leaves
pub open spec fn items(s: Str, i: int, k: int) -> Seq<It> { Seq::new(k as nat, |j: int| It::Ch(s[i + j])) }
pub open spec fn found(hit: bool, s: Str, i: int, k: int) -> PR { if hit { PR::Ok(i + k, items(s, i, k)) } else { PR::Fail } }
pub open spec fn here(s: Str, i: int, t: Str) -> bool { i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
pub open spec fn here_any_case(s: Str, i: int, t: Str) -> bool { i + t.len() <= s.len() && lower(s.subrange(i, i + t.len())) == lower(t) }
/// C01: a literal of the grammar matches as Position::match_string does
pub proof fn lemma_lit(t: Str, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i <= s.len()
    ensures peg(lit(codes(t)), at, s, i, f) == found(here(s, i, t), s, i, t.len() as int)
    decreases t.len()
{
    let c = codes(t); let k = t.len() as int;
    reveal_with_fuel(peg, 2);
    if k == 0 { assert(items(s, i, 0) =~= seq![]); assert(s.subrange(i, i) =~= t); }
    else {
        let u = t.drop_first();
        if here(s, i, t) { assert(s.subrange(i, i + k)[0] == t[0]); }
        if k == 1 {
            if i < s.len() {
                assert(items(s, i, 1) =~= seq![It::Ch(s[i])]);
                if s[i] == t[0] { assert(s.subrange(i, i + 1) =~= t); }
            }
        } else {
            assert(c.subrange(1, k) =~= codes(u));
            if i < s.len() {
                lemma_lit(u, at, s, i + 1, f);
                assert(items(s, i, k) =~= seq![It::Ch(s[i])] + items(s, i + 1, k - 1));
                if here(s, i, t) { assert(s.subrange(i + 1, i + k) =~= s.subrange(i, i + k).drop_first()); assert(here(s, i + 1, u)); }
                if s[i] == t[0] && here(s, i + 1, u) { assert(s.subrange(i, i + k) =~= seq![s[i]] + s.subrange(i + 1, i + k)); assert(t =~= seq![t[0]] + u); }
            }
        }
    }
}
proof fn lemma_any_case(c: char, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i < s.len()
    ensures peg(any_case(c as u32), at, s, i, f) == (if lower_char(s[i]) == lower_char(c) { PR::Ok(i + 1, seq![It::Ch(s[i])]) } else { PR::Fail })
{
    reveal_with_fuel(peg, 2);
    let a = s[i];
    if 'A' <= a && a <= 'Z' { assert(((a as u32 + 32) as u8) as char as u32 == a as u32 + 32); }
    if 'A' <= c && c <= 'Z' { assert(((c as u32 + 32) as u8) as char as u32 == c as u32 + 32); }
}
/// C01: a literal in any case matches as Position::match_insensitive does
pub proof fn lemma_ilit(t: Str, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i <= s.len()
    ensures peg(ilit(codes(t)), at, s, i, f) == found(here_any_case(s, i, t), s, i, t.len() as int)
    decreases t.len()
{
    let c = codes(t); let k = t.len() as int; let x = s.subrange(i, i + k);
    reveal_with_fuel(peg, 3);
    if k == 0 { assert(items(s, i, 0) =~= seq![]); assert(lower(x) =~= lower(t)); }
    else {
        let u = t.drop_first(); let y = s.subrange(i + 1, i + k);
        if here_any_case(s, i, t) { assert(lower(x)[0] == lower(t)[0]); }
        if i < s.len() { lemma_any_case(t[0], at, s, i, f); }
        if k == 1 {
            if i < s.len() {
                assert(items(s, i, 1) =~= seq![It::Ch(s[i])]);
                if lower_char(s[i]) == lower_char(t[0]) { assert(lower(x) =~= lower(t)); }
            }
        } else {
            assert(c.subrange(1, k) =~= codes(u));
            if i < s.len() {
                lemma_ilit(u, at, s, i + 1, f);
                assert(items(s, i, k) =~= seq![It::Ch(s[i])] + items(s, i + 1, k - 1));
                if here_any_case(s, i, t) { assert(lower(y) =~= lower(x).drop_first()); assert(lower(u) =~= lower(t).drop_first()); assert(here_any_case(s, i + 1, u)); }
                if lower_char(s[i]) == lower_char(t[0]) && here_any_case(s, i + 1, u) {
                    assert(lower(x) =~= seq![lower_char(s[i])] + lower(y)); assert(lower(t) =~= seq![lower_char(t[0])] + lower(u)); }
            }
        }
    }
}
