// C01: parsing ends, and with a stack that does not depend on the text
/// e never matches without reading a character (d: how deep rules are followed)
pub open spec fn eats(e: E, d: nat) -> bool
    decreases d, e
{
    match e {
        E::R(_, _) => true,
        E::Ref(r) => d > 0 && eats(body(r), (d - 1) as nat),
        E::Cat(a, b) => eats(*a, d) || eats(*b, d),
        E::Alt(a, b) => eats(*a, d) && eats(*b, d),
        _ => false,
    }
}
/// in e, rules refer to each other at most d deep, and every repetition reads something each time round
pub open spec fn tame(e: E, d: nat) -> bool
    decreases d, e
{
    match e {
        E::Ref(r) => d > 0 && tame(body(r), (d - 1) as nat),
        E::Neg(x) => tame(*x, d),
        E::Pos(x) => tame(*x, d),
        E::Cat(a, b) => tame(*a, d) && tame(*b, d),
        E::Alt(a, b) => tame(*a, d) && tame(*b, d),
        E::Star(x) => eats(*x, d) && tame(*x, d),
        _ => true,
    }
}
/// how deep the rules of the grammar may nest: pest's own calls nest a constant number per level
pub open spec fn DEPTH() -> nat { 24 }
proof fn lemma_eats(e: E, d: nat, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i <= s.len(), eats(e, d)
    ensures match peg(e, at, s, i, f) { PR::Ok(j, _) => i < j <= s.len(), _ => true }
    decreases d, e
{
    lemma_peg_tiled(e, at, s, i, f);
    match e {
        E::Ref(r) => if f > 0 { lemma_eats(body(r), (d - 1) as nat, at_in(rty(r), at), s, i, (f - 1) as nat); },
        E::Cat(a, b) => {
            lemma_peg_tiled(*a, at, s, i, f);
            if eats(*a, d) { lemma_eats(*a, d, at, s, i, f); }
            match peg(*a, at, s, i, f) { PR::Ok(j, _) => { lemma_peg_tiled(*b, at, s, j, f); if eats(*b, d) { lemma_eats(*b, d, at, s, j, f); } } _ => {} }
        }
        E::Alt(a, b) => { lemma_eats(*a, d, at, s, i, f); lemma_eats(*b, d, at, s, i, f); }
        _ => {}
    }
}
/// matching e at i comes to an end: after the fuel returned, it is decided
proof fn lemma_ends(e: E, d: nat, at: bool, s: Str, i: int) -> (f: nat)
    requires 0 <= i <= s.len(), tame(e, d)
    ensures !(peg(e, at, s, i, f) is Fuel)
    decreases d, e, s.len() - i
{
    match e {
        E::Ref(r) => { let f = lemma_ends(body(r), (d - 1) as nat, at_in(rty(r), at), s, i); f + 1 }
        E::Neg(x) => lemma_ends(*x, d, at, s, i),
        E::Pos(x) => lemma_ends(*x, d, at, s, i),
        E::Cat(a, b) => {
            let f = lemma_ends(*a, d, at, s, i);
            lemma_peg_tiled(*a, at, s, i, f);
            match peg(*a, at, s, i, f) {
                PR::Ok(j, _) => {
                    let g = lemma_ends(*b, d, at, s, j);
                    let m = if f < g { g } else { f };
                    lemma_more(*a, at, s, i, f, m); lemma_more(*b, at, s, j, g, m);
                    m }
                _ => f }
        }
        E::Alt(a, b) => {
            let f = lemma_ends(*a, d, at, s, i);
            let g = lemma_ends(*b, d, at, s, i);
            let m = if f < g { g } else { f };
            lemma_more(*a, at, s, i, f, m); lemma_more(*b, at, s, i, g, m);
            m
        }
        E::Star(x) => {
            let f = lemma_ends(*x, d, at, s, i);
            lemma_peg_tiled(*x, at, s, i, f);
            lemma_eats(*x, d, at, s, i, f);
            match peg(*x, at, s, i, f) {
                PR::Ok(j, _) => {
                    let g = lemma_ends(e, d, at, s, j);
                    let m = if f < g + 1 { g + 1 } else { f };
                    lemma_more(*x, at, s, i, f, m); lemma_more(e, at, s, j, g, (m - 1) as nat);
                    m }
                _ => { lemma_more(*x, at, s, i, f, f + 1); f + 1 } }
        }
        _ => 0,
    }
}
proof fn grammar_tame() ensures tame(E::Ref(Rule::dockerfile), DEPTH()) { assert(tame(E::Ref(Rule::dockerfile), DEPTH())) by(compute_only); }
/// C01: the syntax accepts a text or refuses it, for every text: never neither, never both
pub proof fn c01_decided(s: Str)
    ensures peg_fail(Rule::dockerfile, s) || exists|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o),
        !(peg_fail(Rule::dockerfile, s) && exists|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o)),
{
    grammar_tame();
    let e = E::Ref(Rule::dockerfile);
    let f = lemma_ends(e, DEPTH(), false, s, 0);
    match peg(e, false, s, 0, f) {
        PR::Ok(j, o) => { assert(peg_end(Rule::dockerfile, s, o, j, f)); assert(peg_ok(Rule::dockerfile, s, o)); }
        PR::Fail => {}
        PR::Fuel => {}
    }
    if peg_fail(Rule::dockerfile, s) && exists|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o) {
        let g = choose|g: nat| #[trigger] peg(e, false, s, 0, g) is Fail;
        let o = choose|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o);
        let (j, h) = choose|j: int, h: nat| #[trigger] peg_end(Rule::dockerfile, s, o, j, h);
        if g <= h { lemma_more(e, false, s, 0, g, h); } else { lemma_more(e, false, s, 0, h, g); }
    }
}
