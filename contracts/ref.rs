// What the reference syntax (ref_syntax.rs) accepts, apart from the pairs.
pub ghost enum RR { Fail, Fuel, Ok(int) }
pub open spec fn rp(e: E, s: Str, i: int, f: nat) -> RR
    decreases f, e
{
    match e {
        E::Nop => RR::Ok(i),
        E::R(a, b) => if 0 <= i < s.len() && a <= s[i] as u32 && s[i] as u32 <= b { RR::Ok(i + 1) } else { RR::Fail },
        E::Soi => if i == 0 { RR::Ok(i) } else { RR::Fail },
        E::Eoi => if i == s.len() { RR::Ok(i) } else { RR::Fail },
        E::Ref(r) => if f == 0 { RR::Fuel } else { match reference(r) { Some(x) => rp(x, s, i, (f - 1) as nat), None => RR::Fuel } },
        E::Neg(x) => match rp(*x, s, i, f) { RR::Ok(_) => RR::Fail, RR::Fail => RR::Ok(i), RR::Fuel => RR::Fuel },
        E::Pos(x) => match rp(*x, s, i, f) { RR::Ok(_) => RR::Ok(i), y => y },
        E::Cat(a, b) => match rp(*a, s, i, f) { RR::Ok(j) => rp(*b, s, j, f), y => y },
        E::Alt(a, b) => match rp(*a, s, i, f) { RR::Fail => rp(*b, s, i, f), y => y },
        E::Star(x) => if f == 0 { RR::Fuel } else { match rp(*x, s, i, f) { RR::Fail => RR::Ok(i), RR::Fuel => RR::Fuel, RR::Ok(j) => rp(e, s, j, (f - 1) as nat) } },
    }
}
/// where the reference decides, the grammar decides the same
pub open spec fn agree(a: RR, b: PR) -> bool { match a { RR::Ok(j) => match b { PR::Ok(k, _) => j == k, _ => false }, RR::Fail => b is Fail, RR::Fuel => true } }
pub proof fn lemma_reference(e: E, at: bool, s: Str, i: int, f: nat)
    ensures agree(rp(e, s, i, f), peg(e, at, s, i, f))
    decreases f, e
{
    match e {
        E::Ref(r) => if f > 0 && reference(r) is Some { lemma_syntax(r); lemma_reference(body(r), at_in(rty(r), at), s, i, (f - 1) as nat); },
        E::Neg(x) => { lemma_reference(*x, at, s, i, f); }
        E::Pos(x) => { lemma_reference(*x, at, s, i, f); }
        E::Cat(a, b) => { lemma_reference(*a, at, s, i, f); match rp(*a, s, i, f) { RR::Ok(j) => { lemma_reference(*b, at, s, j, f); } _ => {} } }
        E::Alt(a, b) => { lemma_reference(*a, at, s, i, f); if rp(*a, s, i, f) is Fail { lemma_reference(*b, at, s, i, f); } }
        E::Star(x) => if f > 0 { lemma_reference(*x, at, s, i, f); match rp(*x, s, i, f) { RR::Ok(j) => { lemma_reference(e, at, s, j, (f - 1) as nat); } _ => {} } },
        _ => {}
    }
}
pub proof fn lemma_more(e: E, at: bool, s: Str, i: int, f: nat, g: nat)
    requires f <= g, !(peg(e, at, s, i, f) is Fuel)
    ensures peg(e, at, s, i, g) == peg(e, at, s, i, f)
    decreases f, e
{
    match e {
        E::Ref(r) => { lemma_more(body(r), at_in(rty(r), at), s, i, (f - 1) as nat, (g - 1) as nat); }
        E::Neg(x) => { lemma_more(*x, at, s, i, f, g); }
        E::Pos(x) => { lemma_more(*x, at, s, i, f, g); }
        E::Cat(a, b) => { lemma_more(*a, at, s, i, f, g); match peg(*a, at, s, i, f) { PR::Ok(j, o) => { lemma_more(*b, at, s, j, f, g); } _ => {} } }
        E::Alt(a, b) => { lemma_more(*a, at, s, i, f, g); if peg(*a, at, s, i, f) is Fail { lemma_more(*b, at, s, i, f, g); } }
        E::Star(x) => { lemma_more(*x, at, s, i, f, g); match peg(*x, at, s, i, f) { PR::Ok(j, o) => { lemma_more(e, at, s, j, (f - 1) as nat, (g - 1) as nat); } _ => {} } }
        _ => {}
    }
}
/// the reference rule r matches s from i
pub open spec fn follows_in(r: Rule, s: Str, i: int, f: nat) -> bool { rp(E::Ref(r), s, i, f) is Ok }
pub open spec fn follows(r: Rule, s: Str, i: int) -> bool { exists|f: nat| #[trigger] follows_in(r, s, i, f) }
/// a rule fails to match only where its reference does not match
pub proof fn lemma_miss(r: Rule, at: bool, s: Str, i: int, f: nat)
    requires peg(E::Ref(r), at, s, i, f) is Fail
    ensures !follows(r, s, i)
{
    if follows(r, s, i) {
        let g = choose|g: nat| #[trigger] follows_in(r, s, i, g);
        lemma_reference(E::Ref(r), at, s, i, g);
        if f <= g { lemma_more(E::Ref(r), at, s, i, f, g); } else { lemma_more(E::Ref(r), at, s, i, g, f); }
    }
}
