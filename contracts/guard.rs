// Ordered choice: a pair of rule t is only produced where the rules f, which
// come before it, do not match. Evaluated on the grammar like the automata.
pub enum RL { N, C(Rule, Box<RL>) }
pub open spec fn inrl(l: RL, r: Rule) -> bool
    decreases l
{ match l { RL::N => false, RL::C(a, m) => a == r || inrl(*m, r) } }
pub open spec fn appr(l: RL, k: RL) -> RL
    decreases l
{ match l { RL::N => k, RL::C(a, m) => RL::C(a, Box::new(appr(*m, k))) } }
pub open spec fn subr(l: RL, k: RL) -> bool
    decreases l
{ match l { RL::N => true, RL::C(a, m) => inrl(k, a) && subr(*m, k) } }
/// rules that do not match where e does not match
pub open spec fn lost(e: E) -> RL
    decreases e
{ match e { E::Ref(r) => RL::C(r, Box::new(RL::N)), E::Alt(a, b) => appr(lost(*a), lost(*b)), _ => RL::N } }
/// rules that do not match where a match of e ended
pub open spec fn aft(e: E) -> RL
    decreases e
{ match e { E::Star(x) => lost(*x), E::Cat(a, b) => aft(*b), _ => RL::N } }
/// every pair of rule t that e produces stands where none of the rules f match;
/// those of acc do not match where e starts
pub open spec fn gd(e: E, at: bool, acc: RL, t: Rule, f: RL, n: nat) -> bool
    decreases n, e
{
    match e {
        E::Ref(r) => if emits(rty(r), at) { r == t ==> subr(f, acc) } else { n > 0 && gd(body(r), at_in(rty(r), at), acc, t, f, (n - 1) as nat) },
        E::Cat(a, b) => gd(*a, at, acc, t, f, n) && gd(*b, at, aft(*a), t, f, n),
        E::Alt(a, b) => gd(*a, at, acc, t, f, n) && gd(*b, at, appr(lost(*a), acc), t, f, n),
        E::Star(x) => gd(*x, at, RL::N, t, f, n),
        _ => true,
    }
}
pub open spec fn guard_ok(d: Rule, t: Rule, f: RL) -> bool {
    &&& emits(rty(d), false) ==> gd(body(d), at_in(rty(d), false), RL::N, t, f, 4)
    &&& emits(rty(d), true) ==> gd(body(d), at_in(rty(d), true), RL::N, t, f, 4)
}
pub open spec fn misses1(r: Rule, at: bool, s: Str, i: int, f: nat) -> bool { peg(E::Ref(r), at, s, i, f) is Fail }
/// the rule r does not match s at position i
pub open spec fn misses(r: Rule, s: Str, i: int) -> bool { exists|at: bool, f: nat| #[trigger] misses1(r, at, s, i, f) }
pub open spec fn all_miss(l: RL, s: Str, i: int) -> bool { forall|r: Rule| #[trigger] inrl(l, r) ==> misses(r, s, i) }
pub open spec fn guarded(o: Seq<It>, s: Str, t: Rule, f: RL) -> bool {
    forall|x: int| 0 <= x < o.len() ==> match #[trigger] o[x] { It::Nd(m) => m.rule == t ==> all_miss(f, s, m.lo), _ => true }
}
proof fn lemma_appr(l: RL, k: RL, r: Rule)
    ensures inrl(appr(l, k), r) == (inrl(l, r) || inrl(k, r))
    decreases l
{ match l { RL::C(a, m) => lemma_appr(*m, k, r), _ => {} } }
proof fn lemma_subr(l: RL, k: RL, r: Rule)
    requires subr(l, k), inrl(l, r)
    ensures inrl(k, r)
    decreases l
{ match l { RL::C(a, m) => { if a != r { lemma_subr(*m, k, r); } } _ => {} } }
proof fn lemma_lost(e: E, at: bool, s: Str, i: int, f: nat)
    requires peg(e, at, s, i, f) is Fail
    ensures all_miss(lost(e), s, i)
    decreases e
{
    reveal_with_fuel(inrl, 3);
    match e {
        E::Ref(r) => { assert(misses1(r, at, s, i, f)); }
        E::Alt(a, b) => { lemma_lost(*a, at, s, i, f); lemma_lost(*b, at, s, i, f);
            assert forall|r: Rule| #[trigger] inrl(lost(e), r) implies misses(r, s, i) by { lemma_appr(lost(*a), lost(*b), r); } }
        _ => {}
    }
}
proof fn lemma_aft(e: E, at: bool, s: Str, i: int, f: nat)
    ensures match peg(e, at, s, i, f) { PR::Ok(j, o) => all_miss(aft(e), s, j), _ => true }
    decreases e
{
    match e {
        E::Star(x) => match peg(e, at, s, i, f) { PR::Ok(j, o) => { assert(e == E::Star(Box::new(*x))); let g = lemma_star_end(*x, at, s, i, f); lemma_lost(*x, at, s, j, g); } _ => {} },
        E::Cat(a, b) => match peg(*a, at, s, i, f) { PR::Ok(j, o) => lemma_aft(*b, at, s, j, f), _ => {} },
        _ => {}
    }
}
proof fn lemma_gd(e: E, at: bool, s: Str, i: int, fu: nat, acc: RL, t: Rule, f: RL, n: nat)
    requires gd(e, at, acc, t, f, n), all_miss(acc, s, i)
    ensures match peg(e, at, s, i, fu) { PR::Ok(j, o) => guarded(o, s, t, f), _ => true }
    decreases fu, e
{
    match e {
        E::Ref(r) => if fu > 0 {
            if emits(rty(r), at) {
                if r == t { assert forall|q: Rule| #[trigger] inrl(f, q) implies misses(q, s, i) by { lemma_subr(f, acc, q); } }
            } else { lemma_gd(body(r), at_in(rty(r), at), s, i, (fu - 1) as nat, acc, t, f, (n - 1) as nat); }
        },
        E::Cat(a, b) => {
            lemma_gd(*a, at, s, i, fu, acc, t, f, n);
            match peg(*a, at, s, i, fu) { PR::Ok(j, o) => { lemma_aft(*a, at, s, i, fu); lemma_gd(*b, at, s, j, fu, aft(*a), t, f, n); } _ => {} }
        }
        E::Alt(a, b) => {
            lemma_gd(*a, at, s, i, fu, acc, t, f, n);
            if peg(*a, at, s, i, fu) is Fail {
                lemma_lost(*a, at, s, i, fu);
                assert forall|r: Rule| #[trigger] inrl(appr(lost(*a), acc), r) implies misses(r, s, i) by { lemma_appr(lost(*a), acc, r); }
                lemma_gd(*b, at, s, i, fu, appr(lost(*a), acc), t, f, n);
            }
        }
        E::Star(x) => if fu > 0 {
            lemma_gd(*x, at, s, i, fu, RL::N, t, f, n);
            match peg(*x, at, s, i, fu) { PR::Ok(j, o) => { lemma_gd(e, at, s, j, (fu - 1) as nat, RL::N, t, f, n); } _ => {} }
        },
        _ => {}
    }
}
/// a pair of rule t inside a pair of rule d
pub proof fn lemma_guard(n: PNode, s: Str, a: int, t: Rule, f: RL)
    requires valid(n, s), guard_ok(n.rule, t, f), 0 <= a < nkids(n).len(), nkids(n)[a].rule == t
    ensures all_miss(f, s, nkids(n)[a].lo)
{
    let (at, fu) = choose|at: bool, fu: nat| #[trigger] matched(n, s, at, fu);
    lemma_gd(body(n.rule), at_in(rty(n.rule), at), s, n.lo, fu, RL::N, t, f, 4);
    let x = lemma_kid_item(n.out, a);
}
