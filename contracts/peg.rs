// Parsing expressions as pest executes them: the grammar rules are terms of
// type E generated from dockerfile_parser.pest on every run (body, rty).
pub enum E { Nop, R(u32, u32), Soi, Eoi, Ref(Rule), Neg(Box<E>), Pos(Box<E>), Cat(Box<E>, Box<E>), Alt(Box<E>, Box<E>), Star(Box<E>) }
pub enum Ty { Normal, Silent, Atomic, Compound }

/// what a successful match leaves behind: the characters and the pairs
pub ghost enum It { Ch(char), Nd(PNode) }
pub ghost struct PNode { pub rule: Rule, pub lo: int, pub hi: int, pub out: Seq<It> }
pub ghost enum PR { Fail, Fuel, Ok(int, Seq<It>) }

pub open spec fn at_in(t: Ty, at: bool) -> bool { match t { Ty::Atomic => true, Ty::Compound => false, _ => at } }
pub open spec fn emits(t: Ty, at: bool) -> bool { match t { Ty::Silent => false, Ty::Compound => true, _ => !at } }

pub open spec fn peg(e: E, at: bool, s: Str, i: int, f: nat) -> PR
    decreases f, e
{
    match e {
        E::Nop => PR::Ok(i, seq![]),
        E::R(a, b) => if 0 <= i < s.len() && a <= s[i] as u32 && s[i] as u32 <= b { PR::Ok(i + 1, seq![It::Ch(s[i])]) } else { PR::Fail },
        E::Soi => if i == 0 { PR::Ok(i, seq![]) } else { PR::Fail },
        E::Eoi => if i == s.len() { PR::Ok(i, seq![]) } else { PR::Fail },
        E::Ref(r) => if f == 0 { PR::Fuel } else {
            match peg(body(r), at_in(rty(r), at), s, i, (f - 1) as nat) {
                PR::Ok(j, o) => if emits(rty(r), at) { PR::Ok(j, seq![It::Nd(PNode { rule: r, lo: i, hi: j, out: o })]) } else { PR::Ok(j, o) },
                x => x,
            }
        },
        E::Neg(x) => match peg(*x, at, s, i, f) { PR::Ok(_, _) => PR::Fail, PR::Fail => PR::Ok(i, seq![]), PR::Fuel => PR::Fuel },
        E::Pos(x) => match peg(*x, at, s, i, f) { PR::Ok(_, _) => PR::Ok(i, seq![]), y => y },
        E::Cat(a, b) => match peg(*a, at, s, i, f) {
            PR::Ok(j, o) => match peg(*b, at, s, j, f) { PR::Ok(k, p) => PR::Ok(k, o + p), y => y },
            y => y },
        E::Alt(a, b) => match peg(*a, at, s, i, f) { PR::Fail => peg(*b, at, s, i, f), y => y },
        E::Star(x) => if f == 0 { PR::Fuel } else {
            match peg(*x, at, s, i, f) {
                PR::Fail => PR::Ok(i, seq![]),
                PR::Fuel => PR::Fuel,
                PR::Ok(j, o) => match peg(e, at, s, j, (f - 1) as nat) { PR::Ok(k, p) => PR::Ok(k, o + p), y => y },
            } },
    }
}

/// a pair that parsing s can produce
pub open spec fn matched(n: PNode, s: Str, at: bool, f: nat) -> bool {
    emits(rty(n.rule), at) && peg(body(n.rule), at_in(rty(n.rule), at), s, n.lo, f) == PR::Ok(n.hi, n.out)
}
pub open spec fn valid(n: PNode, s: Str) -> bool {
    &&& 0 <= n.lo <= s.len()
    &&& exists|at: bool, f: nat| #[trigger] matched(n, s, at, f)
}

pub open spec fn kids(o: Seq<It>) -> Seq<PNode>
    decreases o.len()
{ if o.len() == 0 { seq![] } else { match o.last() { It::Ch(_) => kids(o.drop_last()), It::Nd(n) => kids(o.drop_last()).push(n) } } }

/// the items cover s[i..j] in order, and every pair among them is valid
pub open spec fn tiled(o: Seq<It>, s: Str, i: int, j: int) -> bool
    decreases o.len()
{
    if o.len() == 0 { i == j } else { match o.last() {
        It::Ch(c) => i < j && s[j - 1] == c && tiled(o.drop_last(), s, i, j - 1),
        It::Nd(n) => n.hi == j && i <= n.lo && n.lo <= n.hi && valid(n, s) && tiled(o.drop_last(), s, i, n.lo),
    } }
}

pub proof fn lemma_tiled_le(o: Seq<It>, s: Str, i: int, j: int)
    requires tiled(o, s, i, j)
    ensures i <= j
    decreases o.len()
{
    if o.len() > 0 { match o.last() { It::Ch(c) => lemma_tiled_le(o.drop_last(), s, i, j - 1), It::Nd(n) => lemma_tiled_le(o.drop_last(), s, i, n.lo) } }
}
pub proof fn lemma_tiled_cat(a: Seq<It>, b: Seq<It>, s: Str, i: int, j: int, k: int)
    requires tiled(a, s, i, j), tiled(b, s, j, k)
    ensures tiled(a + b, s, i, k)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).last() == b.last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_tiled_le(a, s, i, j);
        match b.last() {
            It::Ch(c) => { lemma_tiled_cat(a, b.drop_last(), s, i, j, k - 1); lemma_tiled_le(b.drop_last(), s, j, k - 1); }
            It::Nd(n) => { lemma_tiled_cat(a, b.drop_last(), s, i, j, n.lo); lemma_tiled_le(b.drop_last(), s, j, n.lo); }
        }
    }
}
pub proof fn lemma_peg_tiled(e: E, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i <= s.len()
    ensures match peg(e, at, s, i, f) { PR::Ok(j, o) => i <= j <= s.len() && tiled(o, s, i, j), _ => true }
    decreases f, e
{
    reveal_with_fuel(tiled, 2);
    match e {
        E::R(a, b) => { if 0 <= i < s.len() { assert(seq![It::Ch(s[i])].drop_last() =~= seq![]); } }
        E::Ref(r) => if f > 0 {
            lemma_peg_tiled(body(r), at_in(rty(r), at), s, i, (f - 1) as nat);
            match peg(body(r), at_in(rty(r), at), s, i, (f - 1) as nat) {
                PR::Ok(j, o) => { if emits(rty(r), at) {
                    let n = PNode { rule: r, lo: i, hi: j, out: o };
                    assert(seq![It::Nd(n)].drop_last() =~= seq![]);
                    assert(matched(n, s, at, (f - 1) as nat));
                    assert(valid(n, s));
                } }
                _ => {}
            }
        },
        E::Pos(x) => { lemma_peg_tiled(*x, at, s, i, f); }
        E::Cat(a, b) => {
            lemma_peg_tiled(*a, at, s, i, f);
            match peg(*a, at, s, i, f) { PR::Ok(j, o) => {
                lemma_peg_tiled(*b, at, s, j, f);
                match peg(*b, at, s, j, f) { PR::Ok(k, p) => { lemma_tiled_cat(o, p, s, i, j, k); } _ => {} }
            } _ => {} }
        }
        E::Alt(a, b) => { lemma_peg_tiled(*a, at, s, i, f); lemma_peg_tiled(*b, at, s, i, f); }
        E::Star(x) => if f > 0 {
            lemma_peg_tiled(*x, at, s, i, f);
            match peg(*x, at, s, i, f) { PR::Ok(j, o) => {
                lemma_peg_tiled(e, at, s, j, (f - 1) as nat);
                match peg(e, at, s, j, (f - 1) as nat) { PR::Ok(k, p) => { lemma_tiled_cat(o, p, s, i, j, k); } _ => {} }
            } _ => {} }
        },
        _ => {}
    }
}
/// a valid pair: its body matched its text, which its items cover
pub proof fn lemma_valid(n: PNode, s: Str)
    requires valid(n, s)
    ensures 0 <= n.lo <= n.hi <= s.len(), tiled(n.out, s, n.lo, n.hi)
{
    let (at, f) = choose|at: bool, f: nat| #[trigger] matched(n, s, at, f);
    lemma_peg_tiled(body(n.rule), at_in(rty(n.rule), at), s, n.lo, f);
}

/// pairs inside a covered range: valid, inside it, in order, not overlapping
pub open spec fn ordered(k: Seq<PNode>, s: Str, i: int, j: int) -> bool {
    &&& forall|a: int| 0 <= a < k.len() ==> i <= (#[trigger] k[a]).lo <= k[a].hi <= j && valid(k[a], s)
    &&& forall|a: int, b: int| 0 <= a < b < k.len() ==> (#[trigger] k[a]).hi <= (#[trigger] k[b]).lo
}
pub proof fn lemma_kids(o: Seq<It>, s: Str, i: int, j: int)
    requires tiled(o, s, i, j)
    ensures ordered(kids(o), s, i, j), i <= j
    decreases o.len()
{
    if o.len() > 0 { match o.last() {
        It::Ch(c) => { lemma_kids(o.drop_last(), s, i, j - 1); }
        It::Nd(n) => { lemma_kids(o.drop_last(), s, i, n.lo); }
    } }
}
/// a kid is one of the items
pub proof fn lemma_kid_item(o: Seq<It>, a: int) -> (x: int)
    requires 0 <= a < kids(o).len()
    ensures 0 <= x < o.len(), o[x] == It::Nd(kids(o)[a])
    decreases o.len()
{
    match o.last() {
        It::Ch(c) => { let x = lemma_kid_item(o.drop_last(), a); x }
        It::Nd(n) => { if a == kids(o).len() - 1 { o.len() - 1 } else { let x = lemma_kid_item(o.drop_last(), a); x } }
    }
}
pub open spec fn nkids(n: PNode) -> Seq<PNode> { kids(n.out) }
pub open spec fn text(n: PNode, s: Str) -> Str { s.subrange(n.lo, n.hi) }
