// What lies between the parts of a pair. The automaton d reads the items of the
// pair's match, comments being items; the expanded automaton x reads the same
// text with comments as text: a comment runs from '#' to the line's end.
/// the pairs that are parts
pub open spec fn nocom(k: Seq<PNode>) -> Seq<PNode>
    decreases k.len()
{ if k.len() == 0 { seq![] } else if k.last().rule == Rule::comment { nocom(k.drop_last()) } else { nocom(k.drop_last()).push(k.last()) } }
/// the automaton x on the parts k and the characters before and between them
pub open spec fn orun(x: int, k: Seq<PNode>, lo: int, s: Str) -> u64
    decreases k.len()
{ if k.len() == 0 { 0 } else { kstep(x, run(x, orun(x, k.drop_last(), lo, s), fl(s, end_of(k, k.len() - 1, lo), k.last().lo)), k.last().rule) } }
/// the text s[lo..hi], with the parts k at their places, is accepted by x
pub open spec fn xrun(x: int, k: Seq<PNode>, lo: int, hi: int, s: Str) -> u64 { run(x, orun(x, k, lo, s), fl(s, end_of(k, k.len() as int, lo), hi)) }
pub open spec fn outlined(x: int, acc: u64, n: PNode, s: Str) -> bool { has(acc, xrun(x, nocom(nkids(n)), n.lo, n.hi, s)) }
/// the same with every pair a part
pub open spec fn outlined_all(x: int, acc: u64, n: PNode, s: Str) -> bool { has(acc, xrun(x, nkids(n), n.lo, n.hi, s)) }

pub open spec fn isnl(c: u32) -> bool { c == 10 || c == 13 }
/// x is d with its comments written out
pub open spec fn sim(d: int, x: int) -> bool {
    &&& forall|q: u64, c: u32| q < 63 && !com(d, q) && #[trigger] cstep(chl(d, q), c) < 63 ==> cstep(chl(x, q), c) == cstep(chl(d, q), c)
    &&& forall|q: u64, c: u32| q < 63 && #[trigger] cstep(chl(d, q), c) < 63 ==> !com(d, cstep(chl(d, q), c))
    &&& forall|q: u64, r: Rule| q < 63 && !com(d, q) && r != Rule::comment && #[trigger] nds(d, q, r) < 63 ==> nds(x, q, r) == nds(d, q, r)
    &&& forall|q: u64, r: Rule| q < 63 && r != Rule::comment && #[trigger] nds(d, q, r) < 63 ==> !com(d, nds(d, q, r))
    &&& forall|q: u64| q < 63 && #[trigger] nds(d, q, Rule::comment) < 63 ==> com(d, nds(d, q, Rule::comment)) && (!com(d, q) ==> cstep(chl(x, q), 35) == nds(d, q, Rule::comment))
    &&& forall|q: u64, c: u32| q < 63 && com(d, q) && isnl(c) && #[trigger] cstep(chl(d, q), c) < 63 ==> cstep(chl(x, q), c) == cstep(chl(d, q), c)
    &&& forall|q: u64, c: u32| q < 63 && com(d, q) && !isnl(c) ==> #[trigger] cstep(chl(x, q), c) == q
    &&& forall|q: u64| q < 63 && com(d, q) && #[trigger] nds(d, q, Rule::EOI) < 63 ==> nds(x, q, Rule::EOI) == nds(d, q, Rule::EOI)
    &&& forall|q: u64, r: Rule| q < 63 && com(d, q) && r != Rule::EOI && #[trigger] nds(d, q, r) < 63 ==> starts(r)
}
proof fn lemma_has(m: u64, q: u64, p: u64)
    requires has(m, q), p < 64, forall|t: u64| t < 64 && t != p ==> m & (1u64 << t) == 0
    ensures q == p
{ }
/// the rules that the automaton `first` covers: their texts start with a character that is no line end
proof fn lemma_run_first(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_first(), 0, fl(s, i, j)); (q == 0 <==> i == j) && (q == 1 ==> i < j && !isnl(s[i] as u32)) && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 3);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_first(s, i, j - 1);
    }
}
pub proof fn lemma_starts(n: PNode, s: Str)
    requires valid(n, s), starts(n.rule)
    ensures 0 <= n.lo < n.hi <= s.len(), !isnl(s[n.lo] as u32)
{
    gen_first(n, s);
    lemma_valid(n, s);
    let q = run(D_first(), 0, fl(s, n.lo, n.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_first(s, n.lo, n.hi);
}
proof fn lemma_run_hash(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_hash(), 0, fl(s, i, j)); (q == 0 <==> i == j) && (q == 1 ==> i < j && s[i] == '#' && forall|a: int| i <= a < j ==> !isnl(#[trigger] s[a] as u32)) && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 4);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_hash(s, i, j - 1);
    }
}
/// where a repetition ends, one more does not match
proof fn lemma_star_end(x: E, at: bool, s: Str, i: int, f: nat) -> (g: nat)
    requires peg(E::Star(Box::new(x)), at, s, i, f) is Ok
    ensures peg(x, at, s, peg(E::Star(Box::new(x)), at, s, i, f)->Ok_0, g) is Fail
    decreases f
{
    match peg(x, at, s, i, f) {
        PR::Fail => f,
        PR::Ok(j, o) => { let g = lemma_star_end(x, at, s, j, (f - 1) as nat); g }
        _ => 0,
    }
}
/// a comment: from '#' to the end of its line
pub proof fn lemma_comment(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::comment
    ensures 0 <= n.lo < n.hi <= s.len(), s[n.lo] == '#', forall|a: int| n.lo <= a < n.hi ==> !isnl(#[trigger] s[a] as u32), n.hi == s.len() || isnl(s[n.hi] as u32)
{
    gen_hash_comment(n, s);
    lemma_valid(n, s);
    let q = run(D_hash(), 0, fl(s, n.lo, n.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_hash(s, n.lo, n.hi);
    let (at, f) = choose|at: bool, f: nat| #[trigger] matched(n, s, at, f);
    lemma_line_end(body(Rule::comment), at_in(rty(Rule::comment), at), s, n.lo, f, n.hi, n.out);
}
/// '#' ~ (!NEWLINE ~ ANY)*
proof fn lemma_line_end(e: E, at: bool, s: Str, i: int, f: nat, j: int, o: Seq<It>)
    requires peg(e, at, s, i, f) == PR::Ok(j, o), e == body(Rule::comment), 0 <= i <= j <= s.len()
    ensures j == s.len() || isnl(s[j] as u32)
{
    match e { E::Cat(h, t) => {
        assert(*h is R);
        assert(peg(*h, at, s, i, f) is Ok);
        assert(*t is Star);
        match *t { E::Star(x) => {
            assert(peg(*t, at, s, i + 1, f) is Ok);
            assert(E::Star(Box::new(*x)) == *t);
            let g = lemma_star_end(*x, at, s, i + 1, f);
            if j < s.len() { lemma_any_but_nl(*x, at, s, j, g); }
        } _ => {} }
    } _ => { } }
}
proof fn lemma_any_but_nl(x: E, at: bool, s: Str, j: int, g: nat)
    requires peg(x, at, s, j, g) is Fail, 0 <= j < s.len(), E::Cat(Box::new(E::R(35, 35)), Box::new(E::Star(Box::new(x)))) == body(Rule::comment)
    ensures isnl(s[j] as u32)
{
    match x { E::Cat(n, a) => { match *n { E::Neg(y) => {
        reveal_with_fuel(cannot, 6);
        if !isnl(s[j] as u32) { lemma_cannot(*y, at, s, j, g); assert(peg(*n, at, s, j, g) is Ok); assert(peg(*a, at, s, j, g) is Ok); }
    } _ => {} } } _ => {} }
}
/// alternatives that start with other characters fail
pub open spec fn cannot(e: E, c: u32) -> bool
    decreases e
{ match e { E::R(a, b) => c < a || b < c, E::Cat(a, b) => cannot(*a, c), E::Alt(a, b) => cannot(*a, c) && cannot(*b, c), _ => false } }
proof fn lemma_cannot(e: E, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i < s.len(), cannot(e, s[i] as u32)
    ensures peg(e, at, s, i, f) is Fail
    decreases e
{ match e { E::Cat(a, b) => lemma_cannot(*a, at, s, i, f), E::Alt(a, b) => { lemma_cannot(*a, at, s, i, f); lemma_cannot(*b, at, s, i, f); } _ => {} } }
proof fn lemma_stay(x: int, q: u64, s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len(), q < 63, forall|c: u32| !isnl(c) ==> #[trigger] cstep(chl(x, q), c) == q, forall|a: int| i <= a < j ==> !isnl(#[trigger] s[a] as u32)
    ensures run(x, q, fl(s, i, j)) == q
    decreases j - i
{
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_stay(x, q, s, i, j - 1);
        assert(cstep(chl(x, q), s[j - 1] as u32) == q);
    }
}
proof fn lemma_fl_cat(x: int, q: u64, s: Str, i: int, j: int, k: int)
    requires i <= j <= k
    ensures run(x, q, fl(s, i, k)) == run(x, run(x, q, fl(s, i, j)), fl(s, j, k))
{ assert(fl(s, i, j) + fl(s, j, k) =~= fl(s, i, k)); lemma_run_cat(x, q, fl(s, i, j), fl(s, j, k)); }
proof fn lemma_ends(o: Seq<It>, s: Str, i: int, j: int)
    requires tiled(o, s, i, j)
    ensures end_of(nocom(kids(o)), nocom(kids(o)).len() as int, i) <= j, i <= end_of(nocom(kids(o)), nocom(kids(o)).len() as int, i),
        end_of(kids(o), kids(o).len() as int, i) <= j, i <= end_of(kids(o), kids(o).len() as int, i)
    decreases o.len()
{
    if o.len() > 0 { match o.last() { It::Ch(c) => lemma_ends(o.drop_last(), s, i, j - 1), It::Nd(n) => {
        lemma_ends(o.drop_last(), s, i, n.lo);
        assert(kids(o).drop_last() =~= kids(o.drop_last()));
    } } }
}
pub open spec fn com_last(o: Seq<It>) -> bool { o.len() > 0 && match o.last() { It::Nd(n) => n.rule == Rule::comment, _ => false } }
proof fn lemma_after_comment(p: Seq<It>, s: Str, i: int, j: int)
    requires tiled(p, s, i, j), com_last(p)
    ensures j == s.len() || isnl(s[j] as u32)
{ match p.last() { It::Nd(m) => { lemma_comment(m, s); } _ => {} } }
pub proof fn lemma_outline(d: int, x: int, o: Seq<It>, s: Str, i: int, j: int)
    requires sim(d, x), !com(d, 0), 0 <= i, j <= s.len(), tiled(o, s, i, j), run(d, 0, o) < 63
    ensures xrun(x, nocom(kids(o)), i, j, s) == run(d, 0, o), com(d, run(d, 0, o)) ==> com_last(o)
    decreases o.len()
{
    hide(chl); hide(nds); hide(com); hide(starts); hide(peg); hide(valid);
    let k = nocom(kids(o));
    if o.len() == 0 { assert(fl(s, i, j) =~= seq![]); return; }
    let p = o.drop_last();
    let q = run(d, 0, p);
    assert(q < 63);
    lemma_tiled_le(o, s, i, j);
    match o.last() {
        It::Ch(c) => {
            lemma_tiled_le(p, s, i, j - 1);
            lemma_outline(d, x, p, s, i, j - 1);
            lemma_ends(p, s, i, j - 1);
            let e = end_of(k, k.len() as int, i);
            let v = fl(s, e, j);
            assert(v.drop_last() =~= fl(s, e, j - 1));
            assert(v.last() == It::Ch(s[j - 1]));
            assert(cstep(chl(d, q), c as u32) < 63);
            if com(d, q) { lemma_after_comment(p, s, i, j - 1); }
        }
        It::Nd(n) => {
            lemma_tiled_le(p, s, i, n.lo);
            lemma_outline(d, x, p, s, i, n.lo);
            lemma_ends(p, s, i, n.lo);
            assert(kids(o).drop_last() =~= kids(p));
            assert(nds(d, q, n.rule) < 63);
            if com(d, q) { lemma_after_comment(p, s, i, n.lo); if n.rule != Rule::EOI { lemma_starts(n, s); } }
            let kp = nocom(kids(p));
            let e = end_of(kp, kp.len() as int, i);
            if n.rule == Rule::comment {
                assert(k =~= kp);
                lemma_comment(n, s);
                let t = nds(d, q, Rule::comment);
                lemma_fl_cat(x, orun(x, kp, i, s), s, e, n.lo, n.hi);
                lemma_fl_cat(x, q, s, n.lo, n.lo + 1, n.hi);
                let v = fl(s, n.lo, n.lo + 1);
                assert(v.drop_last() =~= seq![]);
                assert(v.last() == It::Ch(s[n.lo]));
                reveal_with_fuel(run, 2);
                assert(run(x, q, v) == t);
                lemma_stay(x, t, s, n.lo + 1, n.hi);
            } else {
                assert(k =~= kp.push(n));
                assert(k.drop_last() =~= kp);
                assert(end_of(k, k.len() - 1, i) == e);
                assert(fl(s, n.hi, n.hi) =~= seq![]);
            }
        }
    }
}
pub proof fn lemma_outline_all(d: int, o: Seq<It>, s: Str, i: int, j: int)
    requires 0 <= i, j <= s.len(), tiled(o, s, i, j)
    ensures xrun(d, kids(o), i, j, s) == run(d, 0, o) || run(d, 0, o) >= 63
    decreases o.len()
{
    let k = kids(o);
    if o.len() == 0 { assert(fl(s, i, j) =~= seq![]); return; }
    let p = o.drop_last();
    lemma_tiled_le(o, s, i, j);
    match o.last() {
        It::Ch(c) => {
            lemma_tiled_le(p, s, i, j - 1);
            lemma_outline_all(d, p, s, i, j - 1);
            lemma_ends(p, s, i, j - 1);
            let e = end_of(k, k.len() as int, i);
            let v = fl(s, e, j);
            assert(v.drop_last() =~= fl(s, e, j - 1));
            assert(v.last() == It::Ch(s[j - 1]));
        }
        It::Nd(n) => {
            lemma_tiled_le(p, s, i, n.lo);
            lemma_outline_all(d, p, s, i, n.lo);
            lemma_ends(p, s, i, n.lo);
            assert(k.drop_last() =~= kids(p));
            assert(end_of(k, k.len() - 1, i) == end_of(kids(p), kids(p).len() as int, i));
            assert(fl(s, n.hi, n.hi) =~= seq![]);
        }
    }
}
// ---- parts of given rules
pub proof fn lemma_sel_nocom(k: Seq<PNode>, x: RS)
    requires !inr(x, Rule::comment)
    ensures sel(k, x) == sel(nocom(k), x)
    decreases k.len()
{
    if k.len() > 0 {
        lemma_sel_nocom(k.drop_last(), x);
        if k.last().rule != Rule::comment { assert(nocom(k).drop_last() =~= nocom(k.drop_last())); assert(nocom(k).last() == k.last()); }
    }
}
pub proof fn lemma_sel_all(k: Seq<PNode>, x: RS)
    requires forall|i: int| 0 <= i < k.len() ==> inr(x, (#[trigger] k[i]).rule)
    ensures sel(k, x) == k
    decreases k.len()
{ if k.len() > 0 { assert forall|i: int| 0 <= i < k.len() - 1 implies inr(x, (#[trigger] k.drop_last()[i]).rule) by { assert(k.drop_last()[i] == k[i]); } lemma_sel_all(k.drop_last(), x); assert(k.drop_last().push(k.last()) =~= k); } }
/// the parts are valid pairs inside n, in order
pub proof fn lemma_nocom_ordered(k: Seq<PNode>, s: Str, i: int, j: int)
    requires ordered(k, s, i, j)
    ensures ordered(nocom(k), s, i, j), forall|a: int| 0 <= a < nocom(k).len() ==> exists|b: int| 0 <= b < k.len() && k[b] == #[trigger] nocom(k)[a]
    decreases k.len()
{
    if k.len() > 0 {
        let p = k.drop_last();
        assert forall|a: int| 0 <= a < p.len() implies i <= (#[trigger] p[a]).lo <= p[a].hi <= j && valid(p[a], s) by { assert(p[a] == k[a]); }
        assert forall|a: int, b: int| 0 <= a < b < p.len() implies (#[trigger] p[a]).hi <= (#[trigger] p[b]).lo by { assert(p[a] == k[a] && p[b] == k[b]); }
        lemma_nocom_ordered(p, s, i, j);
        let m = nocom(p);
        assert forall|a: int| 0 <= a < nocom(k).len() implies exists|b: int| 0 <= b < k.len() && k[b] == #[trigger] nocom(k)[a] by {
            if a < m.len() { assert(nocom(k)[a] == m[a]); let b = choose|b: int| 0 <= b < p.len() && p[b] == m[a]; assert(k[b] == m[a]); } else { assert(k[k.len() - 1] == nocom(k)[a]); }
        }
        if k.last().rule != Rule::comment {
            assert forall|a: int, b: int| 0 <= a < b < nocom(k).len() implies (#[trigger] nocom(k)[a]).hi <= (#[trigger] nocom(k)[b]).lo by {
                let c = choose|c: int| 0 <= c < p.len() && p[c] == m[a];
                assert(p[c] == k[c]);
            }
        }
    }
}
