// ---- what pest and the standard library provide to the parsing code (assumed)
#[verifier::external_body] pub struct PSpan { x: () }
impl PSpan {
    pub uninterp spec fn lo(&self) -> int;
    pub uninterp spec fn hi(&self) -> int;
    #[verifier::external_body] pub fn v_start(&self) -> (r: usize) ensures r == self.lo() { unimplemented!() }
    #[verifier::external_body] pub fn v_end(&self) -> (r: usize) ensures r == self.hi() { unimplemented!() }
}
/// a pest pair: a node of the parse of src (contracts/peg.rs)
#[verifier::external_body] pub struct Pair<'a> { x: &'a () }
impl<'a> Pair<'a> {
    pub uninterp spec fn nd(&self) -> PNode;
    pub uninterp spec fn src(&self) -> Str;
    #[verifier::external_body] pub fn v_as_rule(&self) -> (r: Rule) ensures r == self.nd().rule { unimplemented!() }
    #[verifier::external_body] pub fn v_as_str(&self) -> (r: &'a str) ensures r@ == text(self.nd(), self.src()) { unimplemented!() }
    #[verifier::external_body] pub fn v_as_span(&self) -> (r: PSpan) ensures r.lo() == bo(self.src(), self.nd().lo), r.hi() == bo(self.src(), self.nd().hi) { unimplemented!() }
    #[verifier::external_body] pub fn v_into_inner(self) -> (r: VIter<Pair<'a>>)
        ensures r.pos() == 0, r.seq().len() == nkids(self.nd()).len(), r.seq().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).nd() == nkids(self.nd())[i] && r.seq()[i].src() == self.src()
    { unimplemented!() }
}
impl<'a> Clone for Pair<'a> { #[verifier::external_body] fn clone(&self) -> (r: Pair<'a>) ensures r == *self { unimplemented!() } }
/// fuel enough for the expression to finish at this position; pest executes the
/// same expression without fuel
pub open spec fn peg_end(r: Rule, s: Str, o: Seq<It>, j: int, f: nat) -> bool { peg(E::Ref(r), false, s, 0, f) == PR::Ok(j, o) }
pub open spec fn peg_ok(r: Rule, s: Str, o: Seq<It>) -> bool { exists|j: int, f: nat| #[trigger] peg_end(r, s, o, j, f) }
pub open spec fn peg_fail(r: Rule, s: Str) -> bool { exists|f: nat| #[trigger] peg(E::Ref(r), false, s, 0, f) is Fail }
#[verifier::external_body]
pub fn v_pest_parse<'a>(r: Rule, s: &'a str) -> (p: core::result::Result<VIter<Pair<'a>>, VPestError>)
    ensures match p {
        Ok(it) => it.pos() == 0 && exists|o: Seq<It>| #[trigger] peg_ok(r, s@, o) && it.seq().len() == kids(o).len()
            && forall|i: int| 0 <= i < kids(o).len() ==> (#[trigger] it.seq()[i]).nd() == kids(o)[i] && it.seq()[i].src() == s@,
        Err(_) => peg_fail(r, s@) }
{ unimplemented!() }

/// enquote::unquote (unq.rs); the same contract is proved of its source in unit ENQ
#[verifier::external_body]
pub fn v_unquote<S: VStr + ?Sized>(s: &S) -> (r: core::result::Result<String, VEnquoteError>)
    ensures match r { Ok(x) => unq(s.vs()) == Some(x@), Err(_) => unq(s.vs()) is None }
{ unimplemented!() }

/// str::replace: leftmost occurrences, without overlap
pub open spec fn occurs(s: Str, a: Str, i: int) -> bool { 0 <= i && i + a.len() <= s.len() && s.subrange(i, i + a.len()) =~= a }
pub open spec fn replaced(s: Str, a: Str, b: Str) -> Str
    decreases s.len()
{
    if s.len() == 0 || a.len() == 0 { s }
    else if occurs(s, a, 0) { b + replaced(s.skip(a.len() as int), a, b) }
    else { seq![s[0]] + replaced(s.skip(1), a, b) }
}
pub trait VReplace { fn v_replace(&self, a: &str, b: &str) -> (r: String); }
impl VReplace for str {
    #[verifier::external_body] fn v_replace(&self, a: &str, b: &str) -> (r: String)
        ensures a@.len() > 0 ==> r@ == replaced(self@, a@, b@) { unimplemented!() }
}
pub trait VExtend<T> { fn v_extend(&mut self, o: Vec<T>); }
impl<T> VExtend<T> for Vec<T> {
    #[verifier::external_body] fn v_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}

// ---- pairs inside a pair
pub open spec fn end_of(k: Seq<PNode>, p: int, lo: int) -> int { if p <= 0 { lo } else { k[p - 1].hi } }
pub open spec fn kstep(d: int, q: u64, r: Rule) -> u64 { if q >= 63 { 63 } else { nds(d, q, r) } }
pub open spec fn krun(d: int, q: u64, k: Seq<PNode>) -> u64
    decreases k.len()
{ if k.len() == 0 { q } else { kstep(d, krun(d, q, k.drop_last()), k.last().rule) } }
/// an automaton that ignores characters sees the pairs only
pub proof fn lemma_krun(d: int, q: u64, o: Seq<It>)
    requires q <= 63, small(d), forall|p: u64, c: u32| p < 63 ==> #[trigger] cstep(chl(d, p), c) == p
    ensures run(d, q, o) == krun(d, q, kids(o)), run(d, q, o) <= 63
    decreases o.len()
{
    if o.len() > 0 {
        lemma_krun(d, q, o.drop_last());
        lemma_run_small(d, q, o);
        match o.last() {
            It::Ch(c) => { let p = run(d, q, o.drop_last()); if p < 63 { assert(cstep(chl(d, p), c as u32) == p); } }
            It::Nd(n) => { assert(kids(o).drop_last() =~= kids(o.drop_last())); }
        }
    }
}
pub proof fn lemma_krun_sink(d: int, q: u64, k: Seq<PNode>, p: int)
    requires 0 <= p <= k.len(), krun(d, q, k.take(p)) >= 63
    ensures krun(d, q, k) >= 63
    decreases k.len() - p
{
    if p == k.len() { assert(k.take(p) =~= k); } else {
        assert(k.take(p + 1).drop_last() =~= k.take(p));
        lemma_krun_sink(d, q, k, p + 1);
    }
}
/// the p-th pair inside the pair n
pub proof fn lemma_at(d: int, n: PNode, s: Str, p: int)
    requires valid(n, s), 0 <= p < nkids(n).len()
    ensures
        valid(nkids(n)[p], s),
        krun(d, 0, nkids(n).take(p + 1)) == kstep(d, krun(d, 0, nkids(n).take(p)), nkids(n)[p].rule),
        krun(d, 0, nkids(n).take(p + 1)) >= 63 ==> krun(d, 0, nkids(n)) >= 63,
        0 <= n.lo <= end_of(nkids(n), p, n.lo) <= nkids(n)[p].lo <= nkids(n)[p].hi <= n.hi <= s.len(),
{
    let k = nkids(n);
    lemma_valid(n, s);
    lemma_kids(n.out, s, n.lo, n.hi);
    assert(k.take(p + 1).drop_last() =~= k.take(p));
    if krun(d, 0, k.take(p + 1)) >= 63 { lemma_krun_sink(d, 0, k, p + 1); }
}
pub proof fn lemma_done(d: int, n: PNode, s: Str)
    requires valid(n, s)
    ensures nkids(n).take(nkids(n).len() as int) == nkids(n), nkids(n).take(0) == Seq::<PNode>::empty(),
        0 <= n.lo <= end_of(nkids(n), nkids(n).len() as int, n.lo) <= n.hi <= s.len(),
        krun(d, 0, Seq::<PNode>::empty()) == 0
{
    lemma_valid(n, s);
    lemma_kids(n.out, s, n.lo, n.hi);
    let k = nkids(n);
    assert(k.take(k.len() as int) =~= k);
    assert(k.take(0) =~= Seq::<PNode>::empty());
}
// ---- pairs of given rules
pub enum RS { A(Rule), B(Rule, Rule), C4(Rule, Rule, Rule, Rule), Ins }
pub open spec fn inr(x: RS, r: Rule) -> bool {
    match x { RS::A(a) => r == a, RS::B(a, b) => r == a || r == b, RS::C4(a, b, c, d) => r == a || r == b || r == c || r == d,
        RS::Ins => r == Rule::from || r == Rule::run || r == Rule::arg || r == Rule::label || r == Rule::copy || r == Rule::entrypoint || r == Rule::cmd || r == Rule::env || r == Rule::misc }
}
pub open spec fn sel(k: Seq<PNode>, x: RS) -> Seq<PNode>
    decreases k.len()
{ if k.len() == 0 { seq![] } else if inr(x, k.last().rule) { sel(k.drop_last(), x).push(k.last()) } else { sel(k.drop_last(), x) } }
pub proof fn lemma_sel(k: Seq<PNode>, p: int, x: RS)
    requires 0 <= p < k.len()
    ensures sel(k.take(p + 1), x) == (if inr(x, k[p].rule) { sel(k.take(p), x).push(k[p]) } else { sel(k.take(p), x) })
{ assert(k.take(p + 1).drop_last() =~= k.take(p)); }
pub proof fn lemma_sel_at(k: Seq<PNode>, x: RS, i: int) -> (a: int)
    requires 0 <= i < sel(k, x).len()
    ensures 0 <= a < k.len(), k[a] == sel(k, x)[i], inr(x, k[a].rule)
    decreases k.len()
{
    if inr(x, k.last().rule) && i == sel(k.drop_last(), x).len() { k.len() - 1 } else { let a = lemma_sel_at(k.drop_last(), x, i); assert(k.drop_last()[a] == k[a]); a }
}
// ---- spans
pub open spec fn rng(x: Span, s: Str) -> bool { is_bo(s, x.start as int) && is_bo(s, x.end as int) && x.start <= x.end }
pub open spec fn within(x: Span, y: Span) -> bool { y.start <= x.start && x.end <= y.end }
pub open spec fn at_node(x: Span, n: PNode, s: Str) -> bool { x.start == bo(s, n.lo) && x.end == bo(s, n.hi) }
pub open spec fn src_at(x: Span, s: Str) -> Str { s.subrange(ci(s, x.start as int), ci(s, x.end as int)) }
/// the document's pair
pub open spec fn root(n: PNode, s: Str) -> bool { valid(n, s) && n.rule == Rule::dockerfile && n.lo == 0 && peg_ok(Rule::dockerfile, s, seq![It::Nd(n)]) }
pub proof fn lemma_root(s: Str, o: Seq<It>)
    requires peg_ok(Rule::dockerfile, s, o)
    ensures kids(o).len() == 1, root(kids(o)[0], s)
{
    let (j, f) = choose|j: int, f: nat| #[trigger] peg_end(Rule::dockerfile, s, o, j, f);
    lemma_peg_tiled(E::Ref(Rule::dockerfile), false, s, 0, f);
    let r = Rule::dockerfile;
    assert(emits(rty(r), false));
    match peg(body(r), at_in(rty(r), false), s, 0, (f - 1) as nat) {
        PR::Ok(e, q) => {
            let n = PNode { rule: r, lo: 0, hi: e, out: q };
            assert(o == seq![It::Nd(n)]);
            assert(o.drop_last() =~= seq![]);
            assert(kids(o) =~= seq![n]) by { reveal_with_fuel(kids, 3); }
            assert(matched(n, s, false, (f - 1) as nat));
            assert(valid(n, s));
        }
        _ => {}
    }
}
