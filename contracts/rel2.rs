// ---- what the automata say, in the form the contracts use
pub open spec fn brk_outer(r: Rule) -> bool {
    r == Rule::run_shell || r == Rule::cmd_shell || r == Rule::entrypoint_shell || r == Rule::env_single_value || r == Rule::misc_arguments
}
pub proof fn fact_brk(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::any_breakable || brk_outer(n.rule)
    ensures n.rule == Rule::any_breakable ==> krun(D_brk(), 0, nkids(n)) == 2,
        brk_outer(n.rule) ==> krun(D_brk(), 0, nkids(n)) == 1,
{
    if n.rule == Rule::any_breakable { fact_any_breakable(n, s); }
    if n.rule == Rule::run_shell { fact_run_shell(n, s); }
    if n.rule == Rule::cmd_shell { fact_cmd_shell(n, s); }
    if n.rule == Rule::entrypoint_shell { fact_entrypoint_shell(n, s); }
    if n.rule == Rule::env_single_value { fact_env_single_value(n, s); }
    if n.rule == Rule::misc_arguments { fact_misc_arguments(n, s); }
}
pub proof fn fact_array(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::run_exec || n.rule == Rule::cmd_exec || n.rule == Rule::entrypoint_exec
    ensures krun(D_array(), 0, nkids(n)) <= 1
{
    if n.rule == Rule::run_exec { fact_run_exec(n, s); }
    if n.rule == Rule::cmd_exec { fact_cmd_exec(n, s); }
    if n.rule == Rule::entrypoint_exec { fact_entrypoint_exec(n, s); }
}
pub proof fn fact_lpair(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::label_pair || n.rule == Rule::label_single
    ensures krun(D_lpair(), 0, nkids(n)) == 2
{
    if n.rule == Rule::label_pair { fact_label_pair(n, s); }
    if n.rule == Rule::label_single { fact_label_single(n, s); }
}
/// how the state on the pairs of a shell text constrains them
proof fn lemma_brk_run(k: Seq<PNode>)
    ensures ({ let q = krun(D_brk(), 0, k);
        (q == 1 ==> k.len() == 1 && k[0].rule == Rule::any_breakable)
        && (q == 0 ==> k.len() == 0)
        && (q == 2 ==> forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::comment || k[i].rule == Rule::any_content) })
    decreases k.len()
{
    if k.len() > 0 {
        lemma_brk_run(k.drop_last());
        let p = krun(D_brk(), 0, k.drop_last());
        if krun(D_brk(), 0, k) == 2 {
            assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]).rule == Rule::comment || k[i].rule == Rule::any_content by { if i < k.len() - 1 { assert(k.drop_last()[i] == k[i]); } }
        }
        if krun(D_brk(), 0, k) == 1 { assert(k.drop_last().len() == 0); assert(k.last() == k[0]); }
    }
}
/// the pieces of n's first p pairs
pub open spec fn pieces_upto(n: PNode, p: int) -> Seq<PNode> {
    if n.rule == Rule::any_breakable { nkids(n).take(p) } else if p <= 0 { seq![] } else { nkids(nkids(n)[0]) }
}
pub proof fn lemma_pieces(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::any_breakable || brk_outer(n.rule)
    ensures n.rule == Rule::any_breakable ==> forall|i: int| 0 <= i < nkids(n).len() ==> (#[trigger] nkids(n)[i]).rule == Rule::comment || nkids(n)[i].rule == Rule::any_content,
        brk_outer(n.rule) ==> nkids(n).len() == 1 && nkids(n)[0].rule == Rule::any_breakable,
{ fact_brk(n, s); lemma_brk_run(nkids(n)); }
/// one more component, or the components of the inner pair
pub proof fn lemma_pieces_step(n: PNode, p: int, g: Seq<BreakableStringComponent>, v: Seq<BreakableStringComponent>, s: Str)
    requires valid(n, s), 0 <= p < nkids(n).len(), n.rule == Rule::any_breakable || brk_outer(n.rule),
        many(g, pieces_upto(n, p), n.lo, end_of(nkids(n), p, n.lo), s),
        n.rule == Rule::any_breakable ==> v.len() == g.len() + 1 && v.drop_last() == g && one(v.last(), nkids(n)[p], s),
        n.rule != Rule::any_breakable && !M_EX() && !M_IN() && !M_C3() || n.rule == Rule::any_breakable || (exists|w: Seq<BreakableStringComponent>| v == g + w && #[trigger] many(w, nkids(nkids(n)[p]), nkids(n)[p].lo, nkids(n)[p].hi, s)),
    ensures many(v, pieces_upto(n, p + 1), n.lo, nkids(n)[p].hi, s)
{
    reveal(one); reveal(many); reveal(w_all); reveal(c3_all);
    let k = nkids(n);
    lemma_at(0, n, s, p);
    lemma_pieces(n, s);
    lemma_bo_mono(s, end_of(k, p, n.lo), k[p].lo);
    lemma_bo_mono(s, n.lo, k[p].lo);
    lemma_bo_mono(s, k[p].lo, k[p].hi);
    lemma_bo_mono(s, end_of(k, p, n.lo), k[p].hi);
    if n.rule == Rule::any_breakable {
        assert(k.take(p + 1).drop_last() =~= k.take(p));
        assert forall|i: int| 0 <= i < g.len() implies v[i] == g[i] by { assert(v.drop_last()[i] == v[i]); }
        if M_IN() { assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).sp().end <= (#[trigger] v[j]).sp().start by {
            assert(v[i] == g[i]);
            if j < g.len() { assert(v[j] == g[j]); } else { assert(v[i].sp().end <= bo(s, end_of(k, p, n.lo))); }
        } }
    } else if M_EX() || M_IN() || M_C3() {
        let w = choose|w: Seq<BreakableStringComponent>| v == g + w && #[trigger] many(w, nkids(nkids(n)[p]), nkids(n)[p].lo, nkids(n)[p].hi, s);
        if M_EX() { assert(g.len() == 0); assert(v =~= w); assert(pieces_upto(n, p + 1) == nkids(k[0])); assert(p == 0); }
        assert forall|i: int| 0 <= i < g.len() implies v[i] == g[i] by { }
        assert forall|i: int| g.len() <= i < v.len() implies v[i] == w[i - g.len()] by { }
        if M_IN() { assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).sp().end <= (#[trigger] v[j]).sp().start by {
            if i < g.len() { assert(v[i] == g[i]); if j < g.len() { assert(v[j] == g[j]); } else { assert(v[j] == w[j - g.len()]); assert(v[i].sp().end <= bo(s, end_of(k, p, n.lo))); } }
            else { assert(v[i] == w[i - g.len()]); assert(v[j] == w[j - g.len()]); }
        } }
    }
}
/// the pair found is the only one
proof fn lemma_run_only(d: int, k: Seq<PNode>, a: RS, p: int)
    requires 0 <= p <= k.len(), sel(k.take(p), a).len() == 1, krun(d, 0, k.take(p)) == 1, krun(d, 0, k) == 1,
        forall|r: Rule| inr(a, r) ==> #[trigger] kstep(d, 1, r) >= 63, forall|r: Rule| #[trigger] kstep(d, 1, r) == 1 || kstep(d, 1, r) >= 63
    ensures sel(k, a) == sel(k.take(p), a)
    decreases k.len() - p
{
    if p < k.len() {
        assert(k.take(p + 1).drop_last() =~= k.take(p));
        lemma_sel(k, p, a);
        if krun(d, 0, k.take(p + 1)) >= 63 { lemma_krun_sink(d, 0, k, p + 1); }
        lemma_run_only(d, k, a, p + 1);
    } else { assert(k.take(p) =~= k); }
}
pub proof fn lemma_only(n: PNode, s: Str, d: int, p: int, a: RS)
    requires valid(n, s), 0 <= p < nkids(n).len(), krun(d, 0, nkids(n)) == 1, krun(d, 0, nkids(n).take(p)) == 0, inr(a, nkids(n)[p].rule), sel(nkids(n).take(p), a).len() == 0,
        forall|r: Rule| inr(a, r) ==> #[trigger] kstep(d, 0, r) == 1,
        forall|r: Rule| inr(a, r) ==> #[trigger] kstep(d, 1, r) >= 63, forall|r: Rule| #[trigger] kstep(d, 1, r) == 1 || kstep(d, 1, r) >= 63
    ensures sel(nkids(n), a).len() == 1, sel(nkids(n), a)[0] == nkids(n)[p]
{
    let k = nkids(n);
    assert(k.take(p + 1).drop_last() =~= k.take(p));
    lemma_sel(k, p, a);
    assert(kstep(d, 0, k[p].rule) == 1);
    lemma_run_only(d, k, a, p + 1);
}
/// labels: as written, or without quotes
pub struct Lab(pub SpannedString);
impl W for Lab {
    open spec fn w(&self, n: PNode, s: Str) -> bool { self.0.w(n, s) }
    open spec fn nest(&self, s: Str) -> bool { self.0.nest(s) }
    open spec fn c3(&self, s: Str) -> bool { lab_c3(self.0, s) }
    open spec fn sp(&self) -> Span { self.0.span }
}
pub open spec fn lab(o: Option<SpannedString>) -> Option<Lab> { match o { Some(x) => Some(Lab(x)), None => None } }
pub open spec fn pnd(o: Option<Pair<'_>>) -> PNode { o->Some_0.nd() }
pub open spec fn psrc(o: Option<Pair<'_>>) -> Str { o->Some_0.src() }
proof fn lemma_env_run(k: Seq<PNode>)
    ensures ({ let q = krun(D_env(), 0, k); (q == 0 ==> k.len() == 0) && (q == 1 ==> k.len() == 1) })
    decreases k.len()
{ if k.len() > 0 { lemma_env_run(k.drop_last()); } }
pub proof fn lemma_one_kid(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::env
    ensures nkids(n).len() == 1, nkids(n)[0].rule == Rule::env_single || nkids(n)[0].rule == Rule::env_pairs
{
    fact_env(n, s);
    let k = nkids(n);
    lemma_env_run(k);
    assert(k.drop_last().len() == 0);
    assert(krun(D_env(), 0, k.drop_last()) == 0);
}
/// a pair kept for later: the last of kk
pub open spec fn got(o: Option<Pair<'_>>, kk: Seq<PNode>, r: Rule, lo: int, hi: int, s: Str) -> bool {
    match o {
        None => M_EX() ==> kk.len() == 0,
        Some(p) => p.src() == s && valid(p.nd(), s) && p.nd().rule == r && 0 <= lo <= p.nd().lo && p.nd().lo <= p.nd().hi && p.nd().hi <= hi && (M_EX() ==> kk.len() > 0 && kk.last() == p.nd()),
    }
}
pub proof fn lemma_got_step(g: Option<Pair<'_>>, o: Option<Pair<'_>>, n: PNode, p: int, r: Rule, s: Str)
    requires valid(n, s), 0 <= p < nkids(n).len(), got(g, sel(nkids(n).take(p), RS::A(r)), r, n.lo, end_of(nkids(n), p, n.lo), s),
        (o == g && (M_EX() ==> nkids(n)[p].rule != r)) || (o is Some && o->Some_0.nd() == nkids(n)[p] && o->Some_0.src() == s && nkids(n)[p].rule == r)
    ensures got(o, sel(nkids(n).take(p + 1), RS::A(r)), r, n.lo, nkids(n)[p].hi, s)
{
    lemma_at(0, n, s, p);
    lemma_sel(nkids(n), p, RS::A(r));
}
pub open spec fn before(a: Option<Pair<'_>>, b: Option<Pair<'_>>) -> bool { a is Some && b is Some ==> a->Some_0.nd().hi <= b->Some_0.nd().lo }
pub proof fn lemma_before(a: Option<Pair<'_>>, b: Option<Pair<'_>>, n: PNode, p: int, r: Rule, s: Str)
    requires valid(n, s), 0 <= p < nkids(n).len(), got(a, sel(nkids(n).take(p), RS::A(r)), r, n.lo, end_of(nkids(n), p, n.lo), s), b is Some, b->Some_0.nd() == nkids(n)[p]
    ensures before(a, b)
{ lemma_at(0, n, s, p); }
/// one piece of a shell text
pub proof fn lemma_piece(n: PNode, s: Str, x: BreakableStringComponent)
    requires valid(n, s), n.rule == Rule::comment || n.rule == Rule::any_content, at_node(x.sp(), n, s),
        match x { BreakableStringComponent::Comment(c) => n.rule == Rule::comment && c.content@ == text(n, s), BreakableStringComponent::String(c) => n.rule == Rule::any_content && c.content@ == text(n, s) }
    ensures one(x, n, s)
{
    reveal(one);
    lemma_valid(n, s);
    lemma_ci(s, n.lo);
    lemma_ci(s, n.hi);
    lemma_bo_mono(s, n.lo, n.hi);
}
pub proof fn lemma_no_pieces(n: PNode, s: Str)
    ensures many(Seq::<BreakableStringComponent>::empty(), pieces_upto(n, 0), n.lo, n.lo, s)
{ reveal(many); reveal(w_all); reveal(c3_all); assert(nkids(n).take(0) =~= seq![]); }
pub proof fn lemma_all_pieces(n: PNode, s: Str, v: Seq<BreakableStringComponent>)
    requires valid(n, s), n.rule == Rule::any_breakable || brk_outer(n.rule), many(v, pieces_upto(n, nkids(n).len() as int), n.lo, end_of(nkids(n), nkids(n).len() as int, n.lo), s)
    ensures many(v, pieces(n), n.lo, n.hi, s),
        M_EX() ==> w_all(v, pieces(n), s), M_IN() ==> nest_all(v, bo(s, n.lo), bo(s, n.hi), s), M_C3() ==> c3_all(v, s)
{
    lemma_done(0, n, s);
    lemma_pieces(n, s);
    lemma_bo_mono(s, end_of(nkids(n), nkids(n).len() as int, n.lo), n.hi);
    reveal(many);
    lemma_list_at(v, pieces(n), n.lo, n.hi, s, bo(s, n.lo), bo(s, n.hi));
}
