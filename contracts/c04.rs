// C04: what lies outside the instructions
/// reading one character outside the instructions; 0: only blanks on this line
/// so far, 1: an instruction stands on this line, 2: inside a comment, 63: lost text
pub open spec fn out1(q: int, c: char) -> int {
    if q == 63 { 63 }
    else if c == '\n' || c == '\r' { 0 }
    else if q == 2 { 2 }
    else if c == ' ' || c == '\t' { q }
    else if q == 0 && c == '#' { 2 }
    else { 63 }
}
pub open spec fn outn(q: int, s: Str, i: int, j: int) -> int
    decreases j - i
{ if j <= i { q } else { out1(outn(q, s, i, j - 1), s[j - 1]) } }
/// the state after the last of the instructions v
pub open spec fn oute(v: Seq<Instruction>, s: Str) -> int { if v.len() == 0 { 0 } else { ci(s, isp(v.last()).end as int) } }
pub open spec fn outv(v: Seq<Instruction>, s: Str) -> int
    decreases v.len()
{
    if v.len() == 0 { 0 } else {
        let u = v.drop_last();
        // an instruction starts on a line of its own
        if outn(outv(u, s), s, oute(u, s), ci(s, isp(v.last()).start as int)) == 0 { 1 } else { 63 }
    }
}
pub open spec fn nothing_lost(v: Seq<Instruction>, s: Str) -> bool {
    outn(outv(v, s), s, oute(v, s), s.len() as int) != 63
}
proof fn lemma_outn(q: u64, s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len(), q <= 2 || q == 63
    ensures ({ let t = run(D_x_o_dockerfile(), q, fl(s, i, j)); t == 63 || (q != 63 && t <= 2 && outn(q as int, s, i, j) == t) })
    decreases j - i
{
    reveal_with_fuel(cstep, 8);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_outn(q, s, i, j - 1);
    }
}
proof fn lemma_run3(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let t = run(D_x_o_dockerfile(), 3, fl(s, i, j)); t == 63 || (t == 3 && i == j) })
    decreases j - i
{
    reveal_with_fuel(cstep, 8);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run3(s, i, j - 1);
    }
}
/// the parts: instructions, then the end of the input
proof fn lemma_parts(k: Seq<PNode>, s: Str, hi: int)
    requires ordered(k, s, 0, hi), hi <= s.len()
    ensures ({ let q = orun(D_x_o_dockerfile(), k, 0, s);
        (q <= 1 && forall|i: int| 0 <= i < k.len() ==> inr(RS::Ins, (#[trigger] k[i]).rule))
        || (q == 3 && k.len() > 0 && k.last().rule == Rule::EOI && orun(D_x_o_dockerfile(), k.drop_last(), 0, s) <= 1 && forall|i: int| 0 <= i < k.len() - 1 ==> inr(RS::Ins, (#[trigger] k[i]).rule))
        || q == 63 })
    decreases k.len()
{
    if k.len() > 0 {
        let p = k.drop_last();
        assert(ordered(p, s, 0, hi)) by { assert forall|a: int| 0 <= a < p.len() implies 0 <= (#[trigger] p[a]).lo <= p[a].hi <= hi && valid(p[a], s) by { assert(p[a] == k[a]); } }
        lemma_parts(p, s, hi);
        let q = orun(D_x_o_dockerfile(), p, 0, s);
        let e = end_of(k, k.len() - 1, 0);
        if p.len() > 0 { assert(k[p.len() - 1].hi <= k[k.len() - 1].lo); }
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] == k[i]);
        if q == 3 { lemma_run3(s, e, k.last().lo); } else { lemma_outn(q, s, e, k.last().lo); }
    }
}
proof fn lemma_outv(v: Seq<Instruction>, k: Seq<PNode>, s: Str, hi: int)
    requires ordered(k, s, 0, hi), hi <= s.len(), v.len() == k.len(), orun(D_x_o_dockerfile(), k, 0, s) <= 1,
        forall|i: int| 0 <= i < v.len() ==> at_node(isp(#[trigger] v[i]), k[i], s)
    ensures outv(v, s) == orun(D_x_o_dockerfile(), k, 0, s), oute(v, s) == end_of(k, k.len() as int, 0)
    decreases k.len()
{
    if k.len() > 0 {
        let p = k.drop_last();
        let u = v.drop_last();
        assert(ordered(p, s, 0, hi)) by { assert forall|a: int| 0 <= a < p.len() implies 0 <= (#[trigger] p[a]).lo <= p[a].hi <= hi && valid(p[a], s) by { assert(p[a] == k[a]); } }
        lemma_parts(p, s, hi);
        lemma_parts(k, s, hi);
        let q = orun(D_x_o_dockerfile(), p, 0, s);
        let e = end_of(k, k.len() - 1, 0);
        if p.len() > 0 { assert(k[p.len() - 1].hi <= k[k.len() - 1].lo); }
        if q == 3 { lemma_run3(s, e, k.last().lo); }
        if q == 63 { lemma_outn(q, s, e, k.last().lo); }
        assert forall|i: int| 0 <= i < u.len() implies at_node(isp(#[trigger] u[i]), p[i], s) by { assert(u[i] == v[i] && p[i] == k[i]); }
        lemma_outv(u, p, s, hi);
        lemma_outn(q, s, e, k.last().lo);
        lemma_ci(s, k.last().lo);
        lemma_ci(s, k.last().hi);
        assert(at_node(isp(v[v.len() - 1]), k[k.len() - 1], s));
    }
}
/// every parse that succeeds
pub proof fn c04_nothing_lost(d: Dockerfile, s: Str)
    requires doc_kindly(Ok(d), s)
    ensures nothing_lost(d.instructions@, s)
{
    let n = choose|n: PNode| #[trigger] root(n, s) && all_kindly(d.instructions@, sel(nkids(n), RS::Ins), s);
    let v = d.instructions@;
    out_dockerfile(n, s);
    lemma_valid(n, s);
    lemma_kids(n.out, s, n.lo, n.hi);
    lemma_nocom_ordered(nkids(n), s, n.lo, n.hi);
    lemma_sel_nocom(nkids(n), RS::Ins);
    let k = nocom(nkids(n));
    let x = D_x_o_dockerfile();
    lemma_parts(k, s, n.hi);
    let q = orun(x, k, 0, s);
    let t = xrun(x, k, 0, n.hi, s);
    assert(8u64 & (1u64 << t) != 0 ==> t == 3) by(bit_vector) requires t < 64;
    let e = end_of(k, k.len() as int, 0);
    if q == 3 { lemma_run3(s, e, n.hi); } else { lemma_outn(q, s, e, n.hi); }
    assert(q == 3);
    let p = k.drop_last();
    let eoi = k.last();
    assert(forall|i: int| 0 <= i < p.len() ==> p[i] == k[i]);
    lemma_sel_all(p, RS::Ins);
    assert(sel(k, RS::Ins) == p);
    assert(ordered(p, s, 0, n.hi)) by { assert forall|a: int| 0 <= a < p.len() implies 0 <= (#[trigger] p[a]).lo <= p[a].hi <= n.hi && valid(p[a], s) by { assert(p[a] == k[a]); } }
    // the end of the input
    assert(eoi == k[k.len() - 1]);
    let (at, f) = choose|at: bool, f: nat| #[trigger] matched(eoi, s, at, f);
    assert(eoi.lo == s.len());
    lemma_outv(v, p, s, n.hi);
    let r = orun(x, p, 0, s);
    assert(end_of(p, p.len() as int, 0) == end_of(k, k.len() - 1, 0));
    if p.len() > 0 { assert(k[p.len() - 1].hi <= k[k.len() - 1].lo); }
    lemma_outn(r, s, end_of(p, p.len() as int, 0), s.len() as int);
}
