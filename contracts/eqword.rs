// ---- words without '='
pub open spec fn eqword(t: Str) -> bool { word(t) && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '=' }
proof fn lemma_run_eqword(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_eqword(), 0, fl(s, i, j)); (q == 0 ==> i == j) && (q == 1 ==> eqword(s.subrange(i, j))) && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 6);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_eqword(s, i, j - 1);
        let t = s.subrange(i, j);
        assert forall|x: int| 0 <= x < t.len() - 1 implies t[x] == s.subrange(i, j - 1)[x] by { }
        assert(t.last() == s[j - 1]);
    }
}
proof fn lemma_eqword(n: PNode, s: Str)
    requires valid(n, s), has(2, run(D_eqword(), 0, fl(s, n.lo, n.hi)))
    ensures eqword(text(n, s))
{
    lemma_valid(n, s);
    let q = run(D_eqword(), 0, fl(s, n.lo, n.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_eqword(s, n.lo, n.hi);
}
