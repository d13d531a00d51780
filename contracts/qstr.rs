// ---- quoted strings
/// enclosed in one kind of quotes; a quote of that kind inside follows a backslash
pub open spec fn qstr(t: Str) -> bool { t.len() >= 2 && (t[0] == '"' || t[0] == '\'') && t.last() == t[0] && inner(t, t.len() - 1) }
pub open spec fn inner(t: Str, n: int) -> bool { forall|i: int| 0 < i < n && #[trigger] t[i] == t[0] ==> t[i - 1] == '\\' }
pub open spec fn qst(t: Str, q: u64) -> bool {
    let r: u64 = if q >= 5 { (q - 4) as u64 } else { q };
    &&& q == 0 ==> t.len() == 0
    &&& 1 <= q <= 4 ==> t.len() >= 1 && t[0] == '"'
    &&& 5 <= q <= 8 ==> t.len() >= 1 && t[0] == '\''
    &&& q > 0 && r == 1 ==> inner(t, t.len() as int)
    &&& q > 0 && r == 2 ==> inner(t, t.len() as int) && t.len() >= 2 && t.last() == '\\'
    &&& q > 0 && r == 3 ==> t.len() >= 2 && t.last() == t[0] && inner(t, t.len() - 1)
    &&& q > 0 && r == 4 ==> t.len() >= 2 && t.last() == t[0] && inner(t, t.len() as int)
}
proof fn lemma_run_qstr(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_qstr(), 0, fl(s, i, j)); q >= 63 || (q <= 8 && qst(s.subrange(i, j), q)) })
    decreases j - i
{
    reveal_with_fuel(cstep, 5);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_qstr(s, i, j - 1);
        let t = s.subrange(i, j);
        let u = s.subrange(i, j - 1);
        assert forall|x: int| 0 <= x < t.len() - 1 implies t[x] == u[x] by { }
        assert(t.last() == s[j - 1]);
        if u.len() > 0 { assert(t[t.len() - 2] == u.last()); }
    }
}
proof fn lemma_qstr(n: PNode, s: Str)
    requires valid(n, s), has(0x198, run(D_qstr(), 0, fl(s, n.lo, n.hi)))
    ensures qstr(text(n, s))
{
    lemma_valid(n, s);
    let q = run(D_qstr(), 0, fl(s, n.lo, n.hi));
    assert(0x198u64 & (1u64 << q) != 0 ==> q == 3 || q == 4 || q == 7 || q == 8) by(bit_vector) requires q < 64;
    lemma_run_qstr(s, n.lo, n.hi);
}
