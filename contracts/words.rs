// ---- words
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn nl(c: char) -> bool { c == '\n' || c == '\r' }
/// at least one character, and neither blanks nor line ends
pub open spec fn word(t: Str) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> !blank(#[trigger] t[i]) && !nl(t[i]) }
pub open spec fn idc(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') || ('0' <= c <= '9') || c == '_' }
/// letters, digits and '_'
pub open spec fn ident(t: Str) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> idc(#[trigger] t[i]) }
proof fn lemma_run_word(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_word(), 0, fl(s, i, j)); (q == 0 ==> i == j) && (q == 1 ==> word(s.subrange(i, j))) && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 5);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_word(s, i, j - 1);
        let t = s.subrange(i, j);
        assert forall|x: int| 0 <= x < t.len() - 1 implies t[x] == s.subrange(i, j - 1)[x] by { }
        assert(t.last() == s[j - 1]);
    }
}
proof fn lemma_run_ident(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_ident(), 0, fl(s, i, j)); (q == 0 ==> i == j) && (q == 1 ==> ident(s.subrange(i, j))) && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 6);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_ident(s, i, j - 1);
        let t = s.subrange(i, j);
        assert forall|x: int| 0 <= x < t.len() - 1 implies t[x] == s.subrange(i, j - 1)[x] by { }
        assert(t.last() == s[j - 1]);
    }
}
proof fn lemma_word(n: PNode, s: Str)
    requires valid(n, s), has(2, run(D_word(), 0, fl(s, n.lo, n.hi)))
    ensures word(text(n, s))
{
    lemma_valid(n, s);
    let q = run(D_word(), 0, fl(s, n.lo, n.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_word(s, n.lo, n.hi);
}
proof fn lemma_ident(n: PNode, s: Str)
    requires valid(n, s), has(2, run(D_ident(), 0, fl(s, n.lo, n.hi)))
    ensures ident(text(n, s))
{
    lemma_valid(n, s);
    let q = run(D_ident(), 0, fl(s, n.lo, n.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_ident(s, n.lo, n.hi);
}
