// Keywords: in any letter case, then a blank or a line continuation
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn nl(c: char) -> bool { c == '\n' || c == '\r' }
pub open spec fn cont_at(t: Str, i: int, j: int) -> bool { 0 <= i < j < t.len() && t[i] == '\\' && nl(t[j]) && forall|x: int| i < x < j ==> blank(#[trigger] t[x]) }
pub open spec fn same(c: char, w: char) -> bool { c == w || c as u32 + 32 == w as u32 }
pub open spec fn same_all(t: Str, w: Str, n: int) -> bool { forall|x: int| 0 <= x < n ==> same(#[trigger] t[x], w[x]) }
pub open spec fn kw(t: Str, w: Str) -> bool {
    t.len() > w.len() && same_all(t, w, w.len() as int) && (blank(t[w.len() as int]) || exists|j: int| #[trigger] cont_at(t, w.len() as int, j))
}
/// d is the automaton of the keyword w (lower case)
pub open spec fn kwd(d: int, w: Str) -> bool {
    &&& w.len() < 50
    &&& forall|q: u64, c: char| q < w.len() && #[trigger] cstep(chl(d, q), c as u32) < 63 ==> cstep(chl(d, q), c as u32) == q + 1 && same(c, w[q as int])
    &&& forall|c: char| #[trigger] cstep(chl(d, w.len() as u64), c as u32) < 63 ==> (blank(c) && cstep(chl(d, w.len() as u64), c as u32) == w.len() + 2) || (c == '\\' && cstep(chl(d, w.len() as u64), c as u32) == w.len() + 1)
    &&& forall|c: char| #[trigger] cstep(chl(d, (w.len() + 1) as u64), c as u32) < 63 ==> (blank(c) && cstep(chl(d, (w.len() + 1) as u64), c as u32) == w.len() + 1) || (nl(c) && cstep(chl(d, (w.len() + 1) as u64), c as u32) == w.len() + 2)
    &&& forall|c: char| #[trigger] cstep(chl(d, (w.len() + 2) as u64), c as u32) < 63 ==> cstep(chl(d, (w.len() + 2) as u64), c as u32) == w.len() + 2
}
pub proof fn lemma_kw(d: int, w: Str, s: Str, i: int, j: int)
    requires kwd(d, w), 0 <= i <= j <= s.len()
    ensures ({ let q = run(d, 0, fl(s, i, j)); let t = s.subrange(i, j);
        (q <= w.len() ==> j - i == q && same_all(t, w, q as int))
        && (q == w.len() + 1 ==> t.len() > w.len() && same_all(t, w, w.len() as int) && t[w.len() as int] == '\\' && forall|x: int| w.len() < x < t.len() ==> blank(#[trigger] t[x]))
        && (q == w.len() + 2 ==> kw(t, w))
        && (q <= w.len() + 2 || q >= 63) })
    decreases j - i
{
    let t = s.subrange(i, j);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_kw(d, w, s, i, j - 1);
        let u = s.subrange(i, j - 1);
        let p = run(d, 0, fl(s, i, j - 1));
        assert(u =~= t.drop_last());
        let c = s[j - 1];
        assert(t.last() == c);
        assert(forall|x: int| 0 <= x < u.len() ==> t[x] == u[x]);
        let n = w.len() as int;
        if p < 63 {
            assert(cstep(chl(d, p), c as u32) < 63 || cstep(chl(d, p), c as u32) >= 63);
            if p == n + 1 && nl(c) { assert(cont_at(t, n, j - i - 1)); }
            if p == n + 2 && !blank(u[n]) { let y = choose|y: int| #[trigger] cont_at(u, n, y); assert(cont_at(t, n, y)); }
        }
    }
}
