/// C22: a string grown by one piece prints as before, followed by the piece's
/// text unless it is a comment
pub proof fn c22_prints(a: BreakableString, b: BreakableString)
    requires grown(a, b)
    ensures b.disp() == a.disp() + match b.components@.last() { BreakableStringComponent::String(x) => x.content@, _ => seq![] }
{
    assert(b.components@.drop_last() == a.components@);
}
/// the empty string prints as nothing
pub proof fn c22_empty(a: BreakableString)
    requires a.components@.len() == 0
    ensures a.disp() == Seq::<char>::empty()
{}
/// the same for the code: a text, a comment and a text print as the two texts
pub fn c22_build(sp: (usize, usize), x: &str, c: &str, y: &str) -> (out: String)
    ensures out@ == x@ + y@
{
    let a = BreakableString::new(sp);
    let b = a.add_string(sp, x);
    let d = b.add_comment(sp, c);
    let e = d.add((sp, y));
    proof { c22_empty(a); c22_prints(a, b); c22_prints(b, d); c22_prints(d, e);
        assert(Seq::<char>::empty() + x@ =~= x@); assert(x@ + Seq::<char>::empty() =~= x@); }
    e.v_to_string()
}
