/// C23: equality, order and partial order of stages agree; swapping the stages
/// reverses the order, which depends on the indices only
pub fn c23_agree(a: &Stage, b: &Stage) -> (o: std::cmp::Ordering)
    ensures o == ord_of(a.index as int, b.index as int)
{
    let e = a.eq(b);
    let o = a.cmp(b);
    let p = a.partial_cmp(b);
    let q = b.cmp(a);
    assert(e == (o is Equal) && p == Some(o));
    assert((o is Less) == (q is Greater) && (o is Equal) == (q is Equal));
    o
}
pub proof fn c23_order(a: int, b: int, c: int)
    ensures ord_of(a, b) is Less && ord_of(b, c) is Less ==> ord_of(a, c) is Less
{}
