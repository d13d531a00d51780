// the FROM instructions among v
pub open spec fn froms(v: Seq<Instruction>) -> int
    decreases v.len()
{ if v.len() == 0 { 0 } else { froms(v.drop_last()) + (if v.last() is From { 1int } else { 0 }) } }
/// the ARG instructions before the first FROM
pub open spec fn globals(v: Seq<Instruction>) -> Seq<ArgInstruction>
    decreases v.len()
{
    if v.len() == 0 { seq![] } else {
        match v.last() {
            Instruction::Arg(a) => if froms(v) == 0 { globals(v.drop_last()).push(a) } else { globals(v.drop_last()) },
            _ => globals(v.drop_last()),
        }
    }
}
pub open spec fn numbered(v: Seq<Instruction>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> match #[trigger] v[i] { Instruction::From(x) => x.index == froms(v.take(i)), _ => true }
}
pub proof fn lemma_number(g: Seq<Instruction>, v: Seq<Instruction>)
    requires numbered(g), v.len() == g.len() + 1, v.drop_last() =~= g, v.last() is From ==> v.last()->From_0.index == froms(g)
    ensures numbered(v), 0 <= froms(g) <= froms(v) <= v.len(), froms(v) == froms(g) + (if v.last() is From { 1int } else { 0 })
{
    lemma_froms(g);
    assert forall|i: int| 0 <= i < v.len() implies match #[trigger] v[i] { Instruction::From(x) => x.index == froms(v.take(i)), _ => true } by {
        if i < g.len() { assert(v[i] == g[i]); assert(v.take(i) =~= g.take(i)); } else { assert(v.take(i) =~= g); }
    }
}
pub proof fn lemma_froms(v: Seq<Instruction>)
    ensures 0 <= froms(v) <= v.len()
    decreases v.len()
{ if v.len() > 0 { lemma_froms(v.drop_last()); } }
