/// the i-th FROM instruction
pub open spec fn nth_from(ins: Seq<Instruction>, i: int) -> FromInstruction
    decreases ins.len()
{
    if ins.len() == 0 { arbitrary() } else if ins.last() is From && count_from(ins.drop_last()) == i { ins.last()->From_0 } else { nth_from(ins.drop_last(), i) }
}
pub open spec fn count_from(ins: Seq<Instruction>) -> int
    decreases ins.len()
{ if ins.len() == 0 { 0 } else { count_from(ins.drop_last()) + (if ins.last() is From { 1int } else { 0 }) } }
pub open spec fn parent_right(st: Seq<SStage>, i: int, f: FromInstruction) -> bool {
    let n = lower(f.image.content@);
    match st[i].parent {
        StageParent::Scratch => n == "scratch"@,
        StageParent::Stage(j) => n != "scratch"@ && j < i && st[j as int].name == Some(n) && forall|k: int| 0 <= k < j ==> (#[trigger] st[k]).name != Some(n),
        StageParent::Image(m) => n != "scratch"@ && *m == f.image_parsed && forall|k: int| 0 <= k < i ==> (#[trigger] st[k]).name != Some(n),
    }
}
pub open spec fn root_right(st: Seq<SStage>, i: int) -> bool {
    !(st[i].root is Stage) && st[i].root == (match st[i].parent { StageParent::Stage(j) => st[j as int].root, x => x })
}
pub open spec fn stage_right(st: Seq<SStage>, i: int, ins: Seq<Instruction>) -> bool {
    parent_right(st, i, nth_from(ins, i)) && root_right(st, i) && st[i].name == opt_lower(nth_from(ins, i).alias)
}
/// C14: parents and roots of the stages of any list of instructions
pub proof fn c14_parents<'a>(ins: Seq<Instruction>)
    requires ins.len() <= usize::MAX
    ensures ({ let st = stages_of::<'a>(ins);
        &&& st.len() == count_from(ins) && st.len() <= ins.len()
        &&& forall|i: int| 0 <= i < st.len() ==> #[trigger] stage_right(st, i, ins) })
    decreases ins.len()
{
    if ins.len() > 0 {
        let q = ins.drop_last();
        c14_parents(q);
        let st = stages_of::<'a>(ins);
        let sq = stages_of::<'a>(q);
        let n = sq.len() as int;
        assert forall|k: int| 0 <= k < n implies (#[trigger] st[k]).name == sq[k].name && st[k].root == sq[k].root && st[k].parent == sq[k].parent by { }
        assert forall|i: int| 0 <= i < st.len() implies #[trigger] stage_right(st, i, ins) by {
            if i < n {
                assert(sq == stages_of::<'a>(q));
                assert(0 <= i < sq.len());
                assert(stage_right(sq, i, q));
                assert(nth_from(ins, i) == nth_from(q, i));
            } else {
                let f = ins.last()->From_0;
                assert(nth_from(ins, i) == f);
                lemma_find_name(sq, lower(f.image.content@));
                if st[i].parent is Stage { assert(root_right(sq, st[i].parent->Stage_0 as int)) by { assert(stage_right(sq, st[i].parent->Stage_0 as int, q)); } }
            }
        }
    }
}
