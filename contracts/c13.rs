/// positions of the FROM instructions
pub open spec fn froms(ins: Seq<Instruction>) -> Seq<int>
    decreases ins.len()
{
    if ins.len() == 0 { seq![] } else if ins.last() is From { froms(ins.drop_last()).push(ins.len() - 1) } else { froms(ins.drop_last()) }
}
pub proof fn lemma_froms(ins: Seq<Instruction>)
    ensures forall|i: int| 0 <= i < froms(ins).len() ==> 0 <= (#[trigger] froms(ins)[i]) < ins.len() && ins[froms(ins)[i]] is From,
        forall|i: int, j: int| 0 <= i < j < froms(ins).len() ==> froms(ins)[i] < froms(ins)[j],
        forall|p: int| 0 <= p < ins.len() && (#[trigger] ins[p]) is From ==> froms(ins).contains(p),
    decreases ins.len()
{
    if ins.len() > 0 {
        let q = ins.drop_last();
        lemma_froms(q);
        assert forall|i: int| 0 <= i < froms(ins).len() implies 0 <= (#[trigger] froms(ins)[i]) < ins.len() && ins[froms(ins)[i]] is From by {
            if i < froms(q).len() { assert(froms(q)[i] == froms(ins)[i]); assert(q[froms(q)[i]] is From); }
        }
        assert forall|i: int, j: int| 0 <= i < j < froms(ins).len() implies froms(ins)[i] < froms(ins)[j] by {
            if j < froms(q).len() { assert(froms(q)[i] < froms(q)[j]); } else { assert(froms(q)[i] == froms(ins)[i]); }
        }
        assert forall|p: int| 0 <= p < ins.len() && (#[trigger] ins[p]) is From implies froms(ins).contains(p) by {
            if p < q.len() { assert(q[p] is From); let i = choose|i: int| 0 <= i < froms(q).len() && froms(q)[i] == p; assert(froms(ins)[i] == p); }
            else { assert(froms(ins)[froms(q).len() as int] == p); }
        }
    }
}
pub open spec fn block_end(ins: Seq<Instruction>, i: int) -> int { if i + 1 < froms(ins).len() { froms(ins)[i + 1] } else { ins.len() as int } }
/// C13: one stage per FROM, in order, indexed from 0, holding its block
pub proof fn c13_partition<'a>(ins: Seq<Instruction>)
    ensures ({ let st = stages_of::<'a>(ins);
        &&& st.len() == froms(ins).len()
        &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).index == i && st[i].name == opt_lower(ins[froms(ins)[i]]->From_0.alias)
            && st[i].ins == ins.subrange(froms(ins)[i], block_end(ins, i)) })
    decreases ins.len()
{
    if ins.len() > 0 {
        let q = ins.drop_last();
        c13_partition(q);
        lemma_froms(q);
        lemma_froms(ins);
        let st = stages_of::<'a>(ins);
        let sq = stages_of::<'a>(q);
        assert forall|i: int| 0 <= i < st.len() implies (#[trigger] st[i]).index == i && st[i].name == opt_lower(ins[froms(ins)[i]]->From_0.alias)
            && st[i].ins == ins.subrange(froms(ins)[i], block_end(ins, i)) by {
            if i < sq.len() {
                assert(froms(ins)[i] == froms(q)[i]);
                assert(q[froms(q)[i]] == ins[froms(q)[i]]);
                assert(sq[i].index == i);
                if i + 1 < sq.len() { assert(froms(q)[i + 1] == froms(ins)[i + 1]); }
                assert(st[i].ins =~= ins.subrange(froms(ins)[i], block_end(ins, i)));
            } else {
                assert(st[i].ins =~= ins.subrange(froms(ins)[i], block_end(ins, i)));
            }
        }
    }
}
