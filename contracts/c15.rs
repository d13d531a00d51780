/// C15: among stages whose names are in lower case (as `Stages::new` makes them)
/// the lookup finds the first whose name equals the given one ignoring case
pub proof fn c15_ignore_case(s: Seq<SStage>, name: Str)
    requires forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name is Some ==> lower(s[i].name->Some_0) == s[i].name->Some_0
    ensures ({ let k = find_name(s, lower(name));
        &&& k >= 0 ==> k < s.len() && s[k].name is Some && lower(s[k].name->Some_0) == lower(name)
        &&& forall|i: int| 0 <= i < s.len() && (k < 0 || i < k) ==> !((#[trigger] s[i]).name is Some && lower(s[i].name->Some_0) == lower(name)) })
{ lemma_find_name(s, lower(name)); }
/// the names `Stages::new` produces are in lower case
pub proof fn c15_names_lower<'a>(ins: Seq<Instruction>)
    ensures ({ let s = stages_of::<'a>(ins); forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name is Some ==> lower(s[i].name->Some_0) == s[i].name->Some_0 })
    decreases ins.len()
{
    if ins.len() > 0 {
        c15_names_lower(ins.drop_last());
        let p = stages_of::<'a>(ins.drop_last());
        let s = stages_of::<'a>(ins);
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name is Some implies lower(s[i].name->Some_0) == s[i].name->Some_0 by {
            if i < p.len() { assert(p[i].name == s[i].name); }
        }
    }
}
