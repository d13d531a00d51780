// C13-C15: the stages of a list of instructions, by recursion over its prefixes
pub ghost struct SStage<'a> { pub index: int, pub name: Option<Str>, pub ins: Seq<Instruction>, pub parent: StageParent<'a>, pub root: StageParent<'a> }
pub open spec fn opt_lower(o: Option<SpannedString>) -> Option<Str> { match o { Some(a) => Some(lower(a.content@)), None => None } }
pub open spec fn ovs(o: Option<String>) -> Option<Str> { match o { Some(a) => Some(a@), None => None } }
pub open spec fn sv<'a>(s: Stage<'a>) -> SStage<'a> {
    SStage { index: s.index as int, name: ovs(s.name), ins: if keep_ins() { s.instructions@.map_values(|x: &'a Instruction| *x) } else { seq![] },
        parent: if keep_par() { s.parent } else { StageParent::Scratch }, root: if keep_par() { s.root } else { StageParent::Scratch } }
}
pub open spec fn svs<'a>(s: Seq<Stage<'a>>) -> Seq<SStage<'a>> { s.map_values(|x: Stage<'a>| sv(x)) }
/// index of the first stage with this name, or -1
pub open spec fn find_name(s: Seq<SStage>, name: Str) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else {
        let r = find_name(s.drop_last(), name);
        if r >= 0 { r } else if s.last().name == Some(name) { s.len() - 1 } else { -1 }
    }
}
pub proof fn lemma_find_name(s: Seq<SStage>, name: Str)
    ensures -1 <= find_name(s, name) < s.len(),
        find_name(s, name) >= 0 ==> s[find_name(s, name)].name == Some(name),
        forall|i: int| 0 <= i < s.len() && (find_name(s, name) < 0 || i < find_name(s, name)) ==> (#[trigger] s[i]).name != Some(name),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_find_name(s.drop_last(), name);
        let r = find_name(s.drop_last(), name);
        assert forall|i: int| 0 <= i < s.len() && (find_name(s, name) < 0 || i < find_name(s, name)) implies (#[trigger] s[i]).name != Some(name) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
/// no hit in the first k, a hit at k: that is the first
pub proof fn lemma_find_unique(s: Seq<SStage>, name: Str, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).name != Some(name), k < s.len() ==> s[k].name == Some(name)
    ensures k < s.len() ==> find_name(s, name) == k, k == s.len() ==> find_name(s, name) == -1
{ lemma_find_name(s, name); }

pub open spec fn parent_of<'a>(p: Seq<SStage<'a>>, f: FromInstruction) -> StageParent<'a> {
    let n = lower(f.image.content@);
    if n == "scratch"@ { StageParent::Scratch }
    else if find_name(p, n) >= 0 { StageParent::Stage(find_name(p, n) as usize) }
    else { StageParent::Image(&f.image_parsed) }
}
pub open spec fn root_of<'a>(p: Seq<SStage<'a>>, par: StageParent<'a>) -> StageParent<'a> {
    match par { StageParent::Stage(i) => p[i as int].root, x => x }
}
pub open spec fn stage_step<'a>(p: Seq<SStage<'a>>, x: Instruction) -> Seq<SStage<'a>> {
    match x {
        Instruction::From(f) => p.push(SStage { index: p.len() as int, name: opt_lower(f.alias), ins: if keep_ins() { seq![x] } else { seq![] },
            parent: if keep_par() { parent_of(p, f) } else { StageParent::Scratch }, root: if keep_par() { root_of(p, parent_of(p, f)) } else { StageParent::Scratch } }),
        _ => if p.len() == 0 { p } else { p.update(p.len() - 1, SStage { ins: if keep_ins() { p.last().ins.push(x) } else { seq![] }, ..p.last() }) },
    }
}
pub open spec fn stages_of<'a>(ins: Seq<Instruction>) -> Seq<SStage<'a>>
    decreases ins.len()
{
    if ins.len() == 0 { seq![] } else { stage_step(stages_of(ins.drop_last()), ins.last()) }
}
pub proof fn lemma_stages_prefix(ins: Seq<Instruction>, k: int)
    requires 0 <= k < ins.len()
    ensures stages_of(ins.take(k + 1)) == stage_step(stages_of(ins.take(k)), ins[k])
{
    assert(ins.take(k + 1).drop_last() =~= ins.take(k));
}
pub proof fn lemma_stages_idx(ins: Seq<Instruction>)
    ensures stages_of(ins).len() <= ins.len(),
        forall|i: int| 0 <= i < stages_of(ins).len() ==> (#[trigger] stages_of(ins)[i]).index == i
    decreases ins.len()
{
    if ins.len() > 0 { lemma_stages_idx(ins.drop_last()); }
}
pub open spec fn is_arg_named(x: Instruction, name: Str) -> bool {
    match x { Instruction::Arg(a) => a.name.content@ == name, _ => false }
}
pub open spec fn stage_hit<'a>(o: Option<&Stage<'a>>, v: Seq<Stage<'a>>, n: Str, i: int) -> bool {
    match o {
        None => forall|j: int| 0 <= j < v.len() ==> (#[trigger] svs(v)[j]).name != Some(n),
        Some(s) => 0 < i <= v.len() && *s == v[i - 1] && svs(v)[i - 1].name == Some(n)
            && forall|j: int| 0 <= j < i - 1 ==> (#[trigger] svs(v)[j]).name != Some(n),
    }
}
pub open spec fn arg_hit(o: Option<usize>, v: Seq<&Instruction>, n: Str) -> bool {
    match o {
        None => forall|j: int| 0 <= j < v.len() ==> !is_arg_named(*#[trigger] v[j], n),
        Some(k) => k < v.len() && is_arg_named(*v[k as int], n) && forall|j: int| 0 <= j < k ==> !is_arg_named(*#[trigger] v[j], n),
    }
}
