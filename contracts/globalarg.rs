/// the ARG instructions before the first FROM
pub open spec fn global_args_of(ins: Seq<Instruction>) -> Seq<ArgInstruction>
    decreases ins.len()
{
    if ins.len() == 0 { seq![] } else { match ins[0] {
        Instruction::From(_) => seq![],
        Instruction::Arg(a) => seq![a] + global_args_of(ins.skip(1)),
        _ => global_args_of(ins.skip(1)),
    } }
}
pub open spec fn first_named(args: Seq<ArgInstruction>, name: Str) -> Option<ArgInstruction>
    decreases args.len()
{
    if args.len() == 0 { None } else if args[0].name.content@ == name { Some(args[0]) } else { first_named(args.skip(1), name) }
}
pub proof fn lemma_ga_step(ins: Seq<Instruction>, k: int, name: Str)
    requires 0 <= k < ins.len()
    ensures first_named(global_args_of(ins.skip(k)), name) == (match ins[k] {
        Instruction::From(_) => None,
        Instruction::Arg(a) => if a.name.content@ == name { Some(a) } else { first_named(global_args_of(ins.skip(k + 1)), name) },
        _ => first_named(global_args_of(ins.skip(k + 1)), name) })
{
    let t = ins.skip(k);
    assert(t.skip(1) =~= ins.skip(k + 1));
    assert(t[0] == ins[k]);
    match ins[k] {
        Instruction::Arg(a) => {
            let g = global_args_of(t);
            assert(g[0] == a);
            assert(g.skip(1) =~= global_args_of(ins.skip(k + 1)));
        }
        _ => {}
    }
}
/// first_named is exactly the first of the list with that name
pub proof fn c07_first(args: Seq<ArgInstruction>, name: Str)
    ensures match first_named(args, name) {
        Some(a) => exists|i: int| 0 <= i < args.len() && args[i] == a && a.name.content@ == name && (forall|j: int| 0 <= j < i ==> (#[trigger] args[j]).name.content@ != name),
        None => forall|j: int| 0 <= j < args.len() ==> (#[trigger] args[j]).name.content@ != name }
    decreases args.len()
{
    if args.len() > 0 && args[0].name.content@ != name {
        let t = args.skip(1);
        c07_first(t, name);
        match first_named(t, name) {
            Some(a) => {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == a && a.name.content@ == name && (forall|j: int| 0 <= j < i ==> (#[trigger] t[j]).name.content@ != name);
                assert(args[i + 1] == a);
                assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] args[j]).name.content@ != name by { if j > 0 { assert(t[j - 1] == args[j]); } }
            }
            None => { assert forall|j: int| 0 <= j < args.len() implies (#[trigger] args[j]).name.content@ != name by { if j > 0 { assert(t[j - 1] == args[j]); } } }
        }
    } else if args.len() > 0 { assert(args[0].name.content@ == name); }
}
