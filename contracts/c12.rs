/// gvars gives a name the value of the last argument of that name that has one
pub proof fn c12_last_wins(args: Seq<ArgInstruction>, name: Str)
    ensures gvars(args).contains_key(name) <==> (exists|i: int| 0 <= i < args.len() && (#[trigger] args[i]).name.content@ == name && args[i].value is Some),
        forall|i: int| 0 <= i < args.len() && (#[trigger] args[i]).name.content@ == name && args[i].value is Some
            && (forall|j: int| i < j < args.len() && (#[trigger] args[j]).name.content@ == name ==> args[j].value is None)
            ==> gvars(args)[name] == args[i].value->Some_0.content@,
    decreases args.len()
{
    if args.len() > 0 {
        let t = args.drop_last();
        c12_last_wins(t, name);
        let n = args.len() - 1;
        assert forall|i: int| 0 <= i < n implies args[i] == #[trigger] t[i] by { }
        if gvars(args).contains_key(name) {
            if !(args[n].name.content@ == name && args[n].value is Some) {
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name.content@ == name && t[i].value is Some;
                assert(args[i] == t[i]);
            }
        }
        if exists|i: int| 0 <= i < args.len() && (#[trigger] args[i]).name.content@ == name && args[i].value is Some {
            let i = choose|i: int| 0 <= i < args.len() && (#[trigger] args[i]).name.content@ == name && args[i].value is Some;
            if i < n { assert(t[i] == args[i]); }
        }
        assert forall|i: int| 0 <= i < args.len() && (#[trigger] args[i]).name.content@ == name && args[i].value is Some
            && (forall|j: int| i < j < args.len() && (#[trigger] args[j]).name.content@ == name ==> args[j].value is None)
            implies gvars(args)[name] == args[i].value->Some_0.content@ by {
            if i < n {
                assert(t[i] == args[i]);
                assert forall|j: int| i < j < t.len() && (#[trigger] t[j]).name.content@ == name implies t[j].value is None by { assert(args[j] == t[j]); }
                if args[n].name.content@ == name { assert(args[n].value is None); }
            }
        }
    }
}
