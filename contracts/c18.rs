// C18: the exec form, read off the source
proof fn guard_run() ensures guard_ok(Rule::run, Rule::run_shell, RL::C(Rule::run_exec, Box::new(RL::N))) { assert(guard_ok(Rule::run, Rule::run_shell, RL::C(Rule::run_exec, Box::new(RL::N)))) by(compute_only); }
proof fn guard_cmd() ensures guard_ok(Rule::cmd, Rule::cmd_shell, RL::C(Rule::cmd_exec, Box::new(RL::N))) { assert(guard_ok(Rule::cmd, Rule::cmd_shell, RL::C(Rule::cmd_exec, Box::new(RL::N)))) by(compute_only); }
proof fn guard_entrypoint() ensures guard_ok(Rule::entrypoint, Rule::entrypoint_shell, RL::C(Rule::entrypoint_exec, Box::new(RL::N))) { assert(guard_ok(Rule::entrypoint, Rule::entrypoint_shell, RL::C(Rule::entrypoint_exec, Box::new(RL::N)))) by(compute_only); }
proof fn lemma_miss(f: Rule, s: Str, i: int)
    requires all_miss(RL::C(f, Box::new(RL::N)), s, i)
    ensures misses(f, s, i)
{ reveal_with_fuel(inrl, 2); assert(inrl(RL::C(f, Box::new(RL::N)), f)); }
/// from `[` to `]`
pub open spec fn bracketed(t: Str) -> bool { t.len() >= 2 && t[0] == '[' && t.last() == ']' }
proof fn lemma_run_brack(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_brack(), 0, fl(s, i, j)); (q == 0 ==> i == j) && (q == 1 ==> i < j && s[i] == '[') && (q == 2 ==> bracketed(s.subrange(i, j))) && (q <= 2 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 4);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_brack(s, i, j - 1);
        let t = s.subrange(i, j);
        assert(t.last() == s[j - 1]);
    }
}
proof fn lemma_brack(n: PNode, s: Str)
    requires valid(n, s), has(4, run(D_brack(), 0, fl(s, n.lo, n.hi)))
    ensures bracketed(text(n, s))
{
    lemma_valid(n, s);
    let q = run(D_brack(), 0, fl(s, n.lo, n.hi));
    assert(4u64 & (1u64 << q) != 0 ==> q == 2) by(bit_vector) requires q < 64;
    lemma_run_brack(s, n.lo, n.hi);
}
/// the arguments m of the instruction: x lists the quoted strings in m, whose
/// text is: `[`, the strings with commas, blanks, continuations and comment
/// lines between them (L_run_exec ..), `]`; the shell form only where the exec
/// form does not match
pub open spec fn exec_said(x: ShellOrExecExpr, m: PNode, s: Str) -> bool {
    &&& valid(m, s) && x.w(m, s)
    &&& match x {
        ShellOrExecExpr::Exec(a) => {
            &&& at_node(a.span, m, s) && bracketed(text(m, s))
            &&& (m.rule == Rule::run_exec && L_run_exec(m, s)) || (m.rule == Rule::cmd_exec && L_cmd_exec(m, s)) || (m.rule == Rule::entrypoint_exec && L_entrypoint_exec(m, s))
            &&& w_all(a.elements@, sel(nkids(m), RS::A(Rule::string)), s)
            &&& forall|b: int| 0 <= b < nkids(m).len() && (#[trigger] nkids(m)[b]).rule == Rule::string ==> qstr(text(nkids(m)[b], s))
        }
        ShellOrExecExpr::Shell(_) => (m.rule == Rule::run_shell && misses(Rule::run_exec, s, m.lo)) || (m.rule == Rule::cmd_shell && misses(Rule::cmd_exec, s, m.lo)) || (m.rule == Rule::entrypoint_shell && misses(Rule::entrypoint_exec, s, m.lo)),
    }
}
proof fn lemma_strings(m: PNode, s: Str)
    requires valid(m, s)
    ensures forall|b: int| 0 <= b < nkids(m).len() && (#[trigger] nkids(m)[b]).rule == Rule::string ==> qstr(text(nkids(m)[b], s))
{
    assert forall|b: int| 0 <= b < nkids(m).len() && (#[trigger] nkids(m)[b]).rule == Rule::string implies qstr(text(nkids(m)[b], s)) by {
        lemma_at(0, m, s, b);
        gen_qstr_string(nkids(m)[b], s);
        lemma_qstr(nkids(m)[b], s);
    }
}
/// the keyword, blanks, then the arguments
pub open spec fn run_said(x: RunInstruction, n: PNode, s: Str) -> bool {
    let k = sel(nkids(n), RS::B(Rule::run_exec, Rule::run_shell));
    valid(n, s) && n.rule == Rule::run && L_run(n, s) && k.len() == 1 && exec_said(x.expr, k[0], s)
}
proof fn lemma_run_said(x: RunInstruction, n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::run, x.w(n, s)
    ensures run_said(x, n, s)
{
    out_run(n, s);
    let k = sel(nkids(n), RS::B(Rule::run_exec, Rule::run_shell));
    let a = lemma_sel_at(nkids(n), RS::B(Rule::run_exec, Rule::run_shell), 0);
    lemma_at(0, n, s, a);
    let m = k[0];
    lemma_strings(m, s);
    if m.rule == Rule::run_exec { out_run_exec(m, s); gen_brack_run_exec(m, s); lemma_brack(m, s); }
    else { guard_run(); lemma_guard(n, s, a, m.rule, RL::C(Rule::run_exec, Box::new(RL::N))); lemma_miss(Rule::run_exec, s, m.lo); }
    // an expression of this form has a pair of this rule
    match x.expr { ShellOrExecExpr::Exec(_) => { assert(m.rule == Rule::run_exec); } ShellOrExecExpr::Shell(_) => { assert(m.rule == Rule::run_shell); } }
}
/// the keyword, blanks, then the arguments
pub open spec fn cmd_said(x: CmdInstruction, n: PNode, s: Str) -> bool {
    let k = sel(nkids(n), RS::B(Rule::cmd_exec, Rule::cmd_shell));
    valid(n, s) && n.rule == Rule::cmd && L_cmd(n, s) && k.len() == 1 && exec_said(x.expr, k[0], s)
}
proof fn lemma_cmd_said(x: CmdInstruction, n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::cmd, x.w(n, s)
    ensures cmd_said(x, n, s)
{
    out_cmd(n, s);
    let k = sel(nkids(n), RS::B(Rule::cmd_exec, Rule::cmd_shell));
    let a = lemma_sel_at(nkids(n), RS::B(Rule::cmd_exec, Rule::cmd_shell), 0);
    lemma_at(0, n, s, a);
    let m = k[0];
    lemma_strings(m, s);
    if m.rule == Rule::cmd_exec { out_cmd_exec(m, s); gen_brack_cmd_exec(m, s); lemma_brack(m, s); }
    else { guard_cmd(); lemma_guard(n, s, a, m.rule, RL::C(Rule::cmd_exec, Box::new(RL::N))); lemma_miss(Rule::cmd_exec, s, m.lo); }
    // an expression of this form has a pair of this rule
    match x.expr { ShellOrExecExpr::Exec(_) => { assert(m.rule == Rule::cmd_exec); } ShellOrExecExpr::Shell(_) => { assert(m.rule == Rule::cmd_shell); } }
}
/// the keyword, blanks, then the arguments
pub open spec fn entrypoint_said(x: EntrypointInstruction, n: PNode, s: Str) -> bool {
    let k = sel(nkids(n), RS::B(Rule::entrypoint_exec, Rule::entrypoint_shell));
    valid(n, s) && n.rule == Rule::entrypoint && L_entrypoint(n, s) && k.len() == 1 && exec_said(x.expr, k[0], s)
}
proof fn lemma_entrypoint_said(x: EntrypointInstruction, n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::entrypoint, x.w(n, s)
    ensures entrypoint_said(x, n, s)
{
    out_entrypoint(n, s);
    let k = sel(nkids(n), RS::B(Rule::entrypoint_exec, Rule::entrypoint_shell));
    let a = lemma_sel_at(nkids(n), RS::B(Rule::entrypoint_exec, Rule::entrypoint_shell), 0);
    lemma_at(0, n, s, a);
    let m = k[0];
    lemma_strings(m, s);
    if m.rule == Rule::entrypoint_exec { out_entrypoint_exec(m, s); gen_brack_entrypoint_exec(m, s); lemma_brack(m, s); }
    else { guard_entrypoint(); lemma_guard(n, s, a, m.rule, RL::C(Rule::entrypoint_exec, Box::new(RL::N))); lemma_miss(Rule::entrypoint_exec, s, m.lo); }
    // an expression of this form has a pair of this rule
    match x.expr { ShellOrExecExpr::Exec(_) => { assert(m.rule == Rule::entrypoint_exec); } ShellOrExecExpr::Shell(_) => { assert(m.rule == Rule::entrypoint_shell); } }
}
/// every parse that succeeds
pub proof fn c18_exec(d: Dockerfile, s: Str)
    requires doc_ok(Ok(d), s)
    ensures forall|i: int| 0 <= i < d.instructions@.len() ==> match #[trigger] d.instructions@[i] {
        Instruction::Run(x) => exists|n: PNode| run_said(x, n, s),
        Instruction::Cmd(x) => exists|n: PNode| cmd_said(x, n, s),
        Instruction::Entrypoint(x) => exists|n: PNode| entrypoint_said(x, n, s),
        _ => true }
{
    let r = choose|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s);
    let v = d.instructions@;
    let k = sel(nkids(r), RS::Ins);
    lemma_list_at(v, k, r.lo, r.hi, s, 0, 0);
    reveal(w_all);
    assert forall|i: int| 0 <= i < v.len() implies match #[trigger] v[i] {
        Instruction::Run(x) => exists|n: PNode| run_said(x, n, s),
        Instruction::Cmd(x) => exists|n: PNode| cmd_said(x, n, s),
        Instruction::Entrypoint(x) => exists|n: PNode| entrypoint_said(x, n, s),
        _ => true } by {
        let a = lemma_sel_at(nkids(r), RS::Ins, i);
        lemma_at(0, r, s, a);
        let n = k[i];
        assert(v[i].w(n, s));
        match v[i] {
            Instruction::Run(x) => lemma_run_said(x, n, s),
            Instruction::Cmd(x) => lemma_cmd_said(x, n, s),
            Instruction::Entrypoint(x) => lemma_entrypoint_said(x, n, s),
            _ => {}
        }
    }
}
