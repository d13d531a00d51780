// ---- spans and kinds of the reported instructions
/// what is reported for an instruction's pair
pub open spec fn kindly(x: Instruction, n: PNode, s: Str) -> bool { at_node(isp(x), n, s) && (X_KIND() ==> kind_ok(x, n, s)) }
pub open spec fn isp(x: Instruction) -> Span {
    match x {
        Instruction::From(x) => x.span, Instruction::Run(x) => x.span, Instruction::Arg(x) => x.span, Instruction::Label(x) => x.span, Instruction::Copy(x) => x.span,
        Instruction::Entrypoint(x) => x.span, Instruction::Cmd(x) => x.span, Instruction::Env(x) => x.span, Instruction::Misc(x) => x.span,
    }
}
pub open spec fn kind_ok(x: Instruction, n: PNode, s: Str) -> bool {
    match x {
        Instruction::From(_) => n.rule == Rule::from, Instruction::Run(_) => n.rule == Rule::run, Instruction::Arg(_) => n.rule == Rule::arg, Instruction::Label(_) => n.rule == Rule::label,
        Instruction::Copy(_) => n.rule == Rule::copy, Instruction::Entrypoint(_) => n.rule == Rule::entrypoint, Instruction::Cmd(_) => n.rule == Rule::cmd, Instruction::Env(_) => n.rule == Rule::env,
        Instruction::Misc(m) => n.rule == Rule::misc && misc_ok(m, n, s),
    }
}
/// the name as written, then the arguments
pub open spec fn misc_ok(m: MiscInstruction, n: PNode, s: Str) -> bool {
    let k = nkids(n);
    k.len() == 2 && k[0].rule == Rule::misc_instruction && k[1].rule == Rule::misc_arguments
        && at_node(m.instruction.span, k[0], s) && m.instruction.content@ == text(k[0], s) && at_node(m.arguments.span, k[1], s)
}
pub open spec fn all_kindly(v: Seq<Instruction>, k: Seq<PNode>, s: Str) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> kindly(#[trigger] v[i], k[i], s) }
pub open spec fn doc_kindly(r: core::result::Result<Dockerfile, Error>, s: Str) -> bool {
    match r { Ok(d) => exists|n: PNode| #[trigger] root(n, s) && all_kindly(d.instructions@, sel(nkids(n), RS::Ins), s), Err(_) => true }
}
pub open spec fn quoted(t: Str) -> bool { t.len() > 0 && (t[0] == '"' || t[0] == '\'' || t[0] == '`') }
pub open spec fn plain(t: Str) -> Option<Str> { if quoted(t) { unq(t) } else { Some(t) } }
proof fn lemma_misc_run(k: Seq<PNode>)
    ensures ({ let q = krun(D_misc(), 0, k);
        (q == 0 ==> k.len() == 0) && (q == 1 ==> k.len() == 1 && k[0].rule == Rule::misc_instruction)
        && (q == 2 ==> k.len() == 2 && k[0].rule == Rule::misc_instruction && k[1].rule == Rule::misc_arguments) && (q <= 2 || q >= 63) })
    decreases k.len()
{ if k.len() > 0 { lemma_misc_run(k.drop_last()); assert(k.len() >= 2 ==> k.drop_last()[0] == k[0]); } }
pub proof fn lemma_misc(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::misc
    ensures nkids(n).len() == 2, nkids(n)[0].rule == Rule::misc_instruction, nkids(n)[1].rule == Rule::misc_arguments,
        valid(nkids(n)[0], s), valid(nkids(n)[1], s), !quoted(text(nkids(n)[0], s))
{
    fact_misc(n, s);
    let k = nkids(n);
    lemma_misc_run(k);
    lemma_at(D_misc(), n, s, 0);
    lemma_at(D_misc(), n, s, 1);
    let m = k[0];
    gen_alpha_misc_instruction(m, s);
    lemma_valid(m, s);
    let q = run(D_alpha(), 0, fl(s, m.lo, m.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_alpha(s, m.lo, m.hi);
    assert(text(m, s)[0] == s[m.lo]);
}
proof fn lemma_run_alpha(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_alpha(), 0, fl(s, i, j)); (q == 0 ==> i == j) && (q == 1 ==> i < j && forall|x: int| i <= x < j ==> 'a' <= #[trigger] s[x] <= 'z' || 'A' <= s[x] <= 'Z') && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 4);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_alpha(s, i, j - 1);
    }
}
pub open spec fn name_at(o: Option<SpannedString>, n: PNode, s: Str) -> bool { o is Some ==> at_node(o->Some_0.span, n, s) && o->Some_0.content@ == text(n, s) }
pub open spec fn args_at(o: Option<BreakableString>, n: PNode, s: Str) -> bool { o is Some ==> at_node(o->Some_0.span, n, s) }
pub proof fn lemma_kindly_step(g: Seq<Instruction>, v: Seq<Instruction>, k: Seq<PNode>, p: int, s: Str)
    requires 0 <= p < k.len(), all_kindly(g, sel(k.take(p), RS::Ins), s),
        (v == g && !inr(RS::Ins, k[p].rule)) || (v.len() == g.len() + 1 && v.drop_last() == g && inr(RS::Ins, k[p].rule) && kindly(v.last(), k[p], s))
    ensures all_kindly(v, sel(k.take(p + 1), RS::Ins), s)
{
    lemma_sel(k, p, RS::Ins);
    if v != g { assert forall|i: int| 0 <= i < g.len() implies v[i] == g[i] by { assert(v.drop_last()[i] == v[i]); } }
}
