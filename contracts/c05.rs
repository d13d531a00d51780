// C05: the kinds of the instructions, and their keywords
proof fn kwd_from() ensures kwd(D_kw_from(), seq!['f', 'r', 'o', 'm']) { reveal_with_fuel(cstep, 6); }
proof fn starts_from(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::from
    ensures kw(text(n, s), seq!['f', 'r', 'o', 'm'])
{
    gen_kw_from_from(n, s); kwd_from(); lemma_valid(n, s);
    let w = seq!['f', 'r', 'o', 'm'];
    lemma_kw(D_kw_from(), w, s, n.lo, n.hi);
    let q = run(D_kw_from(), 0, fl(s, n.lo, n.hi));
    assert(0x40u64 & (1u64 << q) != 0 ==> q == 6) by(bit_vector) requires q < 64;
}
proof fn kwd_run() ensures kwd(D_kw_run(), seq!['r', 'u', 'n']) { reveal_with_fuel(cstep, 6); }
proof fn starts_run(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::run
    ensures kw(text(n, s), seq!['r', 'u', 'n'])
{
    gen_kw_run_run(n, s); kwd_run(); lemma_valid(n, s);
    let w = seq!['r', 'u', 'n'];
    lemma_kw(D_kw_run(), w, s, n.lo, n.hi);
    let q = run(D_kw_run(), 0, fl(s, n.lo, n.hi));
    assert(0x20u64 & (1u64 << q) != 0 ==> q == 5) by(bit_vector) requires q < 64;
}
proof fn kwd_arg() ensures kwd(D_kw_arg(), seq!['a', 'r', 'g']) { reveal_with_fuel(cstep, 6); }
proof fn starts_arg(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::arg
    ensures kw(text(n, s), seq!['a', 'r', 'g'])
{
    gen_kw_arg_arg(n, s); kwd_arg(); lemma_valid(n, s);
    let w = seq!['a', 'r', 'g'];
    lemma_kw(D_kw_arg(), w, s, n.lo, n.hi);
    let q = run(D_kw_arg(), 0, fl(s, n.lo, n.hi));
    assert(0x20u64 & (1u64 << q) != 0 ==> q == 5) by(bit_vector) requires q < 64;
}
proof fn kwd_label() ensures kwd(D_kw_label(), seq!['l', 'a', 'b', 'e', 'l']) { reveal_with_fuel(cstep, 6); }
proof fn starts_label(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::label
    ensures kw(text(n, s), seq!['l', 'a', 'b', 'e', 'l'])
{
    gen_kw_label_label(n, s); kwd_label(); lemma_valid(n, s);
    let w = seq!['l', 'a', 'b', 'e', 'l'];
    lemma_kw(D_kw_label(), w, s, n.lo, n.hi);
    let q = run(D_kw_label(), 0, fl(s, n.lo, n.hi));
    assert(0x80u64 & (1u64 << q) != 0 ==> q == 7) by(bit_vector) requires q < 64;
}
proof fn kwd_copy() ensures kwd(D_kw_copy(), seq!['c', 'o', 'p', 'y']) { reveal_with_fuel(cstep, 6); }
proof fn starts_copy(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::copy
    ensures kw(text(n, s), seq!['c', 'o', 'p', 'y'])
{
    gen_kw_copy_copy(n, s); kwd_copy(); lemma_valid(n, s);
    let w = seq!['c', 'o', 'p', 'y'];
    lemma_kw(D_kw_copy(), w, s, n.lo, n.hi);
    let q = run(D_kw_copy(), 0, fl(s, n.lo, n.hi));
    assert(0x40u64 & (1u64 << q) != 0 ==> q == 6) by(bit_vector) requires q < 64;
}
proof fn kwd_entrypoint() ensures kwd(D_kw_entrypoint(), seq!['e', 'n', 't', 'r', 'y', 'p', 'o', 'i', 'n', 't']) { reveal_with_fuel(cstep, 6); }
proof fn starts_entrypoint(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::entrypoint
    ensures kw(text(n, s), seq!['e', 'n', 't', 'r', 'y', 'p', 'o', 'i', 'n', 't'])
{
    gen_kw_entrypoint_entrypoint(n, s); kwd_entrypoint(); lemma_valid(n, s);
    let w = seq!['e', 'n', 't', 'r', 'y', 'p', 'o', 'i', 'n', 't'];
    lemma_kw(D_kw_entrypoint(), w, s, n.lo, n.hi);
    let q = run(D_kw_entrypoint(), 0, fl(s, n.lo, n.hi));
    assert(0x1000u64 & (1u64 << q) != 0 ==> q == 12) by(bit_vector) requires q < 64;
}
proof fn kwd_cmd() ensures kwd(D_kw_cmd(), seq!['c', 'm', 'd']) { reveal_with_fuel(cstep, 6); }
proof fn starts_cmd(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::cmd
    ensures kw(text(n, s), seq!['c', 'm', 'd'])
{
    gen_kw_cmd_cmd(n, s); kwd_cmd(); lemma_valid(n, s);
    let w = seq!['c', 'm', 'd'];
    lemma_kw(D_kw_cmd(), w, s, n.lo, n.hi);
    let q = run(D_kw_cmd(), 0, fl(s, n.lo, n.hi));
    assert(0x20u64 & (1u64 << q) != 0 ==> q == 5) by(bit_vector) requires q < 64;
}
proof fn kwd_env() ensures kwd(D_kw_env(), seq!['e', 'n', 'v']) { reveal_with_fuel(cstep, 6); }
proof fn starts_env(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::env
    ensures kw(text(n, s), seq!['e', 'n', 'v'])
{
    gen_kw_env_env(n, s); kwd_env(); lemma_valid(n, s);
    let w = seq!['e', 'n', 'v'];
    lemma_kw(D_kw_env(), w, s, n.lo, n.hi);
    let q = run(D_kw_env(), 0, fl(s, n.lo, n.hi));
    assert(0x20u64 & (1u64 << q) != 0 ==> q == 5) by(bit_vector) requires q < 64;
}
/// the rules of the supported instructions
pub open spec fn SUPPORTED() -> RL { RL::C(Rule::from, Box::new(RL::C(Rule::run, Box::new(RL::C(Rule::arg, Box::new(RL::C(Rule::label, Box::new(RL::C(Rule::copy, Box::new(RL::C(Rule::entrypoint, Box::new(RL::C(Rule::cmd, Box::new(RL::C(Rule::env, Box::new(RL::N)))))))))))))))) }
proof fn guard_misc() ensures guard_ok(Rule::dockerfile, Rule::misc, SUPPORTED()) { assert(guard_ok(Rule::dockerfile, Rule::misc, SUPPORTED())) by(compute_only); }
/// the reference syntax of no supported instruction matches at i
pub open spec fn not_supported(s: Str, i: int) -> bool {
    !follows(Rule::from, s, i) && !follows(Rule::run, s, i) && !follows(Rule::arg, s, i) && !follows(Rule::label, s, i) && !follows(Rule::copy, s, i) && !follows(Rule::entrypoint, s, i) && !follows(Rule::cmd, s, i) && !follows(Rule::env, s, i)
}
proof fn lemma_unsupported(s: Str, i: int)
    requires all_miss(SUPPORTED(), s, i)
    ensures not_supported(s, i)
{
    reveal_with_fuel(inrl, 10);
    assert forall|r: Rule| inrl(SUPPORTED(), r) implies !follows(r, s, i) by { let (at, f) = choose|at: bool, f: nat| #[trigger] misses1(r, at, s, i, f); lemma_miss(r, at, s, i, f); }
}
/// x is what its source text says it is
pub open spec fn kind_of(x: Instruction, s: Str) -> bool {
    let t = src_at(isp(x), s);
    match x {
        Instruction::From(_) => kw(t, seq!['f', 'r', 'o', 'm']),
        Instruction::Run(_) => kw(t, seq!['r', 'u', 'n']),
        Instruction::Arg(_) => kw(t, seq!['a', 'r', 'g']),
        Instruction::Label(_) => kw(t, seq!['l', 'a', 'b', 'e', 'l']),
        Instruction::Copy(_) => kw(t, seq!['c', 'o', 'p', 'y']),
        Instruction::Entrypoint(_) => kw(t, seq!['e', 'n', 't', 'r', 'y', 'p', 'o', 'i', 'n', 't']),
        Instruction::Cmd(_) => kw(t, seq!['c', 'm', 'd']),
        Instruction::Env(_) => kw(t, seq!['e', 'n', 'v']),
        Instruction::Misc(m) => {
            // the name as written, then the rest of the text
            &&& m.instruction.span.start == m.span.start && m.instruction.span.end == m.arguments.span.start && m.arguments.span.end == m.span.end
            &&& m.instruction.content@ == src_at(m.instruction.span, s)
            // no supported instruction matches here
            &&& all_miss(SUPPORTED(), s, ci(s, m.span.start as int))
            // and no well-formed one stands here
            &&& not_supported(s, ci(s, m.span.start as int))
        }
    }
}
/// nothing lies before, between and after the two parts of a miscellaneous instruction
proof fn lemma_misc_parts(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::misc
    ensures nkids(n).len() == 2, nkids(n)[0].lo == n.lo, nkids(n)[0].hi == nkids(n)[1].lo, nkids(n)[1].hi == n.hi
{
    lemma_misc(n, s);
    out_misc(n, s);
    lemma_valid(n, s);
    lemma_kids(n.out, s, n.lo, n.hi);
    let x = D_o_misc();
    let k = nkids(n);
    let t = xrun(x, k, n.lo, n.hi, s);
    assert(4u64 & (1u64 << t) != 0 ==> t == 2) by(bit_vector) requires t < 64;
    let k1 = k.drop_last();
    let k0 = k1.drop_last();
    assert(k1.len() == 1 && k1.last() == k[0] && k.last() == k[1]);
    assert(orun(x, k0, n.lo, s) == 0);
    assert(k[0].hi <= k[1].lo);
    lemma_nochar(x, 0, s, n.lo, k[0].lo);
    lemma_nochar(x, 1, s, k[0].hi, k[1].lo);
    lemma_nochar(x, 2, s, k[1].hi, n.hi);
    assert(orun(x, k1, n.lo, s) == 1 || orun(x, k1, n.lo, s) >= 63);
}
/// no characters in the outline of misc
proof fn lemma_nochar(x: int, q: u64, s: Str, i: int, j: int)
    requires x == D_o_misc(), q < 3, 0 <= i <= j <= s.len()
    ensures i == j ==> run(x, q, fl(s, i, j)) == q, i < j ==> run(x, q, fl(s, i, j)) >= 63, forall|k: u64, o: Seq<It>| k >= 63 ==> #[trigger] run(x, k, o) >= 63
    decreases j - i
{
    reveal_with_fuel(cstep, 3);
    assert forall|k: u64, o: Seq<It>| k >= 63 implies #[trigger] run(x, k, o) >= 63 by { lemma_run_sink(x, k, o); }
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_nochar(x, q, s, i, j - 1);
    }
}
proof fn lemma_kind(x: Instruction, n: PNode, s: Str)
    requires valid(n, s), kindly(x, n, s), n.rule == Rule::misc ==> all_miss(SUPPORTED(), s, n.lo) && not_supported(s, n.lo)
    ensures kind_of(x, s)
{
    lemma_valid(n, s);
    lemma_ci(s, n.lo);
    lemma_ci(s, n.hi);
    assert(src_at(isp(x), s) =~= text(n, s));
    match x {
        Instruction::From(_) => starts_from(n, s),
        Instruction::Run(_) => starts_run(n, s),
        Instruction::Arg(_) => starts_arg(n, s),
        Instruction::Label(_) => starts_label(n, s),
        Instruction::Copy(_) => starts_copy(n, s),
        Instruction::Entrypoint(_) => starts_entrypoint(n, s),
        Instruction::Cmd(_) => starts_cmd(n, s),
        Instruction::Env(_) => starts_env(n, s),
        Instruction::Misc(m) => { lemma_misc_parts(n, s); lemma_misc(n, s); let k = nkids(n); lemma_valid(k[0], s); lemma_ci(s, k[0].lo); lemma_ci(s, k[0].hi); }
    }
}
/// every parse that succeeds
pub proof fn c05_kinds(d: Dockerfile, s: Str)
    requires doc_kindly(Ok(d), s)
    ensures forall|i: int| 0 <= i < d.instructions@.len() ==> kind_of(#[trigger] d.instructions@[i], s)
{
    let n = choose|n: PNode| #[trigger] root(n, s) && all_kindly(d.instructions@, sel(nkids(n), RS::Ins), s);
    let v = d.instructions@;
    let k = sel(nkids(n), RS::Ins);
    lemma_valid(n, s);
    lemma_kids(n.out, s, n.lo, n.hi);
    guard_misc();
    assert forall|i: int| 0 <= i < v.len() implies kind_of(#[trigger] v[i], s) by {
        let a = lemma_sel_at(nkids(n), RS::Ins, i);
        if k[i].rule == Rule::misc { lemma_guard(n, s, a, Rule::misc, SUPPORTED()); lemma_unsupported(s, k[i].lo); }
        lemma_kind(v[i], k[i], s);
    }
}
