// C20: ARG, ENV and LABEL, read off the source
proof fn guard1() ensures guard_ok(Rule::arg, Rule::arg_value, RL::C(Rule::arg_quoted_value, Box::new(RL::N))) { assert(guard_ok(Rule::arg, Rule::arg_value, RL::C(Rule::arg_quoted_value, Box::new(RL::N)))) by(compute_only); }
proof fn guard2() ensures guard_ok(Rule::label_pair, Rule::label_name, RL::C(Rule::label_quoted_name, Box::new(RL::N))) { assert(guard_ok(Rule::label_pair, Rule::label_name, RL::C(Rule::label_quoted_name, Box::new(RL::N)))) by(compute_only); }
proof fn guard3() ensures guard_ok(Rule::label_pair, Rule::label_value, RL::C(Rule::label_quoted_value, Box::new(RL::N))) { assert(guard_ok(Rule::label_pair, Rule::label_value, RL::C(Rule::label_quoted_value, Box::new(RL::N)))) by(compute_only); }
proof fn guard4() ensures guard_ok(Rule::label_single, Rule::label_single_name, RL::C(Rule::label_single_quoted_name, Box::new(RL::N))) { assert(guard_ok(Rule::label_single, Rule::label_single_name, RL::C(Rule::label_single_quoted_name, Box::new(RL::N)))) by(compute_only); }
proof fn guard5() ensures guard_ok(Rule::label_single, Rule::label_value, RL::C(Rule::label_quoted_value, Box::new(RL::N))) { assert(guard_ok(Rule::label_single, Rule::label_value, RL::C(Rule::label_quoted_value, Box::new(RL::N)))) by(compute_only); }
proof fn guard6() ensures guard_ok(Rule::env_pair, Rule::env_pair_value, RL::C(Rule::env_pair_quoted_value, Box::new(RL::N))) { assert(guard_ok(Rule::env_pair, Rule::env_pair_value, RL::C(Rule::env_pair_quoted_value, Box::new(RL::N)))) by(compute_only); }
proof fn guard7() ensures guard_ok(Rule::env_single, Rule::env_single_value, RL::C(Rule::env_single_quoted_value, Box::new(RL::N))) { assert(guard_ok(Rule::env_single, Rule::env_single_value, RL::C(Rule::env_single_quoted_value, Box::new(RL::N)))) by(compute_only); }
proof fn guard8() ensures guard_ok(Rule::env, Rule::env_pairs, RL::C(Rule::env_single, Box::new(RL::N))) { assert(guard_ok(Rule::env, Rule::env_pairs, RL::C(Rule::env_single, Box::new(RL::N)))) by(compute_only); }
/// a name or a value
pub open spec fn leaf(m: PNode, s: Str) -> bool {
    let t = text(m, s);
    match m.rule {
        Rule::arg_name | Rule::env_name => ident(t),
        Rule::arg_value => word(t) && misses(Rule::arg_quoted_value, s, m.lo),
        Rule::env_pair_value => word(t) && misses(Rule::env_pair_quoted_value, s, m.lo),
        Rule::env_single_value => misses(Rule::env_single_quoted_value, s, m.lo),
        Rule::label_name => eqword(t) && misses(Rule::label_quoted_name, s, m.lo),
        Rule::label_single_name => eqword(t) && misses(Rule::label_single_quoted_name, s, m.lo),
        Rule::label_value => word(t) && misses(Rule::label_quoted_value, s, m.lo),
        Rule::arg_quoted_value | Rule::label_quoted_name | Rule::label_single_quoted_name | Rule::label_quoted_value | Rule::env_pair_quoted_value | Rule::env_single_quoted_value => qstr(t),
        _ => true,
    }
}
/// a pair of name and value: `name=value`, or `name value`
pub open spec fn pair_said(m: PNode, s: Str) -> bool {
    &&& valid(m, s)
    &&& m.rule == Rule::label_pair ==> L_label_pair(m, s)
    &&& m.rule == Rule::label_single ==> L_label_single(m, s)
    &&& m.rule == Rule::env_pair ==> L_env_pair(m, s)
    &&& m.rule == Rule::env_single ==> L_env_single(m, s)
    &&& forall|b: int| 0 <= b < nkids(m).len() ==> leaf(#[trigger] nkids(m)[b], s)
}
pub open spec fn pairing(r: Rule) -> bool { r == Rule::label_pair || r == Rule::label_single || r == Rule::env_pair || r == Rule::env_single }
pub open spec fn pairs_said(n: PNode, s: Str) -> bool { forall|a: int| 0 <= a < nkids(n).len() && pairing((#[trigger] nkids(n)[a]).rule) ==> pair_said(nkids(n)[a], s) }
/// the instruction x reports the parts of n, whose text is: the keyword, blanks,
/// the name, and either nothing or `=` and the value
pub open spec fn arg_said(x: ArgInstruction, n: PNode, s: Str) -> bool {
    &&& valid(n, s) && n.rule == Rule::arg && at_node(x.span, n, s) && x.w(n, s)
    &&& L_arg(n, s) && forall|b: int| 0 <= b < nkids(n).len() ==> leaf(#[trigger] nkids(n)[b], s)
}
/// the keyword, then one pair `name value`, or words `name=value`
pub open spec fn label_said(x: LabelInstruction, n: PNode, s: Str) -> bool {
    &&& valid(n, s) && n.rule == Rule::label && at_node(x.span, n, s) && x.w(n, s)
    &&& L_label(n, s) && pairs_said(n, s)
}
/// the same; words `name=value` only where a pair `name value` does not match
pub open spec fn env_said(x: EnvInstruction, n: PNode, s: Str) -> bool {
    let m = nkids(n)[0];
    &&& valid(n, s) && n.rule == Rule::env && at_node(x.span, n, s) && x.w(n, s)
    &&& L_env(n, s) && nkids(n).len() == 1
    &&& (m.rule == Rule::env_single && pair_said(m, s)) || (m.rule == Rule::env_pairs && L_env_pairs(m, s) && pairs_said(m, s) && misses(Rule::env_single, s, m.lo))
}
proof fn lemma_miss(f: Rule, s: Str, i: int)
    requires all_miss(RL::C(f, Box::new(RL::N)), s, i)
    ensures misses(f, s, i)
{ reveal_with_fuel(inrl, 2); assert(inrl(RL::C(f, Box::new(RL::N)), f)); }
proof fn lemma_leaf(n: PNode, b: int, s: Str)
    requires valid(n, s), 0 <= b < nkids(n).len(), n.rule == Rule::arg || pairing(n.rule)
    ensures leaf(nkids(n)[b], s)
{
    let m = nkids(n)[b];
    lemma_at(0, n, s, b);
    lemma_places(n, s, b);
    match m.rule {
        Rule::arg_name => { gen_ident_arg_name(m, s); lemma_ident(m, s); }
        Rule::env_name => { gen_ident_env_name(m, s); lemma_ident(m, s); }
        Rule::arg_value => { gen_word_arg_value(m, s); lemma_word(m, s); guard1(); lemma_guard(n, s, b, m.rule, RL::C(Rule::arg_quoted_value, Box::new(RL::N))); lemma_miss(Rule::arg_quoted_value, s, m.lo); }
        Rule::env_pair_value => { gen_word_env_pair_value(m, s); lemma_word(m, s); guard6(); lemma_guard(n, s, b, m.rule, RL::C(Rule::env_pair_quoted_value, Box::new(RL::N))); lemma_miss(Rule::env_pair_quoted_value, s, m.lo); }
        Rule::env_single_value => { guard7(); lemma_guard(n, s, b, m.rule, RL::C(Rule::env_single_quoted_value, Box::new(RL::N))); lemma_miss(Rule::env_single_quoted_value, s, m.lo); }
        Rule::label_name => { gen_eqword_label_name(m, s); lemma_eqword(m, s); guard2(); lemma_guard(n, s, b, m.rule, RL::C(Rule::label_quoted_name, Box::new(RL::N))); lemma_miss(Rule::label_quoted_name, s, m.lo); }
        Rule::label_single_name => { gen_eqword_label_single_name(m, s); lemma_eqword(m, s); guard4(); lemma_guard(n, s, b, m.rule, RL::C(Rule::label_single_quoted_name, Box::new(RL::N))); lemma_miss(Rule::label_single_quoted_name, s, m.lo); }
        Rule::label_value => { gen_word_label_value(m, s); lemma_word(m, s); guard3(); guard5(); lemma_guard(n, s, b, m.rule, RL::C(Rule::label_quoted_value, Box::new(RL::N))); lemma_miss(Rule::label_quoted_value, s, m.lo); }
        Rule::arg_quoted_value => { gen_qstr_arg_quoted_value(m, s); lemma_qstr(m, s); }
        Rule::label_quoted_name => { gen_qstr_label_quoted_name(m, s); lemma_qstr(m, s); }
        Rule::label_single_quoted_name => { gen_qstr_label_single_quoted_name(m, s); lemma_qstr(m, s); }
        Rule::label_quoted_value => { gen_qstr_label_quoted_value(m, s); lemma_qstr(m, s); }
        Rule::env_pair_quoted_value => { gen_qstr_env_pair_quoted_value(m, s); lemma_qstr(m, s); }
        Rule::env_single_quoted_value => { gen_qstr_env_single_quoted_value(m, s); lemma_qstr(m, s); }
        _ => {}
    }
}
/// which rules stand where
proof fn lemma_places(n: PNode, s: Str, b: int)
    requires valid(n, s), 0 <= b < nkids(n).len(), n.rule == Rule::arg || pairing(n.rule)
    ensures ({ let r = nkids(n)[b].rule;
        (r == Rule::arg_value ==> n.rule == Rule::arg) && (r == Rule::env_pair_value ==> n.rule == Rule::env_pair) && (r == Rule::env_single_value ==> n.rule == Rule::env_single)
        && (r == Rule::label_name ==> n.rule == Rule::label_pair) && (r == Rule::label_single_name ==> n.rule == Rule::label_single)
        && (r == Rule::label_value ==> n.rule == Rule::label_pair || n.rule == Rule::label_single) })
{
    let k = nkids(n);
    lemma_at(D_arg(), n, s, b); lemma_at(D_env_pair(), n, s, b); lemma_at(D_env_single(), n, s, b); lemma_at(D_lp1(), n, s, b); lemma_at(D_lp2(), n, s, b);
    if n.rule == Rule::arg { fact_arg(n, s); }
    if n.rule == Rule::env_pair { fact_env_pair(n, s); }
    if n.rule == Rule::env_single { fact_env_single(n, s); }
    if n.rule == Rule::label_pair { fact_lp1(n, s); }
    if n.rule == Rule::label_single { fact_lp2(n, s); }
}
proof fn lemma_pair(m: PNode, s: Str)
    requires valid(m, s), pairing(m.rule)
    ensures pair_said(m, s)
{
    if m.rule == Rule::label_pair { out_label_pair(m, s); }
    if m.rule == Rule::label_single { out_label_single(m, s); }
    if m.rule == Rule::env_pair { out_env_pair(m, s); }
    if m.rule == Rule::env_single { out_env_single(m, s); }
    assert forall|b: int| 0 <= b < nkids(m).len() implies leaf(#[trigger] nkids(m)[b], s) by { lemma_leaf(m, b, s); }
}
proof fn lemma_pairs(n: PNode, s: Str)
    requires valid(n, s)
    ensures pairs_said(n, s)
{ assert forall|a: int| 0 <= a < nkids(n).len() && pairing((#[trigger] nkids(n)[a]).rule) implies pair_said(nkids(n)[a], s) by { lemma_at(0, n, s, a); lemma_pair(nkids(n)[a], s); } }
proof fn lemma_env_said(x: EnvInstruction, n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::env, x.w(n, s), at_node(x.span, n, s)
    ensures env_said(x, n, s)
{
    out_env(n, s);
    lemma_one_kid(n, s);
    lemma_at(0, n, s, 0);
    let m = nkids(n)[0];
    if m.rule == Rule::env_single { lemma_pair(m, s); } else {
        out_env_pairs(m, s);
        lemma_pairs(m, s);
        guard8();
        lemma_guard(n, s, 0, Rule::env_pairs, RL::C(Rule::env_single, Box::new(RL::N)));
        lemma_miss(Rule::env_single, s, m.lo);
    }
}
proof fn lemma_arg_said(x: ArgInstruction, n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::arg, x.w(n, s), at_node(x.span, n, s)
    ensures arg_said(x, n, s)
{
    out_arg(n, s);
    assert forall|b: int| 0 <= b < nkids(n).len() implies leaf(#[trigger] nkids(n)[b], s) by { lemma_leaf(n, b, s); }
}
/// every parse that succeeds
pub proof fn c20_pairs(d: Dockerfile, s: Str)
    requires doc_ok(Ok(d), s)
    ensures forall|i: int| 0 <= i < d.instructions@.len() ==> match #[trigger] d.instructions@[i] {
        Instruction::Arg(x) => exists|n: PNode| arg_said(x, n, s),
        Instruction::Label(x) => exists|n: PNode| label_said(x, n, s),
        Instruction::Env(x) => exists|n: PNode| env_said(x, n, s),
        _ => true }
{
    let r = choose|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s);
    let v = d.instructions@;
    let k = sel(nkids(r), RS::Ins);
    lemma_list_at(v, k, r.lo, r.hi, s, 0, 0);
    reveal(w_all);
    assert forall|i: int| 0 <= i < v.len() implies match #[trigger] v[i] {
        Instruction::Arg(x) => exists|n: PNode| arg_said(x, n, s),
        Instruction::Label(x) => exists|n: PNode| label_said(x, n, s),
        Instruction::Env(x) => exists|n: PNode| env_said(x, n, s),
        _ => true } by {
        let a = lemma_sel_at(nkids(r), RS::Ins, i);
        lemma_at(0, r, s, a);
        let n = k[i];
        assert(v[i].w(n, s));
        match v[i] {
            Instruction::Arg(x) => { lemma_arg_said(x, n, s); }
            Instruction::Label(x) => { out_label(n, s); lemma_pairs(n, s); assert(label_said(x, n, s)); }
            Instruction::Env(x) => { lemma_env_said(x, n, s); }
            _ => {}
        }
    }
}
