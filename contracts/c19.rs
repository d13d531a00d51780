// C19: FROM and COPY, read off the source
/// a word of a FROM or COPY
pub open spec fn leaf(m: PNode, s: Str) -> bool {
    match m.rule {
        Rule::from_image | Rule::from_alias | Rule::from_flag_value | Rule::copy_flag_value | Rule::copy_pathspec => word(text(m, s)),
        Rule::from_flag_name | Rule::copy_flag_name => ident(text(m, s)),
        _ => true,
    }
}
/// a part of a FROM or COPY: a flag is `--name=value`
pub open spec fn part(m: PNode, s: Str) -> bool {
    &&& valid(m, s) && leaf(m, s)
    &&& m.rule == Rule::from_flag ==> L_from_flag(m, s) && forall|b: int| 0 <= b < nkids(m).len() ==> leaf(#[trigger] nkids(m)[b], s)
    &&& m.rule == Rule::copy_flag ==> L_copy_flag(m, s) && forall|b: int| 0 <= b < nkids(m).len() ==> leaf(#[trigger] nkids(m)[b], s)
}
/// the instruction x reports the parts of n, whose text is: the keyword, then
/// blanks, continuations and comment lines before every part (L_from: for an
/// alias also `as`)
pub open spec fn from_said(x: FromInstruction, n: PNode, s: Str) -> bool {
    &&& valid(n, s) && n.rule == Rule::from && at_node(x.span, n, s)
    &&& x.w(n, s)
    &&& L_from(n, s) && forall|a: int| 0 <= a < nkids(n).len() ==> part(#[trigger] nkids(n)[a], s)
}
pub open spec fn copy_said(x: CopyInstruction, n: PNode, s: Str) -> bool {
    &&& valid(n, s) && n.rule == Rule::copy && at_node(x.span, n, s)
    &&& x.w(n, s)
    &&& L_copy(n, s) && forall|a: int| 0 <= a < nkids(n).len() ==> part(#[trigger] nkids(n)[a], s)
}
proof fn lemma_leaf(m: PNode, s: Str)
    requires valid(m, s)
    ensures leaf(m, s)
{
    match m.rule {
        Rule::from_image => { gen_word_from_image(m, s); lemma_word(m, s); }
        Rule::from_alias => { gen_word_from_alias(m, s); lemma_word(m, s); }
        Rule::from_flag_value => { gen_word_from_flag_value(m, s); lemma_word(m, s); }
        Rule::copy_flag_value => { gen_word_copy_flag_value(m, s); lemma_word(m, s); }
        Rule::copy_pathspec => { gen_word_copy_pathspec(m, s); lemma_word(m, s); }
        Rule::from_flag_name => { gen_ident_from_flag_name(m, s); lemma_ident(m, s); }
        Rule::copy_flag_name => { gen_ident_copy_flag_name(m, s); lemma_ident(m, s); }
        _ => {}
    }
}
proof fn lemma_part(m: PNode, s: Str)
    requires valid(m, s)
    ensures part(m, s)
{
    lemma_leaf(m, s);
    if m.rule == Rule::from_flag { out_from_flag(m, s); }
    if m.rule == Rule::copy_flag { out_copy_flag(m, s); }
    assert forall|b: int| 0 <= b < nkids(m).len() implies leaf(#[trigger] nkids(m)[b], s) by { lemma_at(0, m, s, b); lemma_leaf(nkids(m)[b], s); }
}
proof fn lemma_parts(n: PNode, s: Str)
    requires valid(n, s)
    ensures forall|a: int| 0 <= a < nkids(n).len() ==> part(#[trigger] nkids(n)[a], s)
{ assert forall|a: int| 0 <= a < nkids(n).len() implies part(#[trigger] nkids(n)[a], s) by { lemma_at(0, n, s, a); lemma_part(nkids(n)[a], s); } }
/// every parse that succeeds
pub proof fn c19_from_copy(d: Dockerfile, s: Str)
    requires doc_ok(Ok(d), s)
    ensures forall|i: int| 0 <= i < d.instructions@.len() ==> match #[trigger] d.instructions@[i] {
        Instruction::From(x) => exists|n: PNode| from_said(x, n, s),
        Instruction::Copy(x) => exists|n: PNode| copy_said(x, n, s),
        _ => true }
{
    let r = choose|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s);
    let v = d.instructions@;
    let k = sel(nkids(r), RS::Ins);
    lemma_list_at(v, k, r.lo, r.hi, s, 0, 0);
    reveal(w_all);
    assert forall|i: int| 0 <= i < v.len() implies match #[trigger] v[i] {
        Instruction::From(x) => exists|n: PNode| from_said(x, n, s),
        Instruction::Copy(x) => exists|n: PNode| copy_said(x, n, s),
        _ => true } by {
        let a = lemma_sel_at(nkids(r), RS::Ins, i);
        lemma_at(0, r, s, a);
        let n = k[i];
        assert(v[i].w(n, s));
        lemma_parts(n, s);
        match v[i] {
            Instruction::From(x) => { out_from(n, s); assert(from_said(x, n, s)); }
            Instruction::Copy(x) => { out_copy(n, s); assert(copy_said(x, n, s)); }
            _ => {}
        }
    }
}
