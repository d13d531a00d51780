// ---- texts
pub proof fn lemma_nonl(t: Str)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] != '\n'
    ensures clean(t) == t
    decreases t.len()
{
    let a = seq!['\\', '\n'];
    if t.len() > 0 {
        if occurs(t, a, 0) { assert(t.subrange(0, 2)[1] == t[1]); assert(a[1] == '\n'); }
        lemma_nonl(t.skip(1));
        assert(seq![t[0]] + t.skip(1) =~= t);
    }
}
proof fn lemma_run_nonl(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len(), run(D_nonl(), 0, fl(s, i, j)) == 0
    ensures forall|x: int| i <= x < j ==> s[x] != '\n'
    decreases j - i
{
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        reveal_with_fuel(cstep, 2);
        let p = run(D_nonl(), 0, o.drop_last());
        assert(p == 0);
        lemma_run_nonl(s, i, j - 1);
    }
}
proof fn lemma_run_encl(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_encl(), 0, fl(s, i, j));
        (q == 0 <==> i == j)
        && (q == 1 || q == 3 ==> j > i && s[i] == '"') && (q == 2 || q == 4 ==> j > i && s[i] == '\'')
        && (q == 3 ==> j > i + 1 && s[j - 1] == '"') && (q == 4 ==> j > i + 1 && s[j - 1] == '\'')
        && (q <= 4 || q == 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 4);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_encl(s, i, j - 1);
    }
}
pub proof fn lemma_encl(n: PNode, s: Str)
    requires valid(n, s), env_quoted(n.rule) || is_label_q(n.rule)
    ensures enclosed(text(n, s))
{
    lemma_valid(n, s);
    if n.rule == Rule::env_pair_quoted_value { gen_encl_env_pair_quoted_value(n, s); }
    if n.rule == Rule::env_single_quoted_value { gen_encl_env_single_quoted_value(n, s); }
    if n.rule == Rule::label_quoted_name { gen_encl_label_quoted_name(n, s); }
    if n.rule == Rule::label_single_quoted_name { gen_encl_label_single_quoted_name(n, s); }
    if n.rule == Rule::label_quoted_value { gen_encl_label_quoted_value(n, s); }
    let q = run(D_encl(), 0, fl(s, n.lo, n.hi));
    assert(0x18u64 & (1u64 << q) != 0 ==> q == 3 || q == 4) by(bit_vector) requires q < 64;
    lemma_run_encl(s, n.lo, n.hi);
    assert(text(n, s)[0] == s[n.lo]);
    assert(text(n, s).last() == s[n.hi - 1]);
}
/// a label's content is what its text says
pub proof fn lemma_label(n: PNode, s: Str, x: SpannedString)
    requires valid(n, s), at_node(x.span, n, s),
        is_label_q(n.rule) ==> Some(x.content@) == unq(clean(text(n, s))),
        n.rule == Rule::label_name || n.rule == Rule::label_single_name || n.rule == Rule::label_value || is_label_q(n.rule),
        !is_label_q(n.rule) ==> Some(x.content@) == plain(text(n, s)),
    ensures one(Lab(x), n, s)
{
    reveal(one);
    lemma_valid(n, s);
    lemma_ci(s, n.lo);
    lemma_ci(s, n.hi);
    lemma_bo_mono(s, n.lo, n.hi);
    let t = text(n, s);
    if is_label_q(n.rule) { lemma_encl(n, s); } else {
        if n.rule == Rule::label_name { gen_nonl_label_name(n, s); }
        if n.rule == Rule::label_single_name { gen_nonl_label_single_name(n, s); }
        if n.rule == Rule::label_value { gen_nonl_label_value(n, s); }
        let q = run(D_nonl(), 0, fl(s, n.lo, n.hi));
        assert(1u64 & (1u64 << q) != 0 ==> q == 0) by(bit_vector) requires q < 64;
        lemma_run_nonl(s, n.lo, n.hi);
        assert forall|i: int| 0 <= i < t.len() implies t[i] != '\n' by { assert(t[i] == s[n.lo + i]); }
        lemma_nonl(t);
    }
}

/// an ENV value in one piece
pub proof fn lemma_env(n: PNode, s: Str, x: BreakableString)
    requires valid(n, s), env_quoted(n.rule) || n.rule == Rule::env_pair_value,
        x.components@.len() == 1, at_node(x.span, n, s),
        match x.components@[0] { BreakableStringComponent::String(c) => at_node(c.span, n, s) && Some(c.content@) == (if env_quoted(n.rule) { unq(text(n, s)) } else { Some(text(n, s)) }), _ => false }
    ensures one(Ev(x), n, s)
{
    reveal(one); reveal(nest_all); reveal(c3_all);
    lemma_valid(n, s);
    lemma_ci(s, n.lo);
    lemma_ci(s, n.hi);
    lemma_bo_mono(s, n.lo, n.hi);
    if env_quoted(n.rule) { lemma_encl(n, s); }
}
/// a value of several pieces
pub proof fn lemma_ev(n: PNode, s: Str, x: BreakableString)
    requires one(x, n, s), !env_quoted(n.rule)
    ensures one(Ev(x), n, s)
{ reveal(one); }
/// what the parsing entry points deliver
pub open spec fn doc_ok(r: core::result::Result<Dockerfile, Error>, s: Str) -> bool {
    match r {
        Ok(d) => exists|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s),
        Err(e) => (M_ERR() && e is ParseError ==> peg_fail(Rule::dockerfile, s)) && (e is ParseError || err_ok(e, s)),
    }
}
