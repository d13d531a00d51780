// C17: shell-form text, read off the source
pub open spec fn blank17(c: char) -> bool { c == ' ' || c == '\t' }
/// a whole comment: from '#' to the end of its line
pub open spec fn whole_comment(p: PNode, s: Str) -> bool { p.rule == Rule::comment && 0 <= p.lo < p.hi <= s.len() && s[p.lo] == '#' && (forall|a: int| p.lo <= a < p.hi ==> !isnl(#[trigger] s[a] as u32)) && (p.hi == s.len() || isnl(s[p.hi] as u32)) }
/// blanks, then '#', from i on
pub open spec fn hash_line(s: Str, i: int, j: int) -> bool { 0 <= i <= j < s.len() && s[j] == '#' && forall|a: int| i <= a < j ==> blank17(#[trigger] s[a]) }
/// a piece of text: on one line, and no comment
pub open spec fn text_piece(p: PNode, s: Str) -> bool {
    p.rule == Rule::any_content && 0 <= p.lo < p.hi <= s.len() && (forall|a: int| p.lo <= a < p.hi ==> !isnl(#[trigger] s[a] as u32)) && (forall|j: int| !#[trigger] hash_line(s, p.lo, j))
}
proof fn lemma_run_line(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures ({ let q = run(D_line(), 0, fl(s, i, j)); (q == 0 <==> i == j) && (q == 1 ==> i < j && forall|a: int| i <= a < j ==> !isnl(#[trigger] s[a] as u32)) && (q <= 1 || q >= 63) })
    decreases j - i
{
    reveal_with_fuel(cstep, 4);
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        lemma_run_line(s, i, j - 1);
    }
}
proof fn lemma_line(n: PNode, s: Str)
    requires valid(n, s), n.rule == Rule::any_content
    ensures 0 <= n.lo < n.hi <= s.len(), forall|a: int| n.lo <= a < n.hi ==> !isnl(#[trigger] s[a] as u32)
{
    gen_line_any_content(n, s);
    lemma_valid(n, s);
    let q = run(D_line(), 0, fl(s, n.lo, n.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_run_line(s, n.lo, n.hi);
}
// ---- where comment_line does not match there is no comment
pub open spec fn nofail(e: E) -> bool
    decreases e
{ match e { E::Nop => true, E::Star(x) => true, E::Alt(a, b) => nofail(*b), E::Cat(a, b) => nofail(*a) && nofail(*b), _ => false } }
proof fn lemma_nofail(e: E, at: bool, s: Str, i: int, f: nat)
    requires nofail(e)
    ensures !(peg(e, at, s, i, f) is Fail)
    decreases f, e
{
    match e {
        E::Star(x) => { if f > 0 { match peg(*x, at, s, i, f) { PR::Ok(j, o) => lemma_nofail(e, at, s, j, (f - 1) as nat), _ => {} } } }
        E::Alt(a, b) => lemma_nofail(*b, at, s, i, f),
        E::Cat(a, b) => { lemma_nofail(*a, at, s, i, f); match peg(*a, at, s, i, f) { PR::Ok(j, o) => lemma_nofail(*b, at, s, j, f), _ => {} } }
        _ => {}
    }
}
pub open spec fn WSS() -> E { E::Star(Box::new(E::Ref(Rule::ws))) }
proof fn lemma_one_ws(at: bool, s: Str, i: int, f: nat)
    requires 0 <= i <= s.len(), f > 0
    ensures match peg(E::Ref(Rule::ws), at, s, i, f) { PR::Ok(j, o) => j == i + 1 && i < s.len() && blank17(s[i]), PR::Fail => i == s.len() || !blank17(s[i]), _ => false }
{
    reveal_with_fuel(peg, 4);
}
proof fn lemma_wss(at: bool, s: Str, i: int, f: nat)
    requires 0 <= i <= s.len()
    ensures match peg(WSS(), at, s, i, f) { PR::Ok(j, o) => i <= j <= s.len() && (j == s.len() || !blank17(s[j])) && forall|a: int| i <= a < j ==> blank17(#[trigger] s[a]), PR::Fail => false, _ => true }
    decreases f
{
    if f > 0 {
        lemma_one_ws(at, s, i, f);
        match peg(E::Ref(Rule::ws), at, s, i, f) { PR::Ok(j, o) => lemma_wss(at, s, i + 1, (f - 1) as nat), _ => {} }
    }
}
/// a comment matches wherever there is a '#'
proof fn lemma_hash_matches(at: bool, s: Str, j: int, g: nat)
    requires 0 <= j < s.len(), s[j] == '#'
    ensures !(peg(E::Ref(Rule::comment), at, s, j, g) is Fail)
{
    reveal_with_fuel(nofail, 8);
    if g > 0 {
        let at2 = at_in(rty(Rule::comment), at);
        let h = (g - 1) as nat;
        let e = body(Rule::comment);
        match e { E::Cat(x, y) => {
            assert(*x == E::R(35, 35));
            assert(peg(*x, at2, s, j, h) is Ok);
            match peg(*x, at2, s, j, h) { PR::Ok(l, p) => { lemma_nofail(*y, at2, s, l, h); } _ => {} }
            assert(!(peg(e, at2, s, j, h) is Fail));
        } _ => {} }
    }
}
/// blanks, then a comment, then what cannot fail
proof fn lemma_line_matches(b: E, t: E, at: bool, s: Str, i: int, j: int, g: nat)
    requires hash_line(s, i, j), b == E::Cat(Box::new(WSS()), Box::new(E::Cat(Box::new(E::Ref(Rule::comment)), Box::new(t)))), nofail(t)
    ensures !(peg(b, at, s, i, g) is Fail)
{
    lemma_wss(at, s, i, g);
    let c = E::Cat(Box::new(E::Ref(Rule::comment)), Box::new(t));
    match peg(WSS(), at, s, i, g) { PR::Ok(k, o) => {
        if k < j { assert(blank17(s[k])); }
        if j < k { assert(blank17(s[j])); }
        lemma_hash_matches(at, s, j, g);
        match peg(E::Ref(Rule::comment), at, s, j, g) { PR::Ok(l, p) => { lemma_nofail(t, at, s, l, g); } _ => {} }
        assert(!(peg(c, at, s, j, g) is Fail));
    } _ => {} }
}
proof fn lemma_no_comment(s: Str, i: int)
    requires misses(Rule::comment_line, s, i), 0 <= i <= s.len()
    ensures forall|j: int| !#[trigger] hash_line(s, i, j)
{
    if exists|j: int| #[trigger] hash_line(s, i, j) {
        let j = choose|j: int| #[trigger] hash_line(s, i, j);
        let (at, f) = choose|at: bool, f: nat| #[trigger] misses1(Rule::comment_line, at, s, i, f);
        let e = body(Rule::comment_line);
        let at1 = at_in(rty(Rule::comment_line), at);
        let g = (f - 1) as nat;
        assert(f > 0 && peg(e, at1, s, i, g) is Fail);
        reveal_with_fuel(nofail, 8);
        match e { E::Cat(a, b) => match *b { E::Cat(c, t) => { lemma_line_matches(e, *t, at1, s, i, j, g); } _ => {} } _ => {} }
        assert(false);
    }
}
proof fn guard_content()
    ensures guard_ok(Rule::any_breakable, Rule::any_content, RL::C(Rule::comment_line, Box::new(RL::N)))
{ assert(guard_ok(Rule::any_breakable, Rule::any_content, RL::C(Rule::comment_line, Box::new(RL::N)))) by(compute_only); }
pub open spec fn shell_rule(r: Rule) -> bool { r == Rule::run_shell || r == Rule::cmd_shell || r == Rule::entrypoint_shell || r == Rule::env_single_value || r == Rule::misc_arguments }
/// between the shell value and its one any_breakable there is nothing
pub open spec fn L_shell(m: PNode, s: Str) -> bool {
    match m.rule { Rule::run_shell => L_run_shell(m, s), Rule::cmd_shell => L_cmd_shell(m, s), Rule::entrypoint_shell => L_entrypoint_shell(m, s), Rule::env_single_value => L_env_single_value(m, s), _ => L_misc_arguments(m, s) }
}
/// the shell value b, written at m: its pieces are the pieces of the source,
/// in order, and what lies between them is only continuations, the line breaks
/// that end comments, and blanks before comments (L_any_breakable, which is
/// the automaton o_brk)
pub open spec fn shell_said(b: BreakableString, m: PNode, s: Str) -> bool {
    let p = pieces(m);
    &&& valid(m, s) && shell_rule(m.rule) && at_node(b.span, m, s)
    &&& nkids(m).len() == 1 && L_shell(m, s) && nkids(m)[0].rule == Rule::any_breakable && valid(nkids(m)[0], s) && L_any_breakable(nkids(m)[0], s)
    &&& nkids(m)[0].lo == m.lo && nkids(m)[0].hi == m.hi
    &&& ordered(p, s, m.lo, m.hi)
    &&& b.components@.len() == p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> match #[trigger] b.components@[i] {
        BreakableStringComponent::Comment(c) => whole_comment(p[i], s) && at_node(c.span, p[i], s) && c.content@ == text(p[i], s),
        BreakableStringComponent::String(c) => text_piece(p[i], s) && at_node(c.span, p[i], s) && c.content@ == text(p[i], s),
    }
}
/// in a state without transitions on characters
proof fn lemma_stuck(x: int, q: u64, s: Str, i: int, j: int)
    requires i <= j, run(x, q, fl(s, i, j)) < 63, forall|c: u32| #[trigger] cstep(chl(x, q), c) >= 63
    ensures i == j
    decreases j - i
{
    if i < j {
        let o = fl(s, i, j);
        assert(o.drop_last() =~= fl(s, i, j - 1));
        assert(o.last() == It::Ch(s[j - 1]));
        if i < j - 1 { if run(x, q, fl(s, i, j - 1)) < 63 { lemma_stuck(x, q, s, i, j - 1); } } else { assert(fl(s, i, j - 1) =~= seq![]); }
    }
}
proof fn lemma_whole(m: PNode, s: Str)
    requires valid(m, s), nkids(m).len() == 1, outlined_all(D_o_shell(), 2, m, s)
    ensures nkids(m)[0].lo == m.lo, nkids(m)[0].hi == m.hi
{
    lemma_valid(m, s);
    lemma_at(0, m, s, 0);
    let k = nkids(m);
    let y = k[0];
    let x = D_o_shell();
    reveal_with_fuel(cstep, 3);
    reveal_with_fuel(orun, 2);
    assert(k.drop_last() =~= seq![]);
    let a = run(x, 0, fl(s, m.lo, y.lo));
    let b = kstep(x, a, y.rule);
    let q = run(x, b, fl(s, y.hi, m.hi));
    assert(2u64 & (1u64 << q) != 0 ==> q == 1) by(bit_vector) requires q < 64;
    lemma_stuck(x, b, s, y.hi, m.hi);
    lemma_stuck(x, 0, s, m.lo, y.lo);
}
proof fn lemma_shell_rule(m: PNode, s: Str)
    requires valid(m, s), shell_rule(m.rule)
    ensures nkids(m).len() == 1, nkids(m)[0].rule == Rule::any_breakable, L_shell(m, s), nkids(m)[0].lo == m.lo, nkids(m)[0].hi == m.hi
{
    fact_brk(m, s);
    lemma_brk_run(nkids(m));
    match m.rule {
        Rule::run_shell => { out_run_shell(m, s); }
        Rule::cmd_shell => { out_cmd_shell(m, s); }
        Rule::entrypoint_shell => { out_entrypoint_shell(m, s); }
        Rule::env_single_value => { out_env_single_value(m, s); }
        _ => { out_misc_arguments(m, s); }
    }
    lemma_whole(m, s);
}
proof fn lemma_shell_said(b: BreakableString, m: PNode, s: Str)
    requires valid(m, s), shell_rule(m.rule), b.w(m, s)
    ensures shell_said(b, m, s)
{
    lemma_shell_rule(m, s);
    lemma_at(0, m, s, 0);
    let y = nkids(m)[0];
    out_any_breakable(y, s);
    lemma_valid(y, s);
    lemma_kids(y.out, s, y.lo, y.hi);
    reveal(w_all);
    guard_content();
    let p = pieces(m);
    assert forall|i: int| 0 <= i < p.len() implies match #[trigger] b.components@[i] {
        BreakableStringComponent::Comment(c) => whole_comment(p[i], s) && at_node(c.span, p[i], s) && c.content@ == text(p[i], s),
        BreakableStringComponent::String(c) => text_piece(p[i], s) && at_node(c.span, p[i], s) && c.content@ == text(p[i], s),
    } by {
        lemma_at(0, y, s, i);
        assert(b.components@[i].w(p[i], s));
        match b.components@[i] {
            BreakableStringComponent::Comment(c) => { lemma_comment(p[i], s); }
            BreakableStringComponent::String(c) => {
                lemma_line(p[i], s);
                lemma_guard(y, s, i, Rule::any_content, RL::C(Rule::comment_line, Box::new(RL::N)));
                reveal_with_fuel(inrl, 2);
                assert(inrl(RL::C(Rule::comment_line, Box::new(RL::N)), Rule::comment_line));
                lemma_no_comment(s, p[i].lo);
            }
        }
    }
}
/// a shell value of the instruction n
pub open spec fn under(m: PNode, n: PNode) -> bool { exists|a: int| 0 <= a < nkids(n).len() && #[trigger] nkids(n)[a] == m }
pub open spec fn expr_said17(x: ShellOrExecExpr, n: PNode, s: Str) -> bool { match x { ShellOrExecExpr::Shell(b) => exists|m: PNode| under(m, n) && shell_said(b, m, s), _ => true } }
proof fn lemma_expr_said17(x: ShellOrExecExpr, n: PNode, k: RS, s: Str)
    requires valid(n, s), expr_w(x, n, k, s)
    ensures expr_said17(x, n, s)
{
    let a = lemma_sel_at(nkids(n), k, 0);
    lemma_at(0, n, s, a);
    match x { ShellOrExecExpr::Shell(b) => { let m = nkids(n)[a]; lemma_shell_said(b, m, s); assert(under(m, n) && shell_said(b, m, s)); } _ => {} }
}
/// an ENV instruction that names one variable and an unquoted text after a blank
pub open spec fn env_text(n: PNode) -> bool { nkids(n).len() == 1 && nkids(n)[0].rule == Rule::env_single && sel(nkids(nkids(n)[0]), RS::A(Rule::env_single_value)).len() > 0 }
pub open spec fn said17(x: Instruction, n: PNode, s: Str) -> bool {
    valid(n, s) && match x {
        Instruction::Run(y) => n.rule == Rule::run && expr_said17(y.expr, n, s),
        Instruction::Cmd(y) => n.rule == Rule::cmd && expr_said17(y.expr, n, s),
        Instruction::Entrypoint(y) => n.rule == Rule::entrypoint && expr_said17(y.expr, n, s),
        Instruction::Misc(y) => n.rule == Rule::misc && exists|m: PNode| under(m, n) && shell_said(y.arguments, m, s),
        Instruction::Env(y) => n.rule == Rule::env && (env_text(n) ==> y.vars@.len() == 1 && exists|m: PNode| under(m, nkids(n)[0]) && shell_said(y.vars@[0].value, m, s)),
        _ => true,
    }
}
proof fn lemma_said17(x: Instruction, n: PNode, s: Str)
    requires valid(n, s), x.w(n, s)
    ensures said17(x, n, s)
{
    match x {
        Instruction::Run(y) => lemma_expr_said17(y.expr, n, RS::B(Rule::run_exec, Rule::run_shell), s),
        Instruction::Cmd(y) => lemma_expr_said17(y.expr, n, RS::B(Rule::cmd_exec, Rule::cmd_shell), s),
        Instruction::Entrypoint(y) => lemma_expr_said17(y.expr, n, RS::B(Rule::entrypoint_exec, Rule::entrypoint_shell), s),
        Instruction::Misc(y) => {
            let a = lemma_sel_at(nkids(n), RS::A(Rule::misc_arguments), 0);
            lemma_at(0, n, s, a);
            let m = nkids(n)[a];
            lemma_shell_said(y.arguments, m, s);
            assert(under(m, n) && shell_said(y.arguments, m, s));
        }
        Instruction::Env(y) => if env_text(n) {
            reveal(w_all);
            let e = nkids(n)[0];
            lemma_at(0, n, s, 0);
            assert(y.vars@[0].w(env_list(e)[0], s));
            let k = RS::B(Rule::env_single_value, Rule::env_single_quoted_value);
            let a = lemma_sel_at(nkids(e), k, 0);
            lemma_at(0, e, s, a);
            let m = nkids(e)[a];
            lemma_sel_more(nkids(e));
            let c = lemma_sel_at(nkids(e), RS::A(Rule::env_single_value), 0);
            assert(m.rule == Rule::env_single_value);
            lemma_shell_said(y.vars@[0].value, m, s);
            assert(under(m, e) && shell_said(y.vars@[0].value, m, s));
        },
        _ => {}
    }
}
/// an unquoted text is one of the values
proof fn lemma_sel_more(k: Seq<PNode>)
    ensures ({ let a = sel(k, RS::A(Rule::env_single_value)); let b = sel(k, RS::B(Rule::env_single_value, Rule::env_single_quoted_value));
        a.len() <= b.len() && (a.len() > 0 && b.len() == 1 ==> b[0].rule == Rule::env_single_value) })
    decreases k.len()
{ if k.len() > 0 { lemma_sel_more(k.drop_last()); } }
pub open spec fn shown17(x: Instruction, s: Str) -> bool { exists|n: PNode| #[trigger] said17(x, n, s) }
/// every parse that succeeds
pub proof fn c17_shell(d: Dockerfile, s: Str)
    requires doc_ok(Ok(d), s)
    ensures forall|i: int| 0 <= i < d.instructions@.len() ==> shown17(#[trigger] d.instructions@[i], s)
{
    let r = choose|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s);
    let v = d.instructions@;
    let k = sel(nkids(r), RS::Ins);
    lemma_list_at(v, k, r.lo, r.hi, s, 0, 0);
    reveal(w_all);
    assert forall|i: int| 0 <= i < d.instructions@.len() implies shown17(#[trigger] d.instructions@[i], s) by {
        let a = lemma_sel_at(nkids(r), RS::Ins, i);
        lemma_at(0, r, s, a);
        assert(v[i].w(k[i], s));
        lemma_said17(v[i], k[i], s);
    }
}
