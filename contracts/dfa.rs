// Abstract interpretation of the grammar by finite automata over items
// (characters and pair rules). An automaton d is given by generated functions
//   chl(d, q): the character transitions of state q (first matching range),
//   nds(d, q, r): the transition of state q on a pair of rule r.
// States are 0..62, 63 is the sink. `post` computes, from a set of states, a
// superset of the states that the items of any successful match lead to; tbl
// holds claimed results for the rules that produce no pair of their own, and
// tbl_ok says that these claims are consistent, which is discharged by
// evaluating `post` on the generated grammar.
pub enum CL { End(u64), C(u32, u32, u64, Box<CL>) }
pub enum IL { N, C(u32, u32, Box<IL>) }

pub open spec fn cstep(l: CL, c: u32) -> u64
    decreases l
{ match l { CL::End(t) => t, CL::C(a, b, t, m) => if a <= c && c <= b { t } else { cstep(*m, c) } } }
pub open spec fn step(d: int, q: u64, x: It) -> u64 {
    if q >= 63 { 63 } else { match x { It::Ch(c) => cstep(chl(d, q), c as u32), It::Nd(n) => nds(d, q, n.rule) } }
}
pub open spec fn run(d: int, q: u64, o: Seq<It>) -> u64
    decreases o.len()
{ if o.len() == 0 { q } else { step(d, run(d, q, o.drop_last()), o.last()) } }

/// what the automaton reads: the items, or (flat) just the characters of the text
pub open spec fn fl(s: Str, i: int, j: int) -> Seq<It> { Seq::new((j - i) as nat, |x: int| It::Ch(s[i + x])) }
pub open spec fn obs(d: int, s: Str, i: int, j: int, o: Seq<It>) -> Seq<It> { if flat(d) { fl(s, i, j) } else { o } }
pub open spec fn vis(d: int, r: Rule, at: bool) -> bool { !flat(d) && emits(rty(r), at) }

pub open spec fn has(m: u64, q: u64) -> bool { q < 64 && (m & (1u64 << q)) != 0 }
pub open spec fn bit(q: u64) -> u64 { if q < 64 { 1u64 << q } else { u64::MAX } }

// ---- intervals
pub open spec fn inl(l: IL, c: u32) -> bool
    decreases l
{ match l { IL::N => false, IL::C(a, b, m) => (a <= c && c <= b) || inl(*m, c) } }
pub open spec fn app(l: IL, k: IL) -> IL
    decreases l
{ match l { IL::N => k, IL::C(a, b, m) => IL::C(a, b, Box::new(app(*m, k))) } }
/// some c in [a, b] may lie outside l
pub open spec fn some_out(a: int, b: int, l: IL) -> bool
    decreases l
{
    if a > b { false } else { match l {
        IL::N => true,
        IL::C(x, y, m) => if y < a || b < x { some_out(a, b, *m) } else { some_out(a, x - 1, *m) || some_out(y + 1, b, *m) },
    } }
}
pub open spec fn imax(a: u32, b: u32) -> u32 { if a >= b { a } else { b } }
pub open spec fn imin(a: u32, b: u32) -> u32 { if a <= b { a } else { b } }
pub open spec fn targets(l: CL, a: u32, b: u32, ex: IL) -> u64
    decreases l
{
    match l {
        CL::End(t) => if some_out(a as int, b as int, ex) { bit(t) } else { 0 },
        CL::C(x, y, t, m) => (if some_out(imax(a, x) as int, imin(b, y) as int, ex) { bit(t) } else { 0 }) | targets(*m, a, b, IL::C(x, y, Box::new(ex))),
    }
}
/// union over the states of m, from q on
pub open spec fn chs(d: int, m: u64, a: u32, b: u32, ex: IL, q: u64) -> u64
    decreases 64 - q
{ if q >= 63 { m & bit(63) } else { (if has(m, q) { targets(chl(d, q), a, b, ex) } else { 0 }) | chs(d, m, a, b, ex, (q + 1) as u64) } }
pub open spec fn nodes(d: int, m: u64, r: Rule, q: u64) -> u64
    decreases 64 - q
{ if q >= 63 { m & bit(63) } else { (if has(m, q) { bit(nds(d, q, r)) } else { 0 }) | nodes(d, m, r, (q + 1) as u64) } }
pub open spec fn look(d: int, m: u64, r: Rule, at: bool, q: u64) -> u64
    decreases 64 - q
{ if q >= 63 { m & bit(63) } else { (if has(m, q) { tbl(d, r, at, q) } else { 0 }) | look(d, m, r, at, (q + 1) as u64) } }

/// e never fails
pub open spec fn always(e: E) -> bool
    decreases e
{ match e { E::Nop => true, E::Star(_) => true, E::Alt(_, b) => always(*b), E::Cat(a, b) => always(*a) && always(*b), _ => false } }
/// at a character in must(e), e does not fail
pub open spec fn must(e: E, n: nat) -> IL
    decreases n, e
{
    match e {
        E::R(a, b) => IL::C(a, b, Box::new(IL::N)),
        E::Alt(a, b) => app(must(*a, n), must(*b, n)),
        E::Cat(a, b) => if always(*b) { must(*a, n) } else { IL::N },
        E::Ref(r) => if n == 0 { IL::N } else { must(body(r), (n - 1) as nat) },
        _ => IL::N,
    }
}
pub open spec fn post(d: int, e: E, at: bool, m: u64, ex: IL) -> u64
    decreases e, 1000nat
{
    match e {
        E::R(a, b) => chs(d, m, a, b, ex, 0),
        E::Ref(r) => if vis(d, r, at) { nodes(d, m, r, 0) } else { look(d, m, r, at, 0) },
        E::Cat(a, b) => match *a {
            E::Neg(x) => post(d, *b, at, m, app(must(*x, 4), ex)),
            _ => post(d, *b, at, post(d, *a, at, m, ex), IL::N),
        },
        E::Alt(a, b) => post(d, *a, at, m, ex) | post(d, *b, at, m, ex),
        E::Star(x) => star(d, e, at, m, 64),
        _ => m,
    }
}
/// iterate to a closed set; everything if that does not happen
pub open spec fn star(d: int, e: E, at: bool, m: u64, n: nat) -> u64
    decreases e, n + 1
{
    match e {
        E::Star(x) => if n == 0 { u64::MAX } else {
            let p = post(d, *x, at, m, IL::N);
            if p & !m == 0 { m } else { star(d, e, at, m | p, (n - 1) as nat) }
        },
        _ => u64::MAX,
    }
}
/// the table entry of a rule is justified
pub open spec fn tbl_ok1(d: int, r: Rule, at: bool, q: u64) -> bool {
    post(d, body(r), at_in(rty(r), at), bit(q), IL::N) & !tbl(d, r, at, q) == 0
}
pub open spec fn tbl_upto(d: int, r: Rule, at: bool, q: u64, n: u64) -> bool
    decreases n - q
{ q >= n || (tbl_ok1(d, r, at, q) && tbl_upto(d, r, at, (q + 1) as u64, n)) }
pub open spec fn tbl_ok(d: int) -> bool {
    forall|r: Rule, at: bool, q: u64| q < 63 ==> #[trigger] tbl_ok1(d, r, at, q)
}
pub proof fn lemma_upto(d: int, r: Rule, at: bool, q: u64, n: u64, p: u64)
    requires tbl_upto(d, r, at, q, n), q <= p < n
    ensures tbl_ok1(d, r, at, p)
    decreases n - q
{ if q < p { lemma_upto(d, r, at, (q + 1) as u64, n, p); } }
pub proof fn lemma_top(d: int, r: Rule, at: bool, q: u64)
    requires tbl(d, r, at, q) == u64::MAX
    ensures tbl_ok1(d, r, at, q)
{ let x = post(d, body(r), at_in(rty(r), at), bit(q), IL::N); assert(x & !0xffff_ffff_ffff_ffffu64 == 0) by(bit_vector); }

// ---- soundness
proof fn lemma_or(a: u64, b: u64, q: u64)
    ensures has(a | b, q) == (has(a, q) || has(b, q))
{ if q < 64 { assert(((a | b) & (1u64 << q) != 0) == (a & (1u64 << q) != 0 || b & (1u64 << q) != 0)) by(bit_vector) requires q < 64; } }
proof fn lemma_sub(a: u64, b: u64, q: u64)
    requires a & !b == 0, has(a, q)
    ensures has(b, q)
{ assert(a & (1u64 << q) != 0 ==> b & (1u64 << q) != 0) by(bit_vector) requires a & !b == 0, q < 64; }
proof fn lemma_bit(q: u64, p: u64)
    ensures q < 64 && p < 64 ==> has(bit(q), p) == (p == q), q >= 64 && p < 64 ==> has(bit(q), p)
{
    if q < 64 && p < 64 { assert(((1u64 << q) & (1u64 << p) != 0) == (p == q)) by(bit_vector) requires q < 64, p < 64; }
    if q >= 64 && p < 64 { assert(0xffff_ffff_ffff_ffffu64 & (1u64 << p) != 0) by(bit_vector) requires p < 64; }
}
proof fn lemma_max(q: u64)
    requires q < 64
    ensures has(u64::MAX, q)
{ assert(0xffff_ffff_ffff_ffffu64 & (1u64 << q) != 0) by(bit_vector) requires q < 64; }
proof fn lemma_keep63(m: u64)
    ensures has(m & bit(63), 63) == has(m, 63)
{ assert(((m & (1u64 << 63)) & (1u64 << 63) != 0) == (m & (1u64 << 63) != 0)) by(bit_vector); }

proof fn lemma_app(l: IL, k: IL, c: u32)
    ensures inl(app(l, k), c) == (inl(l, c) || inl(k, c))
    decreases l
{ match l { IL::C(a, b, m) => lemma_app(*m, k, c), _ => {} } }
proof fn lemma_some_out(a: int, b: int, l: IL, c: u32)
    requires a <= c <= b, !inl(l, c)
    ensures some_out(a, b, l)
    decreases l
{
    match l { IL::N => {}, IL::C(x, y, m) => {
        if y < a || b < x { lemma_some_out(a, b, *m, c); }
        else if c < x { lemma_some_out(a, x - 1, *m, c); } else { lemma_some_out(y + 1, b, *m, c); }
    } }
}
proof fn lemma_targets(l: CL, a: u32, b: u32, ex: IL, c: u32)
    requires a <= c <= b, !inl(ex, c), cstep(l, c) < 64
    ensures has(targets(l, a, b, ex), cstep(l, c))
    decreases l
{
    let t = cstep(l, c);
    match l {
        CL::End(u) => { lemma_some_out(a as int, b as int, ex, c); lemma_bit(u, t); }
        CL::C(x, y, u, m) => {
            let k = if some_out(imax(a, x) as int, imin(b, y) as int, ex) { bit(u) } else { 0 };
            lemma_or(k, targets(*m, a, b, IL::C(x, y, Box::new(ex))), t);
            if x <= c && c <= y { lemma_some_out(imax(a, x) as int, imin(b, y) as int, ex, c); lemma_bit(u, t); }
            else { lemma_targets(*m, a, b, IL::C(x, y, Box::new(ex)), c); }
        }
    }
}
proof fn lemma_chs(d: int, m: u64, a: u32, b: u32, ex: IL, q: u64, p: u64, c: char)
    requires q <= p < 64, has(m, p), a <= c as u32 <= b, !inl(ex, c as u32), step(d, p, It::Ch(c)) < 64
    ensures has(chs(d, m, a, b, ex, q), step(d, p, It::Ch(c)))
    decreases 64 - q
{
    let t = step(d, p, It::Ch(c));
    if q >= 63 { lemma_keep63(m); } else {
        lemma_or(if has(m, q) { targets(chl(d, q), a, b, ex) } else { 0 }, chs(d, m, a, b, ex, (q + 1) as u64), t);
        if p == q { lemma_targets(chl(d, q), a, b, ex, c as u32); } else { lemma_chs(d, m, a, b, ex, (q + 1) as u64, p, c); }
    }
}
proof fn lemma_nodes(d: int, m: u64, r: Rule, q: u64, p: u64, t: u64)
    requires q <= p < 64, has(m, p), t < 64, t == (if p >= 63 { 63u64 } else { nds(d, p, r) })
    ensures has(nodes(d, m, r, q), t)
    decreases 64 - q
{
    if q >= 63 { lemma_keep63(m); } else {
        lemma_or(if has(m, q) { bit(nds(d, q, r)) } else { 0 }, nodes(d, m, r, (q + 1) as u64), t);
        if p == q { lemma_bit(nds(d, q, r), t); } else { lemma_nodes(d, m, r, (q + 1) as u64, p, t); }
    }
}
proof fn lemma_look(d: int, m: u64, r: Rule, at: bool, q: u64, p: u64, t: u64)
    requires q <= p < 64, has(m, p), t < 64, p < 63 ==> has(tbl(d, r, at, p), t), p >= 63 ==> t == 63
    ensures has(look(d, m, r, at, q), t)
    decreases 64 - q
{
    if q >= 63 { lemma_keep63(m); } else {
        lemma_or(if has(m, q) { tbl(d, r, at, q) } else { 0 }, look(d, m, r, at, (q + 1) as u64), t);
        if p != q { lemma_look(d, m, r, at, (q + 1) as u64, p, t); }
    }
}
pub open spec fn small(d: int) -> bool {
    &&& forall|q: u64, c: u32| q < 63 ==> #[trigger] cstep(chl(d, q), c) < 64
    &&& forall|q: u64, r: Rule| q < 63 ==> #[trigger] nds(d, q, r) < 64
}
pub proof fn lemma_run_cat(d: int, q: u64, a: Seq<It>, b: Seq<It>)
    ensures run(d, q, a + b) == run(d, run(d, q, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_run_cat(d, q, a, b.drop_last());
    }
}
pub proof fn lemma_run_small(d: int, q: u64, o: Seq<It>)
    requires small(d), q < 64
    ensures run(d, q, o) < 64
    decreases o.len()
{
    if o.len() > 0 {
        lemma_run_small(d, q, o.drop_last());
        let p = run(d, q, o.drop_last());
        match o.last() { It::Ch(c) => { if p < 63 { assert(cstep(chl(d, p), c as u32) < 64); } }, It::Nd(n) => { if p < 63 { assert(nds(d, p, n.rule) < 64); } } }
    }
}
pub proof fn lemma_run_sink(d: int, q: u64, o: Seq<It>)
    requires q >= 63
    ensures run(d, q, o) >= 63, q == 63 ==> run(d, q, o) == 63
    decreases o.len()
{ if o.len() > 0 { lemma_run_sink(d, q, o.drop_last()); } }

proof fn lemma_always(e: E, at: bool, s: Str, i: int, f: nat)
    requires always(e)
    ensures !(peg(e, at, s, i, f) is Fail)
    decreases f, e
{
    match e {
        E::Star(x) => if f > 0 { match peg(*x, at, s, i, f) { PR::Ok(j, o) => { lemma_always(e, at, s, j, (f - 1) as nat); } _ => {} } },
        E::Alt(a, b) => { lemma_always(*b, at, s, i, f); }
        E::Cat(a, b) => { lemma_always(*a, at, s, i, f); match peg(*a, at, s, i, f) { PR::Ok(j, o) => { lemma_always(*b, at, s, j, f); } _ => {} } }
        _ => {}
    }
}
proof fn lemma_must(e: E, n: nat, at: bool, s: Str, i: int, f: nat)
    requires 0 <= i < s.len(), inl(must(e, n), s[i] as u32)
    ensures !(peg(e, at, s, i, f) is Fail)
    decreases n, e
{
    reveal_with_fuel(inl, 2);
    match e {
        E::R(a, b) => {}
        E::Alt(a, b) => { lemma_app(must(*a, n), must(*b, n), s[i] as u32);
            if inl(must(*a, n), s[i] as u32) { lemma_must(*a, n, at, s, i, f); } else { lemma_must(*b, n, at, s, i, f); } }
        E::Cat(a, b) => { lemma_must(*a, n, at, s, i, f);
            match peg(*a, at, s, i, f) { PR::Ok(j, o) => { lemma_always(*b, at, s, j, f); } _ => {} } }
        E::Ref(r) => { if f > 0 { lemma_must(body(r), (n - 1) as nat, at_in(rty(r), at), s, i, (f - 1) as nat); } }
        _ => {}
    }
}
pub open spec fn ex_ok(s: Str, i: int, ex: IL) -> bool { 0 <= i < s.len() ==> !inl(ex, s[i] as u32) }

pub proof fn lemma_obs_cat(d: int, s: Str, i: int, j: int, k: int, o: Seq<It>, p: Seq<It>)
    requires i <= j <= k
    ensures obs(d, s, i, j, o) + obs(d, s, j, k, p) == obs(d, s, i, k, o + p)
{ if flat(d) { assert(fl(s, i, j) + fl(s, j, k) =~= fl(s, i, k)); } }
pub open spec fn res_ok(d: int, x: PR, s: Str, i: int, m: u64, q: u64) -> bool {
    match x { PR::Ok(j, o) => has(m, run(d, q, obs(d, s, i, j, o))), _ => true }
}
pub proof fn lemma_post(d: int, e: E, at: bool, s: Str, i: int, f: nat, m: u64, ex: IL, q: u64)
    requires tbl_ok(d), small(d), 0 <= i <= s.len(), ex_ok(s, i, ex), has(m, q)
    ensures res_ok(d, peg(e, at, s, i, f), s, i, post(d, e, at, m, ex), q)
    decreases f, e, 1000nat
{
    let (j, o) = match peg(e, at, s, i, f) { PR::Ok(j, o) => (j, o), _ => { return; } };
    lemma_peg_tiled(e, at, s, i, f);
    let v = obs(d, s, i, j, o);
    lemma_run_small(d, q, v);
    reveal_with_fuel(run, 2);
    match e {
        E::R(a, b) => {
            lemma_chs(d, m, a, b, ex, 0, q, s[i]);
            assert(v =~= seq![It::Ch(s[i])]);
            assert(seq![It::Ch(s[i])].drop_last() =~= seq![]);
        }
        E::Ref(r) => { lemma_post_ref(d, e, at, s, i, f, m, ex, q); }
        E::Cat(a, b) => { lemma_post_cat(d, e, at, s, i, f, m, ex, q); }
        E::Alt(a, b) => {
            lemma_post(d, *a, at, s, i, f, m, ex, q);
            lemma_post(d, *b, at, s, i, f, m, ex, q);
            lemma_or(post(d, *a, at, m, ex), post(d, *b, at, m, ex), run(d, q, v));
        }
        E::Star(x) => { lemma_star(d, e, at, s, i, f, m, 64, q); }
        _ => { assert(j == i); assert(v =~= seq![]); }
    }
}
proof fn lemma_post_ref(d: int, e: E, at: bool, s: Str, i: int, f: nat, m: u64, ex: IL, q: u64)
    requires tbl_ok(d), small(d), 0 <= i <= s.len(), ex_ok(s, i, ex), has(m, q), e is Ref
    ensures res_ok(d, peg(e, at, s, i, f), s, i, post(d, e, at, m, ex), q)
    decreases f, e, 999nat
{
    let (j, o) = match peg(e, at, s, i, f) { PR::Ok(j, o) => (j, o), _ => { return; } };
    lemma_peg_tiled(e, at, s, i, f);
    let v = obs(d, s, i, j, o);
    lemma_run_small(d, q, v);
    reveal_with_fuel(run, 2);
    match e { E::Ref(r) => {
            let g = (f - 1) as nat;
            match peg(body(r), at_in(rty(r), at), s, i, g) { PR::Ok(j2, o2) => {
                if vis(d, r, at) {
                    let n = PNode { rule: r, lo: i, hi: j, out: o2 };
                    assert(seq![It::Nd(n)].drop_last() =~= seq![]);
                    lemma_nodes(d, m, r, 0, q, step(d, q, It::Nd(n)));
                } else {
                    assert(v == obs(d, s, i, j, o2));
                    if q < 63 {
                        lemma_bit(q, q);
                        lemma_post(d, body(r), at_in(rty(r), at), s, i, g, bit(q), IL::N, q);
                        assert(tbl_ok1(d, r, at, q));
                        lemma_sub(post(d, body(r), at_in(rty(r), at), bit(q), IL::N), tbl(d, r, at, q), run(d, q, v));
                    } else { lemma_run_sink(d, q, v); }
                    lemma_look(d, m, r, at, 0, q, run(d, q, v));
                }
            } _ => {} }
    } _ => {} }
}
proof fn lemma_post_cat(d: int, e: E, at: bool, s: Str, i: int, f: nat, m: u64, ex: IL, q: u64)
    requires tbl_ok(d), small(d), 0 <= i <= s.len(), ex_ok(s, i, ex), has(m, q), e is Cat
    ensures res_ok(d, peg(e, at, s, i, f), s, i, post(d, e, at, m, ex), q)
    decreases f, e, 999nat
{
    let (j, o) = match peg(e, at, s, i, f) { PR::Ok(j, o) => (j, o), _ => { return; } };
    lemma_peg_tiled(e, at, s, i, f);
    let v = obs(d, s, i, j, o);
    lemma_run_small(d, q, v);
    reveal_with_fuel(run, 2);
    match e { E::Cat(a, b) => {
            let (j1, o1) = match peg(*a, at, s, i, f) { PR::Ok(j1, o1) => (j1, o1), _ => { return; } };
            lemma_peg_tiled(*a, at, s, i, f);
            let (j2, o2) = match peg(*b, at, s, j1, f) { PR::Ok(j2, o2) => (j2, o2), _ => { return; } };
            lemma_peg_tiled(*b, at, s, j1, f);
            match *a {
                E::Neg(x) => {
                    if 0 <= i < s.len() {
                        lemma_app(must(*x, 4), ex, s[i] as u32);
                        if inl(must(*x, 4), s[i] as u32) { lemma_must(*x, 4, at, s, i, f); }
                    }
                    assert(j1 == i && o1 =~= seq![]);
                    assert(o1 + o2 =~= o2);
                    lemma_post(d, *b, at, s, i, f, m, app(must(*x, 4), ex), q);
                }
                _ => {
                    lemma_post(d, *a, at, s, i, f, m, ex, q);
                    let v1 = obs(d, s, i, j1, o1);
                    lemma_run_small(d, q, v1);
                    lemma_post(d, *b, at, s, j1, f, post(d, *a, at, m, ex), IL::N, run(d, q, v1));
                    lemma_obs_cat(d, s, i, j1, j2, o1, o2);
                    lemma_run_cat(d, q, v1, obs(d, s, j1, j2, o2));
                }
            }
    } _ => {} }
}
/// from a set m closed under x, any number of repetitions stays in it
proof fn lemma_closed(d: int, e: E, at: bool, s: Str, i: int, f: nat, m: u64, q: u64)
    requires tbl_ok(d), small(d), 0 <= i <= s.len(), has(m, q), match e { E::Star(x) => post(d, *x, at, m, IL::N) & !m == 0, _ => false }
    ensures res_ok(d, peg(e, at, s, i, f), s, i, m, q)
    decreases f, e, 1nat
{
    match e { E::Star(x) => if f > 0 {
        match peg(*x, at, s, i, f) { PR::Ok(j, o) => {
            lemma_peg_tiled(*x, at, s, i, f);
            let v = obs(d, s, i, j, o);
            lemma_post(d, *x, at, s, i, f, m, IL::N, q);
            lemma_sub(post(d, *x, at, m, IL::N), m, run(d, q, v));
            lemma_run_small(d, q, v);
            lemma_closed(d, e, at, s, j, (f - 1) as nat, m, run(d, q, v));
            lemma_peg_tiled(e, at, s, j, (f - 1) as nat);
            match peg(e, at, s, j, (f - 1) as nat) { PR::Ok(k, p) => { lemma_obs_cat(d, s, i, j, k, o, p); lemma_run_cat(d, q, v, obs(d, s, j, k, p)); } _ => {} }
        }
        PR::Fail => { assert(obs(d, s, i, i, seq![]) =~= seq![]); }
        _ => {} }
    }, _ => {} }
}
proof fn lemma_star(d: int, e: E, at: bool, s: Str, i: int, f: nat, m: u64, n: nat, q: u64)
    requires tbl_ok(d), small(d), 0 <= i <= s.len(), has(m, q), e is Star
    ensures res_ok(d, peg(e, at, s, i, f), s, i, star(d, e, at, m, n), q)
    decreases f, e, 2 + n
{
    let (j, o) = match peg(e, at, s, i, f) { PR::Ok(j, o) => (j, o), _ => { return; } };
    lemma_run_small(d, q, obs(d, s, i, j, o));
    match e { E::Star(x) => {
        if n == 0 { lemma_max(run(d, q, obs(d, s, i, j, o))); } else {
            let p = post(d, *x, at, m, IL::N);
            if p & !m == 0 { lemma_closed(d, e, at, s, i, f, m, q); } else {
                lemma_or(m, p, q);
                lemma_star(d, e, at, s, i, f, m | p, (n - 1) as nat, q);
            }
        }
    }, _ => {} }
}
/// a rule whose body only leads into the set acc from state 0
pub open spec fn rule_ok(d: int, r: Rule, acc: u64) -> bool {
    &&& emits(rty(r), false) ==> post(d, body(r), at_in(rty(r), false), bit(0), IL::N) & !acc == 0
    &&& emits(rty(r), true) ==> post(d, body(r), at_in(rty(r), true), bit(0), IL::N) & !acc == 0
}
pub proof fn lemma_rule(d: int, n: PNode, s: Str, acc: u64)
    requires valid(n, s), rule_ok(d, n.rule, acc), tbl_ok(d), small(d)
    ensures has(acc, run(d, 0, obs(d, s, n.lo, n.hi, n.out)))
{
    let (at, f) = choose|at: bool, f: nat| #[trigger] matched(n, s, at, f);
    lemma_bit(0, 0);
    lemma_post(d, body(n.rule), at_in(rty(n.rule), at), s, n.lo, f, bit(0), IL::N, 0);
    lemma_sub(post(d, body(n.rule), at_in(rty(n.rule), at), bit(0), IL::N), acc, run(d, 0, obs(d, s, n.lo, n.hi, n.out)));
}
