// ---- C16: digests
pub open spec fn hexd(c: char) -> bool { ('0' <= c <= '9') || ('a' <= c <= 'f') || ('A' <= c <= 'F') }
pub open spec fn all_hex(t: Str) -> bool { forall|i: int| 0 <= i < t.len() ==> hexd(#[trigger] t[i]) }
pub open spec fn SHA() -> Str { seq!['s', 'h', 'a', '2', '5', '6', ':'] }
/// `sha256:` and 64 hexadecimal digits
pub open spec fn digest_ok(h: Str) -> bool { h.len() == 71 && h.take(7) == SHA() && all_hex(h.skip(7)) }
/// what a successfully parsed FROM says about its image
pub open spec fn image_ok(x: FromInstruction) -> bool {
    img_view(x.image_parsed) == parse_spec(x.image.content@) && match parse_spec(x.image.content@).hash { Some(h) => digest_ok(h), None => true }
}
pub open spec fn from_ok(x: Instruction) -> bool { match x { Instruction::From(f) => image_ok(f), _ => true } }
pub open spec fn bad_image(n: PNode, s: Str) -> bool {
    n.rule == Rule::from_image && match plain(text(n, s)) { Some(t) => match parse_spec(t).hash { Some(h) => !digest_ok(h), None => false }, None => false }
}
/// the pair of a FROM whose image has a digest of another form
pub open spec fn bad_digest(n: PNode, s: Str) -> bool { n.rule == Rule::from && exists|a: int| 0 <= a < nkids(n).len() && bad_image(#[trigger] nkids(n)[a], s) }
pub open spec fn has_bad_digest(n: PNode, s: Str) -> bool { exists|a: int| 0 <= a < nkids(n).len() && bad_digest(#[trigger] nkids(n)[a], s) }
pub open spec fn doc_digests(r: core::result::Result<Dockerfile, Error>, s: Str) -> bool {
    match r {
        Ok(d) => forall|i: int| 0 <= i < d.instructions@.len() ==> from_ok(#[trigger] d.instructions@[i]),
        // the syntax, a quoted string, or a digest of another form
        Err(e) => e is ParseError || e is UnescapeError || exists|n: PNode| #[trigger] root(n, s) && has_bad_digest(n, s),
    }
}
pub open spec fn quoted(t: Str) -> bool { t.len() > 0 && (t[0] == '"' || t[0] == '\'' || t[0] == '`') }
pub open spec fn plain(t: Str) -> Option<Str> { if quoted(t) { unq(t) } else { Some(t) } }
pub open spec fn f_img(o: Option<Pair>, s: Str) -> bool { o is Some ==> valid(o->Some_0.nd(), s) && o->Some_0.src() == s && o->Some_0.nd().rule == Rule::from_image }
pub open spec fn field_at(o: Option<Pair>, k: Seq<PNode>) -> bool { o is Some ==> exists|a: int| 0 <= a < k.len() && #[trigger] k[a] == o->Some_0.nd() }
pub open spec fn f_ali(o: Option<Pair>, s: Str) -> bool { o is Some ==> valid(o->Some_0.nd(), s) && o->Some_0.src() == s }

// ---- splitting at ':'
proof fn lemma_no_colon(t: Str)
    requires all_hex(t)
    ensures first_of(t, ':') < 0, split_spec(t, ':') == seq![t]
{ lemma_first_of(t, ':'); }
/// the parts of h: two, the first of them `sha256`
pub proof fn lemma_digest_parts(h: Str)
    ensures ({ let p = split_spec(h, ':'); let a = p.len() == 2 && p[0] == SHA().take(6);
        (a ==> h.len() >= 7 && h.take(7) == SHA() && p[1] == h.skip(7)) && (digest_ok(h) ==> a) })
{
    lemma_first_of(h, ':');
    let k = first_of(h, ':');
    let w = SHA().take(6);
    if k >= 0 {
        let u = h.skip(k + 1);
        lemma_first_of(u, ':');
        assert(split_spec(h, ':') == seq![h.take(k)] + split_spec(u, ':'));
        let j = first_of(u, ':');
        if j >= 0 {
            let v = u.skip(j + 1);
            assert(split_spec(u, ':') == seq![u.take(j)] + split_spec(v, ':'));
            lemma_split_some(v);
        } else { assert(split_spec(u, ':') == seq![u]); }
        if h.take(k) == w {
            assert(h.take(k).len() == 6);
            assert(k == 6);
            assert forall|i: int| 0 <= i < 7 implies h.take(7)[i] == SHA()[i] by { if i < 6 { assert(h.take(6)[i] == w[i]); } }
            assert(h.take(7) =~= SHA());
        }
    }
    if digest_ok(h) {
        assert forall|i: int| 0 <= i < 6 implies h[i] != ':' by { assert(h.take(7)[i] == SHA()[i]); }
        assert(h[6] == ':') by { assert(h.take(7)[6] == SHA()[6]); }
        assert(k == 6);
        assert(h.take(6) =~= w) by { assert forall|i: int| 0 <= i < 6 implies h.take(6)[i] == w[i] by { assert(h.take(7)[i] == SHA()[i]); } }
        lemma_no_colon(h.skip(7));
    }
}
proof fn lemma_split_some(v: Str)
    ensures split_spec(v, ':').len() >= 1
{ }
// ---- the pattern in the source
pub proof fn lemma_run_hex(c: Cls, s: Str, i: int)
    requires 0 <= i <= s.len(), forall|x: char| in_cls(c, x) == hexd(x)
    ensures i <= run_end(c, s, i) <= s.len(), run_end(c, s, i) == s.len() <==> (forall|a: int| i <= a < s.len() ==> hexd(#[trigger] s[a]))
    decreases s.len() - i
{ if i < s.len() && hexd(s[i]) { lemma_run_hex(c, s, i + 1); } }
proof fn lemma_try_end(c: Cls, s: Str, i: int, j: int)
    requires 0 <= i, j < s.len()
    ensures re_try(c, 1, Stk::Push(Re::End, Box::new(Stk::Nil)), s, i, j, Map::empty()) is None
    decreases (if j - i + 1 < 0 { 0 } else { j - i + 1 })
{
    reveal_with_fuel(re_m, 3); reveal_with_fuel(re_try, 2);
    if j >= i + 1 { lemma_try_end(c, s, i, j - 1); }
}
pub proof fn lemma_hex(t: Str)
    ensures re_is_match(re_HEX(), t) == (t.len() > 0 && all_hex(t))
{
    reveal_with_fuel(re_m, 6); reveal_with_fuel(in_cls, 5); reveal_with_fuel(re_try, 2);
    match re_HEX() { Re::Cat(a, b) => { match *b { Re::Cat(r, e) => { match *r { Re::Rep(c, m) => {
        assert forall|x: char| in_cls(c, x) == hexd(x) by { }
        lemma_run_hex(c, t, 0);
        let j = run_end(c, t, 0);
        let k = Stk::Push(Re::End, Box::new(Stk::Nil));
        assert(re_at(re_HEX(), t, 0) == re_try(c, 1, k, t, 0, j, Map::empty()));
        assert forall|i: int| 0 < i <= t.len() implies #[trigger] re_at(re_HEX(), t, i) is None by { }
        if j < t.len() { lemma_try_end(c, t, 0, j); }
        if j == t.len() && j > 0 { assert(re_m(k, t, j, Map::empty()) is Some); }
    } _ => {} } } _ => {} } } _ => {} }
}
pub proof fn lemma_hex_len(t: Str)
    ensures all_hex(t) ==> blen(t) == t.len()
{
    if all_hex(t) { assert(is_ascii_chars(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as nat <= 127 by { assert(hexd(t[i])); } } lemma_blen_ascii(t); }
}
