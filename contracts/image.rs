// C10: the splitting rules, as a function from text
pub ghost struct Img { pub registry: Option<Str>, pub image: Str, pub tag: Option<Str>, pub hash: Option<Str> }
pub open spec fn has_ch(s: Str, c: char) -> bool { first_of(s, c) >= 0 }
pub open spec fn is_reg(t: Str) -> bool { t == "localhost"@ || has_ch(t, '.') || has_ch(t, ':') }
pub open spec fn reg_of(s: Str) -> Option<Str> {
    let k = first_of(s, '/');
    if k >= 0 && is_reg(s.take(k)) { Some(s.take(k)) } else { None }
}
pub open spec fn rest_of(s: Str) -> Str {
    if reg_of(s) is Some { s.skip(first_of(s, '/') + 1) } else { s }
}
pub open spec fn parse_spec(s: Str) -> Img {
    let r = rest_of(s);
    let at = first_of(r, '@');
    let co = first_of(r, ':');
    if at >= 0 { Img { registry: reg_of(s), image: r.take(at), tag: None, hash: Some(r.skip(at + 1)) } }
    else if co >= 0 { Img { registry: reg_of(s), image: r.take(co), tag: Some(r.skip(co + 1)), hash: None } }
    else { Img { registry: reg_of(s), image: r, tag: None, hash: None } }
}
pub open spec fn ov(o: Option<String>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn img_view(r: ImageRef) -> Img { Img { registry: ov(r.registry), image: r.image@, tag: ov(r.tag), hash: ov(r.hash) } }
pub open spec fn print_spec(i: Img) -> Str {
    let a = match i.registry { Some(r) => r + "/"@, None => ""@ };
    let c = match i.tag { Some(t) => ":"@ + t, None => match i.hash { Some(h) => "@"@ + h, None => ""@ } };
    a + i.image + c
}
/// what printing piece by piece rests on
pub proof fn lemma_printing()
    ensures forall|a: Str, b: Str, c: Str| #[trigger] ((a + b) + c) == a + (b + c), forall|a: Str| #[trigger] (a + Seq::<char>::empty()) == a, ""@ == Seq::<char>::empty(),
        forall|a: Str| #[trigger] (Seq::<char>::empty() + a) == a,
{
    assert forall|a: Str, b: Str, c: Str| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    assert forall|a: Str| #[trigger] (a + Seq::<char>::empty()) == a by { assert(a + Seq::<char>::empty() =~= a); }
    assert forall|a: Str| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); }
    reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
}
/// what the ways to take a reference apart rest on
pub proof fn lemma_reading(s: Str)
    ensures forall|t: Str, c: char| #[trigger] first_of(t, c) >= 0 ==> first_of(t, c) < t.len() && t[first_of(t, c)] == c,
        forall|t: Str| #[trigger] first_of(t, '@') >= 0 ==> is_bo(t, bo(t, first_of(t, '@'))) && ci(t, bo(t, first_of(t, '@'))) == first_of(t, '@') && is_bo(t.skip(first_of(t, '@')), 1),
        forall|k: int| 0 <= k < s.len() ==> #[trigger] s.skip(k).skip(1) == s.skip(k + 1),
        forall|k: int, j: int| 0 <= k <= s.len() && 0 <= j <= s.len() - k ==> #[trigger] s.skip(k).skip(j) == s.skip(k + j),
{
    assert forall|t: Str, c: char| #[trigger] first_of(t, c) >= 0 implies first_of(t, c) < t.len() && t[first_of(t, c)] == c by { lemma_first_of(t, c); }
    assert forall|t: Str| #[trigger] first_of(t, '@') >= 0 implies is_bo(t, bo(t, first_of(t, '@'))) && ci(t, bo(t, first_of(t, '@'))) == first_of(t, '@')
        && is_bo(t.skip(first_of(t, '@')), 1) by { lemma_at_boundary(t, '@'); }
    assert forall|k: int, j: int| 0 <= k <= s.len() && 0 <= j <= s.len() - k implies #[trigger] s.skip(k).skip(j) == s.skip(k + j) by { assert(s.skip(k).skip(j) =~= s.skip(k + j)); }
}
pub proof fn lemma_at_boundary(s: Str, c: char)
    requires first_of(s, c) >= 0, c == '@'
    ensures is_bo(s, bo(s, first_of(s, c))), ci(s, bo(s, first_of(s, c))) == first_of(s, c),
        is_bo(s.skip(first_of(s, c)), 1), s.skip(first_of(s, c)).skip(ci(s.skip(first_of(s, c)), 1)) == s.skip(first_of(s, c) + 1),
{
    lemma_first_of(s, c);
    let k = first_of(s, c);
    lemma_ci(s, k);
    let t = s.skip(k);
    let one = t.take(1);
    assert(one =~= seq!['@']);
    assert(is_ascii_chars(one)) by { assert(one.len() == 1); assert(one[0] == '@'); }
    lemma_blen_ascii(one);
    assert(bo(t, 1) == 1);
    lemma_ci(t, 1);
    assert(t.skip(1) =~= s.skip(k + 1));
}
