// pest's Position (unit POS): a place between two characters of the input.
pub use std::ops::Range;
pub open spec fn at_char(p: Position, i: int) -> bool { 0 <= i <= p.input@.len() && p.pos == bo(p.input@, i) }
pub open spec fn well_placed(p: Position) -> bool { is_bo(p.input@, p.pos as int) }
pub open spec fn char_no(p: Position) -> int { ci(p.input@, p.pos as int) }
/// p moved over k characters to q
pub open spec fn moved(p: Position, q: Position, k: int) -> bool { q.input == p.input && at_char(q, char_no(p) + k) }
pub open spec fn ahead(p: Position, t: Str) -> bool { char_no(p) + t.len() <= p.input@.len() && p.input@.subrange(char_no(p), char_no(p) + t.len()) == t }
pub open spec fn ahead_any_case(p: Position, t: Str) -> bool { char_no(p) + t.len() <= p.input@.len() && lower(p.input@.subrange(char_no(p), char_no(p) + t.len())) == lower(t) }

impl VEq<[u8]> for [u8] {
    open spec fn v_eq_spec(&self, o: &[u8]) -> bool { self@ == o@ }
    #[verifier::external_body] fn v_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() }
}

/// UTF-8 texts of which one begins with the other as bytes do so as characters
pub proof fn lemma_bytes_prefix(a: Str, t: Str, rest: Seq<u8>)
    requires encode_utf8(a) == encode_utf8(t) + rest
    ensures t.len() <= a.len(), a.take(t.len() as int) == t
    decreases t.len()
{
    broadcast use group_utf8_lib;
    reveal_with_fuel(encode_utf8, 2);
    if t.len() > 0 {
        let x = encode_utf8(t); let y = encode_utf8(a);
        encode_utf8_first_scalar(t);
        assert(a.len() > 0) by { if a.len() == 0 { assert(encode_utf8(a).len() == 0); } }
        encode_utf8_first_scalar(a);
        assert(x[0] == y[0]);
        assert(length_of_first_scalar(x) == length_of_first_scalar(y));
        assert(decode_first_scalar(x) == decode_first_scalar(y));
        assert(decode_first_scalar(x) == t[0] as u32);
        assert(t[0] == a[0]);
        assert(encode_utf8(a.drop_first()) == pop_first_scalar(y));
        assert(encode_utf8(t.drop_first()) == pop_first_scalar(x));
        assert(pop_first_scalar(y) =~= pop_first_scalar(x) + rest);
        lemma_bytes_prefix(a.drop_first(), t.drop_first(), rest);
        assert(a.take(t.len() as int) =~= seq![a[0]] + a.drop_first().take(t.len() - 1));
        assert(t =~= seq![t[0]] + t.drop_first());
    } else { assert(a.take(0) =~= t); }
}
/// what the bytes from p on say about the characters
pub proof fn lemma_bytes_ahead(p: Position, t: Str)
    requires well_placed(p)
    ensures ({ let b = encode_utf8(p.input@); let to = p.pos + blen(t);
        ahead(p, t) == (to <= b.len() && b.subrange(p.pos as int, to) == encode_utf8(t)) }),
        ahead(p, t) ==> bo(p.input@, char_no(p) + t.len()) == p.pos + blen(t)
{
    let s = p.input@; let i = char_no(p); let b = encode_utf8(s); let to = p.pos + blen(t);
    lemma_bo_mono(s, i, i);
    encode_utf8_concat(s.take(i), s.skip(i));
    assert(s =~= s.take(i) + s.skip(i));
    assert(b.skip(p.pos as int) =~= encode_utf8(s.skip(i)));
    if ahead(p, t) {
        lemma_bo_add(s, i, i + t.len());
        lemma_bo_mono(s, i + t.len(), i);
        assert(s.skip(i) =~= t + s.skip(i + t.len()));
        encode_utf8_concat(t, s.skip(i + t.len()));
        assert(b.subrange(p.pos as int, to) =~= b.skip(p.pos as int).take(blen(t) as int));
        assert((encode_utf8(t) + encode_utf8(s.skip(i + t.len()))).take(blen(t) as int) =~= encode_utf8(t));
    }
    if to <= b.len() && b.subrange(p.pos as int, to) == encode_utf8(t) {
        assert(encode_utf8(s.skip(i)) =~= encode_utf8(t) + b.skip(to)) by {
            assert(b.skip(p.pos as int) =~= b.subrange(p.pos as int, to) + b.skip(to));
        }
        lemma_bytes_prefix(s.skip(i), t, b.skip(to));
        assert(s.subrange(i, i + t.len()) =~= s.skip(i).take(t.len() as int));
    }
}
pub proof fn lemma_lower_blen(t: Str)
    ensures blen(lower(t)) == blen(t)
    decreases t.len()
{
    if t.len() == 0 { assert(lower(t) =~= t); } else {
        let (h, c) = (t.drop_last(), t.last());
        lemma_lower_blen(h);
        assert(t =~= h + seq![c]);
        assert(lower(t) =~= lower(h) + seq![lower_char(c)]);
        lemma_blen_concat(h, seq![c]); lemma_blen_concat(lower(h), seq![lower_char(c)]);
        if 'A' <= c && c <= 'Z' {
            assert(((c as u32 + 32) as u8) as char as u32 == c as u32 + 32);
            assert(is_ascii_chars(seq![c])); assert(is_ascii_chars(seq![lower_char(c)]));
            lemma_blen_ascii(seq![c]); lemma_blen_ascii(seq![lower_char(c)]);
        }
    }
}
/// texts that differ in case only are as long, in characters and in bytes
pub proof fn lemma_case_len(a: Str, b: Str)
    requires lower(a) == lower(b)
    ensures a.len() == b.len(), blen(a) == blen(b)
{ lemma_lower_blen(a); lemma_lower_blen(b); assert(a.len() == lower(a).len()); assert(b.len() == lower(b).len()); }
pub proof fn lemma_case_ahead(p: Position, t: Str)
    requires well_placed(p)
    ensures ({ let r = p.input@.skip(char_no(p)); let n = blen(t) as int;
        ahead_any_case(p, t) == (is_bo(r, 0) && is_bo(r, n) && 0 <= n && lower(r.subrange(ci(r, 0), ci(r, n))) == lower(t)) }),
        ahead_any_case(p, t) ==> bo(p.input@, char_no(p) + t.len()) == p.pos + blen(t) && p.pos + blen(t) <= blen(p.input@)
{
    let s = p.input@; let i = char_no(p); let r = s.skip(i); let n = blen(t) as int; let k = t.len() as int;
    lemma_bo_mono(s, i, i); lemma_bo_mono(r, 0, 0); lemma_ci(r, 0);
    if ahead_any_case(p, t) {
        let x = s.subrange(i, i + k);
        lemma_case_len(x, t);
        assert(r.take(k) =~= x);
        lemma_ci(r, k);
        assert(r.subrange(0, k) =~= x);
        lemma_bo_add(s, i, i + k); lemma_bo_mono(s, i, i + k); lemma_bo_mono(s, i + k, i);
    }
    if is_bo(r, 0) && is_bo(r, n) && lower(r.subrange(ci(r, 0), ci(r, n))) == lower(t) {
        let j = ci(r, n);
        assert(0 <= j <= r.len() && bo(r, j) == n);
        lemma_case_len(r.subrange(0, j), t);
        assert(s.subrange(i, i + k) =~= r.subrange(0, j));
    }
}
