// C03: every parse that succeeds
pub proof fn c03_texts(d: Dockerfile, s: Str)
    requires doc_ok(Ok(d), s)
    ensures c3_all(d.instructions@, s)
{
    let n = choose|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s);
    lemma_list_at(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s, 0, 0);
}
proof fn lemma_plain_text(x: Str, q: char)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != q && x[i] != '\\'
    ensures unesc(x, Some(q)) == Some(x)
    decreases x.len()
{
    if x.len() > 0 {
        assert forall|i: int| 0 <= i < x.skip(1).len() implies #[trigger] x.skip(1)[i] != q && x.skip(1)[i] != '\\' by { assert(x.skip(1)[i] == x[i + 1]); }
        lemma_plain_text(x.skip(1), q);
        assert(seq![x[0]] + x.skip(1) =~= x);
    }
}
/// C03: a quoted text with no backslash and no quote of its kind inside says what stands between the quotes
pub proof fn c03_plain_quotes(x: Str, q: char)
    requires q == '"' || q == '\'' || q == '`', forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != q && x[i] != '\\'
    ensures unq(seq![q] + x + seq![q]) == Some(x)
{
    reveal(unq);
    let s = seq![q] + x + seq![q];
    assert(s.subrange(1, s.len() - 1) =~= x);
    lemma_plain_text(x, q);
}
/// C03: a backslash before a letter of the table stands for the table's character, the rest is read on its own
pub proof fn c03_escape(e: char, rest: Str, q: char)
    requires letter_of(e) is Some, q != '\\'
    ensures unesc(seq!['\\', e] + rest, Some(q)) == before_all(letter_of(e)->Some_0, unesc(rest, Some(q)))
{
    let s = seq!['\\', e] + rest;
    assert(s.skip(2) =~= rest);
    assert(esc_of(s) == Some((letter_of(e)->Some_0, 2int)));
}
