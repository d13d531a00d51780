// C02: every parse that succeeds
pub proof fn c02_spans(d: Dockerfile, s: Str)
    requires doc_ok(Ok(d), s)
    ensures nest_all(d.instructions@, 0, bo(s, s.len() as int), s)
{
    let n = choose|n: PNode| #[trigger] root(n, s) && many(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s);
    lemma_valid(n, s);
    lemma_bo_mono(s, 0, n.lo);
    lemma_bo_mono(s, n.hi, s.len() as int);
    lemma_list_at(d.instructions@, sel(nkids(n), RS::Ins), n.lo, n.hi, s, 0, bo(s, s.len() as int));
}
