/// C10: printing a parsed reference gives the text back
pub proof fn c10_lossless(s: Str)
    ensures print_spec(parse_spec(s)) == s
{
    reveal_strlit(""); reveal_strlit("/"); reveal_strlit(":"); reveal_strlit("@");
    lemma_first_of(s, '/');
    let r = rest_of(s);
    lemma_first_of(r, '@');
    lemma_first_of(r, ':');
    assert(print_spec(parse_spec(s)) =~= s);
}
/// the same for the code: whatever `parse` returns prints as its input
pub fn c10_parse_print(s: &str) -> (out: String)
    ensures out@ == s@
{
    let i = ImageRef::parse(s);
    proof { c10_lossless(s@); }
    i.v_to_string()
}
