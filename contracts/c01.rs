// C01: a text that follows the reference syntax is never refused as a syntax error
pub open spec fn well_formed(s: Str) -> bool { follows(Rule::dockerfile, s, 0) }
proof fn lemma_refused(s: Str)
    requires peg_fail(Rule::dockerfile, s)
    ensures !well_formed(s)
{
    let f = choose|f: nat| #[trigger] peg(E::Ref(Rule::dockerfile), false, s, 0, f) is Fail;
    lemma_miss(Rule::dockerfile, false, s, 0, f);
}
pub proof fn c01_accepts(r: core::result::Result<Dockerfile, Error>, s: Str)
    requires doc_ok(r, s), well_formed(s)
    ensures match r { Ok(_) => true, Err(e) => match e {
        Error::UnescapeError { source: _ } => has_bad_str(s),
        Error::GenericParseError { message } => message@ == "image reference digest is invalid"@,
        _ => false } }
{ if peg_fail(Rule::dockerfile, s) { lemma_refused(s); } }
