/// a text piece with the given span and text
pub open spec fn is_text(c: BreakableStringComponent, s: ((usize, usize), &str)) -> bool {
    match c { BreakableStringComponent::String(x) => x.span.start == s.0.0 && x.span.end == s.0.1 && x.content@ == s.1@, _ => false }
}
/// one piece more, the earlier ones unchanged
pub open spec fn grown(a: BreakableString, b: BreakableString) -> bool {
    b.components@.len() == a.components@.len() + 1 && b.components@.drop_last() =~= a.components@
}
