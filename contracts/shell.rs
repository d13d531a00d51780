/// the text pieces joined with nothing between them, comments left out
pub open spec fn texts(v: Seq<BreakableStringComponent>) -> Str
    decreases v.len()
{ if v.len() == 0 { seq![] } else { texts(v.drop_last()) + match v.last() { BreakableStringComponent::String(x) => x.content@, _ => seq![] } } }
