/// the elements' texts, in order
pub open spec fn texts_of(r: Seq<&str>, v: Seq<SpannedString>) -> bool { forall|i: int| 0 <= i < r.len() && i < v.len() ==> (#[trigger] r[i])@ == v[i].content@ }
