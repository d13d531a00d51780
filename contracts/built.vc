#fn Span::new
#spec
    ensures r.start == start, r.end == end
#fn Span::from@From<tuple>
#item
    open spec fn v_into_ok(self, r: Span) -> bool { r.start == self.0 && r.end == self.1 }
#fn BreakableStringComponent::from@From<SpannedString>
#item
    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { r == BreakableStringComponent::String(self) }
#fn BreakableStringComponent::from@From<SpannedComment>
#item
    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { r == BreakableStringComponent::Comment(self) }
#fn BreakableStringComponent::from@From<tuple>
#item
    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { is_text(r, self) }
#fn BreakableString::new
#spec
    ensures span.v_into_ok(r.span), r.components@.len() == 0
#fn BreakableString::add
#spec
    ensures r.span == self.span, grown(self, r), c.v_into_ok(r.components@.last())
#fn BreakableString::add_string
#spec
    ensures r.span == self.span, grown(self, r),
        match r.components@.last() { BreakableStringComponent::String(x) => s.v_into_ok(x.span) && c.v_into_ok(x.content), _ => false }
#fn BreakableString::add_comment
#spec
    ensures r.span == self.span, grown(self, r),
        match r.components@.last() { BreakableStringComponent::Comment(x) => s.v_into_ok(x.span) && c.v_into_ok(x.content), _ => false }
#fn BreakableString::iter_components
#spec
    ensures r.seq().map_values(|x: &BreakableStringComponent| *x) == self.components@
#mark tail
    assert(self.components@.map_values(|x: BreakableStringComponent| &x).map_values(|x: &BreakableStringComponent| *x) =~= self.components@);
#fn BreakableString::from@From<tuple>
#item
    open spec fn v_into_ok(self, r: BreakableString) -> bool { r.span.start == self.0.0 && r.span.end == self.0.1 && r.components@.len() == 1 && is_text(r.components@[0], self) }
#fn EnvVar::new
#spec
    ensures r.span == span, r.key == key, value.v_into_ok(r.value)
