#fn StringArray::as_str_vec
#spec
    ensures r@.len() == self.elements@.len(), texts_of(r@, self.elements@)
#loop 0
    invariant __out0@.len() == $i0, $s0.len() == self.elements@.len(), forall|i: int| 0 <= i < $s0.len() ==> *(#[trigger] $s0[i]) == self.elements@[i],
        texts_of(__out0@, self.elements@),
#fn SpannedString::fmt@Display
#item
    open spec fn disp(&self) -> Str { self.content@ }
