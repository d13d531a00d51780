#fn Span::relative_span
#spec
    requires self.start <= self.end <= blen(dockerfile.content@)
    ensures ({ let b = encode_utf8(dockerfile.content@);
        &&& r.0 == lfs(b, self.start as int)
        &&& r.1.start == self.start - line_start(b, self.start as int)
        &&& r.1.end - r.1.start == self.end - self.start })
#mark entry
//raw
    let ghost b = encode_utf8(dockerfile.content@);
    proof { axiom_string_len(&dockerfile.content); }
#loop 0
    invariant_except_break
        $i0 <= self.start, lines == lfs(b, $i0), line_start_offset == line_start(b, $i0),
        line_start_offset <= $i0, lines <= $i0,
    invariant $s0.len() == b.len(),
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).0 == i && *$s0[i].1 == b[i],
    ensures lines == lfs(b, self.start as int), line_start_offset == line_start(b, self.start as int), line_start_offset <= self.start
#mark loop0_start
    assert($s0[$i0 - 1].0 == $i0 - 1);
