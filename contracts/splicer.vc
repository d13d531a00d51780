#fn Span::new
#spec
    ensures r.start == start, r.end == end
#fn Span::adjust_offsets
#spec
    requires exists|doc: Str, ed: Seq<Edit>, s: int, e: int| adj_pre(doc, ed, offsets@, *self, s, e),
    ensures forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] adj_pre(doc, ed, offsets@, *self, s, e)
        ==> r.start == newpos(doc, ed.take(ed.len() as int), s) && r.end == newpos(doc, ed.take(ed.len() as int), e),
#mark entry
    assert forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] adj_pre(doc, ed, offsets@, *self, s, e)
        implies newpos(doc, ed.take(0), s) == self.start && newpos(doc, ed.take(0), e) == self.end && self.start <= isize::MAX && self.end <= isize::MAX
        by { lemma_adj_init(doc, ed, offsets@, *self, s, e); }
#loop 0
    invariant
        forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] adj_pre(doc, ed, offsets@, *self, s, e)
            ==> start == newpos(doc, ed.take($i0), s) && end == newpos(doc, ed.take($i0), e),
#mark loop0_start
    let i = $i0 - 1;
    assert(*$s0[i] == offsets@[i]);
    assert forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] adj_pre(doc, ed, offsets@, *self, s, e)
        implies ({ let a = newpos(doc, ed.take(i), s); let b = newpos(doc, ed.take(i), e);
        let a2 = newpos(doc, ed.take(i + 1), s); let b2 = newpos(doc, ed.take(i + 1), e);
        &&& 0 <= a <= b <= isize::MAX && 0 <= a2 <= b2 <= isize::MAX
        &&& (offsets@[i].position < self.start ==> a2 == a + offsets@[i].offset && b2 == b + offsets@[i].offset)
        &&& (self.start <= offsets@[i].position < self.end ==> a2 == a && b2 == b + offsets@[i].offset)
        &&& (offsets@[i].position >= self.end ==> a2 == a && b2 == b) })
        by { lemma_adj_step(doc, ed, offsets@, *self, s, e, i); }
#mark loop0_after
    assert forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] adj_pre(doc, ed, offsets@, *self, s, e)
        implies $i0 == ed.len() && start >= 0 && end >= 0 by {}
#fn Splicer::from
#spec
    requires blen(dockerfile.content@) <= isize::MAX
    ensures r.content@ == dockerfile.content@, r.splice_offsets@.len() == 0, spl_ok(dockerfile.content@, Seq::empty(), r)
#mark entry
    lemma_edited_empty(dockerfile.content@);
    assert forall|k: int| 0 <= k <= 0 implies blen(edited(dockerfile.content@, #[trigger] Seq::<Edit>::empty().take(k))) <= isize::MAX by { assert(Seq::<Edit>::empty().take(k) =~= Seq::empty()); }
#fn Splicer::from_str
#spec
    ensures r.content@ == s@, r.splice_offsets@.len() == 0, spl_ok(s@, Seq::empty(), r)
#mark entry
    lemma_edited_empty(s@);
    axiom_str_len(s);
    assert forall|k: int| 0 <= k <= 0 implies blen(edited(s@, #[trigger] Seq::<Edit>::empty().take(k))) <= isize::MAX by { assert(Seq::<Edit>::empty().take(k) =~= Seq::empty()); }
#fn Splicer::splice
#spec
    requires exists|doc: Str, ed: Seq<Edit>, s: int, e: int| spl_pre(doc, ed, *old(self), *span, s, e),
    ensures forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] spl_pre(doc, ed, *old(self), *span, s, e)
        ==> spl_ok(doc, ed.push(Edit { s, e, rep: replacement@ }), *final(self)),
#mark entry
//raw
    let ghost self0 = *old(self);
    let ghost span0 = *span;
    proof {
    assert forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] spl_pre(doc, ed, self0, span0, s, e)
        implies adj_pre(doc, ed, self0.splice_offsets@, span0, s, e)
        && ed.take(ed.len() as int) == ed
        && ({ let a = now(doc, ed, 0, s); let m = now(doc, ed, s, e); let c = now(doc, ed, e, doc.len() as int);
           let b = newpos(doc, ed, s); let b2 = newpos(doc, ed, e);
           &&& self0.content@ == a + m + c
           &&& is_bo(self0.content@, b) && self0.content@.take(ci(self0.content@, b)) == a && self0.content@.skip(ci(self0.content@, b)) == m + c
           &&& is_bo(self0.content@, b2) && self0.content@.take(ci(self0.content@, b2)) == a + m && self0.content@.skip(ci(self0.content@, b2)) == c
           &&& b2 >= b && b2 <= isize::MAX
           &&& is_bo(m + c, b2 - b) && (m + c).take(ci(m + c, b2 - b)) == m && (m + c).skip(ci(m + c, b2 - b)) == c })
        by { lemma_splice_here(doc, ed, self0, span0, s, e); }
    axiom_string_len(&self.content);
    }
#mark tail
    axiom_string_len(&self.content);
    assert forall|doc: Str, ed: Seq<Edit>, s: int, e: int| #[trigger] spl_pre(doc, ed, self0, span0, s, e)
        implies spl_ok(doc, ed.push(Edit { s, e, rep: replacement@ }), *self) by {
        let a = now(doc, ed, 0, s); let c = now(doc, ed, e, doc.len() as int);
        assert(self.content@ =~= a + replacement@ + c);
        lemma_splice_done(doc, ed, self0, span0, s, e, replacement@, *self);
    }
#fn Dockerfile::splicer
#spec
    requires blen(self.content@) <= isize::MAX
    ensures r.content@ == self.content@, r.splice_offsets@.len() == 0, spl_ok(self.content@, Seq::empty(), r)
#fn Span::from@From<tuple>
#item
    open spec fn v_into_ok(self, r: Span) -> bool { r.start == self.0 && r.end == self.1 }
