#fn SpannedString::as_ref@AsRef<str>
#spec
    ensures r@ == self.content@
#fn Stages::get_by_name
#spec
    ensures match r {
        Some(st) => ({ let k = find_name(svs(self.stages@), lower(name@)); 0 <= k < self.stages@.len() && *st == self.stages@[k] }),
        None => find_name(svs(self.stages@), lower(name@)) < 0 }
#mark entry
    lemma_find_name(svs(self.stages@), lower(name@));
#loop 0
    invariant_except_break
        __out0 is None, forall|i: int| 0 <= i < $i0 ==> (#[trigger] svs(self.stages@)[i]).name != Some(lower(name@))
    invariant
        $s0.len() == self.stages@.len(), forall|i: int| 0 <= i < $s0.len() ==> *(#[trigger] $s0[i]) == self.stages@[i]
    ensures stage_hit(__out0, self.stages@, lower(name@), $i0)
#mark loop0_start
    assert(*$s0[$i0 - 1] == self.stages@[$i0 - 1]);
    assert(svs(self.stages@)[$i0 - 1] == sv(self.stages@[$i0 - 1]));
#mark loop0_after
    if __out0 is Some { lemma_find_unique(svs(self.stages@), lower(name@), $i0 - 1); }
#fn Stages::get
#spec
    ensures match unsigned_of(s@) {
        Some(n) => (n < self.stages@.len() ==> r is Some && *r->Some_0 == self.stages@[n]) && (n >= self.stages@.len() ==> r is None),
        None => match r {
            Some(st) => ({ let k = find_name(svs(self.stages@), lower(s@)); 0 <= k < self.stages@.len() && *st == self.stages@[k] }),
            None => find_name(svs(self.stages@), lower(s@)) < 0 } }
#fn Stages::new
#spec
    ensures svs(r.stages@) == stages_of(dockerfile.instructions@)
#mark entry
//raw
    let ghost ins0 = dockerfile.instructions@;
    proof { assert(ins0.take(0) =~= Seq::empty()); assert(ins0.take(ins0.len() as int) =~= ins0); }
#mark loop0_before
    assert(svs(stages.stages@) =~= stages_of(ins0.take(0)));
#loop 0
    invariant
        ins0 == dockerfile.instructions@,
        $s0.len() == ins0.len(), forall|i: int| 0 <= i < $s0.len() ==> *(#[trigger] $s0[i]) == ins0[i],
        svs(stages.stages@) == stages_of(ins0.take($i0)),
        next_stage_index == stages.stages@.len(), stages.stages@.len() <= $i0,
#mark loop0_start
//raw
    let ghost st0 = stages;
    proof {
        assert(*$s0[$i0 - 1] == ins0[$i0 - 1]);
        lemma_stages_prefix(ins0, $i0 - 1);
        lemma_stages_idx(ins0.take($i0 - 1));
        assert forall|i: int| 0 <= i < st0.stages@.len() implies (#[trigger] st0.stages@[i]).index == i && svs(st0.stages@)[i] == sv(st0.stages@[i]) by { assert(svs(st0.stages@)[i].index == i); }
        assert forall|n: Str| find_name(svs(st0.stages@), n) < st0.stages@.len() by { lemma_find_name(svs(st0.stages@), n); }
    }
#mark loop0_end
    assert(svs(stages.stages@) =~= stage_step(svs(st0.stages@), ins0[$i0 - 1])) by {
        let a = svs(stages.stages@);
        let b = stage_step(svs(st0.stages@), ins0[$i0 - 1]);
        assert(a.len() == b.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(a[i] == sv(stages.stages@[i]));
            if i < st0.stages@.len() { assert(svs(st0.stages@)[i] == sv(st0.stages@[i])); }
            assert(a[i].index == b[i].index);
            assert(a[i].parent == b[i].parent);
            assert(a[i].root == b[i].root);
            assert(a[i].name == b[i].name);
            assert(a[i].ins =~= b[i].ins);
        }
    }
#fn Stage::arg_index
#spec
    ensures match r {
        Some(i) => i < self.instructions@.len() && is_arg_named(*self.instructions@[i as int], name@)
            && forall|j: int| 0 <= j < i ==> !is_arg_named(*#[trigger] self.instructions@[j], name@),
        None => forall|j: int| 0 <= j < self.instructions@.len() ==> !is_arg_named(*#[trigger] self.instructions@[j], name@) }
#loop 0
    invariant_except_break
        __out0 is None, forall|j: int| 0 <= j < $i0 ==> !is_arg_named(*#[trigger] self.instructions@[j], name@)
    invariant
        $s0.len() == self.instructions@.len(), forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).0 == i && *$s0[i].1 == self.instructions@[i]
    ensures arg_hit(__out0, self.instructions@, name@)
#mark loop0_start
    assert($s0[$i0 - 1].0 == $i0 - 1);
#fn Dockerfile::stages
#spec
    ensures svs(r.stages@) == stages_of(self.instructions@)
#fn Dockerfile::iter_stages
#spec
    ensures r.pos() == 0, svs(r.seq()) == stages_of(self.instructions@)
#fn Stages::iter
#spec
    ensures r.pos() == 0, r.seq().len() == self.stages@.len(), forall|i: int| 0 <= i < r.seq().len() ==> *(#[trigger] r.seq()[i]) == self.stages@[i]
#fn Stages::index@Index<usize>
#spec
    requires index < self.stages@.len()
    ensures *r == self.stages@[index as int]
#fn Stages::into_iter@IntoIterator
#spec
    ensures r.pos() == 0, r.seq() == self.stages@
