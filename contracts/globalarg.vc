#fn Dockerfile::get_global_arg
#spec
    ensures match r {
        Some(a) => first_named(global_args_of(self.instructions@), name@) == Some(*a),
        None => first_named(global_args_of(self.instructions@), name@) is None }
#mark entry
    assert(self.instructions@.skip(0) =~= self.instructions@);
    assert(self.instructions@.skip(self.instructions@.len() as int) =~= Seq::empty());
#loop 0
    invariant_except_break
        first_named(global_args_of(self.instructions@.skip($i0)), name@) == first_named(global_args_of(self.instructions@), name@)
    invariant
        $s0.len() == self.instructions@.len(),
        first_named(global_args_of(self.instructions@.skip(self.instructions@.len() as int)), name@) is None
    ensures
        first_named(global_args_of(self.instructions@), name@) is None
#mark loop0_start
    assert(*$s0[$i0 - 1] == self.instructions@[$i0 - 1]);
    lemma_ga_step(self.instructions@, $i0 - 1, name@);
