#fn SpannedString::as_ref@AsRef<str>
#spec
    ensures r@ == self.content@
#fn ImageRef::resolve_vars_with_context
#spec
    ensures match r {
        Some((img, used)) => resolved(print_spec(img_view(*self)), gvars(dockerfile.global_args@)) == Some(img_view(img))
            && used.sv() == used_by(print_spec(img_view(*self)), gvars(dockerfile.global_args@)),
        None => resolved(print_spec(img_view(*self)), gvars(dockerfile.global_args@)) is None }
#mark loop0_before
    assert(dockerfile.global_args@.take(0) =~= Seq::empty());
#loop 0
    invariant $s0.len() == dockerfile.global_args@.len(),
        sp_map(__out0@) == gvars(dockerfile.global_args@.take($i0))
#mark loop0_start
//raw
    let ghost out_before = __out0@;
    proof {
        assert(*$s0[$i0 - 1] == dockerfile.global_args@[$i0 - 1]);
        assert(dockerfile.global_args@.take($i0).drop_last() =~= dockerfile.global_args@.take($i0 - 1));
    }
#mark loop0_end
    assert(__out0@ == out_before || __out0@.drop_last() =~= out_before);
    reveal_with_fuel(map_of, 2);
#mark loop0_after
    assert(dockerfile.global_args@.take($i0) =~= dockerfile.global_args@);
#mark let_vars
    assert(vars.mv() == gvars(dockerfile.global_args@));
#mark let_used_vars
    let doc = print_spec(img_view(*self));
    assert(used_vars.sv() + used(doc, vars.mv(), 16, refs(doc, 0).len() as int) =~= used(doc, vars.mv(), 16, refs(doc, 0).len() as int));
#fn ImageRef::resolve_vars
#spec
    ensures match r {
        Some(img) => resolved(print_spec(img_view(*self)), gvars(dockerfile.global_args@)) == Some(img_view(img)),
        None => resolved(print_spec(img_view(*self)), gvars(dockerfile.global_args@)) is None }
