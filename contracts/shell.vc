#fn BreakableString::fmt@Display
#item
    open spec fn disp(&self) -> Str { texts(self.components@) }
#loop 0
    invariant f.s@ == old(f).s@ + texts($s0.take($i0).map_values(|x: &BreakableStringComponent| *x)),
        $s0.map_values(|x: &BreakableStringComponent| *x) =~= self.components@,
#mark loop0_before
    assert($s0.take(0).map_values(|x: &BreakableStringComponent| *x) =~= seq![]);
    assert($s0.map_values(|x: &BreakableStringComponent| *x) =~= self.components@);
    assert(f.s@ + seq![] =~= f.s@);
#mark loop0_end
    let a = $s0.take($i0).map_values(|x: &BreakableStringComponent| *x);
    assert(a.drop_last() =~= $s0.take($i0 - 1).map_values(|x: &BreakableStringComponent| *x));
    assert(a.last() == *component);
#mark loop0_after
    assert($s0.take($i0) =~= $s0);
