#fn is_registry
#spec
    ensures r == is_reg(token@)
#fn ImageRef::parse
#spec
    ensures img_view(r) == parse_spec(s@)
#mark entry
    lemma_first_of(s@, '/');
    lemma_reading(s@);
    if first_of(rest_of(s@), '@') >= 0 { lemma_at_boundary(rest_of(s@), '@'); }
#fn ImageRef::fmt@Display
#item
    open spec fn disp(&self) -> Str { print_spec(img_view(*self)) }
#mark entry
    lemma_printing();
