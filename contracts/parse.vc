#fn Span::new
#spec
    ensures r.start == start, r.end == end
#fn Span::from_pair
#spec
    ensures at_node(r, record.nd(), record.src())
#fn Span::from@From<Pair>
#item
    open spec fn v_into_ok(self, r: Span) -> bool { at_node(r, self.nd(), self.src()) }
#fn BreakableStringComponent::from@From<SpannedString>
#item
    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { r == BreakableStringComponent::String(self) }
#fn BreakableStringComponent::from@From<SpannedComment>
#item
    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { r == BreakableStringComponent::Comment(self) }
#fn BreakableString::new
#spec
    ensures span.v_into_ok(r.span), r.components@ == Seq::<BreakableStringComponent>::empty()
#fn BreakableString::add_string
#spec
    ensures r.span == self.span, r.components@.len() == self.components@.len() + 1, r.components@.drop_last() == self.components@,
        match r.components@.last() { BreakableStringComponent::String(x) => s.v_into_ok(x.span) && c.v_into_ok(x.content), _ => false }
#mark tail
    
#fn Span::from@From<tuple>
#item
    open spec fn v_into_ok(self, r: Span) -> bool { r.start == self.0 && r.end == self.1 }
#fn BreakableString::add
#spec
    ensures r.span == self.span, r.components@.len() == self.components@.len() + 1, r.components@.drop_last() == self.components@, c.v_into_ok(r.components@.last())
#fn BreakableString::add_comment
#spec
    ensures r.span == self.span, r.components@.len() == self.components@.len() + 1, r.components@.drop_last() == self.components@,
        match r.components@.last() { BreakableStringComponent::Comment(x) => s.v_into_ok(x.span) && c.v_into_ok(x.content), _ => false }
#fn EnvVar::new
#spec
    ensures r.span == span, r.key == key, value.v_into_ok(r.value)
#fn clean_escaped_breaks
#spec
    ensures r@ == clean(s@)
#mark entry
    reveal_strlit("\\\n"); reveal_strlit(""); assert("\\\n"@ =~= seq!['\\', '\n']); assert(""@ =~= seq![]);
#fn parse_string
#spec
    requires valid(field.nd(), field.src()), !is_label_q(field.nd().rule), M_ERR() ==> str_rule(field.nd().rule) && !env_quoted(field.nd().rule)
    ensures match r { Ok(x) => one(x, field.nd(), field.src()) && at_node(x.span, field.nd(), field.src()) && Some(x.content@) == plain(text(field.nd(), field.src())), Err(e) => M_ERR() ==> e is UnescapeError && bad_str(field.nd(), field.src()) }
#mark entry
    lemma_valid(field.nd(), field.src());
    lemma_ci(field.src(), field.nd().lo);
    lemma_ci(field.src(), field.nd().hi);
    lemma_bo_mono(field.src(), field.nd().lo, field.nd().hi); reveal(one);
#mark let_content
    let t = text(field.nd(), field.src());
    if t.len() > 0 { let c = t[0]; }
    assert(Some(content@) == plain(t));
#fn parse_string_array
#spec
    requires valid(array.nd(), array.src()), (array.nd().rule == Rule::run_exec || array.nd().rule == Rule::cmd_exec || array.nd().rule == Rule::entrypoint_exec)
    ensures match r { Ok(x) => one(x, array.nd(), array.src()), Err(e) => err_un(e, array.src()) }
#mark entry
//raw
    let ghost n = array.nd(); let ghost s = array.src(); let ghost k = nkids(n); let ghost d = D_array();
    let ghost a = RS::A(Rule::string);
    proof { lemma_done(d, n, s); fact_array(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(elements@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_elements = elements@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); }
#mark loop0_end
    if elements@.len() > g_elements.len() { assert(elements@.drop_last() =~= g_elements); }
    lemma_many_step(g_elements, elements@, n, p, a, s);
#mark tail
    reveal(one); reveal(maybe); lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_bo_mono(s, n.lo, end_of(k, k.len() as int, n.lo)); lemma_list(elements@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span);
#fn parse_any_breakable_inner
#spec
    requires valid(pair.nd(), pair.src()), (pair.nd().rule == Rule::any_breakable || brk_outer(pair.nd().rule))
    ensures match r { Ok(v) => many(v@, pieces(pair.nd()), pair.nd().lo, pair.nd().hi, pair.src())
        && (M_EX() ==> w_all(v@, pieces(pair.nd()), pair.src())) && (M_C3() ==> c3_all(v@, pair.src()))
        && (M_IN() ==> nest_all(v@, bo(pair.src(), pair.nd().lo), bo(pair.src(), pair.nd().hi), pair.src())), Err(e) => err_un(e, pair.src()) }
#mark entry
//raw
    let ghost n = pair.nd(); let ghost s = pair.src(); let ghost k = nkids(n); let ghost d = D_brk();
    proof { lemma_done(d, n, s); lemma_pieces(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_no_pieces(n, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(components@, pieces_upto(n, $i0), n.lo, end_of(k, $i0, n.lo), s),
        krun(d, 0, k.take($i0)) < 63 ==> (n.rule != Rule::any_breakable ==> $i0 <= 1),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g = components@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_valid(k[p], s); lemma_ci(s, k[p].lo); lemma_ci(s, k[p].hi); lemma_bo_mono(s, k[p].lo, k[p].hi); }
#mark loop0_end
    if components@.len() == g.len() + 1 { assert(components@.drop_last() =~= g); }
    if n.rule == Rule::any_breakable { lemma_piece(k[p], s, components@.last()); }
    lemma_pieces_step(n, p, g, components@, s);
#mark tail
    lemma_all_pieces(n, s, components@);
#fn parse_any_breakable
#spec
    requires valid(pair.nd(), pair.src()), brk_outer(pair.nd().rule)
    ensures match r { Ok(x) => one(x, pair.nd(), pair.src()), Err(e) => err_un(e, pair.src()) }
#mark entry
    lemma_valid(pair.nd(), pair.src()); lemma_ci(pair.src(), pair.nd().lo); lemma_ci(pair.src(), pair.nd().hi); lemma_bo_mono(pair.src(), pair.nd().lo, pair.nd().hi); reveal(one);
#fn FromFlag::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::from_flag
    ensures match r { Ok(x) => one(x, record.nd(), record.src()), Err(e) => err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_from_flag();
    let ghost a = RS::A(Rule::from_flag_name);
    let ghost b = RS::A(Rule::from_flag_value);
    proof { lemma_done(d, n, s); fact_from_flag(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); lemma_none::<SpannedString>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(name, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(value, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> name is None) && (q < 2 ==> value is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> name is Some) && (q >= 2 ==> value is Some)) && in_order(name, value)
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_name = name; let ghost g_value = value;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); }
#mark loop0_end
    lemma_maybe_step(g_name, name, n, p, a, s);
    lemma_maybe_step(g_value, value, n, p, b, s);
    if value is Some && inr(b, k[p].rule) { lemma_order_step(g_name, value, n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(name, n, a, s); lemma_maybe_done(value, n, b, s);
#mark tail
    reveal(one);
#fn CopyFlag::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::copy_flag
    ensures match r { Ok(x) => one(x, record.nd(), record.src()), Err(e) => err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_copy_flag();
    let ghost a = RS::A(Rule::copy_flag_name);
    let ghost b = RS::A(Rule::copy_flag_value);
    proof { lemma_done(d, n, s); fact_copy_flag(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); lemma_none::<SpannedString>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(name, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(value, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> name is None) && (q < 2 ==> value is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> name is Some) && (q >= 2 ==> value is Some)) && in_order(name, value)
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_name = name; let ghost g_value = value;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); }
#mark loop0_end
    lemma_maybe_step(g_name, name, n, p, a, s);
    lemma_maybe_step(g_value, value, n, p, b, s);
    if value is Some && inr(b, k[p].rule) { lemma_order_step(g_name, value, n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(name, n, a, s); lemma_maybe_done(value, n, b, s);
#mark tail
    reveal(one);
#fn ArgInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::arg) ==> record.nd().rule == Rule::arg
    ensures match r { Ok(x) => K(Rule::arg) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::arg) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_arg();
    let ghost a = RS::A(Rule::arg_name);
    let ghost b = RS::B(Rule::arg_value, Rule::arg_quoted_value);
    proof { lemma_done(d, n, s); fact_arg(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); lemma_none::<SpannedString>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(name, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(value, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> name is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> name is Some)) && (q < 2 ==> value is None) && in_order(name, value)
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_name = name; let ghost g_value = value;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); }
#mark loop0_end
    lemma_maybe_step(g_name, name, n, p, a, s);
    lemma_maybe_step(g_value, value, n, p, b, s);
    if value is Some && inr(b, k[p].rule) { lemma_order_step(g_name, value, n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(name, n, a, s); lemma_maybe_done(value, n, b, s);
#mark tail
    reveal(one);
#mark ret1
    assert(!M_ERR());
#fn CopyInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::copy) ==> record.nd().rule == Rule::copy
    ensures match r { Ok(x) => K(Rule::copy) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::copy) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_copy();
    let ghost a = RS::A(Rule::copy_flag);
    let ghost b = RS::A(Rule::copy_pathspec);
    proof { lemma_done(d, n, s); fact_copy(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<CopyFlag>(n, a, s); lemma_none::<SpannedString>(n, b, s); }
    let ghost mut all = Seq::<SpannedString>::empty();
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(flags@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        many(paths@, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 3 && (M_ERR() || M_EX() ==> paths@.len() >= (if q >= 3 { 2int } else if q >= 2 { 1 } else { 0 })) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_flags = flags@; let ghost g_paths = paths@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); }
#mark loop0_end
    if flags@.len() > g_flags.len() { assert(flags@.drop_last() =~= g_flags); }
    if paths@.len() > g_paths.len() { assert(paths@.drop_last() =~= g_paths); }
    lemma_many_step(g_flags, flags@, n, p, a, s);
    lemma_many_step(g_paths, paths@, n, p, b, s);
#mark loop0_after
    all = paths@;
#mark tail
    reveal(one); reveal(maybe); lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_bo_mono(s, n.lo, end_of(k, k.len() as int, n.lo)); assert(paths@.push(destination) =~= all);
    lemma_list(flags@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span); lemma_list(all, sel(k, b), n.lo, end_of(k, k.len() as int, n.lo), s, span);
#fn FromInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::from) ==> record.nd().rule == Rule::from
    ensures match r { Ok(x) => K(Rule::from) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::from) ==> err_ok(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_from();
    let ghost a = RS::A(Rule::from_flag);
    let ghost b = RS::A(Rule::from_image);
    let ghost c = RS::A(Rule::from_alias);
    proof { lemma_done(d, n, s); fact_from(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<FromFlag>(n, a, s); }
    let ghost mut gi = record.nd(); let ghost mut ga = record.nd();
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(flags@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        got(image_field, sel(k.take($i0), b), Rule::from_image, n.lo, end_of(k, $i0, n.lo), s),
        got(alias_field, sel(k.take($i0), c), Rule::from_alias, n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 3
            && (M_ERR() || M_EX() ==> (image_field is Some <==> q >= 2)) && (q < 2 ==> image_field is None) && (q < 3 ==> alias_field is None)
            && (M_EX() ==> (alias_field is Some <==> q >= 3)) && before(image_field, alias_field)
            && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) && sel(k.take($i0), c).len() == (if q >= 3 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_flags = flags@; let ghost g_image = image_field; let ghost g_alias = alias_field;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); lemma_sel(k, p, c); }
#mark loop0_end
    if flags@.len() > g_flags.len() { assert(flags@.drop_last() =~= g_flags); }
    lemma_many_step(g_flags, flags@, n, p, a, s);
    lemma_got_step(g_image, image_field, n, p, Rule::from_image, s);
    lemma_got_step(g_alias, alias_field, n, p, Rule::from_alias, s);
    if alias_field is Some && k[p].rule == Rule::from_alias { lemma_before(g_image, alias_field, n, p, Rule::from_image, s); }
#mark loop0_after
    if image_field is Some { gi = pnd(image_field); } if alias_field is Some { ga = pnd(alias_field); }
#mark let_image
    lemma_bo_mono(s, n.lo, gi.lo); lemma_bo_mono(s, gi.hi, n.hi); lemma_bo_mono(s, gi.lo, gi.hi);
#mark let_alias
    if alias is Some { lemma_bo_mono(s, n.lo, ga.lo); lemma_bo_mono(s, ga.lo, ga.hi); lemma_bo_mono(s, ga.hi, n.hi); lemma_bo_mono(s, gi.hi, ga.lo); }
#mark tail
    reveal(one); reveal(maybe); lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_bo_mono(s, n.lo, end_of(k, k.len() as int, n.lo)); lemma_list(flags@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span);
#fn Label::from_record
#spec
    requires valid(record.nd(), record.src()), (record.nd().rule == Rule::label_pair || record.nd().rule == Rule::label_single)
    ensures match r { Ok(x) => one(x, record.nd(), record.src()), Err(e) => err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_lpair();
    let ghost a = NAMES();
    let ghost b = RS::B(Rule::label_value, Rule::label_quoted_value);
    proof { lemma_done(d, n, s); fact_lpair(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<Lab>(n, a, s); lemma_none::<Lab>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(lab(name), sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(lab(value), sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> name is None) && (q < 2 ==> value is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> name is Some) && (q >= 2 ==> value is Some)) && in_order(lab(name), lab(value))
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_name = name; let ghost g_value = value;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); assert(M_ERR() && (is_label_q(k[p].rule) && unq(clean(text(k[p], s))) is None || env_quoted(k[p].rule) && unq(text(k[p], s)) is None) ==> bad_str(k[p], s)); }
#mark loop0_end
    if inr(a, k[p].rule) { lemma_label(k[p], s, name->Some_0); }
    if inr(b, k[p].rule) { lemma_label(k[p], s, value->Some_0); }
    lemma_maybe_step(lab(g_name), lab(name), n, p, a, s);
    lemma_maybe_step(lab(g_value), lab(value), n, p, b, s);
    if lab(value) is Some && inr(b, k[p].rule) { lemma_order_step(lab(g_name), lab(value), n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(lab(name), n, a, s); lemma_maybe_done(lab(value), n, b, s);
#mark tail
    reveal(one);
#fn Label::new
#spec
    ensures r == (Label { span, name, value })
#fn LabelInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::label) ==> record.nd().rule == Rule::label
    ensures match r { Ok(x) => K(Rule::label) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::label) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_label();
    let ghost a = RS::B(Rule::label_pair, Rule::label_single);
    proof { lemma_done(d, n, s); fact_label(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<Label>(n, a, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(labels@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_labels = labels@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); }
#mark loop0_end
    if labels@.len() > g_labels.len() { assert(labels@.drop_last() =~= g_labels); }
    lemma_many_step(g_labels, labels@, n, p, a, s);
#mark tail
    reveal(one); reveal(maybe); lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_bo_mono(s, n.lo, end_of(k, k.len() as int, n.lo)); lemma_list(labels@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span);
#fn parse_env_pair
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::env_pair
    ensures match r { Ok(x) => one(x, record.nd(), record.src()), Err(e) => err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_env_pair();
    let ghost a = RS::A(Rule::env_name);
    let ghost b = RS::B(Rule::env_pair_value, Rule::env_pair_quoted_value);
    proof { lemma_done(d, n, s); fact_env_pair(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); lemma_none::<Ev>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(key, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(ev(value), sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> key is None) && (q < 2 ==> value is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> key is Some) && (q >= 2 ==> value is Some)) && in_order(key, ev(value))
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_key = key; let ghost g_value = value;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); assert(M_ERR() && (is_label_q(k[p].rule) && unq(clean(text(k[p], s))) is None || env_quoted(k[p].rule) && unq(text(k[p], s)) is None) ==> bad_str(k[p], s)); }
#mark loop0_end
    if inr(b, k[p].rule) {
        let x = value->Some_0;
        if k[p].rule == Rule::env_single_value { lemma_ev(k[p], s, x); } else {
            assert(x.components@.drop_last() =~= Seq::empty()); assert(x.components@.last() == x.components@[0]);
            lemma_env(k[p], s, x);
        }
    }
    lemma_maybe_step(g_key, key, n, p, a, s);
    lemma_maybe_step(ev(g_value), ev(value), n, p, b, s);
    if ev(value) is Some && inr(b, k[p].rule) { lemma_order_step(g_key, ev(value), n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(key, n, a, s); lemma_maybe_done(ev(value), n, b, s);
#mark tail
    reveal(one);
#fn EnvInstruction::from_single_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::env_single, span.start <= bo(record.src(), record.nd().lo), bo(record.src(), record.nd().hi) <= span.end
    ensures match r { Ok(x) => x.span == span && (M_EX() ==> w_all(x.vars@, env_list(record.nd()), record.src())) && (M_C3() ==> c3_all(x.vars@, record.src()))
        && (M_IN() ==> nest_all(x.vars@, span.start as int, span.end as int, record.src())), Err(e) => err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_env_single();
    let ghost a = RS::A(Rule::env_name);
    let ghost b = RS::B(Rule::env_single_value, Rule::env_single_quoted_value);
    proof { lemma_done(d, n, s); fact_env_single(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); lemma_none::<Ev>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(key, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(ev(value), sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> key is None) && (q < 2 ==> value is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> key is Some) && (q >= 2 ==> value is Some)) && in_order(key, ev(value))
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_key = key; let ghost g_value = value;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); assert(M_ERR() && (is_label_q(k[p].rule) && unq(clean(text(k[p], s))) is None || env_quoted(k[p].rule) && unq(text(k[p], s)) is None) ==> bad_str(k[p], s)); }
#mark loop0_end
    if inr(b, k[p].rule) {
        let x = value->Some_0;
        if k[p].rule == Rule::env_single_value { lemma_ev(k[p], s, x); } else {
            assert(x.components@.drop_last() =~= Seq::empty()); assert(x.components@.last() == x.components@[0]);
            lemma_env(k[p], s, x);
        }
    }
    lemma_maybe_step(g_key, key, n, p, a, s);
    lemma_maybe_step(ev(g_value), ev(value), n, p, b, s);
    if ev(value) is Some && inr(b, k[p].rule) { lemma_order_step(g_key, ev(value), n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(key, n, a, s); lemma_maybe_done(ev(value), n, b, s);
#mark tail
    reveal(one);
    let x = EnvVar { span: Span { start: key.span.start, end: value.span.end }, key, value };
    assert(one(x, n, s));
    lemma_single(x, n, s);
    assert(env_list(n) == seq![n]);
    lemma_list(seq![x], seq![n], n.lo, n.hi, s, span);
#fn EnvInstruction::from_pairs_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::env_pairs, span.start <= bo(record.src(), record.nd().lo), bo(record.src(), record.nd().hi) <= span.end
    ensures match r { Ok(x) => x.span == span && (M_EX() ==> w_all(x.vars@, env_list(record.nd()), record.src())) && (M_C3() ==> c3_all(x.vars@, record.src()))
        && (M_IN() ==> nest_all(x.vars@, span.start as int, span.end as int, record.src())), Err(e) => err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_env_pairs();
    let ghost a = RS::A(Rule::env_pair);
    proof { lemma_done(d, n, s); fact_env_pairs(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<EnvVar>(n, a, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(vars@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_vars = vars@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); }
#mark loop0_end
    if vars@.len() > g_vars.len() { assert(vars@.drop_last() =~= g_vars); }
    lemma_many_step(g_vars, vars@, n, p, a, s);
#mark tail
    reveal(one); reveal(maybe); lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_bo_mono(s, n.lo, end_of(k, k.len() as int, n.lo)); lemma_list(vars@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span);
#fn EnvInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::env) ==> record.nd().rule == Rule::env
    ensures match r { Ok(x) => K(Rule::env) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::env) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_env();
    proof { lemma_done(d, n, s); fact_env(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_one_kid(n, s); lemma_at(d, n, s, 0); lemma_bo_mono(s, n.lo, k[0].lo); lemma_bo_mono(s, k[0].hi, n.hi); reveal(one); }
#fn RunInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::run) ==> record.nd().rule == Rule::run
    ensures match r { Ok(x) => K(Rule::run) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::run) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_run();
    let ghost a = RS::B(Rule::run_exec, Rule::run_shell);
    proof { lemma_done(d, n, s); fact_run(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        __out0 is None, krun(d, 0, k.take($i0)) == 0 && sel(k.take($i0), a).len() == 0,
    ensures
        __out0 is Some, 1 <= $i0 <= k.len(), pnd(__out0) == k[$i0 - 1], psrc(__out0) == s, inr(a, k[$i0 - 1].rule), sel(k.take($i0 - 1), a).len() == 0,
#mark loop0_start
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_end
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_break
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_after
//raw
    let ghost p = $i0 - 1;
    proof { lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_bo_mono(s, n.lo, k[p].lo); lemma_bo_mono(s, k[p].hi, n.hi); lemma_only(n, s, D_run(), p, a); reveal(one); }
#fn CmdInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::cmd) ==> record.nd().rule == Rule::cmd
    ensures match r { Ok(x) => K(Rule::cmd) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::cmd) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_cmd();
    let ghost a = RS::B(Rule::cmd_exec, Rule::cmd_shell);
    proof { lemma_done(d, n, s); fact_cmd(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        __out0 is None, krun(d, 0, k.take($i0)) == 0 && sel(k.take($i0), a).len() == 0,
    ensures
        __out0 is Some, 1 <= $i0 <= k.len(), pnd(__out0) == k[$i0 - 1], psrc(__out0) == s, inr(a, k[$i0 - 1].rule), sel(k.take($i0 - 1), a).len() == 0,
#mark loop0_start
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_end
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_break
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_after
//raw
    let ghost p = $i0 - 1;
    proof { lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_bo_mono(s, n.lo, k[p].lo); lemma_bo_mono(s, k[p].hi, n.hi); lemma_only(n, s, D_cmd(), p, a); reveal(one); }
#fn EntrypointInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::entrypoint) ==> record.nd().rule == Rule::entrypoint
    ensures match r { Ok(x) => K(Rule::entrypoint) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::entrypoint) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_entrypoint();
    let ghost a = RS::B(Rule::entrypoint_exec, Rule::entrypoint_shell);
    proof { lemma_done(d, n, s); fact_entrypoint(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        __out0 is None, krun(d, 0, k.take($i0)) == 0 && sel(k.take($i0), a).len() == 0,
    ensures
        __out0 is Some, 1 <= $i0 <= k.len(), pnd(__out0) == k[$i0 - 1], psrc(__out0) == s, inr(a, k[$i0 - 1].rule), sel(k.take($i0 - 1), a).len() == 0,
#mark loop0_start
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_end
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_break
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);
#mark loop0_after
//raw
    let ghost p = $i0 - 1;
    proof { lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_bo_mono(s, n.lo, k[p].lo); lemma_bo_mono(s, k[p].hi, n.hi); lemma_only(n, s, D_entrypoint(), p, a); reveal(one); }
#fn MiscInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), K(Rule::misc) ==> record.nd().rule == Rule::misc
    ensures match r { Ok(x) => K(Rule::misc) ==> one(x, record.nd(), record.src()), Err(e) => K(Rule::misc) ==> err_un(e, record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_misc();
    let ghost a = RS::A(Rule::misc_instruction);
    let ghost b = RS::A(Rule::misc_arguments);
    proof { lemma_done(d, n, s); fact_misc(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi); lemma_none::<SpannedString>(n, a, s); lemma_none::<BreakableString>(n, b, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        maybe(instruction, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(arguments, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> instruction is None) && (q < 2 ==> arguments is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> instruction is Some) && (q >= 2 ==> arguments is Some)) && in_order(instruction, arguments)
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g_instruction = instruction; let ghost g_arguments = arguments;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_sel(k, p, b); }
#mark loop0_end
    lemma_maybe_step(g_instruction, instruction, n, p, a, s);
    lemma_maybe_step(g_arguments, arguments, n, p, b, s);
    if arguments is Some && inr(b, k[p].rule) { lemma_order_step(g_instruction, arguments, n, p, sel(k.take(p), a), s); }
#mark loop0_after
    lemma_maybe_done(instruction, n, a, s); lemma_maybe_done(arguments, n, b, s);
#mark tail
    reveal(one);
#fn unexpected_token
#spec
    ensures r is GenericParseError
#fn Instruction::from@From<FromInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::From(self) }
#fn Instruction::from@From<RunInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Run(self) }
#fn Instruction::from@From<ArgInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Arg(self) }
#fn Instruction::from@From<LabelInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Label(self) }
#fn Instruction::from@From<CopyInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Copy(self) }
#fn Instruction::from@From<EntrypointInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Entrypoint(self) }
#fn Instruction::from@From<CmdInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Cmd(self) }
#fn Instruction::from@From<EnvInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Env(self) }
#fn Instruction::from@From<MiscInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Misc(self) }
#fn Instruction::try_from@TryFrom<Pair>
#spec
    requires valid(record.nd(), record.src()), inr(RS::Ins, record.nd().rule)
    ensures match r { Ok(x) => one(x, record.nd(), record.src()), Err(e) => err_ok(e, record.src()) }
#mark entry
    reveal(one);
#fn SpannedString::as_ref@AsRef<str>
#spec
    ensures r@ == self.content@
#fn Dockerfile::parse
#spec
    ensures doc_ok(r, input@)
#fn Dockerfile::from_str@FromStr
#spec
    ensures doc_ok(r, s@)
#fn parse_dockerfile
#spec
    ensures doc_ok(r, input@)
#mark let_dockerfile
//raw
    let ghost n = dockerfile.nd(); let ghost s = input@; let ghost k = nkids(n); let ghost d = D_dockerfile(); let ghost a = RS::Ins;
    proof { let o = choose|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o) && dockerfile.nd() == kids(o)[0]; lemma_root(s, o); lemma_done(d, n, s); fact_dockerfile(n, s); lemma_none::<Instruction>(n, a, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        many(instructions@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s), from_index <= $i0,
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g = instructions@; let ghost mut i0 = None::<Instruction>;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); }
#mark let_instruction
    i0 = Some(instruction);
#mark loop0_end
    if instructions@.len() > g.len() { assert(instructions@.drop_last() =~= g); lemma_index(i0->Some_0, instructions@.last(), k[p], s); }
    lemma_many_step(g, instructions@, n, p, a, s);
#mark tail
    lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_many_wide(instructions@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), n.hi, s); assert(root(n, s));
