#fn is_registry
#spec
    ensures r == is_reg(token@)
#fn ImageRef::parse
#spec
    ensures img_view(r) == parse_spec(s@)
#mark entry
    lemma_first_of(s@, '/');
    lemma_reading(s@);
    if first_of(rest_of(s@), '@') >= 0 { lemma_at_boundary(rest_of(s@), '@'); }
#fn SpannedString::as_ref@AsRef<str>
#spec
    ensures r@ == self.content@
#fn Span::from_pair
#spec
#fn unexpected_token
#spec
    ensures r is GenericParseError
#fn parse_string
#spec
    requires valid(field.nd(), field.src()), (field.nd().rule == Rule::from_image || field.nd().rule == Rule::from_alias || field.nd().rule == Rule::from_flag_name || field.nd().rule == Rule::from_flag_value)
    ensures match r { Ok(x) => Some(x.content@) == plain(text(field.nd(), field.src())), Err(e) => e is UnescapeError }
#mark entry
    lemma_valid(field.nd(), field.src());
#mark let_content
    let t = text(field.nd(), field.src());
    if t.len() > 0 { let c = t[0]; }
    assert(Some(content@) == plain(t));
#fn FromFlag::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::from_flag
    ensures r is Err ==> r->Err_0 is UnescapeError
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_from_flag();
    proof { lemma_done(d, n, s); fact_from_flag(n, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q >= 1 ==> name is Some) && (q >= 2 ==> value is Some) }),
#mark loop0_start
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p);
#fn FromInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::from
    ensures match r { Ok(x) => image_ok(x), Err(e) => e is UnescapeError || bad_digest(record.nd(), record.src()) }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n); let ghost d = D_from();
    proof { lemma_done(d, n, s); fact_from(n, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        f_img(image_field, s), field_at(image_field, k), f_ali(alias_field, s), alias_field is Some ==> alias_field->Some_0.nd().rule == Rule::from_alias,
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 3 && (q >= 2 ==> image_field is Some) }),
#mark loop0_start
    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p);
#mark let_image_parsed
    let m = image_field->Some_0.nd();
    let h = parse_spec(image.content@).hash;
    assert(plain(text(m, s)) == Some(image.content@));
    assert(h is Some && !digest_ok(h->Some_0) ==> bad_image(m, s));
    assert(h is Some && !digest_ok(h->Some_0) ==> bad_digest(n, s));
    reveal_strlit("sha256"); assert("sha256"@ =~= SHA().take(6));
    if h is Some {
        lemma_digest_parts(h->Some_0);
        let t = h->Some_0.skip(7);
        lemma_hex(t); lemma_hex_len(t);
    }
#mark let_parts
    assert(views(parts@) == split_spec(hash@, ':'));
    assert(parts@.len() == 2 ==> views(parts@)[0] == parts@[0]@ && views(parts@)[1] == parts@[1]@);
#fn Instruction::try_from@TryFrom<Pair>
#spec
    requires valid(record.nd(), record.src()), inr(RS::Ins, record.nd().rule)
    ensures match r { Ok(x) => from_ok(x), Err(e) => e is UnescapeError || bad_digest(record.nd(), record.src()) }
#fn parse_dockerfile
#spec
    ensures doc_digests(r, input@)
#mark let_dockerfile
//raw
    let ghost n = dockerfile.nd(); let ghost s = input@; let ghost k = nkids(n); let ghost d = D_dockerfile();
    proof { let o = choose|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o) && dockerfile.nd() == kids(o)[0]; lemma_root(s, o); lemma_done(d, n, s); fact_dockerfile(n, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        forall|i: int| 0 <= i < instructions@.len() ==> from_ok(#[trigger] instructions@[i]), from_index <= $i0,
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g = instructions@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); assert(root(n, s)); assert(bad_digest(k[p], s) ==> has_bad_digest(n, s)); }
#mark loop0_end
    if instructions@.len() > g.len() { assert(instructions@.drop_last() =~= g); assert(instructions@.last() == instructions@[instructions@.len() - 1]); }
    assert forall|i: int| 0 <= i < instructions@.len() implies from_ok(#[trigger] instructions@[i]) by { if i < g.len() { assert(instructions@[i] == g[i]); } }
#fn Dockerfile::parse
#spec
    ensures doc_digests(r, input@)
#fn Dockerfile::from_str@FromStr
#spec
    ensures doc_digests(r, s@)
#fn Instruction::from@From<FromInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::From(self) }
#fn Instruction::from@From<RunInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Run(self) }
#fn RunInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::run
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<ArgInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Arg(self) }
#fn ArgInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::arg
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<LabelInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Label(self) }
#fn LabelInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::label
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<CopyInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Copy(self) }
#fn CopyInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::copy
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<EntrypointInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Entrypoint(self) }
#fn EntrypointInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::entrypoint
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<CmdInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Cmd(self) }
#fn CmdInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::cmd
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<EnvInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Env(self) }
#fn EnvInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::env
    ensures r is Err ==> r->Err_0 is UnescapeError
#fn Instruction::from@From<MiscInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Misc(self) }
#fn MiscInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::misc
    ensures r is Err ==> r->Err_0 is UnescapeError
