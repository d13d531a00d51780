#fn FromInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn RunInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn ArgInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn LabelInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn CopyInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn EntrypointInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn CmdInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn EnvInstruction::from_record
#spec
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()), Err(_) => true }
#fn EnvInstruction::from_single_record
#spec
    ensures match r { Ok(x) => x.span == span, Err(_) => true }
#fn EnvInstruction::from_pairs_record
#spec
    ensures match r { Ok(x) => x.span == span, Err(_) => true }
#fn MiscInstruction::from_record
#spec
    requires valid(record.nd(), record.src()), record.nd().rule == Rule::misc
    ensures match r { Ok(x) => at_node(x.span, record.nd(), record.src()) && (X_KIND() ==> misc_ok(x, record.nd(), record.src())), Err(_) => true }
#mark entry
//raw
    let ghost n = record.nd(); let ghost s = record.src(); let ghost k = nkids(n);
    proof { lemma_misc(n, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        X_KIND() ==> name_at(instruction, k[0], s),
        X_KIND() ==> args_at(arguments, k[1], s),
#mark loop0_start
    assert($s0[$i0 - 1].nd() == k[$i0 - 1]);
#fn parse_any_breakable
#spec
    ensures match r { Ok(x) => X_KIND() ==> at_node(x.span, pair.nd(), pair.src()), Err(_) => true }
#fn parse_string
#spec
    ensures match r { Ok(x) => X_KIND() ==> at_node(x.span, field.nd(), field.src()) && Some(x.content@) == plain(text(field.nd(), field.src())), Err(e) => true }
#mark let_content
    let t = text(field.nd(), field.src());
    if t.len() > 0 { let c = t[0]; }
    assert(Some(content@) == plain(t));
#fn Span::new
#spec
    ensures r.start == start, r.end == end
#fn Span::from_pair
#spec
    ensures at_node(r, record.nd(), record.src())
#fn Span::from@From<Pair>
#item
    open spec fn v_into_ok(self, r: Span) -> bool { at_node(r, self.nd(), self.src()) }
#fn Instruction::try_from@TryFrom<Pair>
#spec
    requires valid(record.nd(), record.src())
    ensures match r { Ok(x) => kindly(x, record.nd(), record.src()), Err(_) => true }
#fn parse_dockerfile
#spec
    ensures doc_kindly(r, input@)
#mark let_dockerfile
//raw
    let ghost n = dockerfile.nd(); let ghost s = input@; let ghost k = nkids(n); let ghost d = D_dockerfile(); let ghost a = RS::Ins;
    proof { let o = choose|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o) && dockerfile.nd() == kids(o)[0]; lemma_root(s, o); lemma_done(d, n, s); fact_dockerfile(n, s); }
#loop 0
    invariant
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,
        all_kindly(instructions@, sel(k.take($i0), a), s), from_index <= $i0,
#mark loop0_start
//raw
    let ghost p = $i0 - 1; let ghost g = instructions@; let ghost mut i0 = None::<Instruction>;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); }
#mark let_instruction
    i0 = Some(instruction);
#mark loop0_end
    if instructions@.len() > g.len() { assert(instructions@.drop_last() =~= g); assert(isp(i0->Some_0) == isp(instructions@.last())); }
    lemma_kindly_step(g, instructions@, k, p, s);
#mark tail
    assert(root(n, s));
#fn Dockerfile::parse
#spec
    ensures doc_kindly(r, input@)
#fn Dockerfile::from_str@FromStr
#spec
    ensures doc_kindly(r, s@)
#fn unexpected_token
#fn parse_string_array
#fn CopyFlag::from_record
#fn FromFlag::from_record
#fn ImageRef::parse
#fn Label::from_record
#fn parse_env_pair
#fn SpannedString::as_ref@AsRef<str>
#fn Instruction::from@From<FromInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::From(self) }
#fn Instruction::from@From<RunInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Run(self) }
#fn Instruction::from@From<ArgInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Arg(self) }
#fn Instruction::from@From<LabelInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Label(self) }
#fn Instruction::from@From<CopyInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Copy(self) }
#fn Instruction::from@From<EntrypointInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Entrypoint(self) }
#fn Instruction::from@From<CmdInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Cmd(self) }
#fn Instruction::from@From<EnvInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Env(self) }
#fn Instruction::from@From<MiscInstruction>
#item
    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::Misc(self) }
#fn parse_any_breakable_inner
#fn BreakableString::add_string
#fn BreakableString::new
