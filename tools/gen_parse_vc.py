#!/usr/bin/env python3
"""Writes contracts/parse.vc: the contracts of the functions that turn pest
pairs into instructions. One template per shape of function."""
out = []

INS = "from run arg label copy entrypoint cmd env misc".split()


def fn(key, spec, item=None, **secs):
    out.append("#fn %s" % key)
    if item:
        out.append("#item\n" + item.strip("\n"))
    if spec:
        out.append("#spec\n" + spec.strip("\n"))
    for k, v in secs.items():
        if k.startswith("loop_"):
            out.append("#loop %s\n%s" % (k[5:], v.strip("\n")))
        else:
            out.append("#mark %s\n%s" % (k, v.strip("\n")))


def post(rule, arg="record", k=None):
    """k: the rule that switches the contract on (another property's concern otherwise)"""
    g = "K(Rule::%s) ==> " % k if k else ""
    err = "err_ok" if "Rule::from" in rule.split() or "RS::Ins" in rule else "err_un"
    return """    requires valid({a}.nd(), {a}.src()), {g}{r}
    ensures match r {{ Ok(x) => {g}one(x, {a}.nd(), {a}.src()), Err(e) => {g}{err}(e, {a}.src()) }}""".format(a=arg, r=rule, g=g, err=err)


def head(d, ghosts, nones, arg="record", fact=None):
    t = "//raw\n    let ghost n = %s.nd(); let ghost s = %s.src(); let ghost k = nkids(n); let ghost d = D_%s();\n" % (arg, arg, d)
    t += "".join("    let ghost %s = %s;\n" % g for g in ghosts)
    t += "    proof { lemma_done(d, n, s); %s lemma_bo_mono(s, n.lo, n.hi); lemma_ci(s, n.lo); lemma_ci(s, n.hi);" % (fact or "fact_%s(n, s);" % d)
    t += "".join(" lemma_none::<%s>(n, %s, s);" % x for x in nones) + " }"
    return t


SEQ = "        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).nd() == k[i] && $s0[i].src() == s,\n"
TAIL = "    reveal(one); reveal(maybe); lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_bo_mono(s, n.lo, end_of(k, k.len() as int, n.lo));"


def start(ghosts, sels, item=""):
    return ("//raw\n    let ghost p = $i0 - 1;" + "".join(" let ghost g_%s = %s;" % (v, e) for v, e in ghosts)
            + "\n    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p);" + "".join(" lemma_sel(k, p, %s);" % x for x in sels) + item + " }")


def kv(key, d, a, b, t1, t2, name="name", value="value", valrules=None, rulecond=None, opt=False, fact=None, arg="record", spec=None, vmark=None, tail="", entry="", wrap="{}", wrapv=None, item="", step=""):
    """name, then value (opt: the value may be missing), each once"""
    inv = "    invariant\n" + SEQ
    N, V = wrap.format(name), (wrapv or wrap).format(value)
    inv += "        maybe(%s, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),\n        maybe(%s, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),\n" % (N, V)
    inv += """        ({{ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> {n} is None) && (q < 2 ==> {v} is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> {n} is Some) && (q >= 2 ==> {v} is Some)) && in_order({N}, {V})
            && sel(k.take($i0), a).len() == (if q >= 1 {{ 1int }} else {{ 0 }}) && sel(k.take($i0), b).len() == (if q >= 2 {{ 1int }} else {{ 0 }}) }}),""".format(n=name, v=value, N=N, V=V)
    end = step + """    lemma_maybe_step({gn}, {n}, n, p, a, s);
    lemma_maybe_step({gv}, {v}, n, p, b, s);
    if {v} is Some && inr(b, k[p].rule) {{ lemma_order_step({gn}, {v}, n, p, sel(k.take(p), a), s); }}""".format(n=N, v=V, gn=wrap.format("g_" + name), gv=(wrapv or wrap).format("g_" + value))
    secs = dict(entry=head(d, [("a", a), ("b", b)], [(t1, "a"), (t2, "b")], fact=fact, arg=arg) + entry, loop_0=inv,
                loop0_start=start([(name, name), (value, value)], ["a", "b"], item), loop0_end=end, 
                loop0_after="    lemma_maybe_done(%s, n, a, s); lemma_maybe_done(%s, n, b, s);" % (N, V), tail="    reveal(one);" + tail)
    if vmark:
        secs.update(vmark)
    fn(key, spec or post(rulecond or "record.nd().rule == Rule::%s" % d, k=d if d in INS else None), **secs)


def lst(key, d, arg, items, tail="", fact=None, rulecond=None, spec=None, pre=""):
    """vectors filled in the loop: items = [(variable, RS, element type)]"""
    names = "abc"
    inv = "    invariant\n" + SEQ
    end = ""
    for i, (v, rs, t) in enumerate(items):
        inv += "        many(%s@, sel(k.take($i0), %s), n.lo, end_of(k, $i0, n.lo), s),\n" % (v, names[i])
        end += "    if %s@.len() > g_%s.len() { assert(%s@.drop_last() =~= g_%s); }\n    lemma_many_step(g_%s, %s@, n, p, %s, s);\n" % (v, v, v, v, v, v, names[i])
    if pre:
        inv += pre
    fn(key, spec or post(rulecond or "%s.nd().rule == Rule::%s" % (arg, d), arg, k=d if d in INS else None),
       entry=head(d, [(names[i], rs) for i, (v, rs, t) in enumerate(items)], [(t, names[i]) for i, (v, rs, t) in enumerate(items)], arg=arg, fact=fact),
       loop_0=inv, loop0_start=start([(v, v + "@") for v, _, _ in items], names[:len(items)]), loop0_end=end,
       tail=TAIL + "".join(" lemma_list(%s@, sel(k, %s), n.lo, end_of(k, k.len() as int, n.lo), s, span);" % (v, names[i]) for i, (v, rs, t) in enumerate(items)) + tail)


# ---------------------------------------------------------------- leaves
fn("Span::new", "    ensures r.start == start, r.end == end")
fn("Span::from_pair", "    ensures at_node(r, record.nd(), record.src())")
fn("Span::from@From<Pair>", "", item="    open spec fn v_into_ok(self, r: Span) -> bool { at_node(r, self.nd(), self.src()) }")
fn("BreakableStringComponent::from@From<SpannedString>", "", item="    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { r == BreakableStringComponent::String(self) }")
fn("BreakableStringComponent::from@From<SpannedComment>", "", item="    open spec fn v_into_ok(self, r: BreakableStringComponent) -> bool { r == BreakableStringComponent::Comment(self) }")
fn("BreakableString::new", "    ensures span.v_into_ok(r.span), r.components@ == Seq::<BreakableStringComponent>::empty()")
fn("BreakableString::add_string", """    ensures r.span == self.span, r.components@.len() == self.components@.len() + 1, r.components@.drop_last() == self.components@,
        match r.components@.last() { BreakableStringComponent::String(x) => s.v_into_ok(x.span) && c.v_into_ok(x.content), _ => false }""",
   tail="    assert(self.components@.drop_last() =~= old(self).components@);" if False else "    ")
# built in other ways than the crate does now
fn("Span::from@From<tuple>", "", item="    open spec fn v_into_ok(self, r: Span) -> bool { r.start == self.0 && r.end == self.1 }")
fn("BreakableString::add", "    ensures r.span == self.span, r.components@.len() == self.components@.len() + 1, r.components@.drop_last() == self.components@, c.v_into_ok(r.components@.last())")
fn("BreakableString::add_comment", """    ensures r.span == self.span, r.components@.len() == self.components@.len() + 1, r.components@.drop_last() == self.components@,
        match r.components@.last() { BreakableStringComponent::Comment(x) => s.v_into_ok(x.span) && c.v_into_ok(x.content), _ => false }""")
fn("EnvVar::new", "    ensures r.span == span, r.key == key, value.v_into_ok(r.value)")
fn("clean_escaped_breaks", "    ensures r@ == clean(s@)", entry='    reveal_strlit("\\\\\\n"); reveal_strlit(""); assert("\\\\\\n"@ =~= seq![\'\\\\\', \'\\n\']); assert(""@ =~= seq![]);')
fn("parse_string", """    requires valid(field.nd(), field.src()), !is_label_q(field.nd().rule), M_ERR() ==> str_rule(field.nd().rule) && !env_quoted(field.nd().rule)
    ensures match r { Ok(x) => one(x, field.nd(), field.src()) && at_node(x.span, field.nd(), field.src()) && Some(x.content@) == plain(text(field.nd(), field.src())), Err(e) => M_ERR() ==> e is UnescapeError && bad_str(field.nd(), field.src()) }""",
   entry="""    lemma_valid(field.nd(), field.src());
    lemma_ci(field.src(), field.nd().lo);
    lemma_ci(field.src(), field.nd().hi);
    lemma_bo_mono(field.src(), field.nd().lo, field.nd().hi); reveal(one);""",
   let_content="""    let t = text(field.nd(), field.src());
    if t.len() > 0 { let c = t[0]; }
    assert(Some(content@) == plain(t));""")
lst("parse_string_array", "array", "array", [("elements", "RS::A(Rule::string)", "SpannedString")], fact="fact_array(n, s);",
    rulecond="(array.nd().rule == Rule::run_exec || array.nd().rule == Rule::cmd_exec || array.nd().rule == Rule::entrypoint_exec)")

# ------------------------------------------------------------ shell pieces
BRK = "({a}.nd().rule == Rule::any_breakable || brk_outer({a}.nd().rule))"
fn("parse_any_breakable_inner", """    requires valid(pair.nd(), pair.src()), %s
    ensures match r { Ok(v) => many(v@, pieces(pair.nd()), pair.nd().lo, pair.nd().hi, pair.src())
        && (M_EX() ==> w_all(v@, pieces(pair.nd()), pair.src())) && (M_C3() ==> c3_all(v@, pair.src()))
        && (M_IN() ==> nest_all(v@, bo(pair.src(), pair.nd().lo), bo(pair.src(), pair.nd().hi), pair.src())), Err(e) => err_un(e, pair.src()) }""" % BRK.format(a="pair"),
   entry="""//raw
    let ghost n = pair.nd(); let ghost s = pair.src(); let ghost k = nkids(n); let ghost d = D_brk();
    proof { lemma_done(d, n, s); lemma_pieces(n, s); lemma_bo_mono(s, n.lo, n.hi); lemma_no_pieces(n, s); }""",
   loop_0="    invariant\n" + SEQ + """        many(components@, pieces_upto(n, $i0), n.lo, end_of(k, $i0, n.lo), s),
        krun(d, 0, k.take($i0)) < 63 ==> (n.rule != Rule::any_breakable ==> $i0 <= 1),""",
   loop0_start="""//raw
    let ghost p = $i0 - 1; let ghost g = components@;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_valid(k[p], s); lemma_ci(s, k[p].lo); lemma_ci(s, k[p].hi); lemma_bo_mono(s, k[p].lo, k[p].hi); }""",
   loop0_end="    if components@.len() == g.len() + 1 { assert(components@.drop_last() =~= g); }\n    if n.rule == Rule::any_breakable { lemma_piece(k[p], s, components@.last()); }\n    lemma_pieces_step(n, p, g, components@, s);",
   tail="    lemma_all_pieces(n, s, components@);")
fn("parse_any_breakable", post("brk_outer(pair.nd().rule)", "pair"), entry="    lemma_valid(pair.nd(), pair.src()); lemma_ci(pair.src(), pair.nd().lo); lemma_ci(pair.src(), pair.nd().hi); lemma_bo_mono(pair.src(), pair.nd().lo, pair.nd().hi); reveal(one);")

# ------------------------------------------------------------------ flags
for f in ("from", "copy"):
    kv("%sFlag::from_record" % f.capitalize(), f + "_flag", "RS::A(Rule::%s_flag_name)" % f, "RS::A(Rule::%s_flag_value)" % f, "SpannedString", "SpannedString")

# -------------------------------------------------------------------- ARG
inv = "    invariant\n" + SEQ + """        maybe(name, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        maybe(value, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 2 && (q < 1 ==> name is None) && (M_ERR() || M_EX() ==> (q >= 1 ==> name is Some)) && (q < 2 ==> value is None) && in_order(name, value)
            && sel(k.take($i0), a).len() == (if q >= 1 { 1int } else { 0 }) && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) }),"""
kv("ArgInstruction::from_record", "arg", "RS::A(Rule::arg_name)", "RS::B(Rule::arg_value, Rule::arg_quoted_value)", "SpannedString", "SpannedString",
   vmark=dict(loop_0=inv, ret1="    assert(!M_ERR());"))

# ------------------------------------------------------------------- COPY
fn("CopyInstruction::from_record", post("record.nd().rule == Rule::copy", k="copy"),
   entry=head("copy", [("a", "RS::A(Rule::copy_flag)"), ("b", "RS::A(Rule::copy_pathspec)")], [("CopyFlag", "a"), ("SpannedString", "b")]) + "\n    let ghost mut all = Seq::<SpannedString>::empty();",
   loop_0="    invariant\n" + SEQ + """        many(flags@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        many(paths@, sel(k.take($i0), b), n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 3 && (M_ERR() || M_EX() ==> paths@.len() >= (if q >= 3 { 2int } else if q >= 2 { 1 } else { 0 })) }),""",
   loop0_start=start([("flags", "flags@"), ("paths", "paths@")], ["a", "b"]),
   loop0_end="""    if flags@.len() > g_flags.len() { assert(flags@.drop_last() =~= g_flags); }
    if paths@.len() > g_paths.len() { assert(paths@.drop_last() =~= g_paths); }
    lemma_many_step(g_flags, flags@, n, p, a, s);
    lemma_many_step(g_paths, paths@, n, p, b, s);""",
   loop0_after="    all = paths@;",
   tail=TAIL + " assert(paths@.push(destination) =~= all);\n    lemma_list(flags@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span); lemma_list(all, sel(k, b), n.lo, end_of(k, k.len() as int, n.lo), s, span);")

# ------------------------------------------------------------------- FROM
fn("FromInstruction::from_record", post("record.nd().rule == Rule::from", k="from"),
   entry=head("from", [("a", "RS::A(Rule::from_flag)"), ("b", "RS::A(Rule::from_image)"), ("c", "RS::A(Rule::from_alias)")],
              [("FromFlag", "a")]) + "\n    let ghost mut gi = record.nd(); let ghost mut ga = record.nd();",
   loop_0="    invariant\n" + SEQ + """        many(flags@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s),
        got(image_field, sel(k.take($i0), b), Rule::from_image, n.lo, end_of(k, $i0, n.lo), s),
        got(alias_field, sel(k.take($i0), c), Rule::from_alias, n.lo, end_of(k, $i0, n.lo), s),
        ({ let q = krun(d, 0, k.take($i0)); q < 63 ==> q <= 3
            && (M_ERR() || M_EX() ==> (image_field is Some <==> q >= 2)) && (q < 2 ==> image_field is None) && (q < 3 ==> alias_field is None)
            && (M_EX() ==> (alias_field is Some <==> q >= 3)) && before(image_field, alias_field)
            && sel(k.take($i0), b).len() == (if q >= 2 { 1int } else { 0 }) && sel(k.take($i0), c).len() == (if q >= 3 { 1int } else { 0 }) }),""",
   loop0_start=start([("flags", "flags@"), ("image", "image_field"), ("alias", "alias_field")], ["a", "b", "c"]),
   loop0_end="""    if flags@.len() > g_flags.len() { assert(flags@.drop_last() =~= g_flags); }
    lemma_many_step(g_flags, flags@, n, p, a, s);
    lemma_got_step(g_image, image_field, n, p, Rule::from_image, s);
    lemma_got_step(g_alias, alias_field, n, p, Rule::from_alias, s);
    if alias_field is Some && k[p].rule == Rule::from_alias { lemma_before(g_image, alias_field, n, p, Rule::from_image, s); }""",
   loop0_after="    if image_field is Some { gi = pnd(image_field); } if alias_field is Some { ga = pnd(alias_field); }",
   let_image="    lemma_bo_mono(s, n.lo, gi.lo); lemma_bo_mono(s, gi.hi, n.hi); lemma_bo_mono(s, gi.lo, gi.hi);",
   let_alias="    if alias is Some { lemma_bo_mono(s, n.lo, ga.lo); lemma_bo_mono(s, ga.lo, ga.hi); lemma_bo_mono(s, ga.hi, n.hi); lemma_bo_mono(s, gi.hi, ga.lo); }",
   tail=TAIL + " lemma_list(flags@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), s, span);")

# ------------------------------------------------------------------ LABEL
# a quoted string read here and not by parse_string
BAD = " assert(M_ERR() && (is_label_q(k[p].rule) && unq(clean(text(k[p], s))) is None || env_quoted(k[p].rule) && unq(text(k[p], s)) is None) ==> bad_str(k[p], s));"
PLACE = " lemma_valid(k[p], s); lemma_ci(s, k[p].lo); lemma_ci(s, k[p].hi); lemma_bo_mono(s, k[p].lo, k[p].hi);"
kv("Label::from_record", "lpair", "NAMES()", "RS::B(Rule::label_value, Rule::label_quoted_value)", "Lab", "Lab", wrap="lab({})", item=BAD,
   rulecond="(record.nd().rule == Rule::label_pair || record.nd().rule == Rule::label_single)",
   step="    if inr(a, k[p].rule) { lemma_label(k[p], s, name->Some_0); }\n    if inr(b, k[p].rule) { lemma_label(k[p], s, value->Some_0); }\n")
fn("Label::new", "    ensures r == (Label { span, name, value })")
lst("LabelInstruction::from_record", "label", "record", [("labels", "RS::B(Rule::label_pair, Rule::label_single)", "Label")])

# -------------------------------------------------------------------- ENV
ENVQ = """    if inr(b, k[p].rule) {
        let x = value->Some_0;
        if k[p].rule == Rule::env_single_value { lemma_ev(k[p], s, x); } else {
            assert(x.components@.drop_last() =~= Seq::empty()); assert(x.components@.last() == x.components@[0]);
            lemma_env(k[p], s, x);
        }
    }
"""
ENVS = """    requires valid(record.nd(), record.src()), record.nd().rule == Rule::%s, span.start <= bo(record.src(), record.nd().lo), bo(record.src(), record.nd().hi) <= span.end
    ensures match r { Ok(x) => x.span == span && (M_EX() ==> w_all(x.vars@, env_list(record.nd()), record.src())) && (M_C3() ==> c3_all(x.vars@, record.src()))
        && (M_IN() ==> nest_all(x.vars@, span.start as int, span.end as int, record.src())), Err(e) => err_un(e, record.src()) }"""
kv("parse_env_pair", "env_pair", "RS::A(Rule::env_name)", "RS::B(Rule::env_pair_value, Rule::env_pair_quoted_value)", "SpannedString", "Ev", name="key", wrapv="ev({})", item=BAD, step=ENVQ)
kv("EnvInstruction::from_single_record", "env_single", "RS::A(Rule::env_name)", "RS::B(Rule::env_single_value, Rule::env_single_quoted_value)", "SpannedString", "Ev", name="key", wrapv="ev({})", item=BAD, step=ENVQ,
   spec=ENVS % "env_single", tail="""
    let x = EnvVar { span: Span { start: key.span.start, end: value.span.end }, key, value };
    assert(one(x, n, s));
    lemma_single(x, n, s);
    assert(env_list(n) == seq![n]);
    lemma_list(seq![x], seq![n], n.lo, n.hi, s, span);""")
lst("EnvInstruction::from_pairs_record", "env_pairs", "record", [("vars", "RS::A(Rule::env_pair)", "EnvVar")], spec=ENVS % "env_pairs")
fn("EnvInstruction::from_record", post("record.nd().rule == Rule::env", k="env"), entry=head("env", [], []) .replace(" }", " lemma_one_kid(n, s); lemma_at(d, n, s, 0); lemma_bo_mono(s, n.lo, k[0].lo); lemma_bo_mono(s, k[0].hi, n.hi); reveal(one); }"))

# ----------------------------------------------------- RUN CMD ENTRYPOINT
for c in ("run", "cmd", "entrypoint"):
    fn("%sInstruction::from_record" % c.capitalize(), post("record.nd().rule == Rule::%s" % c, k=c),
       entry=head(c, [("a", "RS::B(Rule::%s_exec, Rule::%s_shell)" % (c, c))], []),
       loop_0="    invariant\n" + SEQ + """        __out0 is None, krun(d, 0, k.take($i0)) == 0 && sel(k.take($i0), a).len() == 0,
    ensures
        __out0 is Some, 1 <= $i0 <= k.len(), pnd(__out0) == k[$i0 - 1], psrc(__out0) == s, inr(a, k[$i0 - 1].rule), sel(k.take($i0 - 1), a).len() == 0,""",
       loop0_start="    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);",
       loop0_end="    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);",
       loop0_break="    let p = $i0 - 1; assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a);",
       loop0_after="""//raw
    let ghost p = $i0 - 1;
    proof { lemma_at(d, n, s, p); lemma_sel(k, p, a); lemma_bo_mono(s, n.lo, k[p].lo); lemma_bo_mono(s, k[p].hi, n.hi); lemma_only(n, s, D_%s(), p, a); reveal(one); }""" % c)

# ------------------------------------------------------------------- misc
kv("MiscInstruction::from_record", "misc", "RS::A(Rule::misc_instruction)", "RS::A(Rule::misc_arguments)", "SpannedString", "BreakableString", name="instruction", value="arguments")

# -------------------------------------------------------- the whole document
fn("unexpected_token", "    ensures r is GenericParseError")
for i in INS:
    I = i.capitalize()
    fn("Instruction::from@From<%sInstruction>" % I, "", item="    open spec fn v_into_ok(self, r: Instruction) -> bool { r == Instruction::%s(self) }" % I)
fn("Instruction::try_from@TryFrom<Pair>", post("inr(RS::Ins, record.nd().rule)"), entry="    reveal(one);")
fn("SpannedString::as_ref@AsRef<str>", "    ensures r@ == self.content@")
fn("Dockerfile::parse", "    ensures doc_ok(r, input@)")
fn("Dockerfile::from_str@FromStr", "    ensures doc_ok(r, s@)")
fn("parse_dockerfile", "    ensures doc_ok(r, input@)",
   let_dockerfile="""//raw
    let ghost n = dockerfile.nd(); let ghost s = input@; let ghost k = nkids(n); let ghost d = D_dockerfile(); let ghost a = RS::Ins;
    proof { let o = choose|o: Seq<It>| #[trigger] peg_ok(Rule::dockerfile, s, o) && dockerfile.nd() == kids(o)[0]; lemma_root(s, o); lemma_done(d, n, s); fact_dockerfile(n, s); lemma_none::<Instruction>(n, a, s); }""",
   loop_0="    invariant\n" + SEQ + "        many(instructions@, sel(k.take($i0), a), n.lo, end_of(k, $i0, n.lo), s), from_index <= $i0,",
   loop0_start="""//raw
    let ghost p = $i0 - 1; let ghost g = instructions@; let ghost mut i0 = None::<Instruction>;
    proof { assert($s0[p].nd() == k[p]); lemma_at(d, n, s, p); lemma_sel(k, p, a); }""",
   let_instruction="    i0 = Some(instruction);",
   loop0_end="    if instructions@.len() > g.len() { assert(instructions@.drop_last() =~= g); lemma_index(i0->Some_0, instructions@.last(), k[p], s); }\n    lemma_many_step(g, instructions@, n, p, a, s);",
   tail="    lemma_bo_mono(s, end_of(k, k.len() as int, n.lo), n.hi); lemma_many_wide(instructions@, sel(k, a), n.lo, end_of(k, k.len() as int, n.lo), n.hi, s); assert(root(n, s));")

open(__file__.rsplit("/", 2)[0] + "/contracts/parse.vc", "w").write("\n".join(out) + "\n")
