// What the parsing functions report, relative to the source text.
//   M_IN: spans nested and ordered; M_C3: contents equal the source at the span
//   or its unescaping; M_EX: exactly the pairs of the parse, in order.
// Each property switches on the parts it is about (contracts/m_*.rs).
pub open spec fn quoted(t: Str) -> bool { t.len() > 0 && (t[0] == '"' || t[0] == '\'' || t[0] == '`') }
pub open spec fn dquoted(t: Str) -> bool { t.len() > 0 && (t[0] == '"' || t[0] == '\'') }
pub open spec fn enclosed(t: Str) -> bool { t.len() >= 2 && t[0] == t.last() && (t[0] == '"' || t[0] == '\'') }
/// content of a string written as t
pub open spec fn plain(t: Str) -> Option<Str> { if quoted(t) { unq(t) } else { Some(t) } }
pub open spec fn clean(t: Str) -> Str { replaced(t, seq!['\\', '\n'], seq![]) }
pub open spec fn lab_val(t: Str) -> Option<Str> { if dquoted(t) { unq(clean(t)) } else { plain(t) } }

pub trait W: Sized {
    /// exactly what the pair n says
    spec fn w(&self, n: PNode, s: Str) -> bool;
    spec fn nest(&self, s: Str) -> bool;
    spec fn c3(&self, s: Str) -> bool;
    spec fn sp(&self) -> Span;
    /// what the pair's rule says about quoting
    open spec fn c3n(&self, n: PNode, s: Str) -> bool { true }
}
#[verifier::opaque]
pub open spec fn nest_all<T: W>(v: Seq<T>, a: int, b: int, s: Str) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nest(s) && a <= v[i].sp().start && v[i].sp().end <= b
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).sp().end <= (#[trigger] v[j]).sp().start
}
#[verifier::opaque]
pub open spec fn c3_all<T: W>(v: Seq<T>, s: Str) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).c3(s) }
#[verifier::opaque]
pub open spec fn w_all<T: W>(v: Seq<T>, k: Seq<PNode>, s: Str) -> bool {
    v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).w(k[i], s)
}
/// result for the pair n
#[verifier::opaque]
pub open spec fn one<T: W>(x: T, n: PNode, s: Str) -> bool {
    &&& M_EX() ==> x.w(n, s)
    &&& M_IN() ==> x.nest(s) && rng(x.sp(), s) && bo(s, n.lo) <= x.sp().start && x.sp().end <= bo(s, n.hi)
    &&& M_C3() ==> x.c3(s) && x.c3n(n, s)
}
/// results for the pairs k, which lie in s[lo..hi]
#[verifier::opaque]
pub open spec fn many<T: W>(v: Seq<T>, k: Seq<PNode>, lo: int, hi: int, s: Str) -> bool {
    &&& M_EX() ==> w_all(v, k, s)
    &&& M_IN() ==> (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nest(s) && rng(v[i].sp(), s) && bo(s, lo) <= v[i].sp().start && v[i].sp().end <= bo(s, hi))
        && (forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).sp().end <= (#[trigger] v[j]).sp().start)
    &&& M_C3() ==> c3_all(v, s)
}
/// at most one result, for the last of the pairs k
#[verifier::opaque]
pub open spec fn maybe<T: W>(o: Option<T>, k: Seq<PNode>, lo: int, hi: int, s: Str) -> bool {
    match o {
        None => M_EX() ==> k.len() == 0,
        Some(x) => {
            &&& M_EX() ==> k.len() > 0 && x.w(k.last(), s)
            &&& M_IN() ==> x.nest(s) && rng(x.sp(), s) && bo(s, lo) <= x.sp().start && x.sp().end <= bo(s, hi)
            &&& M_C3() ==> x.c3(s)
        }
    }
}
pub open spec fn in_order<T: W, U: W>(a: Option<T>, b: Option<U>) -> bool { M_IN() && a is Some && b is Some ==> a->Some_0.sp().end <= b->Some_0.sp().start }
pub proof fn lemma_many_step<T: W>(g: Seq<T>, v: Seq<T>, n: PNode, p: int, x: RS, s: Str)
    requires valid(n, s), 0 <= p < nkids(n).len(), many(g, sel(nkids(n).take(p), x), n.lo, end_of(nkids(n), p, n.lo), s),
        (v == g && (M_EX() ==> !inr(x, nkids(n)[p].rule))) || (v.len() == g.len() + 1 && v.drop_last() == g && one(v.last(), nkids(n)[p], s) && (M_EX() ==> inr(x, nkids(n)[p].rule)))
    ensures many(v, sel(nkids(n).take(p + 1), x), n.lo, nkids(n)[p].hi, s)
{
    reveal(w_all); reveal(c3_all); reveal(one); reveal(many); reveal(maybe);
    let k = nkids(n);
    lemma_at(0, n, s, p);
    lemma_sel(k, p, x);
    lemma_bo_mono(s, end_of(k, p, n.lo), k[p].lo);
    lemma_bo_mono(s, n.lo, k[p].lo);
    lemma_bo_mono(s, k[p].lo, k[p].hi);
    lemma_bo_mono(s, end_of(k, p, n.lo), k[p].hi);
    if v.len() == g.len() + 1 {
        assert forall|i: int| 0 <= i < g.len() implies v[i] == g[i] by { assert(v.drop_last()[i] == v[i]); }
        if M_IN() { assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).sp().end <= (#[trigger] v[j]).sp().start by {
            assert(v[i] == g[i]);
            if j < g.len() { assert(v[j] == g[j]); } else { assert(v[i].sp().end <= bo(s, end_of(k, p, n.lo))); }
        } }
    }
}
pub proof fn lemma_maybe_step<T: W>(g: Option<T>, o: Option<T>, n: PNode, p: int, x: RS, s: Str)
    requires valid(n, s), 0 <= p < nkids(n).len(), maybe(g, sel(nkids(n).take(p), x), n.lo, end_of(nkids(n), p, n.lo), s),
        (o == g && (M_EX() ==> !inr(x, nkids(n)[p].rule))) || (o is Some && one(o->Some_0, nkids(n)[p], s) && (M_EX() ==> inr(x, nkids(n)[p].rule)))
    ensures maybe(o, sel(nkids(n).take(p + 1), x), n.lo, nkids(n)[p].hi, s)
{
    reveal(one); reveal(many); reveal(maybe);
    let k = nkids(n);
    lemma_at(0, n, s, p);
    lemma_sel(k, p, x);
    lemma_bo_mono(s, end_of(k, p, n.lo), k[p].hi);
    lemma_bo_mono(s, n.lo, k[p].lo);
    lemma_bo_mono(s, n.lo, end_of(k, p, n.lo));
}
/// a finished list inside a span
pub proof fn lemma_list<T: W>(v: Seq<T>, k: Seq<PNode>, lo: int, hi: int, s: Str, y: Span)
    requires many(v, k, lo, hi, s), M_IN() ==> y.start <= bo(s, lo) && bo(s, hi) <= y.end
    ensures M_EX() ==> w_all(v, k, s), M_IN() ==> nest_all(v, y.start as int, y.end as int, s), M_C3() ==> c3_all(v, s)
{ reveal(many); reveal(nest_all); }
pub proof fn lemma_list_at<T: W>(v: Seq<T>, k: Seq<PNode>, lo: int, hi: int, s: Str, a: int, b: int)
    requires many(v, k, lo, hi, s), M_IN() ==> a <= bo(s, lo) && bo(s, hi) <= b
    ensures M_EX() ==> w_all(v, k, s), M_IN() ==> nest_all(v, a, b, s), M_C3() ==> c3_all(v, s)
{ reveal(many); reveal(nest_all); }
pub proof fn lemma_maybe_done<T: W>(o: Option<T>, n: PNode, x: RS, s: Str)
    requires valid(n, s), maybe(o, sel(nkids(n), x), n.lo, end_of(nkids(n), nkids(n).len() as int, n.lo), s)
    ensures match o {
        None => M_EX() ==> sel(nkids(n), x).len() == 0,
        Some(v) => (M_EX() ==> sel(nkids(n), x).len() > 0 && v.w(sel(nkids(n), x).last(), s))
            && (M_IN() ==> v.nest(s) && rng(v.sp(), s) && bo(s, n.lo) <= v.sp().start && v.sp().end <= bo(s, n.hi))
            && (M_C3() ==> v.c3(s)) }
{
    reveal(maybe);
    lemma_done(0, n, s);
    lemma_bo_mono(s, end_of(nkids(n), nkids(n).len() as int, n.lo), n.hi);
}
pub proof fn lemma_single<T: W>(x: T, n: PNode, s: Str)
    requires one(x, n, s)
    ensures many(seq![x], seq![n], n.lo, n.hi, s)
{ reveal(many); reveal(one); reveal(w_all); reveal(c3_all); }
/// the order of name and value: the value's pair comes after the name's
pub proof fn lemma_order_step<T: W, U: W>(a: Option<T>, b: Option<U>, n: PNode, p: int, ka: Seq<PNode>, s: Str)
    requires valid(n, s), 0 <= p < nkids(n).len(), maybe(a, ka, n.lo, end_of(nkids(n), p, n.lo), s), b is Some, one(b->Some_0, nkids(n)[p], s)
    ensures in_order(a, b)
{
    reveal(one); reveal(many); reveal(maybe);
    lemma_at(0, n, s, p);
    lemma_bo_mono(s, end_of(nkids(n), p, n.lo), nkids(n)[p].lo);
}
pub proof fn lemma_none<T: W>(n: PNode, x: RS, s: Str)
    requires valid(n, s)
    ensures maybe(None::<T>, sel(nkids(n).take(0), x), n.lo, end_of(nkids(n), 0, n.lo), s), many(Seq::<T>::empty(), sel(nkids(n).take(0), x), n.lo, end_of(nkids(n), 0, n.lo), s)
{ reveal(many); reveal(maybe); reveal(w_all); reveal(c3_all); }

pub open spec fn isp(x: Span, n: PNode, s: Str) -> bool { X_ISPAN() ==> at_node(x, n, s) }
pub open spec fn vsp(x: Span, n: PNode, s: Str) -> bool { X_VSPAN() ==> at_node(x, n, s) }
pub open spec fn is_label_q(r: Rule) -> bool { r == Rule::label_quoted_name || r == Rule::label_single_quoted_name || r == Rule::label_quoted_value }
/// the tokens that are read as strings
pub open spec fn str_rule(r: Rule) -> bool {
    r == Rule::string || r == Rule::from_flag_name || r == Rule::from_flag_value || r == Rule::from_image || r == Rule::from_alias || r == Rule::misc_instruction
    || r == Rule::label_name || r == Rule::label_single_name || r == Rule::label_value || is_label_q(r) || r == Rule::env_name || env_quoted(r)
    || r == Rule::arg_name || r == Rule::arg_quoted_value || r == Rule::arg_value || r == Rule::copy_flag_name || r == Rule::copy_flag_value || r == Rule::copy_pathspec
}
/// a string of the text that is quoted and says nothing
pub open spec fn bad_str(n: PNode, s: Str) -> bool {
    valid(n, s) && str_rule(n.rule)
        && (if is_label_q(n.rule) { unq(clean(text(n, s))) is None } else if env_quoted(n.rule) { unq(text(n, s)) is None } else { plain(text(n, s)) is None })
}
pub open spec fn has_bad_str(s: Str) -> bool { exists|n: PNode| #[trigger] bad_str(n, s) }
pub open spec fn NAMES() -> RS { RS::C4(Rule::label_name, Rule::label_quoted_name, Rule::label_single_name, Rule::label_single_quoted_name) }
impl W for SpannedString {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        X_TEXT() ==> Some(self.content@) == (if is_label_q(n.rule) { unq(clean(text(n, s))) } else { plain(text(n, s)) })
    }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) }
    open spec fn c3(&self, s: Str) -> bool { rng(self.span, s) && Some(self.content@) == plain(src_at(self.span, s)) }
    open spec fn sp(&self) -> Span { self.span }
}
/// one name pair and one value pair inside n
pub open spec fn kv_w<T: W, U: W>(name: T, value: U, n: PNode, a: RS, b: RS, s: Str) -> bool {
    let x = sel(nkids(n), a); let y = sel(nkids(n), b);
    x.len() == 1 && y.len() == 1 && name.w(x[0], s) && value.w(y[0], s)
}
pub open spec fn kv_nest<T: W, U: W>(name: T, value: U, y: Span, s: Str) -> bool {
    rng(y, s) && name.nest(s) && value.nest(s) && within(name.sp(), y) && within(value.sp(), y) && name.sp().end <= value.sp().start
}
impl W for FromFlag {
    open spec fn w(&self, n: PNode, s: Str) -> bool { kv_w(self.name, self.value, n, RS::A(Rule::from_flag_name), RS::A(Rule::from_flag_value), s) }
    open spec fn nest(&self, s: Str) -> bool { kv_nest(self.name, self.value, self.span, s) }
    open spec fn c3(&self, s: Str) -> bool { self.name.c3(s) && self.value.c3(s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for CopyFlag {
    open spec fn w(&self, n: PNode, s: Str) -> bool { kv_w(self.name, self.value, n, RS::A(Rule::copy_flag_name), RS::A(Rule::copy_flag_value), s) }
    open spec fn nest(&self, s: Str) -> bool { kv_nest(self.name, self.value, self.span, s) }
    open spec fn c3(&self, s: Str) -> bool { self.name.c3(s) && self.value.c3(s) }
    open spec fn sp(&self) -> Span { self.span }
}
pub open spec fn lab_c3(x: SpannedString, s: Str) -> bool { rng(x.span, s) && Some(x.content@) == lab_val(src_at(x.span, s)) }
impl W for Label {
    open spec fn w(&self, n: PNode, s: Str) -> bool { kv_w(self.name, self.value, n, NAMES(), RS::B(Rule::label_value, Rule::label_quoted_value), s) }
    open spec fn nest(&self, s: Str) -> bool { kv_nest(self.name, self.value, self.span, s) }
    open spec fn c3(&self, s: Str) -> bool { lab_c3(self.name, s) && lab_c3(self.value, s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for LabelInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool { isp(self.span, n, s) && w_all(self.labels@, sel(nkids(n), RS::B(Rule::label_pair, Rule::label_single)), s) }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && nest_all(self.labels@, self.span.start as int, self.span.end as int, s) }
    open spec fn c3(&self, s: Str) -> bool { c3_all(self.labels@, s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for ArgInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        let a = sel(nkids(n), RS::A(Rule::arg_name)); let b = sel(nkids(n), RS::B(Rule::arg_value, Rule::arg_quoted_value));
        isp(self.span, n, s) && a.len() == 1 && self.name.w(a[0], s)
            && match self.value { None => b.len() == 0, Some(v) => b.len() == 1 && v.w(b[0], s) }
    }
    open spec fn nest(&self, s: Str) -> bool {
        rng(self.span, s) && self.name.nest(s) && within(self.name.span, self.span)
            && match self.value { None => true, Some(v) => v.nest(s) && within(v.span, self.span) && self.name.span.end <= v.span.start }
    }
    open spec fn c3(&self, s: Str) -> bool { self.name.c3(s) && match self.value { None => true, Some(v) => v.c3(s) } }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for CopyInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        isp(self.span, n, s) && w_all(self.flags@, sel(nkids(n), RS::A(Rule::copy_flag)), s)
            && w_all(self.sources@.push(self.destination), sel(nkids(n), RS::A(Rule::copy_pathspec)), s) && self.sources@.len() >= 1
    }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && nest_all(self.flags@, self.span.start as int, self.span.end as int, s) && nest_all(self.sources@.push(self.destination), self.span.start as int, self.span.end as int, s) }
    open spec fn c3(&self, s: Str) -> bool { c3_all(self.flags@, s) && c3_all(self.sources@.push(self.destination), s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for FromInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        let a = sel(nkids(n), RS::A(Rule::from_image)); let b = sel(nkids(n), RS::A(Rule::from_alias));
        isp(self.span, n, s) && w_all(self.flags@, sel(nkids(n), RS::A(Rule::from_flag)), s) && a.len() == 1 && self.image.w(a[0], s)
            && match self.alias { None => b.len() == 0, Some(v) => b.len() == 1 && v.w(b[0], s) }
    }
    open spec fn nest(&self, s: Str) -> bool {
        rng(self.span, s) && nest_all(self.flags@, self.span.start as int, self.span.end as int, s) && self.image.nest(s) && within(self.image.span, self.span)
            && match self.alias { None => true, Some(v) => v.nest(s) && within(v.span, self.span) && self.image.span.end <= v.span.start }
    }
    open spec fn c3(&self, s: Str) -> bool { c3_all(self.flags@, s) && self.image.c3(s) && match self.alias { None => true, Some(v) => v.c3(s) } }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for StringArray {
    open spec fn w(&self, n: PNode, s: Str) -> bool { vsp(self.span, n, s) && (X_ELEMS() ==> w_all(self.elements@, sel(nkids(n), RS::A(Rule::string)), s)) }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && nest_all(self.elements@, self.span.start as int, self.span.end as int, s) }
    open spec fn c3(&self, s: Str) -> bool { c3_all(self.elements@, s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for BreakableStringComponent {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        match *self {
            BreakableStringComponent::Comment(c) => n.rule == Rule::comment && vsp(c.span, n, s) && c.content@ == text(n, s),
            BreakableStringComponent::String(c) => n.rule == Rule::any_content && vsp(c.span, n, s) && c.content@ == text(n, s),
        }
    }
    open spec fn nest(&self, s: Str) -> bool { rng(self.sp(), s) }
    open spec fn c3(&self, s: Str) -> bool {
        rng(self.sp(), s) && src_at(self.sp(), s) == match *self { BreakableStringComponent::Comment(c) => c.content@, BreakableStringComponent::String(c) => c.content@ }
    }
    open spec fn sp(&self) -> Span { match *self { BreakableStringComponent::Comment(c) => c.span, BreakableStringComponent::String(c) => c.span } }
}
/// the pieces of a shell value: the pairs of its any_breakable
pub open spec fn pieces(n: PNode) -> Seq<PNode> { if n.rule == Rule::any_breakable { nkids(n) } else { nkids(nkids(n)[0]) } }
/// v is what parse_any_breakable makes of n (used where its pieces are another property's concern)
pub uninterp spec fn bs_of(v: BreakableString, n: PNode, s: Str) -> bool;
/// an ENV value that is not in shell form: one piece
pub open spec fn env_piece(v: BreakableString, t: Option<Str>) -> bool {
    v.components@.len() == 1 && match v.components@[0] { BreakableStringComponent::String(c) => Some(c.content@) == t, _ => false }
}
pub open spec fn env_quoted(r: Rule) -> bool { r == Rule::env_pair_quoted_value || r == Rule::env_single_quoted_value }
impl W for BreakableString {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        if env_quoted(n.rule) || n.rule == Rule::env_pair_value { X_TEXT() ==> env_piece(*self, if env_quoted(n.rule) { unq(text(n, s)) } else { Some(text(n, s)) }) }
        else if X_PIECES() { vsp(self.span, n, s) && w_all(self.components@, pieces(n), s) } else { bs_of(*self, n, s) }
    }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && nest_all(self.components@, self.span.start as int, self.span.end as int, s) }
    open spec fn c3(&self, s: Str) -> bool { c3_all(self.components@, s) }
    open spec fn sp(&self) -> Span { self.span }
}
/// an ENV value: as written, or without its quotes
pub struct Ev(pub BreakableString);
impl W for Ev {
    open spec fn w(&self, n: PNode, s: Str) -> bool { self.0.w(n, s) }
    open spec fn nest(&self, s: Str) -> bool { self.0.nest(s) }
    open spec fn c3(&self, s: Str) -> bool {
        c3_all(self.0.components@, s) || (rng(self.0.span, s) && env_piece(self.0, unq(src_at(self.0.span, s))) && enclosed(src_at(self.0.span, s)))
    }
    open spec fn sp(&self) -> Span { self.0.span }
    open spec fn c3n(&self, n: PNode, s: Str) -> bool { env_quoted(n.rule) ==> env_piece(self.0, unq(text(n, s))) }
}
pub open spec fn ev(o: Option<BreakableString>) -> Option<Ev> { match o { Some(x) => Some(Ev(x)), None => None } }
impl W for EnvVar {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        if n.rule == Rule::env_single { kv_w(self.key, self.value, n, RS::A(Rule::env_name), RS::B(Rule::env_single_value, Rule::env_single_quoted_value), s) }
        else { kv_w(self.key, self.value, n, RS::A(Rule::env_name), RS::B(Rule::env_pair_value, Rule::env_pair_quoted_value), s) }
    }
    open spec fn nest(&self, s: Str) -> bool { kv_nest(self.key, self.value, self.span, s) }
    open spec fn c3(&self, s: Str) -> bool { self.key.c3(s) && Ev(self.value).c3(s) }
    open spec fn sp(&self) -> Span { self.span }
}
/// the pairs an ENV instruction lists
pub open spec fn env_list(m: PNode) -> Seq<PNode> { if m.rule == Rule::env_single { seq![m] } else { sel(nkids(m), RS::A(Rule::env_pair)) } }
impl W for EnvInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool { isp(self.span, n, s) && nkids(n).len() == 1 && w_all(self.vars@, env_list(nkids(n)[0]), s) }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && nest_all(self.vars@, self.span.start as int, self.span.end as int, s) }
    open spec fn c3(&self, s: Str) -> bool { c3_all(self.vars@, s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for MiscInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool { isp(self.span, n, s) && kv_w(self.instruction, self.arguments, n, RS::A(Rule::misc_instruction), RS::A(Rule::misc_arguments), s) }
    open spec fn nest(&self, s: Str) -> bool { kv_nest(self.instruction, self.arguments, self.span, s) }
    open spec fn c3(&self, s: Str) -> bool { self.instruction.c3(s) && c3_all(self.arguments.components@, s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for ShellOrExecExpr {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        match *self {
            ShellOrExecExpr::Exec(a) => (n.rule == Rule::run_exec || n.rule == Rule::cmd_exec || n.rule == Rule::entrypoint_exec) && a.w(n, s),
            ShellOrExecExpr::Shell(b) => (n.rule == Rule::run_shell || n.rule == Rule::cmd_shell || n.rule == Rule::entrypoint_shell) && b.w(n, s),
        }
    }
    open spec fn nest(&self, s: Str) -> bool { match *self { ShellOrExecExpr::Exec(a) => a.nest(s), ShellOrExecExpr::Shell(b) => b.nest(s) } }
    open spec fn c3(&self, s: Str) -> bool { match *self { ShellOrExecExpr::Exec(a) => a.c3(s), ShellOrExecExpr::Shell(b) => c3_all(b.components@, s) } }
    open spec fn sp(&self) -> Span { match *self { ShellOrExecExpr::Exec(a) => a.span, ShellOrExecExpr::Shell(b) => b.span } }
}
pub open spec fn expr_w(x: ShellOrExecExpr, n: PNode, a: RS, s: Str) -> bool { let k = sel(nkids(n), a); k.len() == 1 && x.w(k[0], s) }
impl W for RunInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool { isp(self.span, n, s) && expr_w(self.expr, n, RS::B(Rule::run_exec, Rule::run_shell), s) }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && self.expr.nest(s) && within(self.expr.sp(), self.span) }
    open spec fn c3(&self, s: Str) -> bool { self.expr.c3(s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for CmdInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool { isp(self.span, n, s) && expr_w(self.expr, n, RS::B(Rule::cmd_exec, Rule::cmd_shell), s) }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && self.expr.nest(s) && within(self.expr.sp(), self.span) }
    open spec fn c3(&self, s: Str) -> bool { self.expr.c3(s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for EntrypointInstruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool { isp(self.span, n, s) && expr_w(self.expr, n, RS::B(Rule::entrypoint_exec, Rule::entrypoint_shell), s) }
    open spec fn nest(&self, s: Str) -> bool { rng(self.span, s) && self.expr.nest(s) && within(self.expr.sp(), self.span) }
    open spec fn c3(&self, s: Str) -> bool { self.expr.c3(s) }
    open spec fn sp(&self) -> Span { self.span }
}
impl W for Instruction {
    open spec fn w(&self, n: PNode, s: Str) -> bool {
        match *self {
            Instruction::From(x) => K(Rule::from) ==> (X_KIND() ==> n.rule == Rule::from) && (n.rule == Rule::from ==> x.w(n, s)),
            Instruction::Run(x) => K(Rule::run) ==> (X_KIND() ==> n.rule == Rule::run) && (n.rule == Rule::run ==> x.w(n, s)),
            Instruction::Arg(x) => K(Rule::arg) ==> (X_KIND() ==> n.rule == Rule::arg) && (n.rule == Rule::arg ==> x.w(n, s)),
            Instruction::Label(x) => K(Rule::label) ==> (X_KIND() ==> n.rule == Rule::label) && (n.rule == Rule::label ==> x.w(n, s)),
            Instruction::Copy(x) => K(Rule::copy) ==> (X_KIND() ==> n.rule == Rule::copy) && (n.rule == Rule::copy ==> x.w(n, s)),
            Instruction::Entrypoint(x) => K(Rule::entrypoint) ==> (X_KIND() ==> n.rule == Rule::entrypoint) && (n.rule == Rule::entrypoint ==> x.w(n, s)),
            Instruction::Cmd(x) => K(Rule::cmd) ==> (X_KIND() ==> n.rule == Rule::cmd) && (n.rule == Rule::cmd ==> x.w(n, s)),
            Instruction::Env(x) => K(Rule::env) ==> (X_KIND() ==> n.rule == Rule::env) && (n.rule == Rule::env ==> x.w(n, s)),
            Instruction::Misc(x) => K(Rule::misc) ==> (X_KIND() ==> n.rule == Rule::misc) && (n.rule == Rule::misc ==> x.w(n, s)),
        }
    }
    open spec fn nest(&self, s: Str) -> bool {
        match *self {
            Instruction::From(x) => K(Rule::from) ==> x.nest(s),
            Instruction::Run(x) => K(Rule::run) ==> x.nest(s),
            Instruction::Arg(x) => K(Rule::arg) ==> x.nest(s),
            Instruction::Label(x) => K(Rule::label) ==> x.nest(s),
            Instruction::Copy(x) => K(Rule::copy) ==> x.nest(s),
            Instruction::Entrypoint(x) => K(Rule::entrypoint) ==> x.nest(s),
            Instruction::Cmd(x) => K(Rule::cmd) ==> x.nest(s),
            Instruction::Env(x) => K(Rule::env) ==> x.nest(s),
            Instruction::Misc(x) => K(Rule::misc) ==> x.nest(s),
        }
    }
    open spec fn c3(&self, s: Str) -> bool {
        match *self {
            Instruction::From(x) => K(Rule::from) ==> x.c3(s),
            Instruction::Run(x) => K(Rule::run) ==> x.c3(s),
            Instruction::Arg(x) => K(Rule::arg) ==> x.c3(s),
            Instruction::Label(x) => K(Rule::label) ==> x.c3(s),
            Instruction::Copy(x) => K(Rule::copy) ==> x.c3(s),
            Instruction::Entrypoint(x) => K(Rule::entrypoint) ==> x.c3(s),
            Instruction::Cmd(x) => K(Rule::cmd) ==> x.c3(s),
            Instruction::Env(x) => K(Rule::env) ==> x.c3(s),
            Instruction::Misc(x) => K(Rule::misc) ==> x.c3(s),
        }
    }
    open spec fn sp(&self) -> Span {
        match *self {
            Instruction::From(x) => x.span,
            Instruction::Run(x) => x.span,
            Instruction::Arg(x) => x.span,
            Instruction::Label(x) => x.span,
            Instruction::Copy(x) => x.span,
            Instruction::Entrypoint(x) => x.span,
            Instruction::Cmd(x) => x.span,
            Instruction::Env(x) => x.span,
            Instruction::Misc(x) => x.span,
        }
    }
}
/// the number a FROM gets does not matter here
pub proof fn lemma_index(x: Instruction, y: Instruction, n: PNode, s: Str)
    requires one(x, n, s), match (x, y) { (Instruction::From(a), Instruction::From(b)) => b == (FromInstruction { index: b.index, ..a }), _ => x == y }
    ensures one(y, n, s)
{ reveal(one); }
pub proof fn lemma_many_wide<T: W>(v: Seq<T>, k: Seq<PNode>, lo: int, mid: int, hi: int, s: Str)
    requires many(v, k, lo, mid, s), bo(s, mid) <= bo(s, hi)
    ensures many(v, k, lo, hi, s)
{ reveal(many); }
