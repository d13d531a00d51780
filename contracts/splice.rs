// ---------------------------------------------------------------------------
// Replacing spans of a document, one after the other (C08, used by C11).
// Positions are character indices of the original document; `bo` maps them to
// the byte offsets the API uses.  The edited document is a row of cells, one
// per original character; replacing a span puts the replacement into its first
// cell and empties the others.
// ---------------------------------------------------------------------------
pub ghost struct Edit { pub s: int, pub e: int, pub rep: Str }

#[verifier::opaque]
pub open spec fn cells(doc: Str, ed: Seq<Edit>) -> Seq<Str>
    decreases ed.len()
{
    if ed.len() == 0 { Seq::new(doc.len(), |p: int| seq![doc[p]]) }
    else {
        let x = ed.last();
        let c = cells(doc, ed.drop_last());
        Seq::new(doc.len(), |p: int| if p == x.s { x.rep } else if x.s < p < x.e { Seq::empty() } else { c[p] })
    }
}
pub open spec fn cat(c: Seq<Str>, a: int, b: int) -> Str
    decreases b - a
{
    if a >= b { Seq::empty() } else { cat(c, a, b - 1) + c[b - 1] }
}
/// what now stands for the characters a..b of the document
#[verifier::opaque]
pub open spec fn now(doc: Str, ed: Seq<Edit>, a: int, b: int) -> Str { cat(cells(doc, ed), a, b) }
/// the document after the edits
pub open spec fn edited(doc: Str, ed: Seq<Edit>) -> Str { now(doc, ed, 0, doc.len() as int) }
/// byte position, in the edited document, of original character position p
pub open spec fn newpos(doc: Str, ed: Seq<Edit>, p: int) -> int { blen(now(doc, ed, 0, p)) as int }

/// every edit is apart from s..e or lies within it
pub open spec fn under(ed: Seq<Edit>, s: int, e: int) -> bool {
    forall|i: int| 0 <= i < ed.len() ==> (#[trigger] ed[i]).e <= s || e <= ed[i].s || (s <= ed[i].s && ed[i].e <= e)
}
/// s..e can be replaced after the edits `ed`: it encloses or avoids each of them
pub open spec fn can_edit(doc: Str, ed: Seq<Edit>, s: int, e: int) -> bool {
    0 <= s < e <= doc.len() && under(ed, s, e)
}
#[verifier::opaque]
pub open spec fn ed_ok(doc: Str, ed: Seq<Edit>) -> bool {
    forall|i: int| 0 <= i < ed.len() ==> can_edit(doc, ed.take(i), (#[trigger] ed[i]).s, ed[i].e)
}

pub proof fn lemma_cat(c: Seq<Str>, a: int, b: int, d: int)
    requires a <= b <= d
    ensures cat(c, a, d) == cat(c, a, b) + cat(c, b, d)
    decreases d - b
{
    if b == d {
        assert(cat(c, a, b) + Seq::<char>::empty() =~= cat(c, a, b));
    } else {
        lemma_cat(c, a, b, d - 1);
        assert(cat(c, a, b) + (cat(c, b, d - 1) + c[d - 1]) =~= (cat(c, a, b) + cat(c, b, d - 1)) + c[d - 1]);
    }
}
pub proof fn lemma_cat_same(c: Seq<Str>, d: Seq<Str>, a: int, b: int)
    requires forall|p: int| a <= p < b ==> c[p] == d[p]
    ensures cat(c, a, b) == cat(d, a, b)
    decreases b - a
{ if a < b { lemma_cat_same(c, d, a, b - 1); assert(c[b - 1] == d[b - 1]); } }
pub proof fn lemma_cat_new(c: Seq<Str>, rep: Str, s: int, b: int)
    requires s < b, c[s] == rep, forall|p: int| s < p < b ==> (#[trigger] c[p]).len() == 0
    ensures cat(c, s, b) == rep
    decreases b - s
{
    assert(cat(c, s, b) == cat(c, s, b - 1) + c[b - 1]);
    if b == s + 1 {
        assert(cat(c, s, s) =~= Seq::empty());
        assert(Seq::<char>::empty() + rep =~= rep);
    } else {
        lemma_cat_new(c, rep, s, b - 1);
        assert(c[b - 1].len() == 0);
        assert(rep + c[b - 1] =~= rep);
    }
}
pub proof fn lemma_cells_push(doc: Str, ed: Seq<Edit>, x: Edit)
    ensures forall|p: int| 0 <= p < doc.len() ==> #[trigger] cells(doc, ed.push(x))[p]
        == (if p == x.s { x.rep } else if x.s < p < x.e { Seq::empty() } else { cells(doc, ed)[p] })
{ reveal(cells); assert(ed.push(x).drop_last() =~= ed); assert(ed.push(x).last() == x); }

/// a further edit changes nothing before or after itself
pub proof fn lemma_frame(doc: Str, ed: Seq<Edit>, x: Edit, a: int, b: int)
    requires 0 <= a, b <= doc.len(), b <= x.s || x.e <= a, 0 <= x.s < x.e
    ensures now(doc, ed.push(x), a, b) == now(doc, ed, a, b)
{ reveal(now);
    lemma_cells_push(doc, ed, x);
    lemma_cat_same(cells(doc, ed.push(x)), cells(doc, ed), a, b);
}
/// the further span itself now reads as its replacement
pub proof fn lemma_new(doc: Str, ed: Seq<Edit>, x: Edit)
    requires 0 <= x.s < x.e <= doc.len()
    ensures now(doc, ed.push(x), x.s, x.e) == x.rep
{ reveal(now);
    lemma_cells_push(doc, ed, x);
    lemma_cat_new(cells(doc, ed.push(x)), x.rep, x.s, x.e);
}
/// the text around a span, before and after replacing it
pub proof fn lemma_shift(doc: Str, ed: Seq<Edit>, x: Edit, p: int)
    requires 0 <= x.s < x.e <= p <= doc.len()
    ensures newpos(doc, ed.push(x), p) == newpos(doc, ed, p) + blen(x.rep) - (newpos(doc, ed, x.e) - newpos(doc, ed, x.s)),
        now(doc, ed, 0, p) == now(doc, ed, 0, x.s) + now(doc, ed, x.s, x.e) + now(doc, ed, x.e, p),
        now(doc, ed.push(x), 0, p) == now(doc, ed, 0, x.s) + x.rep + now(doc, ed, x.e, p),
        newpos(doc, ed, x.e) == newpos(doc, ed, x.s) + blen(now(doc, ed, x.s, x.e)),
{ reveal(now);
    let n = ed.push(x);
    lemma_cat(cells(doc, n), 0, x.s, x.e);
    lemma_cat(cells(doc, n), 0, x.e, p);
    lemma_cat(cells(doc, ed), 0, x.s, x.e);
    lemma_cat(cells(doc, ed), 0, x.e, p);
    lemma_frame(doc, ed, x, 0, x.s);
    lemma_frame(doc, ed, x, x.e, p);
    lemma_new(doc, ed, x);
    let a = now(doc, ed, 0, x.s);
    lemma_blen_concat(a, x.rep);
    lemma_blen_concat(a, now(doc, ed, x.s, x.e));
    lemma_blen_concat(a + x.rep, now(doc, ed, x.e, p));
    lemma_blen_concat(a + now(doc, ed, x.s, x.e), now(doc, ed, x.e, p));
}
pub proof fn lemma_newpos_mono(doc: Str, ed: Seq<Edit>, p: int, q: int)
    requires 0 <= p <= q
    ensures newpos(doc, ed, q) == newpos(doc, ed, p) + blen(now(doc, ed, p, q)), 0 <= newpos(doc, ed, p) <= newpos(doc, ed, q)
{ reveal(now);
    lemma_cat(cells(doc, ed), 0, p, q);
    lemma_blen_concat(now(doc, ed, 0, p), now(doc, ed, p, q));
}
/// how one further edit moves the ends of another span, apart from it or around it
pub proof fn lemma_pos_step(doc: Str, ed: Seq<Edit>, x: Edit, s: int, e: int)
    requires can_edit(doc, ed, x.s, x.e), 0 <= s < e <= doc.len(), x.e <= s || e <= x.s || (s <= x.s && x.e <= e)
    ensures ({ let d = blen(x.rep) - (newpos(doc, ed, x.e) - newpos(doc, ed, x.s));
        let (a, b) = (newpos(doc, ed, s), newpos(doc, ed, e));
        let (a2, b2) = (newpos(doc, ed.push(x), s), newpos(doc, ed.push(x), e));
        &&& 0 <= a <= b <= blen(edited(doc, ed)) && 0 <= a2 <= b2 <= blen(edited(doc, ed.push(x)))
        &&& (x.s < s ==> a2 == a + d && b2 == b + d)
        &&& (s <= x.s < e ==> a2 == a && b2 == b + d)
        &&& (e <= x.s ==> a2 == a && b2 == b) })
{
    let n = ed.push(x);
    lemma_newpos_mono(doc, ed, s, e);
    lemma_newpos_mono(doc, n, s, e);
    lemma_newpos_mono(doc, ed, e, doc.len() as int);
    lemma_newpos_mono(doc, n, e, doc.len() as int);
    if x.e <= s {
        lemma_shift(doc, ed, x, s);
        lemma_shift(doc, ed, x, e);
    } else if e <= x.s {
        lemma_frame(doc, ed, x, 0, s);
        lemma_frame(doc, ed, x, 0, e);
    } else {
        lemma_frame(doc, ed, x, 0, s);
        lemma_shift(doc, ed, x, e);
    }
}

pub proof fn lemma_ed_take(doc: Str, ed: Seq<Edit>, k: int)
    requires ed_ok(doc, ed), 0 <= k <= ed.len()
    ensures ed_ok(doc, ed.take(k))
{ reveal(ed_ok);
    let t = ed.take(k);
    assert forall|i: int| 0 <= i < t.len() implies can_edit(doc, t.take(i), (#[trigger] t[i]).s, t[i].e) by {
        assert(t[i] == ed[i]); assert(t.take(i) =~= ed.take(i));
    }
}
pub proof fn lemma_ed_push(doc: Str, ed: Seq<Edit>, x: Edit)
    requires ed_ok(doc, ed), can_edit(doc, ed, x.s, x.e)
    ensures ed_ok(doc, ed.push(x))
{ reveal(ed_ok);
    let n = ed.push(x);
    assert forall|i: int| 0 <= i < n.len() implies can_edit(doc, n.take(i), (#[trigger] n[i]).s, n[i].e) by {
        if i < ed.len() { assert(n[i] == ed[i]); assert(n.take(i) =~= ed.take(i)); }
        else { assert(n[i] == x); assert(n.take(i) =~= ed); }
    }
}
pub proof fn lemma_edited_empty(doc: Str)
    ensures edited(doc, Seq::empty()) == doc, ed_ok(doc, Seq::empty()),
        forall|p: int| 0 <= p <= doc.len() ==> #[trigger] newpos(doc, Seq::empty(), p) == bo(doc, p)
{ reveal(ed_ok); reveal(now);
    lemma_cat_plain(doc, doc.len() as int);
    assert(doc.take(doc.len() as int) =~= doc);
    assert forall|p: int| 0 <= p <= doc.len() implies #[trigger] newpos(doc, Seq::empty(), p) == bo(doc, p) by { lemma_cat_plain(doc, p); }
}
pub proof fn lemma_cat_plain(doc: Str, b: int)
    requires 0 <= b <= doc.len()
    ensures now(doc, Seq::empty(), 0, b) == doc.take(b)
    decreases b
{ reveal(cells); reveal(now);
    if b == 0 { assert(doc.take(0) =~= Seq::empty()); }
    else {
        lemma_cat_plain(doc, b - 1);
        assert(doc.take(b) =~= doc.take(b - 1) + seq![doc[b - 1]]);
        assert(cells(doc, Seq::empty())[b - 1] == seq![doc[b - 1]]);
    }
}

// ------------------------------------------------------------ representation

pub open spec fn offs_ok(doc: Str, ed: Seq<Edit>, offs: Seq<SpliceOffset>) -> bool {
    &&& offs.len() == ed.len()
    &&& forall|k: int| 0 <= k < ed.len() ==> (#[trigger] offs[k]).position == bo(doc, ed[k].s)
            && offs[k].offset == blen(ed[k].rep) - (newpos(doc, ed.take(k), ed[k].e) - newpos(doc, ed.take(k), ed[k].s))
    &&& forall|k: int| 0 <= k <= ed.len() ==> blen(edited(doc, #[trigger] ed.take(k))) <= isize::MAX
}
/// representation invariant: the splicer holds `doc` with the edits `ed` done
pub open spec fn spl_ok(doc: Str, ed: Seq<Edit>, sp: Splicer) -> bool {
    ed_ok(doc, ed) && sp.content@ == edited(doc, ed) && offs_ok(doc, ed, sp.splice_offsets@)
}
pub open spec fn span_at(doc: Str, sp: Span, s: int, e: int) -> bool {
    0 <= s < e <= doc.len() && sp.start == bo(doc, s) && sp.end == bo(doc, e)
}
pub open spec fn adj_pre(doc: Str, ed: Seq<Edit>, offs: Seq<SpliceOffset>, sp: Span, s: int, e: int) -> bool {
    ed_ok(doc, ed) && offs_ok(doc, ed, offs) && span_at(doc, sp, s, e) && under(ed, s, e)
}
pub open spec fn spl_pre(doc: Str, ed: Seq<Edit>, sp: Splicer, span: Span, s: int, e: int) -> bool {
    spl_ok(doc, ed, sp) && span_at(doc, span, s, e) && can_edit(doc, ed, s, e)
}

pub proof fn lemma_adj_step(doc: Str, ed: Seq<Edit>, offs: Seq<SpliceOffset>, sp: Span, s: int, e: int, i: int)
    requires adj_pre(doc, ed, offs, sp, s, e), 0 <= i < offs.len()
    ensures ({ let a = newpos(doc, ed.take(i), s); let b = newpos(doc, ed.take(i), e);
        let a2 = newpos(doc, ed.take(i + 1), s); let b2 = newpos(doc, ed.take(i + 1), e);
        &&& 0 <= a <= b <= isize::MAX && 0 <= a2 <= b2 <= isize::MAX
        &&& (offs[i].position < sp.start ==> a2 == a + offs[i].offset && b2 == b + offs[i].offset)
        &&& (sp.start <= offs[i].position < sp.end ==> a2 == a && b2 == b + offs[i].offset)
        &&& (offs[i].position >= sp.end ==> a2 == a && b2 == b) })
{ reveal(ed_ok);
    lemma_bo_mono(doc, ed[i].s, s);
    lemma_bo_mono(doc, ed[i].s, e);
    lemma_bo_mono(doc, s, e);
    let t = ed.take(i);
    let x = ed[i];
    assert(ed.take(i + 1) =~= t.push(x));
    assert(can_edit(doc, t, x.s, x.e));
    lemma_pos_step(doc, t, x, s, e);
    assert(blen(edited(doc, ed.take(i))) <= isize::MAX);
    assert(blen(edited(doc, ed.take(i + 1))) <= isize::MAX);
}

pub proof fn lemma_adj_init(doc: Str, ed: Seq<Edit>, offs: Seq<SpliceOffset>, sp: Span, s: int, e: int)
    requires adj_pre(doc, ed, offs, sp, s, e)
    ensures newpos(doc, ed.take(0), s) == sp.start, newpos(doc, ed.take(0), e) == sp.end, blen(doc) <= isize::MAX,
        sp.start <= isize::MAX, sp.end <= isize::MAX
{
    assert(ed.take(0) =~= Seq::empty());
    lemma_edited_empty(doc);
    assert(blen(edited(doc, ed.take(0))) <= isize::MAX);
    lemma_bo_mono(doc, s, e);
    lemma_bo_mono(doc, e, e);
}

/// everything `splice` needs about the current buffer and the adjusted span
pub proof fn lemma_splice_here(doc: Str, ed: Seq<Edit>, sp: Splicer, span: Span, s: int, e: int)
    requires spl_pre(doc, ed, sp, span, s, e)
    ensures adj_pre(doc, ed, sp.splice_offsets@, span, s, e),
        ed.take(ed.len() as int) == ed,
        ({ let a = now(doc, ed, 0, s); let m = now(doc, ed, s, e); let c = now(doc, ed, e, doc.len() as int);
           let b = newpos(doc, ed, s); let b2 = newpos(doc, ed, e);
           &&& sp.content@ == a + m + c
           &&& is_bo(sp.content@, b) && sp.content@.take(ci(sp.content@, b)) == a && sp.content@.skip(ci(sp.content@, b)) == m + c
           &&& is_bo(sp.content@, b2) && sp.content@.take(ci(sp.content@, b2)) == a + m && sp.content@.skip(ci(sp.content@, b2)) == c
           &&& b2 >= b && b2 <= isize::MAX
           &&& is_bo(m + c, b2 - b) && (m + c).take(ci(m + c, b2 - b)) == m && (m + c).skip(ci(m + c, b2 - b)) == c })
{
    let n = doc.len() as int;
    let a = now(doc, ed, 0, s); let m = now(doc, ed, s, e); let c = now(doc, ed, e, n);
    assert(ed.take(ed.len() as int) =~= ed);
    lemma_shift(doc, ed, Edit { s, e, rep: Seq::empty() }, n);
    lemma_newpos_mono(doc, ed, s, e);
    lemma_newpos_mono(doc, ed, e, n);
    let t = sp.content@;
    assert(t =~= a + (m + c));
    assert(t.take(a.len() as int) =~= a);
    lemma_ci(t, a.len() as int);
    assert(t.skip(a.len() as int) =~= m + c);
    assert((m + c).take(m.len() as int) =~= m);
    lemma_ci(m + c, m.len() as int);
    assert((m + c).skip(m.len() as int) =~= c);
    assert(t =~= (a + m) + c);
    lemma_bo_add(t, a.len() as int, (a.len() + m.len()) as int);
    assert(t.subrange(a.len() as int, (a.len() + m.len()) as int) =~= m);
    assert(t.take((a.len() + m.len()) as int) =~= a + m);
    assert(t.skip((a.len() + m.len()) as int) =~= c);
    lemma_ci(t, (a.len() + m.len()) as int);
}

pub proof fn lemma_splice_done(doc: Str, ed: Seq<Edit>, sp: Splicer, span: Span, s: int, e: int, rep: Str, after: Splicer)
    requires spl_pre(doc, ed, sp, span, s, e),
        after.splice_offsets@.len() == sp.splice_offsets@.len() + 1,
        forall|k: int| 0 <= k < sp.splice_offsets@.len() ==> after.splice_offsets@[k] == sp.splice_offsets@[k],
        after.splice_offsets@.last().position == bo(doc, s),
        after.splice_offsets@.last().offset == blen(rep) - (newpos(doc, ed, e) - newpos(doc, ed, s)),
        after.content@ == now(doc, ed, 0, s) + rep + now(doc, ed, e, doc.len() as int),
        blen(after.content@) <= isize::MAX,
    ensures spl_ok(doc, ed.push(Edit { s, e, rep }), after)
{
    let x = Edit { s, e, rep };
    let n = ed.push(x);
    lemma_ed_push(doc, ed, x);
    lemma_shift(doc, ed, x, doc.len() as int);
    let offs = after.splice_offsets@;
    assert forall|k: int| 0 <= k < n.len() implies (#[trigger] offs[k]).position == bo(doc, n[k].s)
            && offs[k].offset == blen(n[k].rep) - (newpos(doc, n.take(k), n[k].e) - newpos(doc, n.take(k), n[k].s)) by {
        assert(n.take(k) =~= ed.take(k));
        if k < ed.len() { assert(n[k] == ed[k]); assert(sp.splice_offsets@[k] == offs[k]); }
        else { assert(n[k] == x); assert(ed.take(k) =~= ed); }
    }
    assert forall|k: int| 0 <= k <= n.len() implies blen(edited(doc, #[trigger] n.take(k))) <= isize::MAX by {
        if k <= ed.len() { assert(n.take(k) =~= ed.take(k)); } else { assert(n.take(k) =~= n); }
    }
}

// ------------------------------------------- pairwise disjoint spans: all at once

pub open spec fn disjoint_from(ed: Seq<Edit>, s: int, e: int) -> bool {
    forall|i: int| 0 <= i < ed.len() ==> (#[trigger] ed[i]).e <= s || e <= ed[i].s
}
pub open spec fn ed_disj(doc: Str, ed: Seq<Edit>) -> bool {
    &&& forall|i: int| 0 <= i < ed.len() ==> 0 <= (#[trigger] ed[i]).s < ed[i].e <= doc.len()
    &&& forall|i: int, j: int| 0 <= i < ed.len() && 0 <= j < ed.len() && i != j
            ==> (#[trigger] ed[i]).e <= (#[trigger] ed[j]).s || ed[j].e <= ed[i].s
}
pub open spec fn starts_at(ed: Seq<Edit>, i: int, p: int) -> bool { 0 <= i < ed.len() && ed[i].s == p }
pub open spec fn inside(ed: Seq<Edit>, i: int, p: int) -> bool { 0 <= i < ed.len() && ed[i].s < p < ed[i].e }
/// what position p of the document contributes to the result: the replacement
/// text where a span starts, nothing inside a span, else the character itself
pub open spec fn piece(doc: Str, ed: Seq<Edit>, p: int) -> Str {
    if exists|i: int| starts_at(ed, i, p) { ed[choose|i: int| starts_at(ed, i, p)].rep }
    else if exists|i: int| inside(ed, i, p) { Seq::empty() }
    else { seq![doc[p]] }
}
pub open spec fn flat(doc: Str, ed: Seq<Edit>, a: int, b: int) -> Str
    decreases b - a
{
    if a >= b { Seq::empty() } else { flat(doc, ed, a, b - 1) + piece(doc, ed, b - 1) }
}
/// the document with every span replaced, all at once
pub open spec fn sim(doc: Str, ed: Seq<Edit>) -> Str { flat(doc, ed, 0, doc.len() as int) }

/// a cell holds the character, the replacement of the span that starts there, or nothing
pub proof fn lemma_cell(doc: Str, ed: Seq<Edit>, p: int)
    requires ed_disj(doc, ed), 0 <= p < doc.len()
    ensures forall|i: int| starts_at(ed, i, p) ==> cells(doc, ed)[p] == ed[i].rep,
        forall|i: int| inside(ed, i, p) ==> cells(doc, ed)[p] == Seq::<char>::empty() && !(exists|j: int| starts_at(ed, j, p)),
        (forall|i: int| 0 <= i < ed.len() ==> !((#[trigger] ed[i]).s <= p < ed[i].e)) ==> cells(doc, ed)[p] == seq![doc[p]],
    decreases ed.len()
{ reveal(cells);
    assert forall|i: int| inside(ed, i, p) implies !(exists|j: int| starts_at(ed, j, p)) by {
        if exists|j: int| starts_at(ed, j, p) { let j = choose|j: int| starts_at(ed, j, p); assert(i != j); assert(ed[i].e <= ed[j].s || ed[j].e <= ed[i].s); }
    }
    if ed.len() > 0 {
        let d = ed.drop_last();
        let n = ed.len() - 1;
        assert(ed_disj(doc, d)) by {
            assert forall|i: int| 0 <= i < d.len() implies 0 <= (#[trigger] d[i]).s < d[i].e <= doc.len() by { assert(d[i] == ed[i]); }
            assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j
                implies (#[trigger] d[i]).e <= (#[trigger] d[j]).s || d[j].e <= d[i].s by { assert(d[i] == ed[i] && d[j] == ed[j]); }
        }
        lemma_cell(doc, d, p);
        assert forall|i: int| starts_at(ed, i, p) implies cells(doc, ed)[p] == ed[i].rep by {
            if i < n { assert(starts_at(d, i, p)); assert(d[i] == ed[i]); assert(ed[i].e <= ed[n].s || ed[n].e <= ed[i].s); }
        }
        assert forall|i: int| inside(ed, i, p) implies cells(doc, ed)[p] == Seq::<char>::empty() by {
            if i < n { assert(inside(d, i, p)); assert(d[i] == ed[i]); assert(ed[i].e <= ed[n].s || ed[n].e <= ed[i].s); }
        }
        if forall|i: int| 0 <= i < ed.len() ==> !((#[trigger] ed[i]).s <= p < ed[i].e) {
            assert forall|i: int| 0 <= i < d.len() implies !((#[trigger] d[i]).s <= p < d[i].e) by { assert(d[i] == ed[i]); }
            assert(!(ed[n].s <= p < ed[n].e));
        }
    }
}
/// replacing disjoint spans one after the other, in any order, replaces them all at once
pub proof fn lemma_disjoint(doc: Str, ed: Seq<Edit>)
    requires ed_disj(doc, ed)
    ensures edited(doc, ed) == sim(doc, ed)
{ lemma_flat(doc, ed, doc.len() as int); }
pub proof fn lemma_flat(doc: Str, ed: Seq<Edit>, b: int)
    requires ed_disj(doc, ed), 0 <= b <= doc.len()
    ensures now(doc, ed, 0, b) == flat(doc, ed, 0, b)
    decreases b
{ reveal(now);
    if b > 0 {
        let p = b - 1;
        lemma_flat(doc, ed, p);
        lemma_cell(doc, ed, p);
        if exists|i: int| starts_at(ed, i, p) { let i = choose|i: int| starts_at(ed, i, p); assert(starts_at(ed, i, p)); }
        else if exists|i: int| inside(ed, i, p) { let i = choose|i: int| inside(ed, i, p); assert(inside(ed, i, p)); }
        else {
            assert forall|i: int| 0 <= i < ed.len() implies !((#[trigger] ed[i]).s <= p < ed[i].e) by {
                if ed[i].s == p { assert(starts_at(ed, i, p)); } else if ed[i].s < p < ed[i].e { assert(inside(ed, i, p)); }
            }
        }
        assert(cells(doc, ed)[p] == piece(doc, ed, p));
    }
}
/// a span apart from all the edits can be replaced next
pub proof fn lemma_apart(doc: Str, ed: Seq<Edit>, x: Edit)
    requires ed_disj(doc, ed), 0 <= x.s < x.e <= doc.len(), disjoint_from(ed, x.s, x.e)
    ensures can_edit(doc, ed, x.s, x.e), ed_disj(doc, ed.push(x))
{
    assert(under(ed, x.s, x.e)) by { assert forall|i: int| 0 <= i < ed.len() implies (#[trigger] ed[i]).e <= x.s || x.e <= ed[i].s by { let _ = ed[i].e; } }
    let n = ed.push(x);
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j
        implies (#[trigger] n[i]).e <= (#[trigger] n[j]).s || n[j].e <= n[i].s by {
        if i < ed.len() && j < ed.len() { assert(n[i] == ed[i] && n[j] == ed[j]); }
        else if i < ed.len() { assert(n[i] == ed[i] && n[j] == x); }
        else { assert(n[i] == x && n[j] == ed[j]); }
    }
    assert forall|i: int| 0 <= i < n.len() implies 0 <= (#[trigger] n[i]).s < n[i].e <= doc.len() by {
        if i < ed.len() { assert(n[i] == ed[i]); } else { assert(n[i] == x); }
    }
}
