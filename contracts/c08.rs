// C08: any number of disjoint, non-empty spans of the document, in any order.
pub open spec fn edits_of(doc: Str, spans: Seq<(usize, usize)>, reps: Seq<Str>, k: int) -> Seq<Edit> {
    Seq::new(k as nat, |i: int| Edit { s: ci(doc, spans[i].0 as int), e: ci(doc, spans[i].1 as int), rep: reps[i] })
}
#[verifier::loop_isolation(false)]
fn c08_splice_all(d: &Dockerfile, spans: &Vec<(usize, usize)>, reps: &Vec<String>) -> (r: String)
    requires
        spans@.len() == reps@.len(),
        forall|i: int| 0 <= i < spans@.len() ==> is_bo(d.content@, (#[trigger] spans@[i]).0 as int) && is_bo(d.content@, spans@[i].1 as int) && spans@[i].0 < spans@[i].1,
        forall|i: int, j: int| 0 <= i < spans@.len() && 0 <= j < spans@.len() && i != j ==> (#[trigger] spans@[i]).1 <= (#[trigger] spans@[j]).0 || spans@[j].1 <= spans@[i].0,
    ensures r@ == sim(d.content@, edits_of(d.content@, spans@, reps@.map_values(|s: String| s@), spans@.len() as int)),
{
    proof { axiom_string_len(&d.content); }
    let ghost doc = d.content@;
    let ghost rp = reps@.map_values(|s: String| s@);
    let mut sp = Splicer::from(d);
    let mut i: usize = 0;
    assert(edits_of(doc, spans@, rp, 0) =~= Seq::<Edit>::empty());
    while i < spans.len()
        invariant 0 <= i <= spans@.len(), spl_ok(doc, edits_of(doc, spans@, rp, i as int), sp), ed_disj(doc, edits_of(doc, spans@, rp, i as int))
        decreases spans@.len() - i
    {
        let span = Span::new(spans[i].0, spans[i].1);
        let ghost ed = edits_of(doc, spans@, rp, i as int);
        let ghost s = ci(doc, spans@[i as int].0 as int);
        let ghost e = ci(doc, spans@[i as int].1 as int);
        proof {
            lemma_bo_mono(doc, s, e);
            assert(disjoint_from(ed, s, e)) by {
                assert forall|j: int| 0 <= j < ed.len() implies (#[trigger] ed[j]).e <= s || e <= ed[j].s by {
                    assert(spans@[i as int].1 <= spans@[j].0 || spans@[j].1 <= spans@[i as int].0);
                    assert(is_bo(doc, spans@[j].0 as int) && is_bo(doc, spans@[j].1 as int));
                    lemma_bo_mono(doc, ed[j].e, s);
                    lemma_bo_mono(doc, e, ed[j].s);
                }
            }
            lemma_apart(doc, ed, Edit { s, e, rep: reps@[i as int]@ });
            assert(spl_pre(doc, ed, sp, span, s, e));
        }
        let ghost rep = reps@[i as int]@;
        sp.splice(&span, reps[i].as_str());
        proof {
            assert(rp[i as int] == rep);
            assert(edits_of(doc, spans@, rp, i + 1) =~= ed.push(Edit { s, e, rep }));
        }
        i += 1;
    }
    proof { lemma_disjoint(doc, edits_of(doc, spans@, rp, spans@.len() as int)); }
    sp.content
}

// C08, in general: a span may enclose spans replaced before; its replacement
// then stands for all of it.
#[verifier::loop_isolation(false)]
fn c08_splice_nested(d: &Dockerfile, spans: &Vec<(usize, usize)>, reps: &Vec<String>) -> (r: String)
    requires
        spans@.len() == reps@.len(),
        forall|i: int| 0 <= i < spans@.len() ==> is_bo(d.content@, (#[trigger] spans@[i]).0 as int) && is_bo(d.content@, spans@[i].1 as int) && spans@[i].0 < spans@[i].1,
        forall|i: int, j: int| 0 <= i < j < spans@.len() ==> (#[trigger] spans@[i]).1 <= (#[trigger] spans@[j]).0 || spans@[j].1 <= spans@[i].0
            || (spans@[j].0 <= spans@[i].0 && spans@[i].1 <= spans@[j].1),
    ensures r@ == edited(d.content@, edits_of(d.content@, spans@, reps@.map_values(|s: String| s@), spans@.len() as int)),
{
    proof { axiom_string_len(&d.content); }
    let ghost doc = d.content@;
    let ghost rp = reps@.map_values(|s: String| s@);
    let mut sp = d.splicer();
    let mut i: usize = 0;
    assert(edits_of(doc, spans@, rp, 0) =~= Seq::<Edit>::empty());
    while i < spans.len()
        invariant 0 <= i <= spans@.len(), spl_ok(doc, edits_of(doc, spans@, rp, i as int), sp)
        decreases spans@.len() - i
    {
        let span = Span::new(spans[i].0, spans[i].1);
        let ghost ed = edits_of(doc, spans@, rp, i as int);
        let ghost s = ci(doc, spans@[i as int].0 as int);
        let ghost e = ci(doc, spans@[i as int].1 as int);
        proof {
            lemma_bo_mono(doc, s, e);
            assert(under(ed, s, e)) by {
                assert forall|j: int| 0 <= j < ed.len() implies (#[trigger] ed[j]).e <= s || e <= ed[j].s || (s <= ed[j].s && ed[j].e <= e) by {
                    assert(is_bo(doc, spans@[j].0 as int) && is_bo(doc, spans@[j].1 as int));
                    let _ = (spans@[j], spans@[i as int]);
                    lemma_bo_mono(doc, ed[j].e, s);
                    lemma_bo_mono(doc, e, ed[j].s);
                    lemma_bo_mono(doc, s, ed[j].s);
                    lemma_bo_mono(doc, ed[j].e, e);
                }
            }
            assert(spl_pre(doc, ed, sp, span, s, e));
        }
        let ghost rep = reps@[i as int]@;
        sp.splice(&span, reps[i].as_str());
        proof {
            assert(rp[i as int] == rep);
            assert(edits_of(doc, spans@, rp, i + 1) =~= ed.push(Edit { s, e, rep }));
        }
        i += 1;
    }
    sp.content
}
// what `edited` says: a replaced span reads as its replacement, the text before
// and after it as it did
proof fn c08_edited(doc: Str, ed: Seq<Edit>, x: Edit)
    requires 0 <= x.s < x.e <= doc.len()
    ensures edited(doc, ed) == now(doc, ed, 0, x.s) + now(doc, ed, x.s, x.e) + now(doc, ed, x.e, doc.len() as int),
        edited(doc, ed.push(x)) == now(doc, ed, 0, x.s) + x.rep + now(doc, ed, x.e, doc.len() as int),
        edited(doc, Seq::empty()) == doc,
{ lemma_shift(doc, ed, x, doc.len() as int); lemma_edited_empty(doc); }
