#fn substitute
#spec
    ensures match r {
            Some(t) => subst(s@, vars.mv(), max_recursion_depth as nat) == Some(t@)
                && final(used_vars).sv() == old(used_vars).sv() + used(s@, vars.mv(), max_recursion_depth as nat, refs(s@, 0).len() as int),
            None => subst(s@, vars.mv(), max_recursion_depth as nat) is None },
    decreases max_recursion_depth
#mark entry
//raw
    let ghost d = max_recursion_depth as nat;
    let ghost used0 = used_vars.sv();
    let ghost rs = refs(s@, 0);
    let ghost doc = s@;
    proof { lemma_var_all(doc, 0); lemma_refs(doc, 0); axiom_str_len(s); }
#mark loop0_before
    assert(sub_edits(doc, vars.mv(), d, 0) =~= Seq::empty());
    assert(used0 + Set::<Str>::empty() =~= used0);
#loop 0
    invariant
        d == max_recursion_depth, doc == s@, rs == refs(doc, 0), $s0.len() == rs.len(),
        forall|i: int| 0 <= i < $s0.len() ==> (#[trigger] $s0[i]).text() == doc && $s0[i].m() == caps_of(rs[i]),
        $i0 > 0 ==> d > 0,
        forall|k: int| 0 <= k < $i0 ==> vars.mv().contains_key(name_of(doc, #[trigger] rs[k])) && subst(vars.mv()[name_of(doc, rs[k])], vars.mv(), (d - 1) as nat) is Some,
        spl_ok(doc, sub_edits(doc, vars.mv(), d, $i0), splicer),
        ed_disj(doc, sub_edits(doc, vars.mv(), d, $i0)),
        used_vars.sv() == used0 + used(doc, vars.mv(), d, $i0),
#mark loop0_start
//raw
    let ghost k = $i0 - 1;
    let ghost spl0 = splicer;
    proof {
        assert($s0[k].text() == doc && $s0[k].m() == caps_of(rs[k]));
        let _ = rs[k];
        lemma_bo_mono(doc, rs[k].start, rs[k].end);
    }
#mark let_substituted_content
    let ed = sub_edits(doc, vars.mv(), d, k);
    assert(disjoint_from(ed, rs[k].start, rs[k].end)) by { assert forall|j: int| 0 <= j < ed.len() implies (#[trigger] ed[j]).e <= rs[k].start || rs[k].end <= ed[j].s by { assert(rs[j].end <= rs[k].start); } }
    lemma_apart(doc, ed, Edit { s: rs[k].start, e: rs[k].end, rep: substituted_content@ });
    assert(spl_pre(doc, ed, splicer, Span { start: full_range.start, end: full_range.end }, rs[k].start, rs[k].end));
    assert(sub_edits(doc, vars.mv(), d, k + 1) =~= ed.push(Edit { s: rs[k].start, e: rs[k].end, rep: substituted_content@ }));
#mark loop0_end
    assert(used_vars.sv() =~= used0 + used(doc, vars.mv(), d, k + 1));
#mark loop0_after
    lemma_disjoint(doc, sub_edits(doc, vars.mv(), d, $i0));
