pub proof fn lemma_word_end(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures i <= word_end(s, i) <= s.len(), forall|j: int| i <= j < word_end(s, i) ==> word(s[j]), word_end(s, i) < s.len() ==> !word(s[word_end(s, i)])
    decreases s.len() - i
{ if i < s.len() && word(s[i]) { lemma_word_end(s, i + 1); } }
pub proof fn lemma_ref_at(s: Str, i: int)
    ensures ref_at(s, i) is Some ==> ({ let r = ref_at(s, i)->Some_0; r.start == i && i < r.ns < r.ne <= r.end <= s.len() })
{
    if 0 <= i < s.len() { lemma_word_end(s, i + 1); if i + 1 < s.len() { lemma_word_end(s, i + 2); } }
}
pub proof fn lemma_refs(s: Str, p: int)
    requires 0 <= p
    ensures forall|k: int| 0 <= k < refs(s, p).len() ==> ({ let r = #[trigger] refs(s, p)[k]; p <= r.start < r.ns < r.ne <= r.end <= s.len() }),
        forall|j: int, k: int| 0 <= j < k < refs(s, p).len() ==> (#[trigger] refs(s, p)[j]).end <= (#[trigger] refs(s, p)[k]).start,
    decreases s.len() - p
{
    if p < s.len() {
        lemma_ref_at(s, p);
        reveal_with_fuel(refs, 2);
        match ref_at(s, p) {
            Some(r) => {
                lemma_refs(s, r.end);
                let t = refs(s, r.end);
                assert(refs(s, p) == seq![r] + t);
                assert forall|k: int| 0 <= k < refs(s, p).len() implies ({ let r = #[trigger] refs(s, p)[k]; p <= r.start < r.ns < r.ne <= r.end <= s.len() }) by { if k > 0 { assert(refs(s, p)[k] == t[k - 1]); } }
                assert forall|j: int, k: int| 0 <= j < k < refs(s, p).len() implies (#[trigger] refs(s, p)[j]).end <= (#[trigger] refs(s, p)[k]).start by {
                    assert(refs(s, p)[k] == t[k - 1]); if j > 0 { assert(refs(s, p)[j] == t[j - 1]); }
                }
            }
            None => { lemma_refs(s, p + 1); assert(refs(s, p) == refs(s, p + 1)); }
        }
    } else { assert(refs(s, p).len() == 0); }
}

// ---- the pattern in the source finds exactly these references
pub proof fn lemma_run(c: Cls, s: Str, i: int)
    requires 0 <= i <= s.len(), forall|x: char| in_cls(c, x) == word(x)
    ensures run_end(c, s, i) == word_end(s, i)
    decreases s.len() - i
{ if i < s.len() { if word(s[i]) { lemma_run(c, s, i + 1); } } }
/// nothing follows the repetition: the longest run is taken
pub proof fn lemma_try_cap(c: Cls, n: int, st: int, s: Str, i: int, j: int, caps: Caps)
    requires i <= j
    ensures re_try(c, 1, Stk::CapEnd(n, st, Box::new(Stk::Nil)), s, i, j, caps) == (if j > i { Some((j, caps.insert(n, (st, j)))) } else { None })
{ reveal_with_fuel(re_m, 4); reveal_with_fuel(re_try, 3); }
/// a closing character that is not in the class follows: only the longest run can match
pub proof fn lemma_try_close(c: Cls, n: int, st: int, d: char, s: Str, i: int, j: int, caps: Caps)
    requires 0 <= i <= j <= s.len(), !in_cls(c, d), forall|k: int| i <= k < j ==> in_cls(c, s[k])
    ensures re_try(c, 1, Stk::CapEnd(n, st, Box::new(Stk::Push(Re::Chr(d), Box::new(Stk::Nil)))), s, i, j, caps)
        == (if j > i && j < s.len() && s[j] == d { Some((j + 1, caps.insert(n, (st, j)))) } else { None })
    decreases j - i
{
    reveal_with_fuel(re_m, 4); reveal_with_fuel(re_try, 2);
    let k = Stk::CapEnd(n, st, Box::new(Stk::Push(Re::Chr(d), Box::new(Stk::Nil))));
    assert(re_m(k, s, j, caps) == (if j < s.len() && s[j] == d { Some((j + 1, caps.insert(n, (st, j)))) } else { None }));
    if j > i {
        assert(in_cls(c, s[j - 1]));
        lemma_try_close(c, n, st, d, s, i, j - 1, caps);
        assert(re_try(c, 1, k, s, i, j - 1, caps) is None);
    }
}
pub open spec fn caps_of(r: Ref) -> (int, int, Caps) {
    (r.start, r.end, Map::<int, (int, int)>::empty().insert(if r.ne == r.end { 1int } else { 2int }, (r.ns, r.ne)))
}
pub proof fn lemma_var_at(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures re_at(re_VAR(), s, i) == (match ref_at(s, i) { Some(r) => Some((r.end, caps_of(r).2)), None => None })
{
    reveal_with_fuel(re_m, 12);
    reveal_with_fuel(in_cls, 6);
    if i < s.len() && s[i] == '$' {
        lemma_word_end(s, i + 1);
        assert forall|x: char| in_cls(cls_var(), x) == word(x) by { }
        lemma_run(cls_var(), s, i + 1);
        lemma_try_cap(cls_var(), 1, i + 1, s, i + 1, word_end(s, i + 1), Map::empty());
        if i + 1 < s.len() && s[i + 1] == '{' {
            lemma_word_end(s, i + 2);
            lemma_run(cls_var(), s, i + 2);
            lemma_try_close(cls_var(), 2, i + 2, '}', s, i + 2, word_end(s, i + 2), Map::empty());
        }
    }
}
pub open spec fn cls_var() -> Cls {
    Cls::Or(Box::new(Cls::One(48, 57)), Box::new(Cls::Or(Box::new(Cls::One(65, 90)), Box::new(Cls::Or(Box::new(Cls::One(95, 95)), Box::new(Cls::One(97, 122)))))))
}
pub proof fn lemma_var_all(s: Str, p: int)
    requires 0 <= p <= s.len()
    ensures re_all(re_VAR(), s, p).len() == refs(s, p).len(),
        forall|k: int| 0 <= k < refs(s, p).len() ==> #[trigger] re_all(re_VAR(), s, p)[k] == caps_of(refs(s, p)[k]),
    decreases s.len() - p
{
    lemma_var_at(s, p);
    lemma_ref_at(s, p);
    match ref_at(s, p) {
        Some(r) => {
            lemma_var_all(s, r.end);
            assert forall|k: int| 0 <= k < refs(s, p).len() implies #[trigger] re_all(re_VAR(), s, p)[k] == caps_of(refs(s, p)[k]) by {
                if k > 0 { assert(re_all(re_VAR(), s, p)[k] == re_all(re_VAR(), s, r.end)[k - 1]); }
            }
        }
        None => { if p < s.len() { lemma_var_all(s, p + 1); } else { reveal_with_fuel(re_all, 3); } }
    }
}

