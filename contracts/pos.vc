#fn Position::at_start
#spec
    requires well_placed(*self)
    ensures r == (char_no(*self) == 0)
#mark entry
    lemma_bo_mono(self.input@, 0, char_no(*self));
#fn Position::at_end
#spec
    requires well_placed(*self)
    ensures r == (char_no(*self) == self.input@.len())
#mark entry
    lemma_bo_mono(self.input@, self.input@.len() as int, char_no(*self));
#fn Position::skip
#spec
    requires well_placed(*old(self))
    ensures r == (char_no(*old(self)) + n <= old(self).input@.len()), r ==> moved(*old(self), *final(self), n as int), !r ==> *final(self) == *old(self)
#mark entry
//raw
    let ghost s = self.input@; let ghost i = char_no(*self); let ghost t = s.skip(i);
    proof { axiom_str_len(self.input); lemma_bo_mono(t, 0, 0); lemma_bo_mono(s, i, i); }
#loop 0
    invariant
        *self == *old(self), s == self.input@, i == char_no(*self), 0 <= i <= s.len(), t == s.skip(i), bo(s, i) == self.pos, blen(s) <= isize::MAX,
        chars.seq() == t, chars.pos() == $i0, 0 <= $i0 <= t.len(), $i0 <= n, len == bo(t, $i0),
#mark loop0_start
//raw
    let ghost k = chars.pos();
    proof { if k < t.len() {
        lemma_bo_add(t, k, k + 1); assert(t.subrange(k, k + 1) =~= seq![t[k]]);
        lemma_bo_mono(t, k + 1, k); lemma_blen_concat(s.take(i), t); assert(s =~= s.take(i) + t); lemma_bo_mono(t, t.len() as int, 0);
    } }
#mark let_skipped
    let m = n as int;
    assert(s.take(i) + t =~= s);
    lemma_bo_concat(s.take(i), t, m);
    lemma_bo_mono(s, i, i + m); lemma_bo_mono(s, i + m, i);
#fn Position::match_range
#spec
    requires well_placed(*old(self))
    ensures r == (char_no(*old(self)) < old(self).input@.len() && range.start <= old(self).input@[char_no(*old(self))] && old(self).input@[char_no(*old(self))] <= range.end),
        r ==> moved(*old(self), *final(self), 1), !r ==> *final(self) == *old(self)
#mark entry
    let s = self.input@; let i = char_no(*self);
    axiom_str_len(self.input);
    if i < s.len() { lemma_bo_add(s, i, i + 1); assert(s.subrange(i, i + 1) =~= seq![s[i]]); lemma_bo_mono(s, i + 1, i); }
#fn Position::match_string
#spec
    requires well_placed(*old(self))
    ensures r == ahead(*old(self), string@), r ==> moved(*old(self), *final(self), string@.len() as int), !r ==> *final(self) == *old(self)
#mark entry
    axiom_str_len(self.input); axiom_str_len(string); lemma_bo_mono(self.input@, char_no(*self), 0); lemma_bytes_ahead(*self, string@);
#fn Position::match_insensitive
#spec
    requires well_placed(*old(self))
    ensures r == ahead_any_case(*old(self), string@), r ==> moved(*old(self), *final(self), string@.len() as int), !r ==> *final(self) == *old(self)
#mark entry
    axiom_str_len(self.input); lemma_case_ahead(*self, string@);
