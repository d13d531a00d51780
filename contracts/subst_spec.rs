// C11: references, and what substitution means
pub open spec fn word(c: char) -> bool { ('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || c == '_' || ('a' <= c && c <= 'z') }
/// end of the maximal run of word characters from i
pub open spec fn word_end(s: Str, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && word(s[i]) { word_end(s, i + 1) } else { i } }
pub ghost struct Ref { pub start: int, pub end: int, pub ns: int, pub ne: int }
/// the reference that starts at i, if any: `$name` or `${name}`
pub open spec fn ref_at(s: Str, i: int) -> Option<Ref> {
    if !(0 <= i < s.len() && s[i] == '$') { None }
    else if word_end(s, i + 1) > i + 1 { Some(Ref { start: i, end: word_end(s, i + 1), ns: i + 1, ne: word_end(s, i + 1) }) }
    else if i + 1 < s.len() && s[i + 1] == '{' && word_end(s, i + 2) > i + 2 && word_end(s, i + 2) < s.len() && s[word_end(s, i + 2)] == '}' {
        Some(Ref { start: i, end: word_end(s, i + 2) + 1, ns: i + 2, ne: word_end(s, i + 2) })
    } else { None }
}
/// all references from position p on, left to right
pub open spec fn refs(s: Str, p: int) -> Seq<Ref>
    decreases s.len() - p
{
    if p < 0 || p >= s.len() { seq![] } else {
        match ref_at(s, p) {
            Some(r) => if p < r.end <= s.len() { seq![r] + refs(s, r.end) } else { seq![] },
            None => refs(s, p + 1),
        }
    }
}
pub open spec fn name_of(s: Str, r: Ref) -> Str { s.subrange(r.ns, r.ne) }
// ---- substitution
pub open spec fn subst(s: Str, vars: Map<Str, Str>, d: nat) -> Option<Str>
    decreases d, 1int
{
    let rs = refs(s, 0);
    if rs.len() == 0 { Some(s) }
    else if d == 0 { None }
    else if forall|k: int| 0 <= k < rs.len() ==> vars.contains_key(name_of(s, #[trigger] rs[k])) && subst(vars[name_of(s, rs[k])], vars, (d - 1) as nat) is Some {
        Some(sim(s, sub_edits(s, vars, d, rs.len() as int)))
    } else { None }
}
/// each of the first n references replaced by its variable's substituted value
pub open spec fn sub_edits(s: Str, vars: Map<Str, Str>, d: nat, n: int) -> Seq<Edit>
    decreases d, 0int
{
    Seq::new(n as nat, |k: int| Edit { s: refs(s, 0)[k].start, e: refs(s, 0)[k].end,
        rep: if d > 0 { match subst(vars[name_of(s, refs(s, 0)[k])], vars, (d - 1) as nat) { Some(t) => t, None => seq![] } } else { seq![] } })
}
/// the variables the first n references of s use, directly or indirectly
pub open spec fn used(s: Str, vars: Map<Str, Str>, d: nat, n: int) -> Set<Str>
    decreases d, n
{
    if n <= 0 || d == 0 { Set::empty() } else {
        let v = name_of(s, refs(s, 0)[n - 1]);
        used(s, vars, d, n - 1) + used(vars[v], vars, (d - 1) as nat, refs(vars[v], 0).len() as int) + set![v]
    }
}
