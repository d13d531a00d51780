// ---- stubs and lemmas for the source of enquote
pub trait Iterator { type Item; spec fn vseq(&self) -> Seq<Self::Item>; spec fn vpos(&self) -> int;
    fn v_next(&mut self) -> (r: Option<Self::Item>)
        requires 0 <= old(self).vpos() <= old(self).vseq().len()
        ensures final(self).vseq() == old(self).vseq(),
            old(self).vpos() < old(self).vseq().len() ==> r == Some(old(self).vseq()[old(self).vpos()]) && final(self).vpos() == old(self).vpos() + 1,
            old(self).vpos() >= old(self).vseq().len() ==> r is None && final(self).vpos() == old(self).vpos();
}
impl<T> Iterator for VIter<T> { type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self.seq() }
    open spec fn vpos(&self) -> int { self.pos() }
    fn v_next(&mut self) -> (r: Option<T>) { VIter::v_next(self) }
}
pub trait VDef: Sized { spec fn dflt() -> Self; }
impl VDef for char { open spec fn dflt() -> char { '\0' } }
pub trait VOptD<T>: Sized { spec fn od(self) -> Option<T>; fn v_unwrap_or_default(self) -> (r: T) where T: VDef ensures self.od() is Some ==> r == self.od()->Some_0, self.od() is None ==> r == T::dflt(); }
impl<T> VOptD<T> for Option<T> { open spec fn od(self) -> Option<T> { self }
    #[verifier::external_body] fn v_unwrap_or_default(self) -> (r: T) where T: VDef { unimplemented!() } }
#[verifier::external_body]
pub fn v_concat(a: String, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub struct VIntError { x: () }
#[verifier::external_body]
pub fn v_u8_radix<S: VStr + ?Sized>(s: &S, base: u32) -> (r: core::result::Result<u8, VIntError>)
    ensures match r { Ok(x) => radix_of(s.vs(), base as int, 255) == Some(x as int), Err(_) => radix_of(s.vs(), base as int, 255) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u32_radix<S: VStr + ?Sized>(s: &S, base: u32) -> (r: core::result::Result<u32, VIntError>)
    ensures match r { Ok(x) => radix_of(s.vs(), base as int, 0xFFFF_FFFF) == Some(x as int), Err(_) => radix_of(s.vs(), base as int, 0xFFFF_FFFF) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_from_u32(n: u32) -> (r: Option<char>) ensures r == scalar(n as int) { unimplemented!() }
/// what remains to be decoded, put after what has been
pub open spec fn so_far(out: Str, rest: Option<Str>) -> Option<Str> { match rest { Some(x) => Some(out + x), None => None } }
proof fn lemma_short(t: Str, base: int, max: int)
    requires t.len() >= 2, t.last() == '\0', base <= 36
    ensures radix_of(t, base, max) is None
{
    reveal(radix_of);
    if radix_of(t, base, max) is Some {
        if t[0] == '+' { let d = t.skip(1); assert(d[d.len() - 1] == t.last()); assert(digit_of(d[d.len() - 1], base) >= 0); }
        else { assert(digit_of(t[t.len() - 1], base) >= 0); }
    }
}
/// an escape is cut off by the end of the text: it stands for nothing
proof fn lemma_cut(s: Str)
    requires s.len() >= 2
    ensures match esc_of(s) { Some((c, k)) => 2 <= k <= s.len(), None => true }
{
    let e = s[1];
    if s.len() < 4 { lemma_short(seq![e] + grab(s, 2, 2), 8, 255); lemma_short(grab(s, 2, 2), 16, 255); }
    if s.len() < 6 { lemma_short(grab(s, 2, 4), 16, 0xFFFF_FFFF); }
    if s.len() < 10 { lemma_short(grab(s, 2, 8), 16, 0xFFFF_FFFF); }
}
proof fn lemma_step(s: Str, p: int)
    requires 0 <= p < s.len()
    ensures s.skip(p)[0] == s[p], s.skip(p).skip(1) == s.skip(p + 1), s.skip(p).len() == s.len() - p,
        p + 1 < s.len() ==> s.skip(p)[1] == s[p + 1],
        forall|n: int| 0 <= n ==> #[trigger] grab(s.skip(p), 2, n) == grab(s, p + 2, n),
        forall|k: int| 0 <= k <= s.len() - p ==> #[trigger] s.skip(p).skip(k) == s.skip(p + k),
{
    assert(s.skip(p).skip(1) =~= s.skip(p + 1));
    assert forall|n: int| 0 <= n implies #[trigger] grab(s.skip(p), 2, n) == grab(s, p + 2, n) by { assert(grab(s.skip(p), 2, n) =~= grab(s, p + 2, n)); }
    assert forall|k: int| 0 <= k <= s.len() - p implies #[trigger] s.skip(p).skip(k) == s.skip(p + k) by { assert(s.skip(p).skip(k) =~= s.skip(p + k)); }
}
proof fn lemma_inside(s: Str)
    requires s.len() >= 2, (s[0] as u32) < 128, (s.last() as u32) < 128
    ensures is_bo(s, 1), ci(s, 1) == 1, blen(s) >= 2, is_bo(s, blen(s) - 1), ci(s, blen(s) - 1) == s.len() - 1
{
    let n = s.len() as int;
    lemma_bo_add(s, 0, 1); lemma_bo_mono(s, 0, 1); lemma_blen_ascii(s.subrange(0, 1)); lemma_ci(s, 1);
    lemma_bo_add(s, n - 1, n); lemma_bo_mono(s, n - 1, n); lemma_blen_ascii(s.subrange(n - 1, n)); lemma_ci(s, n - 1);
    lemma_bo_mono(s, 1, n - 1);
}
