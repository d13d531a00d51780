// Trusted stubs: the std operations the extracted code uses, with contracts.
// Everything `external_body` or `axiom` here is an assumption (listed in the
// evidence); everything else is verified.
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, non_camel_case_types, unused_assignments, unreachable_code, unused_must_use, unreachable_patterns, private_interfaces)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;

/// two Strings with the same characters are the same specification value
pub mod vaxioms {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b {}
}
}
use vaxioms::*;

verus! {

pub type Str = Seq<char>;

// ------------------------------------------------------------ byte lengths

pub open spec fn blen(s: Str) -> nat { encode_utf8(s).len() }
/// byte offset of the i-th character
pub open spec fn bo(s: Str, i: int) -> int { blen(s.take(i)) as int }

pub proof fn lemma_blen_concat(a: Str, b: Str)
    ensures blen(a + b) == blen(a) + blen(b)
{ encode_utf8_concat(a, b); }

pub proof fn lemma_blen_empty()
    ensures blen(Seq::<char>::empty()) == 0
{
    let e = Seq::<char>::empty();
    assert(e + e =~= e);
    lemma_blen_concat(e, e);
}

pub proof fn lemma_blen_pos(s: Str)
    requires s.len() > 0
    ensures blen(s) > 0
{
    if blen(s) == 0 {
        lemma_blen_empty();
        let e = Seq::<char>::empty();
        assert(encode_utf8(s) =~= encode_utf8(e));
        encode_utf8_decode_utf8(s);
        encode_utf8_decode_utf8(e);
        assert(false);
    }
}

pub proof fn lemma_blen_ascii(s: Str)
    requires is_ascii_chars(s)
    ensures blen(s) == s.len()
{ is_ascii_chars_encode_utf8(s); }

pub proof fn lemma_bo_add(s: Str, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bo(s, j) == bo(s, i) + blen(s.subrange(i, j))
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lemma_blen_concat(s.take(i), s.subrange(i, j));
}

pub proof fn lemma_bo_mono(s: Str, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len()
    ensures (i < j) == (bo(s, i) < bo(s, j)), (i == j) == (bo(s, i) == bo(s, j)),
        0 <= bo(s, i) <= blen(s), bo(s, 0) == 0, bo(s, s.len() as int) == blen(s)
{
    lemma_blen_empty();
    assert(s.take(0) =~= Seq::empty());
    assert(s.take(s.len() as int) =~= s);
    lemma_bo_add(s, i, s.len() as int);
    if i < j { lemma_bo_add(s, i, j); lemma_blen_pos(s.subrange(i, j)); }
    if j < i { lemma_bo_add(s, j, i); lemma_blen_pos(s.subrange(j, i)); }
}

pub proof fn lemma_bo_concat(a: Str, b: Str, i: int)
    requires 0 <= i <= b.len()
    ensures bo(a + b, a.len() + i) == blen(a) + bo(b, i)
{
    assert((a + b).take(a.len() + i) =~= a + b.take(i));
    lemma_blen_concat(a, b.take(i));
}

/// a character boundary: some character index has this byte offset
pub open spec fn is_bo(s: Str, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && b == #[trigger] bo(s, i) }
pub open spec fn ci(s: Str, b: int) -> int { choose|i: int| 0 <= i <= s.len() && b == #[trigger] bo(s, i) }

pub proof fn lemma_ci(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures is_bo(s, bo(s, i)), ci(s, bo(s, i)) == i
{
    let j = ci(s, bo(s, i));
    assert(0 <= j <= s.len() && bo(s, i) == bo(s, j));
    lemma_bo_mono(s, i, j);
}

/// every string in memory is shorter than isize::MAX bytes (guaranteed by Rust)
#[verifier::external_body]
pub proof fn axiom_string_len(s: &String) ensures blen(s@) <= isize::MAX {}
#[verifier::external_body]
pub proof fn axiom_str_len(s: &str) ensures blen(s@) <= isize::MAX {}

// -------------------------------------------------------------- lengths

pub trait VLen {
    spec fn v_len_spec(&self) -> nat;
    fn v_len(&self) -> (r: usize) ensures r == self.v_len_spec(), r <= isize::MAX;
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.v_len_spec() == 0);
}
impl VLen for str {
    open spec fn v_len_spec(&self) -> nat { blen(self@) }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VLen for String {
    open spec fn v_len_spec(&self) -> nat { blen(self@) }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl<T> VLen for Vec<T> {
    open spec fn v_len_spec(&self) -> nat { self@.len() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl<T> VLen for [T] {
    open spec fn v_len_spec(&self) -> nat { self@.len() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}

// -------------------------------------------------------------- iterators

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: core::marker::PhantomData<T> }
impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<T> { self.seq().skip(self.pos()) }
    #[verifier::external_body]
    pub fn v_next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len(),
        ensures final(self).seq() == old(self).seq(),
            old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect(self) -> (r: Vec<T>)
        requires self.pos() == 0
        ensures r@ == self.seq(), r@.len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VIter<(usize, T)>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == i && r.seq()[i].1 == self.seq()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_rev(self) -> (r: VIter<T>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == self.seq().reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_skip(self, n: usize) -> (r: VIter<T>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_take(self, n: usize) -> (r: VIter<T>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().take(n as int) } else { self.seq() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_last(self) -> (r: Option<T>)
        requires self.pos() == 0
        ensures self.seq().len() == 0 ==> r is None, self.seq().len() > 0 ==> r == Some(self.seq().last())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_viter<T>(v: Vec<T>) -> (r: VIter<T>) ensures r.seq() == v@, r.pos() == 0 { unimplemented!() }

pub trait VIntoIter: Sized {
    type VItem;
    spec fn v_seq(self) -> Seq<Self::VItem>;
    spec fn v_ready(self) -> bool;
    fn v_iter(self) -> (r: VIter<Self::VItem>)
        requires self.v_ready()
        ensures r.seq() == self.v_seq(), r.pos() == 0, r.seq().len() <= usize::MAX;
    fn v_into_iter(self) -> (r: VIter<Self::VItem>)
        requires self.v_ready()
        ensures r.seq() == self.v_seq(), r.pos() == 0, r.seq().len() <= usize::MAX;
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type VItem = &'a T;
    open spec fn v_seq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn v_ready(self) -> bool { true }
    #[verifier::external_body] fn v_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type VItem = &'a T;
    open spec fn v_seq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn v_ready(self) -> bool { true }
    #[verifier::external_body] fn v_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type VItem = T;
    open spec fn v_seq(self) -> Seq<T> { self@ }
    open spec fn v_ready(self) -> bool { true }
    #[verifier::external_body] fn v_iter(self) -> (r: VIter<T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<T> VIntoIter for VIter<T> {
    type VItem = T;
    open spec fn v_seq(self) -> Seq<T> { self.seq() }
    open spec fn v_ready(self) -> bool { self.pos() == 0 }
    #[verifier::external_body] fn v_iter(self) -> (r: VIter<T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_range_iter(a: usize, b: usize) -> (r: VIter<usize>)
    ensures r.pos() == 0, r.seq().len() == (if a <= b { b - a } else { 0 }),
        forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == a + i
{ unimplemented!() }

pub trait VVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn v_get(&self, i: usize) -> (r: Option<&T>)
        ensures i < self.vv().len() ==> r is Some && *r->Some_0 == self.vv()[i as int], i >= self.vv().len() ==> r is None;
    fn v_last(&self) -> (r: Option<&T>)
        ensures self.vv().len() > 0 ==> r is Some && *r->Some_0 == self.vv().last(), self.vv().len() == 0 ==> r is None;
    fn v_first(&self) -> (r: Option<&T>)
        ensures self.vv().len() > 0 ==> r is Some && *r->Some_0 == self.vv()[0], self.vv().len() == 0 ==> r is None;
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { self.get(i) }
    #[verifier::external_body] fn v_last(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body] fn v_first(&self) -> (r: Option<&T>) { self.first() }
}
pub trait VVecMut<T> {
    fn v_extend<I: VIntoIter<VItem = T>>(&mut self, it: I);
}
pub trait VLastMut<T> {
    spec fn vl(&self) -> Seq<T>;
    fn v_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            None => old(self).vl().len() == 0 && final(self).vl() == old(self).vl(),
            Some(x) => old(self).vl().len() > 0 && *x == old(self).vl().last() && final(self).vl() == old(self).vl().update(old(self).vl().len() - 1, *final(x)) };
}
impl<T> VLastMut<T> for Vec<T> {
    open spec fn vl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@, N == 1 ==> r@ == seq![a@[0]] { unimplemented!() }
#[verifier::external_body]
pub fn v_vec_extend<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }

// ------------------------------------------------------------- equality

pub trait VEq<B: ?Sized> {
    spec fn v_eq_spec(&self, o: &B) -> bool;
    fn v_eq(&self, o: &B) -> (r: bool) ensures r == self.v_eq_spec(o);
}
pub fn v_eq<A: ?Sized + VEq<B>, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.v_eq_spec(b) { a.v_eq(b) }
macro_rules! veq_prim { ($($t:ty),*) => { $( verus!{
impl VEq<$t> for $t { open spec fn v_eq_spec(&self, o: &$t) -> bool { *self == *o }
  fn v_eq(&self, o: &$t) -> (r: bool) { *self == *o } }
} )* } }
veq_prim!(usize, isize, u8, u16, u32, u64, i32, i64, bool, char);
macro_rules! veq_str { ($($a:ty, $b:ty);*) => { $( verus!{
impl VEq<$b> for $a { open spec fn v_eq_spec(&self, o: &$b) -> bool { self@ == o@ }
  #[verifier::external_body] fn v_eq(&self, o: &$b) -> (r: bool) { unimplemented!() } }
} )* } }
veq_str!(str, str; str, String; String, str; String, String);
impl<'a, 'b, A: ?Sized + VEq<B>, B: ?Sized> VEq<&'b B> for &'a A {
    open spec fn v_eq_spec(&self, o: &&'b B) -> bool { (**self).v_eq_spec(*o) }
    fn v_eq(&self, o: &&'b B) -> (r: bool) { (**self).v_eq(*o) }
}
impl<'b> VEq<&'b str> for String {
    open spec fn v_eq_spec(&self, o: &&'b str) -> bool { self@ == o@ }
    #[verifier::external_body] fn v_eq(&self, o: &&'b str) -> (r: bool) { unimplemented!() }
}
impl<'b> VEq<String> for &'b str {
    open spec fn v_eq_spec(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body] fn v_eq(&self, o: &String) -> (r: bool) { unimplemented!() }
}
impl<A: VEq<A>> VEq<Option<A>> for Option<A> {
    open spec fn v_eq_spec(&self, o: &Option<A>) -> bool {
        match (*self, *o) { (Some(a), Some(b)) => a.v_eq_spec(&b), (None, None) => true, _ => false }
    }
    fn v_eq(&self, o: &Option<A>) -> (r: bool) {
        match (self, o) { (Some(a), Some(b)) => a.v_eq(b), (None, None) => true, _ => false }
    }
}

// ------------------------------------------------------- panics, options

#[verifier::external_body]
/// PANICS: the unit also proves that nothing panics; otherwise what the code
/// returns is described, assuming it returns
pub fn v_panic<T>() -> (r: T) requires !PANICS() ensures false { unimplemented!() }

pub trait VOpt<T>: Sized {
    spec fn vo(self) -> Option<T>;
    fn v_unwrap_or(self, d: T) -> (r: T) ensures self.vo() is Some ==> r == self.vo()->Some_0, self.vo() is None ==> r == d;
    fn v_unwrap(self) -> (r: T) requires PANICS() ==> self.vo() is Some ensures self.vo() is Some, r == self.vo()->Some_0;
    fn v_expect(self, m: &str) -> (r: T) requires PANICS() ==> self.vo() is Some ensures self.vo() is Some, r == self.vo()->Some_0;
    fn v_ok_or<E>(self, e: E) -> (r: core::result::Result<T, E>)
        ensures self.vo() is Some ==> r == core::result::Result::<T, E>::Ok(self.vo()->Some_0), self.vo() is None ==> r == core::result::Result::<T, E>::Err(e);
    fn v_or(self, o: Option<T>) -> (r: Option<T>) ensures r == (if self.vo() is Some { self.vo() } else { o });
}
impl<T> VOpt<T> for Option<T> {
    open spec fn vo(self) -> Option<T> { self }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } }
    fn v_unwrap(self) -> (r: T) { match self { Some(x) => x, None => v_panic() } }
    fn v_expect(self, m: &str) -> (r: T) { match self { Some(x) => x, None => v_panic() } }
    fn v_ok_or<E>(self, e: E) -> (r: core::result::Result<T, E>) { match self { Some(x) => Ok(x), None => Err(e) } }
    fn v_or(self, o: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => o } }
}
impl<T, E> VOpt<T> for core::result::Result<T, E> {
    open spec fn vo(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } }
    fn v_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => v_panic() } }
    fn v_expect(self, m: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => v_panic() } }
    fn v_ok_or<E2>(self, e: E2) -> (r: core::result::Result<T, E2>) { match self { Ok(x) => Ok(x), Err(_) => Err(e) } }
    fn v_or(self, o: Option<T>) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => o } }
}
pub trait VResOk<T>: Sized {
    spec fn vr(self) -> Option<T>;
    fn v_ok(self) -> (r: Option<T>) ensures r == self.vr();
}
impl<T, E> VResOk<T> for core::result::Result<T, E> {
    open spec fn vr(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_ok(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}
pub trait VTryInto<B>: Sized {
    spec fn v_ti(self) -> Option<B>;
    fn v_try_into(self) -> (r: core::result::Result<B, ()>) ensures r is Ok <==> self.v_ti() is Some, r is Ok ==> r->Ok_0 == self.v_ti()->Some_0;
}
impl VTryInto<usize> for isize {
    open spec fn v_ti(self) -> Option<usize> { if self >= 0 { Some(self as usize) } else { None } }
    fn v_try_into(self) -> (r: core::result::Result<usize, ()>) { if self >= 0 { Ok(self as usize) } else { Err(()) } }
}
impl VTryInto<isize> for usize {
    open spec fn v_ti(self) -> Option<isize> { if self <= isize::MAX { Some(self as isize) } else { None } }
    fn v_try_into(self) -> (r: core::result::Result<isize, ()>) { if self <= isize::MAX as usize { Ok(self as isize) } else { Err(()) } }
}
pub trait VSat: Sized {
    spec fn v_int(self) -> int;
    fn v_saturating_sub(self, o: Self) -> (r: Self) ensures r.v_int() == (if self.v_int() >= o.v_int() { self.v_int() - o.v_int() } else { 0 });
    fn v_checked_sub(self, o: Self) -> (r: Option<Self>) ensures self.v_int() >= o.v_int() ==> r is Some && r->Some_0.v_int() == self.v_int() - o.v_int(), self.v_int() < o.v_int() ==> r is None;
}
impl VSat for u8 {
    open spec fn v_int(self) -> int { self as int }
    fn v_saturating_sub(self, o: u8) -> (r: u8) { if self >= o { self - o } else { 0 } }
    fn v_checked_sub(self, o: u8) -> (r: Option<u8>) { if self >= o { Some((self - o) as u8) } else { None } }
}
impl VSat for usize {
    open spec fn v_int(self) -> int { self as int }
    fn v_saturating_sub(self, o: usize) -> (r: usize) { if self >= o { self - o } else { 0 } }
    fn v_checked_sub(self, o: usize) -> (r: Option<usize>) { if self >= o { Some((self - o) as usize) } else { None } }
}

// ------------------------------------------------------------ formatting

pub struct VFmt { pub s: String }
pub struct VFmtError;
impl VFmt {
    #[verifier::external_body] pub fn write_str(&mut self, t: &str) -> (r: core::result::Result<(), VFmtError>) ensures r is Ok, final(self).s@ == old(self).s@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: core::result::Result<(), VFmtError>) ensures r is Ok, final(self).s@ == old(self).s@.push(c) { unimplemented!() }
}
pub fn v_fmt_new() -> (r: VFmt) ensures r.s@ =~= Seq::<char>::empty() { VFmt { s: String::new() } }
#[verifier::external_body]
pub fn v_fmt_unknown(f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) ensures r is Ok { unimplemented!() }

/// `Display`: writing to the formatter appends `disp` (the formatter itself is
/// assumed never to fail, as for `to_string`/`format!`)
pub trait VDisplay {
    spec fn disp(&self) -> Str;
    fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>)
        ensures r is Ok, final(f).s@ == old(f).s@ + self.disp();
    fn v_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl VDisplay for str {
    open spec fn disp(&self) -> Str { self@ }
    #[verifier::external_body] fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.to_string() }
}
impl VDisplay for String {
    open spec fn disp(&self) -> Str { self@ }
    #[verifier::external_body] fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.clone() }
}
impl<'a, T: ?Sized + VDisplay> VDisplay for &'a T {
    open spec fn disp(&self) -> Str { (**self).disp() }
    fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) { assert(self.disp() == (**self).disp()); let r = (**self).fmt(f); r }
    fn v_to_string(&self) -> (r: String) { (**self).v_to_string() }
}
/// decimal digits of a number
pub open spec fn dec(n: nat) -> Str
    decreases n
{ if n < 10 { seq![((48 + n) as u8) as char] } else { dec(n / 10).push(((48 + n % 10) as u8) as char) } }
impl VDisplay for usize {
    open spec fn disp(&self) -> Str { dec(*self as nat) }
    #[verifier::external_body] fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for char {
    open spec fn disp(&self) -> Str { seq![*self] }
    #[verifier::external_body] fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
}

// ----------------------------------------------------------- conversions

pub trait VInto<B>: Sized {
    spec fn v_into_ok(self, r: B) -> bool;
    fn v_into(self) -> (r: B) ensures self.v_into_ok(r);
}
impl<T> VInto<T> for T {
    open spec fn v_into_ok(self, r: T) -> bool { r == self }
    fn v_into(self) -> (r: T) { self }
}
impl<'a> VInto<String> for &'a str {
    open spec fn v_into_ok(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_into(self) -> (r: String) { unimplemented!() }
}
impl<'a> VInto<String> for &'a String {
    open spec fn v_into_ok(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_into(self) -> (r: String) { unimplemented!() }
}

// ---------------------------------------------------------------- strings

pub open spec fn first_of(s: Str, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s[0] == c { 0 } else {
        let r = first_of(s.skip(1), c); if r < 0 { -1 } else { r + 1 }
    }
}
pub proof fn lemma_first_of(s: Str, c: char)
    ensures -1 <= first_of(s, c) < s.len(),
        first_of(s, c) >= 0 ==> s[first_of(s, c)] == c,
        forall|i: int| 0 <= i < s.len() && (i < first_of(s, c) || first_of(s, c) < 0) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        lemma_first_of(s.skip(1), c);
        let r = first_of(s.skip(1), c);
        assert forall|i: int| 0 <= i < s.len() && (i < first_of(s, c) || first_of(s, c) < 0) implies s[i] != c by {
            if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
        }
        if r >= 0 { assert(s.skip(1)[r] == s[r + 1]); }
    }
}
pub open spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn lower(s: Str) -> Str { s.map_values(|c: char| lower_char(c)) }
pub broadcast proof fn lemma_lower_idem(s: Str)
    ensures #[trigger] lower(lower(s)) == lower(s)
{
    assert(lower(lower(s)) =~= lower(s)) by {
        assert forall|i: int| 0 <= i < s.len() implies lower_char(lower_char(s[i])) == lower_char(s[i]) by {
            let c = s[i];
            if 'A' <= c && c <= 'Z' { assert(((c as u32 + 32) as u8) as char as u32 == c as u32 + 32); }
        }
    }
}
/// pieces of s between occurrences of c, at most n pieces
pub open spec fn splitn_spec(s: Str, c: char, n: nat) -> Seq<Str>
    decreases n
{
    if n == 0 { seq![] } else if n == 1 || first_of(s, c) < 0 { seq![s] } else {
        let k = first_of(s, c);
        seq![s.take(k)] + splitn_spec(s.skip(k + 1), c, (n - 1) as nat)
    }
}
pub broadcast proof fn lemma_splitn2(s: Str, c: char)
    ensures #[trigger] splitn_spec(s, c, 2) == (if first_of(s, c) < 0 { seq![s] } else { seq![s.take(first_of(s, c)), s.skip(first_of(s, c) + 1)] }),
        first_of(s, c) < s.len(),
{
    reveal_with_fuel(splitn_spec, 3);
    lemma_first_of(s, c);
    if first_of(s, c) >= 0 {
        let k = first_of(s, c);
        assert(seq![s.take(k)] + seq![s.skip(k + 1)] =~= seq![s.take(k), s.skip(k + 1)]);
    }
}
pub open spec fn split_spec(s: Str, c: char) -> Seq<Str>
    decreases s.len() via split_spec_dec
{
    if first_of(s, c) < 0 { seq![s] } else {
        let k = first_of(s, c);
        seq![s.take(k)] + split_spec(s.skip(k + 1), c)
    }
}
#[via_fn]
proof fn split_spec_dec(s: Str, c: char) { lemma_first_of(s, c); }

pub open spec fn last_of(s: Str, c: char) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_of(s.drop_last(), c) } }

/// what a pattern looks for: one character, or a text
pub trait VPat: Sized { spec fn v_char(self) -> Option<char>; spec fn v_str(self) -> Option<Str>; }
impl VPat for char { open spec fn v_char(self) -> Option<char> { Some(self) } open spec fn v_str(self) -> Option<Str> { None } }
impl<'a> VPat for &'a str {
    open spec fn v_char(self) -> Option<char> { if self@.len() == 1 { Some(self@[0]) } else { None } }
    open spec fn v_str(self) -> Option<Str> { Some(self@) }
}
impl<'a> VPat for &'a String {
    open spec fn v_char(self) -> Option<char> { if self@.len() == 1 { Some(self@[0]) } else { None } }
    open spec fn v_str(self) -> Option<Str> { Some(self@) }
}

pub open spec fn views(s: Seq<&str>) -> Seq<Str> { s.map_values(|x: &str| x@) }
pub broadcast proof fn lemma_views(s: Seq<&str>)
    ensures (#[trigger] views(s)).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == views(s)[i]
{ }

pub trait VStr {
    spec fn vs(&self) -> Str;
    fn v_as_str(&self) -> (r: &str) ensures r@ == self.vs();
    fn v_split_at(&self, i: usize) -> (r: (&str, &str))
        requires PANICS() ==> is_bo(self.vs(), i as int)
        ensures is_bo(self.vs(), i as int), r.0@ == self.vs().take(ci(self.vs(), i as int)), r.1@ == self.vs().skip(ci(self.vs(), i as int)),
            r.1@.len() > 0 && (r.1@[0] as u32) < 128 ==> is_bo(r.1@, 1) && ci(r.1@, 1) == 1;
    fn v_slice_from(&self, i: usize) -> (r: &str)
        requires PANICS() ==> is_bo(self.vs(), i as int)
        ensures is_bo(self.vs(), i as int), r@ == self.vs().skip(ci(self.vs(), i as int)), r@.len() > 0 && (r@[0] as u32) < 128 ==> is_bo(r@, 1) && ci(r@, 1) == 1;
    fn v_slice_to(&self, i: usize) -> (r: &str)
        requires PANICS() ==> is_bo(self.vs(), i as int)
        ensures is_bo(self.vs(), i as int), r@ == self.vs().take(ci(self.vs(), i as int));
    fn v_slice(&self, i: usize, j: usize) -> (r: &str)
        requires PANICS() ==> is_bo(self.vs(), i as int) && is_bo(self.vs(), j as int) && i <= j
        ensures is_bo(self.vs(), i as int), is_bo(self.vs(), j as int), i <= j, r@ == self.vs().subrange(ci(self.vs(), i as int), ci(self.vs(), j as int));
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures p.v_char() is Some ==> (r is Some <==> first_of(self.vs(), p.v_char()->Some_0) >= 0),
            p.v_char() is Some && r is Some ==> r->Some_0 == bo(self.vs(), first_of(self.vs(), p.v_char()->Some_0)),
            p.v_char() is Some && r is Some && (p.v_char()->Some_0 as u32) < 128 ==> ci(self.vs(), r->Some_0 as int) == first_of(self.vs(), p.v_char()->Some_0)
                && r->Some_0 < blen(self.vs()) && is_bo(self.vs(), r->Some_0 + 1) && ci(self.vs(), r->Some_0 + 1) == first_of(self.vs(), p.v_char()->Some_0) + 1,
            r is Some ==> is_bo(self.vs(), r->Some_0 as int) && r->Some_0 <= isize::MAX;
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool)
        ensures p.v_char() is Some ==> r == (first_of(self.vs(), p.v_char()->Some_0) >= 0);
    fn v_splitn<P: VPat>(&self, n: usize, p: P) -> (r: VIter<&str>)
        ensures r.pos() == 0, p.v_char() is Some ==> views(r.seq()) == splitn_spec(self.vs(), p.v_char()->Some_0, n as nat);
    fn v_split<P: VPat>(&self, p: P) -> (r: VIter<&str>)
        ensures r.pos() == 0, p.v_char() is Some ==> views(r.seq()) == split_spec(self.vs(), p.v_char()->Some_0);
    fn v_split_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures p.v_char() is Some ==> ({ let k = first_of(self.vs(), p.v_char()->Some_0);
            if k < 0 { r is None } else { r is Some && r->Some_0.0@ == self.vs().take(k) && r->Some_0.1@ == self.vs().skip(k + 1) } });
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower(self.vs());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (lower(self.vs()) == lower(o@));
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.vs());
    fn v_chars(&self) -> (r: VIter<char>) ensures r.pos() == 0, r.seq() == self.vs();
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool)
        ensures p.v_char() is Some ==> r == (self.vs().len() > 0 && self.vs()[0] == p.v_char()->Some_0),
            p.v_str() is Some ==> r == (p.v_str()->Some_0.len() <= self.vs().len() && self.vs().take(p.v_str()->Some_0.len() as int) == p.v_str()->Some_0);
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool)
        ensures p.v_char() is Some ==> r == (self.vs().len() > 0 && self.vs().last() == p.v_char()->Some_0),
            p.v_str() is Some ==> r == (p.v_str()->Some_0.len() <= self.vs().len() && self.vs().skip(self.vs().len() - p.v_str()->Some_0.len()) == p.v_str()->Some_0);
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures p.v_char() is Some ==> match r { Some(x) => self.vs().len() > 0 && self.vs()[0] == p.v_char()->Some_0 && x@ == self.vs().skip(1),
                None => self.vs().len() == 0 || self.vs()[0] != p.v_char()->Some_0 },
            p.v_str() is Some ==> ({ let k = p.v_str()->Some_0.len() as int; match r {
                Some(x) => k <= self.vs().len() && self.vs().take(k) == p.v_str()->Some_0 && x@ == self.vs().skip(k),
                None => k > self.vs().len() || self.vs().take(k) != p.v_str()->Some_0 } });
    fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures p.v_char() is Some ==> (r is Some <==> last_of(self.vs(), p.v_char()->Some_0) >= 0),
            p.v_char() is Some && r is Some ==> r->Some_0 == bo(self.vs(), last_of(self.vs(), p.v_char()->Some_0)),
            p.v_char() is Some && r is Some && (p.v_char()->Some_0 as u32) < 128 ==> ci(self.vs(), r->Some_0 as int) == last_of(self.vs(), p.v_char()->Some_0)
                && r->Some_0 < blen(self.vs()) && is_bo(self.vs(), r->Some_0 + 1) && ci(self.vs(), r->Some_0 + 1) == last_of(self.vs(), p.v_char()->Some_0) + 1,
            r is Some ==> is_bo(self.vs(), r->Some_0 as int) && r->Some_0 <= isize::MAX;
    fn v_rsplit_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures p.v_char() is Some ==> ({ let k = last_of(self.vs(), p.v_char()->Some_0);
            if k < 0 { r is None } else { r is Some && r->Some_0.0@ == self.vs().take(k) && r->Some_0.1@ == self.vs().skip(k + 1) } });
    fn v_is_char_boundary(&self, i: usize) -> (r: bool) ensures r == is_bo(self.vs(), i as int);
}
macro_rules! vstr_impl { ($t:ty) => { verus!{
impl VStr for $t {
    open spec fn vs(&self) -> Str { self@ }
    #[verifier::external_body] fn v_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_split_at(&self, i: usize) -> (r: (&str, &str)) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, i: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, i: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, i: usize, j: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_splitn<P: VPat>(&self, n: usize, p: P) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_split<P: VPat>(&self, p: P) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_is_char_boundary(&self, i: usize) -> (r: bool) { unimplemented!() }
}
} } }
vstr_impl!(str);
vstr_impl!(String);
verus! {
pub trait VGetRange<T: ?Sized> {
    spec fn v_get_range_spec(&self, a: int, b: int, r: Option<&T>) -> bool;
    fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&T>) ensures self.v_get_range_spec(a as int, b as int, r);
}
impl VGetRange<str> for str {
    open spec fn v_get_range_spec(&self, a: int, b: int, r: Option<&str>) -> bool {
        if is_bo(self@, a) && is_bo(self@, b) && a <= b { r is Some && r->Some_0@ == self@.subrange(ci(self@, a), ci(self@, b)) } else { r is None } }
    #[verifier::external_body] fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&str>) { unimplemented!() }
}
impl VGetRange<[u8]> for [u8] {
    open spec fn v_get_range_spec(&self, a: int, b: int, r: Option<&[u8]>) -> bool {
        if 0 <= a <= b <= self@.len() { r is Some && r->Some_0@ == self@.subrange(a, b) } else { r is None } }
    #[verifier::external_body] fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&[u8]>) { unimplemented!() }
}
}

// -------------------------------------------------------- number parsing

pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits_val(s: Str) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
/// what `str::parse::<usize>` accepts: an optional `+`, then one or more digits, in range
pub open spec fn unsigned_of(s: Str) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])) && 0 <= digits_val(d) <= usize::MAX { Some(digits_val(d)) } else { None }
}
#[verifier::external_body] pub struct VParseError { x: () }
pub trait VFromStr: Sized {
    spec fn v_of(s: Str) -> Option<Self>;
}
impl VFromStr for usize {
    open spec fn v_of(s: Str) -> Option<usize> { match unsigned_of(s) { Some(n) => Some(n as usize), None => None } }
}
pub trait VParse {
    spec fn vps(&self) -> Str;
    fn v_parse<T: VFromStr>(&self) -> (r: core::result::Result<T, VParseError>)
        ensures T::v_of(self.vps()) is Some ==> r is Ok && r->Ok_0 == T::v_of(self.vps())->Some_0, T::v_of(self.vps()) is None ==> r is Err;
}
impl VParse for str {
    open spec fn vps(&self) -> Str { self@ }
    #[verifier::external_body] fn v_parse<T: VFromStr>(&self) -> (r: core::result::Result<T, VParseError>) { unimplemented!() }
}

// ------------------------------------------------------------ opaque errors

#[verifier::external_body] pub struct VPestError { x: () }
#[verifier::external_body] pub struct VEnquoteError { x: () }
#[verifier::external_body] pub struct VIoError { x: () }


// ------------------------------------------ further functions of std (used only by changed code)

pub trait VInt2: Sized {
    spec fn v_i2(self) -> int;
    fn v_max(self, o: Self) -> (r: Self) ensures r == (if self.v_i2() >= o.v_i2() { self } else { o });
    fn v_min(self, o: Self) -> (r: Self) ensures r == (if self.v_i2() <= o.v_i2() { self } else { o });
}
macro_rules! vint2 { ($($t:ty),*) => { $( verus!{
impl VInt2 for $t {
    open spec fn v_i2(self) -> int { self as int }
    fn v_max(self, o: $t) -> (r: $t) { if self >= o { self } else { o } }
    fn v_min(self, o: $t) -> (r: $t) { if self <= o { self } else { o } }
} } )* } }
vint2!(u8, u32, usize, isize);

/// the characters with the White_Space property
pub open spec fn is_ws(c: char) -> bool {
    let x = c as u32;
    (9 <= x && x <= 13) || x == 0x20 || x == 0x85 || x == 0xa0 || x == 0x1680 || (0x2000 <= x && x <= 0x200a)
        || x == 0x2028 || x == 0x2029 || x == 0x202f || x == 0x205f || x == 0x3000
}
pub open spec fn is_aws(c: char) -> bool { let x = c as u32; x == 0x20 || x == 9 || x == 10 || x == 12 || x == 13 }
pub open spec fn trim_l(s: Str) -> Str
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Str) -> Str
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trim_lc(s: Str, c: char) -> Str
    decreases s.len()
{ if s.len() > 0 && s[0] == c { trim_lc(s.skip(1), c) } else { s } }
pub open spec fn trim_rc(s: Str, c: char) -> Str
    decreases s.len()
{ if s.len() > 0 && s.last() == c { trim_rc(s.drop_last(), c) } else { s } }
pub open spec fn upper_char(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
pub open spec fn upper(s: Str) -> Str { s.map_values(|c: char| upper_char(c)) }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }

pub trait VStr2 {
    spec fn vs2(&self) -> Str;
    fn v_trim(&self) -> (r: &str) ensures r@ == trim_r(trim_l(self.vs2()));
    fn v_trim_start(&self) -> (r: &str) ensures r@ == trim_l(self.vs2());
    fn v_trim_end(&self) -> (r: &str) ensures r@ == trim_r(self.vs2());
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) ensures p.v_char() is Some ==> r@ == trim_lc(self.vs2(), p.v_char()->Some_0);
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) ensures p.v_char() is Some ==> r@ == trim_rc(self.vs2(), p.v_char()->Some_0);
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures p.v_char() is Some ==> match r { Some(x) => self.vs2().len() > 0 && self.vs2().last() == p.v_char()->Some_0 && x@ == self.vs2().drop_last(),
                None => self.vs2().len() == 0 || self.vs2().last() != p.v_char()->Some_0 },
            p.v_str() is Some ==> ({ let k = self.vs2().len() - p.v_str()->Some_0.len(); match r {
                Some(x) => k >= 0 && self.vs2().skip(k) == p.v_str()->Some_0 && x@ == self.vs2().take(k),
                None => k < 0 || self.vs2().skip(k) != p.v_str()->Some_0 } });
    fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == upper(self.vs2());
    fn v_bytes(&self) -> (r: VIter<u8>) ensures r.pos() == 0, r.seq() == encode_utf8(self.vs2());
}
macro_rules! vstr2_impl { ($t:ty) => { verus!{
impl VStr2 for $t {
    open spec fn vs2(&self) -> Str { self@ }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
}
} } }
vstr2_impl!(str);
vstr2_impl!(String);

pub trait VChar {
    spec fn vcc(&self) -> char;
    fn v_is_ascii(&self) -> (r: bool) ensures r == ((self.vcc() as u32) < 128);
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit(self.vcc());
    fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (is_digit(self.vcc()) || ('a' <= self.vcc() && self.vcc() <= 'f') || ('A' <= self.vcc() && self.vcc() <= 'F'));
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == is_alpha(self.vcc());
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_alpha(self.vcc()) || is_digit(self.vcc()));
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == ('A' <= self.vcc() && self.vcc() <= 'Z');
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == ('a' <= self.vcc() && self.vcc() <= 'z');
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == is_aws(self.vcc());
    fn v_is_whitespace(&self) -> (r: bool) ensures r == is_ws(self.vcc());
    fn v_len_utf8(&self) -> (r: usize) ensures r == blen(seq![self.vcc()]);
}
impl VChar for char {
    open spec fn vcc(&self) -> char { *self }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_hexdigit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_len_utf8(&self) -> (r: usize) { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn v_count(self) -> (r: usize) requires self.pos() == 0 ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_nth(&mut self, n: usize) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            old(self).pos() + n < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos() + n]) && final(self).pos() == old(self).pos() + n + 1,
            old(self).pos() + n >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).seq().len()
    { unimplemented!() }
}
impl<T> Clone for VIter<T> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.seq() == self.seq(), r.pos() == self.pos() { unimplemented!() }
}

pub trait VVec2<T>: Sized {
    spec fn vv2(&self) -> Seq<T>;
    fn v_truncate(&mut self, n: usize)
        ensures final(self).vv2() == (if n <= old(self).vv2().len() { old(self).vv2().take(n as int) } else { old(self).vv2() });
    fn v_insert(&mut self, i: usize, x: T)
        requires PANICS() ==> i <= old(self).vv2().len()
        ensures i <= old(self).vv2().len(), final(self).vv2() == old(self).vv2().insert(i as int, x);
    fn v_append(&mut self, o: &mut Vec<T>)
        ensures final(self).vv2() == old(self).vv2() + old(o)@, final(o)@ == Seq::<T>::empty();
    fn v_swap_remove(&mut self, i: usize) -> (r: T)
        requires PANICS() ==> i < old(self).vv2().len()
        ensures i < old(self).vv2().len(), r == old(self).vv2()[i as int], final(self).vv2() == old(self).vv2().update(i as int, old(self).vv2().last()).drop_last();
}
impl<T> VVec2<T> for Vec<T> {
    open spec fn vv2(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_truncate(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn v_insert(&mut self, i: usize, x: T) { unimplemented!() }
    #[verifier::external_body] fn v_append(&mut self, o: &mut Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_swap_remove(&mut self, i: usize) -> (r: T) { unimplemented!() }
}
pub trait VInt3: Sized {
    spec fn v_i3(self) -> int;
    fn v_saturating_add(self, o: Self) -> (r: Self);
    fn v_checked_add(self, o: Self) -> (r: Option<Self>);
    fn v_wrapping_add(self, o: Self) -> (r: Self);
}
macro_rules! vint3 { ($($t:ty),*) => { $( verus!{
impl VInt3 for $t {
    open spec fn v_i3(self) -> int { self as int }
    fn v_saturating_add(self, o: $t) -> (r: $t) ensures r == (if self + o <= <$t>::MAX { self + o } else { <$t>::MAX as int }) { if <$t>::MAX - self >= o { self + o } else { <$t>::MAX } }
    fn v_checked_add(self, o: $t) -> (r: Option<$t>) ensures match r { Some(x) => x == self + o, None => self + o > <$t>::MAX } { if <$t>::MAX - self >= o { Some((self + o) as $t) } else { None } }
    fn v_wrapping_add(self, o: $t) -> (r: $t) ensures r == (if self + o <= <$t>::MAX { self + o } else { self + o - <$t>::MAX - 1 }) { if <$t>::MAX - self >= o { self + o } else { (o - 1) - (<$t>::MAX - self) } }
} } )* } }
vint3!(u8, u32, usize);
pub trait VOptS {
    fn v_as_deref(&self) -> (r: Option<&str>);
}
impl VOptS for Option<String> {
    fn v_as_deref(&self) -> (r: Option<&str>)
        ensures match *self { Some(x) => r is Some && r->Some_0@ == x@, None => r is None }
    { match self { Some(x) => Some(x.as_str()), None => None } }
}
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub trait VString2 {
    spec fn vss(&self) -> Str;
    fn v_push_str(&mut self, t: &str) ensures final(self).vss() == old(self).vss() + t@;
    fn v_insert_str(&mut self, i: usize, t: &str)
        requires PANICS() ==> is_bo(old(self).vss(), i as int)
        ensures is_bo(old(self).vss(), i as int), final(self).vss() == old(self).vss().take(ci(old(self).vss(), i as int)) + t@ + old(self).vss().skip(ci(old(self).vss(), i as int));
    fn v_replace_range(&mut self, g: core::ops::Range<usize>, t: &str)
        requires PANICS() ==> is_bo(old(self).vss(), g.start as int) && is_bo(old(self).vss(), g.end as int) && g.start <= g.end
        ensures is_bo(old(self).vss(), g.start as int), is_bo(old(self).vss(), g.end as int), g.start <= g.end,
            final(self).vss() == old(self).vss().take(ci(old(self).vss(), g.start as int)) + t@ + old(self).vss().skip(ci(old(self).vss(), g.end as int));
}
impl VString2 for String {
    open spec fn vss(&self) -> Str { self@ }
    #[verifier::external_body] fn v_push_str(&mut self, t: &str) { unimplemented!() }
    #[verifier::external_body] fn v_insert_str(&mut self, i: usize, t: &str) { unimplemented!() }
    #[verifier::external_body] fn v_replace_range(&mut self, g: core::ops::Range<usize>, t: &str) { unimplemented!() }
}
} // verus!
