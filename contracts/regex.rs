// Regular expressions: leftmost-first (backtracking) semantics of the syntax
// tree of the literal found in the source. Trusted: that the regex crate
// matches this way, and the syntax tree given by regex-syntax.
verus! {
pub ghost enum Cls { One(int, int), Or(Box<Cls>, Box<Cls>) }
pub open spec fn in_cls(c: Cls, x: char) -> bool
    decreases c
{ match c { Cls::One(a, b) => a <= x as int && x as int <= b, Cls::Or(p, q) => in_cls(*p, x) || in_cls(*q, x) } }
pub ghost enum Re { Empty, Chr(char), Class(Cls), Rep(Cls, nat), Cat(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Cap(int, Box<Re>), Start, End, Other }
pub ghost enum Stk { Nil, Push(Re, Box<Stk>), CapEnd(int, int, Box<Stk>) }
pub type Caps = Map<int, (int, int)>;
pub open spec fn re_size(r: Re) -> nat
    decreases r
{ match r { Re::Cat(a, b) => re_size(*a) + re_size(*b) + 3, Re::Alt(a, b) => re_size(*a) + re_size(*b) + 3, Re::Cap(_, a) => re_size(*a) + 3, _ => 1 } }
pub open spec fn stk_size(k: Stk) -> nat
    decreases k
{ match k { Stk::Nil => 0, Stk::Push(r, k) => re_size(r) + 1 + stk_size(*k), Stk::CapEnd(_, _, k) => 1 + stk_size(*k) } }
/// end of the longest run of the class from i
pub open spec fn run_end(c: Cls, s: Str, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && in_cls(c, s[i]) { run_end(c, s, i + 1) } else { i } }
/// the preferred match of the pending pieces at i: its end and its groups
pub open spec fn re_m(k: Stk, s: Str, i: int, caps: Caps) -> Option<(int, Caps)>
    decreases stk_size(k), 0int via re_m_dec
{
    match k {
        Stk::Nil => Some((i, caps)),
        Stk::CapEnd(n, st, k) => re_m(*k, s, i, caps.insert(n, (st, i))),
        Stk::Push(r, k) => match r {
            Re::Empty => re_m(*k, s, i, caps),
            Re::Chr(c) => if 0 <= i < s.len() && s[i] == c { re_m(*k, s, i + 1, caps) } else { None },
            Re::Class(c) => if 0 <= i < s.len() && in_cls(c, s[i]) { re_m(*k, s, i + 1, caps) } else { None },
            Re::Rep(c, min) => re_try(c, min, *k, s, i, run_end(c, s, i), caps),
            Re::Cat(a, b) => re_m(Stk::Push(*a, Box::new(Stk::Push(*b, k))), s, i, caps),
            Re::Alt(a, b) => match re_m(Stk::Push(*a, k), s, i, caps) { Some(x) => Some(x), None => re_m(Stk::Push(*b, k), s, i, caps) },
            Re::Cap(n, a) => re_m(Stk::Push(*a, Box::new(Stk::CapEnd(n, i, k))), s, i, caps),
            Re::Start => if i == 0 { re_m(*k, s, i, caps) } else { None },
            Re::End => if i == s.len() { re_m(*k, s, i, caps) } else { None },
            Re::Other => arbitrary(),
        },
    }
}
#[via_fn]
proof fn re_m_dec(k: Stk, s: Str, i: int, caps: Caps) { reveal_with_fuel(stk_size, 4); reveal_with_fuel(re_size, 3); }
/// a greedy repetition tries the longest run first, then shorter ones
pub open spec fn re_try(c: Cls, min: nat, k: Stk, s: Str, i: int, j: int, caps: Caps) -> Option<(int, Caps)>
    decreases stk_size(k), if j - i + 1 < 0 { 1int } else { j - i + 2 }
{
    if j < i + min { None } else {
        match re_m(k, s, j, caps) { Some(x) => Some(x), None => re_try(c, min, k, s, i, j - 1, caps) }
    }
}
pub open spec fn re_at(r: Re, s: Str, i: int) -> Option<(int, Caps)> { re_m(Stk::Push(r, Box::new(Stk::Nil)), s, i, Map::empty()) }
/// successive leftmost matches from p (an empty match is followed by one a character later)
pub open spec fn re_all(r: Re, s: Str, p: int) -> Seq<(int, int, Caps)>
    decreases s.len() + 1 - p
{
    if p < 0 || p > s.len() { seq![] } else {
        match re_at(r, s, p) {
            Some((e, c)) => if p < e <= s.len() { seq![(p, e, c)] + re_all(r, s, e) } else { seq![(p, e, c)] + re_all(r, s, p + 1) },
            None => re_all(r, s, p + 1),
        }
    }
}
pub open spec fn re_is_match(r: Re, s: Str) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] re_at(r, s, i) is Some }

#[verifier::external_body] pub struct Regex { x: () }
#[verifier::external_body] pub struct Captures<'a> { x: core::marker::PhantomData<&'a str> }
#[verifier::external_body] pub struct Match<'a> { x: core::marker::PhantomData<&'a str> }
pub struct VRange { pub start: usize, pub end: usize }
impl Regex {
    pub uninterp spec fn re(&self) -> Re;
    #[verifier::external_body]
    pub fn v_captures_iter<'a>(&self, s: &'a str) -> (r: VIter<Captures<'a>>)
        ensures r.pos() == 0, r.seq().len() == re_all(self.re(), s@, 0).len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).text() == s@ && r.seq()[i].m() == re_all(self.re(), s@, 0)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_match(&self, s: &str) -> (r: bool) ensures r == re_is_match(self.re(), s@) { unimplemented!() }
}
impl<'a> Captures<'a> {
    pub uninterp spec fn text(&self) -> Str;
    pub uninterp spec fn m(&self) -> (int, int, Caps);
    #[verifier::external_body]
    pub fn v_get(&self, n: usize) -> (r: Option<Match<'a>>)
        ensures r is Some ==> r->Some_0.text() == self.text(),
            n == 0 ==> r is Some && r->Some_0.lo() == self.m().0 && r->Some_0.hi() == self.m().1,
            n > 0 ==> (r is Some <==> self.m().2.contains_key(n as int)),
            n > 0 && r is Some ==> (r->Some_0.lo(), r->Some_0.hi()) == self.m().2[n as int]
    { unimplemented!() }
}
impl<'a> Match<'a> {
    pub uninterp spec fn text(&self) -> Str;
    pub uninterp spec fn lo(&self) -> int;
    pub uninterp spec fn hi(&self) -> int;
    #[verifier::external_body]
    pub fn v_as_str(&self) -> (r: &'a str) ensures 0 <= self.lo() <= self.hi() <= self.text().len() ==> r@ == self.text().subrange(self.lo(), self.hi()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_start(&self) -> (r: usize) ensures r == bo(self.text(), self.lo()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_end(&self) -> (r: usize) ensures r == bo(self.text(), self.hi()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_range(&self) -> (r: VRange) ensures r.start == bo(self.text(), self.lo()), r.end == bo(self.text(), self.hi()) { unimplemented!() }
}

// ------------------------------------------------------------ maps and sets
pub trait VKey { spec fn kv(&self) -> Str; }
impl VKey for str { open spec fn kv(&self) -> Str { self@ } }
impl VKey for String { open spec fn kv(&self) -> Str { self@ } }
impl<'a, T: ?Sized + VKey> VKey for &'a T { open spec fn kv(&self) -> Str { (**self).kv() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
/// entries inserted in order: the last one of a key wins
pub open spec fn map_of<K: VKey, V: VKey>(s: Seq<(K, V)>) -> Map<Str, Str>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.kv(), s.last().1.kv()) } }
impl<K: VKey, V: VKey> HashMap<K, V> {
    pub uninterp spec fn mv(&self) -> Map<Str, Str>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.mv() == Map::<Str, Str>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(i: VIter<(K, V)>) -> (r: Self) requires i.pos() == 0 ensures r.mv() == map_of(i.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).mv() == old(self).mv().insert(k.kv(), v.kv()), r is Some <==> old(self).mv().contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get(&self, k: &str) -> (r: Option<&V>)
        ensures r is Some <==> self.mv().contains_key(k@), r is Some ==> r->Some_0.kv() == self.mv()[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains_key(&self, k: &str) -> (r: bool) ensures r == self.mv().contains_key(k@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K: VKey> HashSet<K> {
    pub uninterp spec fn sv(&self) -> Set<Str>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.sv() == Set::<Str>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K) -> (r: bool) ensures final(self).sv() == old(self).sv().insert(k.kv()), r == !old(self).sv().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains(&self, k: &str) -> (r: bool) ensures r == self.sv().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self.sv() == Set::<Str>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures self.sv().finite(), r == self.sv().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: bool) ensures final(self).sv() == old(self).sv().remove(k@), r == old(self).sv().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).sv() == Set::<Str>::empty() { unimplemented!() }
}
} // verus!
