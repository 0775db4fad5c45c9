## Library shim: the specification of the parts of std the crate uses.
## Every item marked external_body here is an assumption about std.
%mod crate
%raw
pub mod shim {
use vstd::prelude::*;
use vstd::string::*;
use std::ops::Range;
use std::marker::PhantomData;
verus! {

/// a panic: must be unreachable
pub fn vpanic() -> !
    requires false,
{ loop invariant false decreases 0int { } }

/// a use of a `&mut` (see rule R17)
pub fn touch<X>(x: &mut X)
    ensures *final(x) == *old(x),
{}

// ------------------------------------------------------------------ traits
pub trait Clone: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
}
impl Clone for usize { fn clone(&self) -> usize { *self } }
impl Clone for bool { fn clone(&self) -> bool { *self } }
impl<'a, T> Clone for &'a T { fn clone(&self) -> &'a T { *self } }
impl<T> Clone for PhantomData<T> { fn clone(&self) -> PhantomData<T> { PhantomData } }
impl<T: Clone> Clone for Option<T> { fn clone(&self) -> Option<T> { match self { Option::Some(x) => Option::Some(x.clone()), Option::None => Option::None } } }
impl<A: Clone, B: Clone> Clone for (A, B) { fn clone(&self) -> (A, B) { (self.0.clone(), self.1.clone()) } }
impl<A: Clone, B: Clone, C: Clone> Clone for (A, B, C) { fn clone(&self) -> (A, B, C) { (self.0.clone(), self.1.clone(), self.2.clone()) } }
impl Clone for String { fn clone(&self) -> String { let r = ::core::clone::Clone::clone(self); proof { ax_string(r); ax_string(*self); } r } }

pub trait PartialEq {
    spec fn eqs(&self, o: &Self) -> bool;
    fn veq(&self, o: &Self) -> (r: bool)
        ensures r == self.eqs(o);
    /// the law of `PartialEq`, assumed of the tokens and locations a user supplies
    proof fn eq_sym(&self, o: &Self)
        ensures self.eqs(o) == o.eqs(self);
}
pub broadcast proof fn ax_eq_sym<T: PartialEq>(a: &T, b: &T) ensures #[trigger] a.eqs(b) == b.eqs(a) { a.eq_sym(b); }
impl PartialEq for usize { open spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } *self == *o }  proof fn eq_sym(&self, o: &Self) {  } }
impl PartialEq for char { open spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } *self == *o }  proof fn eq_sym(&self, o: &Self) {  } }
impl PartialEq for bool { open spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } *self == *o }  proof fn eq_sym(&self, o: &Self) {  } }
impl<'a, T: PartialEq> PartialEq for &'a T { open spec fn eqs(&self, o: &Self) -> bool { (**self).eqs(*o) } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } (**self).veq(*o) }  proof fn eq_sym(&self, o: &Self) { (**self).eq_sym(*o); } }
impl<T: PartialEq> PartialEq for Option<T> {
    proof fn eq_sym(&self, o: &Self) { match (self, o) { (Option::Some(a), Option::Some(b)) => a.eq_sym(b), _ => {} } }
    open spec fn eqs(&self, o: &Self) -> bool { match (self, o) { (Option::Some(a), Option::Some(b)) => a.eqs(b), (Option::None, Option::None) => true, _ => false } }
    fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } match (self, o) { (Option::Some(a), Option::Some(b)) => a.veq(b), (Option::None, Option::None) => true, _ => false } }
}
impl PartialEq for Range<usize> { open spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } self.start == o.start && self.end == o.end }  proof fn eq_sym(&self, o: &Self) {  } }
impl<A: PartialEq, B: PartialEq> PartialEq for (A, B) { open spec fn eqs(&self, o: &Self) -> bool { self.0.eqs(&o.0) && self.1.eqs(&o.1) } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } self.0.veq(&o.0) && self.1.veq(&o.1) }  proof fn eq_sym(&self, o: &Self) { self.0.eq_sym(&o.0); self.1.eq_sym(&o.1); } }
impl<A: PartialEq, B: PartialEq, C: PartialEq> PartialEq for (A, B, C) { open spec fn eqs(&self, o: &Self) -> bool { self.0.eqs(&o.0) && self.1.eqs(&o.1) && self.2.eqs(&o.2) } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } self.0.veq(&o.0) && self.1.veq(&o.1) && self.2.veq(&o.2) }  proof fn eq_sym(&self, o: &Self) { self.0.eq_sym(&o.0); self.1.eq_sym(&o.1); self.2.eq_sym(&o.2); } }
impl<A: PartialEq, B: PartialEq, C: PartialEq, D: PartialEq> PartialEq for (A, B, C, D) { open spec fn eqs(&self, o: &Self) -> bool { self.0.eqs(&o.0) && self.1.eqs(&o.1) && self.2.eqs(&o.2) && self.3.eqs(&o.3) } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } self.0.veq(&o.0) && self.1.veq(&o.1) && self.2.veq(&o.2) && self.3.veq(&o.3) }  proof fn eq_sym(&self, o: &Self) { self.0.eq_sym(&o.0); self.1.eq_sym(&o.1); self.2.eq_sym(&o.2); self.3.eq_sym(&o.3); } }
impl PartialEq for String { open spec fn eqs(&self, o: &Self) -> bool { self@ == o@ } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } *self == *o }  proof fn eq_sym(&self, o: &Self) {  } }
impl<T: PartialEq> PartialEq for Rc<T> { open spec fn eqs(&self, o: &Self) -> bool { self.val().eqs(&o.val()) } fn veq(&self, o: &Self) -> bool { proof { let _ = |a0: &Self, a1: &Self| <Self as PartialEq>::eqs(a0, a1); } (**self).veq(&**o) }  proof fn eq_sym(&self, o: &Self) { self.val().eq_sym(&o.val()); } }
/// `std::mem::discriminant`
pub trait Discr {
    spec fn d(&self) -> usize;
    fn discr_of(&self) -> (r: usize)
        ensures r == self.d();
}
pub fn discr<T: Discr>(x: &T) -> (r: usize) ensures r == x.d() { x.discr_of() }
/// the law of `Eq` on tokens, assumed of the tokens a user supplies: equal
/// means indistinguishable
pub trait Eq: PartialEq + Sized {
    proof fn eq_law(&self, o: &Self)
        ensures self.eqs(o) == (*self == *o);
}
pub trait Hash {}
impl<T: Eq> Eq for Option<T> {
    proof fn eq_law(&self, o: &Self) { match (self, o) { (Option::Some(a), Option::Some(b)) => { a.eq_law(b); } _ => {} } }
}
impl<T: Hash> Hash for Option<T> {}

pub trait Default: Sized {
    spec fn is_default(&self) -> bool;
    fn default() -> (r: Self)
        ensures r.is_default();
}
impl<T> Default for PhantomData<T> { open spec fn is_default(&self) -> bool { *self == PhantomData::<T> } fn default() -> PhantomData<T> { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } PhantomData } }
impl<T> Default for Vec<T> { open spec fn is_default(&self) -> bool { self@ =~= Seq::<T>::empty() } fn default() -> Vec<T> { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } Vec::new() } }
impl<T> Default for VecDeque<T> { open spec fn is_default(&self) -> bool { self@ =~= Seq::<T>::empty() } fn default() -> VecDeque<T> { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } VecDeque::new() } }
impl<T> Default for Option<T> { open spec fn is_default(&self) -> bool { *self is None } fn default() -> Option<T> { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } Option::None } }
pub fn mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
pub fn mem_replace<T>(a: &mut T, x: T) -> (r: T) ensures *final(a) == x, r == *old(a) { let mut y = x; std::mem::swap(a, &mut y); y }
pub fn mem_take<T: Default>(a: &mut T) -> (r: T) ensures final(a).is_default(), r == *old(a) { let mut y = T::default(); std::mem::swap(a, &mut y); y }
impl Default for usize { open spec fn is_default(&self) -> bool { *self == 0 } fn default() -> usize { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } 0 } }
impl Default for bool { open spec fn is_default(&self) -> bool { !*self } fn default() -> bool { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } false } }

/// the string with the given characters
pub uninterp spec fn string_from(s: Seq<char>) -> String;
#[verifier::external_body]
pub broadcast proof fn ax_string(s: String)
    ensures #[trigger] string_from(s@) == s
{ }
// -------------------------------------------------------------- formatting
pub struct FmtError;
pub type FmtResult = ::core::result::Result<(), FmtError>;
/// `std::fmt::Formatter`; the texts of the arguments written so far are recorded, literals are not
pub struct Formatter<'a> { a: bool, s: Ghost<Seq<Seq<char>>>, b: Ghost<bool>, x: PhantomData<&'a ()> }
impl<'a> Formatter<'a> {
    pub closed spec fn said(&self) -> Seq<Seq<char>> { self.s@ }
    pub closed spec fn alt(&self) -> bool { self.a }
    /// the underlying writer has failed
    pub closed spec fn broken(&self) -> bool { self.b@ }
    pub fn alternate(&self) -> (r: bool) ensures r == self.alt() { self.a }
    pub fn vlit(&mut self, s: &str) -> (r: FmtResult)
        ensures final(self).alt() == old(self).alt(), r is Err ==> final(self).broken(), r is Ok ==> final(self).said() == old(self).said()
    { ::core::result::Result::Ok(()) }
    /// `{}` or, with `alt`, `{:#}`
    pub fn vdisp<T: Display + ?Sized>(&mut self, x: &T, alt: bool) -> (r: FmtResult)
        requires x.show_ok()
        ensures final(self).alt() == old(self).alt(), r is Err ==> final(self).broken(),
            r is Ok ==> grown(old(self).said(), final(self).said()) && x.says(since(old(self).said(), final(self).said()))
    {
        let mut g = Formatter { a: alt, s: Ghost(self.s@), b: Ghost(self.b@), x: PhantomData };
        let r = x.fmt(&mut g);
        self.s = Ghost(g.s@);
        self.b = Ghost(g.b@);
        r
    }
    fn vleaf(&mut self, Ghost(t): Ghost<Seq<char>>) -> (r: FmtResult)
        ensures r is Ok, grown(old(self).said(), final(self).said()), since(old(self).said(), final(self).said()) =~= seq![t]
    {
        self.s = Ghost(self.s@.push(t));
        ::core::result::Result::Ok(())
    }
}
pub open spec fn grown<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i] }
pub open spec fn since<A>(a: Seq<A>, b: Seq<A>) -> Seq<A> { b.skip(a.len() as int) }
pub broadcast proof fn grown_trans<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    requires #[trigger] grown(a, b), #[trigger] grown(b, c)
    ensures grown(a, c), since(a, c) == since(a, b) + since(b, c)
{ assert(since(a, c) =~= since(a, b) + since(b, c)); }
pub trait Display {
    /// the texts of the leaves it may show, in order
    spec fn says(&self, n: Seq<Seq<char>>) -> bool;
    /// the text as a whole
    spec fn text(&self) -> Seq<char>;
    /// user obligation
    spec fn show_ok(&self) -> bool;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult)
        requires self.show_ok()
        ensures
            r is Err ==> final(f).broken(),
            r is Ok ==> grown(old(f).said(), final(f).said()) && self.says(since(old(f).said(), final(f).said()));
}
pub uninterp spec fn decimal(n: usize) -> Seq<char>;
impl Display for usize { open spec fn says(&self, n: Seq<Seq<char>>) -> bool { n =~= seq![decimal(*self)] } open spec fn text(&self) -> Seq<char> { decimal(*self) } open spec fn show_ok(&self) -> bool { true } fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult { proof { let _ = |a0: &Self, a1: Seq<Seq<char>>| <Self as Display>::says(a0, a1); let _ = |a0: &Self| <Self as Display>::text(a0); let _ = |a0: &Self| <Self as Display>::show_ok(a0); } f.vleaf(Ghost(decimal(*self))) } }
impl Display for str { open spec fn says(&self, n: Seq<Seq<char>>) -> bool { n =~= seq![self@] } open spec fn text(&self) -> Seq<char> { self@ } open spec fn show_ok(&self) -> bool { true } fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult { proof { let _ = |a0: &Self, a1: Seq<Seq<char>>| <Self as Display>::says(a0, a1); let _ = |a0: &Self| <Self as Display>::text(a0); let _ = |a0: &Self| <Self as Display>::show_ok(a0); } f.vleaf(Ghost(self@)) } }
impl Display for String { open spec fn says(&self, n: Seq<Seq<char>>) -> bool { n =~= seq![self@] } open spec fn text(&self) -> Seq<char> { self@ } open spec fn show_ok(&self) -> bool { true } fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult { proof { let _ = |a0: &Self, a1: Seq<Seq<char>>| <Self as Display>::says(a0, a1); let _ = |a0: &Self| <Self as Display>::text(a0); let _ = |a0: &Self| <Self as Display>::show_ok(a0); } f.vleaf(Ghost(self@)) } }
impl<'a, T: Display + ?Sized> Display for &'a T { open spec fn says(&self, n: Seq<Seq<char>>) -> bool { (**self).says(n) } open spec fn text(&self) -> Seq<char> { (**self).text() } open spec fn show_ok(&self) -> bool { (**self).show_ok() } fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult { proof { let _ = |a0: &Self, a1: Seq<Seq<char>>| <Self as Display>::says(a0, a1); let _ = |a0: &Self| <Self as Display>::text(a0); let _ = |a0: &Self| <Self as Display>::show_ok(a0); } (**self).fmt(f) } }
impl<T: Display> Display for Rc<T> { open spec fn says(&self, n: Seq<Seq<char>>) -> bool { self.val().says(n) } open spec fn text(&self) -> Seq<char> { self.val().text() } open spec fn show_ok(&self) -> bool { self.val().show_ok() } fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult { proof { let _ = |a0: &Self, a1: Seq<Seq<char>>| <Self as Display>::says(a0, a1); let _ = |a0: &Self| <Self as Display>::text(a0); let _ = |a0: &Self| <Self as Display>::show_ok(a0); } (**self).fmt(f) } }
/// values of the type are shown as one text
pub open spec fn leaf<T: Display>() -> bool { forall|x: T, n: Seq<Seq<char>>| #[trigger] x.says(n) ==> n =~= seq![x.text()] }
pub trait ToString {
    spec fn string_of(&self) -> Seq<char>;
    fn to_string(&self) -> (r: String)
        ensures r@ == self.string_of();
}
impl<T: Display> ToString for T { open spec fn string_of(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn to_string(&self) -> String { proof { let _ = |a0: &Self| <Self as ToString>::string_of(a0); } unimplemented!() } }

// --------------------------------------------------------------- iterators
pub trait Iterator: Sized {
    type Item;
    /// the items still to come
    spec fn rem(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Option::Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter)
        ensures r.rem() == self.items();
}
impl<X: Iterator> IntoIterator for X {
    type Item = X::Item;
    type IntoIter = X;
    open spec fn items(&self) -> Seq<X::Item> { self.rem() }
    fn into_iter(self) -> X { proof { let _ = |a0: &Self| <Self as IntoIterator>::items(a0); } self }
}

// The iterators below have a reference implementation: a list of what is still to come.
pub fn vpop<T>(v: &mut std::vec::Vec<T>) -> (r: Option<T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r == Option::Some(old(v)@[0]) && final(v)@ == old(v)@.skip(1),
{
    if v.len() == 0 { Option::None } else {
        let ghost o = v@;
        let x = v.remove(0);
        proof { assert(o.remove(0) =~= o.skip(1)); }
        Option::Some(x)
    }
}
pub fn vall<X: Iterator>(x: X) -> (r: std::vec::Vec<X::Item>)
    ensures r@ == x.rem()
{
    let ghost all = x.rem();
    let mut x = x;
    let mut r: std::vec::Vec<X::Item> = std::vec::Vec::new();
    proof { assert(r@ + x.rem() =~= all); }
    loop
        invariant r@ + x.rem() == all
        ensures r@ == all
        decreases x.rem().len()
    {
        let ghost was = x.rem();
        match x.next() {
            Option::Some(y) => {
                r.push(y);
                proof { assert(r@ + x.rem() =~= all); }
            }
            Option::None => { proof { assert(r@ =~= all); } break; }
        }
    }
    r
}
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { v: std::vec::Vec<T> }
impl<T> Iterator for VecIter<T> { type Item = T; closed spec fn rem(&self) -> Seq<T> { self.v@ } fn next(&mut self) -> Option<T> { proof { let _ = |a0: &Self| <Self as Iterator>::rem(a0); } vpop(&mut self.v) } }

#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { v: std::vec::Vec<&'a T> }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> Iterator for SliceIter<'a, T> { type Item = &'a T; closed spec fn rem(&self) -> Seq<&'a T> { self.v@ } fn next(&mut self) -> Option<&'a T> { proof { let _ = |a0: &Self| <Self as Iterator>::rem(a0); } vpop(&mut self.v) } }
fn slice_iter<'a, T>(s: &'a [T]) -> (r: SliceIter<'a, T>)
    ensures r.rem() == refs(s@)
{
    let mut v: std::vec::Vec<&'a T> = std::vec::Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant 0 <= i <= s@.len(), v@ == refs(s@.take(i as int))
        decreases s@.len() - i
    {
        v.push(&s[i]);
        i = i + 1;
        proof { assert(v@ =~= refs(s@.take(i as int))); }
    }
    proof { assert(s@.take(i as int) =~= s@); }
    SliceIter { v }
}

pub struct CharIter<'a> { v: std::vec::Vec<char>, l: PhantomData<&'a ()> }
impl<'a> Iterator for CharIter<'a> { type Item = char; closed spec fn rem(&self) -> Seq<char> { self.v@ } fn next(&mut self) -> Option<char> { proof { let _ = |a0: &Self| <Self as Iterator>::rem(a0); } vpop(&mut self.v) } }

#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T> { v: std::vec::Vec<T> }
impl<T> Iterator for SeqIter<T> { type Item = T; closed spec fn rem(&self) -> Seq<T> { self.v@ } fn next(&mut self) -> Option<T> { proof { let _ = |a0: &Self| <Self as Iterator>::rem(a0); } vpop(&mut self.v) } }

/// `Box<dyn Iterator<Item = T> + 't>`
#[verifier::reject_recursive_types(T)]
pub struct DynIter<'t, T> { v: std::vec::Vec<T>, l: PhantomData<&'t ()> }
impl<'t, T> DynIter<'t, T> {
    pub fn new<X: Iterator<Item = T> + 't>(x: X) -> (r: Self)
        ensures r.rem() == x.rem()
    { DynIter { v: vall(x), l: PhantomData } }
}
impl<'t, T> Iterator for DynIter<'t, T> { type Item = T; closed spec fn rem(&self) -> Seq<T> { self.v@ } fn next(&mut self) -> Option<T> { proof { let _ = |a0: &Self| <Self as Iterator>::rem(a0); } vpop(&mut self.v) } }

/// the token source of a stream: not required to be fused, so it must not be
/// polled again once it has returned `None`
#[verifier::reject_recursive_types(T)]
pub struct SourceIter<'t, T> { v: std::vec::Vec<T>, end: bool, l: PhantomData<&'t ()> }
impl<'t, T> SourceIter<'t, T> {
    pub closed spec fn rem(&self) -> Seq<T> { self.v@ }
    pub closed spec fn done(&self) -> bool { self.end }
    pub fn new<X: Iterator<Item = T> + 't>(x: X) -> (r: Self)
        ensures r.rem() == x.rem(), !r.done()
    { SourceIter { v: vall(x), end: false, l: PhantomData } }
    pub fn next(&mut self) -> (r: Option<T>)
        requires !old(self).done(),
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).done() && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Option::Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1) && !final(self).done(),
    { let r = vpop(&mut self.v); self.end = r.is_none(); r }
}

pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn somes<T>(s: Seq<T>) -> Seq<Option<T>> { Seq::new(s.len(), |i: int| Option::Some(s[i])) }
pub trait IterExt: Iterator {
    fn enumerate(self) -> (r: SeqIter<(usize, Self::Item)>)
        ensures r.rem() == enumerated(self.rem()), self.rem().len() <= usize::MAX;
    fn map_some(self) -> (r: SeqIter<Option<Self::Item>>)
        ensures r.rem() == somes(self.rem());
    fn rev(self) -> (r: SeqIter<Self::Item>)
        ensures r.rem() == self.rem().reverse();
    fn collect<C: FromIter<Self::Item>>(self) -> (r: C)
        ensures r == C::from_items(self.rem());
    fn size_hint(&self) -> (r: (usize, Option<usize>));
    fn take(self, n: usize) -> (r: SeqIter<Self::Item>)
        ensures r.rem() == (if n < self.rem().len() { self.rem().take(n as int) } else { self.rem() });
    fn skip(self, n: usize) -> (r: SeqIter<Self::Item>)
        ensures r.rem() == (if n < self.rem().len() { self.rem().skip(n as int) } else { Seq::empty() });
    fn chain<Y: IntoIterator<Item = Self::Item>>(self, y: Y) -> (r: SeqIter<Self::Item>)
        ensures r.rem() == self.rem() + y.items();
    fn zip<Y: IntoIterator>(self, y: Y) -> (r: SeqIter<(Self::Item, Y::Item)>)
        ensures r.rem() == self.rem().take(vmin_nat(self.rem().len(), y.items().len())).zip_with(y.items().take(vmin_nat(self.rem().len(), y.items().len())));
}
pub open spec fn vmin_nat(a: nat, b: nat) -> int { if a < b { a as int } else { b as int } }
impl<X: Iterator> IterExt for X {
    fn take(self, n: usize) -> SeqIter<X::Item> {
        let ghost all = self.rem();
        let mut v = vall(self);
        v.truncate(n);
        proof { if n >= all.len() { assert(v@ =~= all); } }
        SeqIter { v }
    }
    fn skip(self, n: usize) -> SeqIter<X::Item> {
        let mut v = vall(self);
        let ghost all = v@;
        if n < v.len() {
            let w = v.split_off(n);
            proof { assert(w@ =~= all.skip(n as int)); }
            SeqIter { v: w }
        } else {
            v.truncate(0);
            proof { assert(v@ =~= Seq::empty()); }
            SeqIter { v }
        }
    }
    fn chain<Y: IntoIterator<Item = X::Item>>(self, y: Y) -> SeqIter<X::Item> {
        let mut v = vall(self);
        let ghost all = v@;
        let mut w = vall(y.into_iter());
        let ghost more = w@;
        v.append(&mut w);
        proof { assert(v@ =~= all + more); }
        SeqIter { v }
    }
    fn zip<Y: IntoIterator>(self, y: Y) -> SeqIter<(X::Item, Y::Item)> {
        let mut v = vall(self);
        let mut w = vall(y.into_iter());
        let ghost a = v@;
        let ghost b = w@;
        let n = vmin(v.len(), w.len());
        let mut r: std::vec::Vec<(X::Item, Y::Item)> = std::vec::Vec::new();
        let mut i: usize = 0;
        while i < n
            invariant 0 <= i <= n, n == vmin_nat(a.len(), b.len()), v@ == a.skip(i as int), w@ == b.skip(i as int), r@ == a.take(i as int).zip_with(b.take(i as int))
            decreases n - i
        {
            match (vpop(&mut v), vpop(&mut w)) { (Option::Some(x), Option::Some(z)) => r.push((x, z)), _ => {} }
            i = i + 1;
            proof { assert(v@ =~= a.skip(i as int)); assert(w@ =~= b.skip(i as int)); assert(r@ =~= a.take(i as int).zip_with(b.take(i as int))); }
        }
        SeqIter { v: r }
    }
    fn enumerate(self) -> SeqIter<(usize, X::Item)> {
        let ghost all = self.rem();
        let mut v = vall(self);
        let n = v.len();
        let mut r: std::vec::Vec<(usize, X::Item)> = std::vec::Vec::new();
        let mut i: usize = 0;
        while i < n
            invariant 0 <= i <= n, n == all.len(), v@ == all.skip(i as int), r@ == enumerated(all).take(i as int)
            decreases n - i
        {
            match vpop(&mut v) { Option::Some(x) => r.push((i, x)), Option::None => {} }
            i = i + 1;
            proof { assert(v@ =~= all.skip(i as int)); assert(r@ =~= enumerated(all).take(i as int)); }
        }
        proof { assert(r@ =~= enumerated(all)); }
        SeqIter { v: r }
    }
    fn map_some(self) -> SeqIter<Option<X::Item>> {
        let ghost all = self.rem();
        let mut v = vall(self);
        let n = v.len();
        let mut r: std::vec::Vec<Option<X::Item>> = std::vec::Vec::new();
        let mut i: usize = 0;
        while i < n
            invariant 0 <= i <= n, n == all.len(), v@ == all.skip(i as int), r@ == somes(all).take(i as int)
            decreases n - i
        {
            r.push(vpop(&mut v));
            i = i + 1;
            proof { assert(v@ =~= all.skip(i as int)); assert(r@ =~= somes(all).take(i as int)); }
        }
        proof { assert(r@ =~= somes(all)); }
        SeqIter { v: r }
    }
    fn rev(self) -> SeqIter<X::Item> {
        let ghost all = self.rem();
        let mut v = vall(self);
        let mut r: std::vec::Vec<X::Item> = std::vec::Vec::new();
        while v.len() > 0
            invariant v@ == all.take(v@.len() as int), v@.len() <= all.len(), r@ == all.reverse().take(all.len() - v@.len())
            decreases v@.len()
        {
            match v.pop() { Option::Some(x) => r.push(x), Option::None => {} }
            proof { assert(v@ =~= all.take(v@.len() as int)); assert(r@ =~= all.reverse().take(all.len() - v@.len())); }
        }
        proof { assert(r@ =~= all.reverse()); }
        SeqIter { v: r }
    }
    fn collect<C: FromIter<X::Item>>(self) -> C { C::build(vall(self)) }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Option::None) }
}
pub trait ClonedExt<'a, T: Clone + 'a>: Iterator<Item = &'a T> {
    fn cloned(self) -> (r: SeqIter<T>)
        ensures r.rem() == derefs(self.rem());
}
impl<'a, T: Clone + 'a, X: Iterator<Item = &'a T>> ClonedExt<'a, T> for X {
    fn cloned(self) -> SeqIter<T> {
        let v = vall(self);
        let mut r: std::vec::Vec<T> = std::vec::Vec::new();
        let mut i: usize = 0;
        while i < v.len()
            invariant 0 <= i <= v@.len(), r@ == derefs(v@).take(i as int)
            decreases v@.len() - i
        {
            r.push(v[i].clone());
            i = i + 1;
            proof { assert(r@ =~= derefs(v@).take(i as int)); }
        }
        proof { assert(r@ =~= derefs(v@)); }
        SeqIter { v: r }
    }
}
pub fn once<T>(x: T) -> (r: SeqIter<T>)
    ensures r.rem() == seq![x]
{ let mut v: std::vec::Vec<T> = std::vec::Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } SeqIter { v } }
pub trait FromIter<T>: Sized {
    spec fn from_items(s: Seq<T>) -> Self;
    fn build(v: std::vec::Vec<T>) -> (r: Self)
        ensures r == Self::from_items(v@);
}

// -------------------------------------------------------------------- Vec
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { v: std::vec::Vec<T> }
impl<T> View for Vec<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
pub trait VIndex {
    type Out;
    spec fn vlen(&self) -> nat;
    spec fn vget(&self, i: int) -> Self::Out;
    fn vindex(&self, i: usize) -> (r: &Self::Out)
        requires i < self.vlen(),
        ensures *r == self.vget(i as int);
}
impl<T> VIndex for Vec<T> {
    type Out = T;
    open spec fn vlen(&self) -> nat { self@.len() }
    open spec fn vget(&self, i: int) -> T { self@[i] }
    fn vindex(&self, i: usize) -> &T { proof { let _ = |a0: &Self| <Self as VIndex>::vlen(a0); let _ = |a0: &Self, a1: int| <Self as VIndex>::vget(a0, a1); } &self.v[i] }
}
impl<T> VIndex for VecDeque<T> {
    type Out = T;
    open spec fn vlen(&self) -> nat { self@.len() }
    open spec fn vget(&self, i: int) -> T { self@[i] }
    fn vindex(&self, i: usize) -> &T { proof { let _ = |a0: &Self| <Self as VIndex>::vlen(a0); let _ = |a0: &Self, a1: int| <Self as VIndex>::vget(a0, a1); } &self.v[i] }
}
impl<T> VIndex for [T] {
    type Out = T;
    open spec fn vlen(&self) -> nat { self@.len() }
    open spec fn vget(&self, i: int) -> T { self@[i] }
    fn vindex(&self, i: usize) -> &T { proof { let _ = |a0: &Self| <Self as VIndex>::vlen(a0); let _ = |a0: &Self, a1: int| <Self as VIndex>::vget(a0, a1); } &self[i] }
}
impl<'a, T> VIndex for &'a [T] {
    type Out = T;
    open spec fn vlen(&self) -> nat { (*self)@.len() }
    open spec fn vget(&self, i: int) -> T { (*self)@[i] }
    fn vindex(&self, i: usize) -> &T { proof { let _ = |a0: &Self| <Self as VIndex>::vlen(a0); let _ = |a0: &Self, a1: int| <Self as VIndex>::vget(a0, a1); } &self[i] }
}
impl<'a, T> VIndex for &'a Vec<T> {
    type Out = T;
    open spec fn vlen(&self) -> nat { (*self)@.len() }
    open spec fn vget(&self, i: int) -> T { (*self)@[i] }
    fn vindex(&self, i: usize) -> &T { proof { let _ = |a0: &Self| <Self as VIndex>::vlen(a0); let _ = |a0: &Self, a1: int| <Self as VIndex>::vget(a0, a1); } &self.v[i] }
}
impl<T> Vec<T> {
    pub uninterp spec fn of(s: Seq<T>) -> Vec<T>;
    #[verifier::external_body]
    pub broadcast proof fn ax_of(v: Vec<T>)
        ensures #[trigger] Vec::of(v@) == v
    { }
    #[verifier::external_body]
    pub broadcast proof fn ax_view_of(s: Seq<T>)
        ensures (#[trigger] Vec::of(s))@ == s
    { }
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { Vec { v: std::vec::Vec::new() } }
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { Vec { v: std::vec::Vec::with_capacity(n) } }
    pub fn from_array<const N: usize>(a: [T; N]) -> (r: Self) ensures r@ == a@ { Vec { v: <[T]>::into_vec(Box::new(a)) } }
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x), final(self)@.len() == old(self)@.len() + 1, final(self)@[old(self)@.len() as int] == x { self.v.push(x) }
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Option::Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { self.v.pop() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn capacity(&self) -> (r: usize) ensures r >= self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self@ { self.v.as_slice() }
    pub fn vslice(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { vstd::slice::slice_subrange(self.v.as_slice(), a, b) }
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { self.v.clear() }
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { self.v.truncate(n) }
    pub fn first(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Option::Some(&self@[0]) { if self.v.len() == 0 { Option::None } else { Option::Some(&self.v[0]) } }
    pub fn last(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Option::Some(&self@.last()) { if self.v.len() == 0 { Option::None } else { Option::Some(&self.v[self.v.len() - 1]) } }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r is Some ==> i < usize::MAX, i < self@.len() ==> r == Option::Some(&self@[i as int]), i >= self@.len() ==> r is None { if i < self.v.len() { Option::Some(&self.v[i]) } else { Option::None } }
    pub fn vset(&mut self, i: usize, x: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { self.v.set(i, x); }
    pub fn remove(&mut self, i: usize) -> (r: T) requires i < old(self)@.len() ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int) { self.v.remove(i) }
    pub fn insert(&mut self, i: usize, x: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x) { self.v.insert(i, x) }
    pub fn append(&mut self, o: &mut Vec<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { self.v.append(&mut o.v) }
    pub fn extend<C: IntoIterator<Item = T>>(&mut self, x: C) ensures final(self)@ == old(self)@ + x.items() { let mut v = vall(x.into_iter()); self.v.append(&mut v); }
    pub fn drain_all(&mut self) -> (r: VecIter<T>) ensures r.rem() == old(self)@, final(self)@ == Seq::<T>::empty() { let mut v: std::vec::Vec<T> = std::vec::Vec::new(); v.append(&mut self.v); proof { assert(v@ =~= old(self)@); } VecIter { v } }
    pub fn viter(&self) -> (r: SliceIter<'_, T>) ensures r.rem() == refs(self@) { slice_iter(self.v.as_slice()) }
    pub fn sort_by_key<K: Key, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|x: &T| #[trigger] f.requires((x,))
        ensures forall|ks: Seq<int>| keyed(f, old(self)@, ks) ==> final(self)@ == #[trigger] ssort(old(self)@, ks)
    {
        let ghost s = self@;
        let mut src: std::vec::Vec<T> = std::vec::Vec::new();
        src.append(&mut self.v);
        proof { assert(src@ =~= s.skip(0)); }
        let n = src.len();
        let mut kv: std::vec::Vec<(K, T)> = std::vec::Vec::new();
        let mut i: usize = 0;
        proof { assert forall|ks: Seq<int>| keyed(f, s, ks) implies kvs(kv@) == #[trigger] ssort_kv(s, ks, i as nat) by { assert(kvs(kv@) =~= ssort_kv(s, ks, 0)); } }
        while i < n
            invariant
                0 <= i <= n, n == s.len(), src@ == s.skip(i as int), self.v@.len() == 0, kv@.len() == i,
                forall|x: &T| #[trigger] f.requires((x,)),
                forall|ks: Seq<int>| keyed(f, s, ks) ==> kvs(kv@) == #[trigger] ssort_kv(s, ks, i as nat),
            decreases n - i
        {
            match vpop(&mut src) {
                Option::Some(x) => {
                    let k = f(&x);
                    let ghost key = k.key();
                    let ghost was = kv@;
                    let ghost y = x;
                    let mut j: usize = kv.len();
                    while j > 0 && kv[j - 1].0.after(&k)
                        invariant j <= kv@.len(), kv@ == was, k.key() == key, forall|m: int| j <= m < kv@.len() ==> (#[trigger] kv@[m]).0.key() > key
                        decreases j
                    { j = j - 1; }
                    kv.insert(j, (k, x));
                    proof {
                        lemma_sins(kvs(was), key, y, j as int);
                        assert(kvs(kv@) =~= kvs(was).insert(j as int, (key, y)));
                        assert forall|ks: Seq<int>| keyed(f, s, ks) implies kvs(kv@) == #[trigger] ssort_kv(s, ks, (i + 1) as nat) by {
                            assert(ks[i as int] == key);
                            assert(kvs(was) == ssort_kv(s, ks, i as nat));
                        }
                    }
                }
                Option::None => {}
            }
            i = i + 1;
            proof { assert(src@ =~= s.skip(i as int)); }
        }
        let ghost all = kv@;
        let mut d: usize = 0;
        while d < n
            invariant 0 <= d <= n, n == all.len(), kv@ == all.skip(d as int), self.v@ == Seq::new(d as nat, |m: int| all[m].1)
            decreases n - d
        {
            match vpop(&mut kv) { Option::Some(p) => self.v.push(p.1), Option::None => {} }
            d = d + 1;
            proof { assert(kv@ =~= all.skip(d as int)); assert(self.v@ =~= Seq::new(d as nat, |m: int| all[m].1)); }
        }
        proof {
            assert forall|ks: Seq<int>| keyed(f, s, ks) implies self@ == #[trigger] ssort(s, ks) by {
                assert(kvs(all) == ssort_kv(s, ks, n as nat));
                assert forall|m: int| 0 <= m < n implies self@[m] == ssort(s, ks)[m] by { assert(kvs(all)[m].1 == all[m].1); }
                assert(self@ =~= ssort(s, ks));
            }
        }
    }
    /// nothing is assumed about the order it leaves
    pub fn sort_unstable_by_key<K: Key, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|x: &T| #[trigger] f.requires((x,))
        ensures final(self)@.len() == old(self)@.len(), final(self)@.to_multiset() == old(self)@.to_multiset()
    { }
}
impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = VecIter<T>; open spec fn items(&self) -> Seq<T> { self@ } fn into_iter(self) -> VecIter<T> { proof { let _ = |a0: &Self| <Self as IntoIterator>::items(a0); } VecIter { v: self.v } } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = SliceIter<'a, T>; open spec fn items(&self) -> Seq<&'a T> { refs(self@) } fn into_iter(self) -> SliceIter<'a, T> { proof { let _ = |a0: &Self| <Self as IntoIterator>::items(a0); } slice_iter(self.v.as_slice()) } }
impl<T, const N: usize> IntoIterator for [T; N] { type Item = T; type IntoIter = SeqIter<T>; open spec fn items(&self) -> Seq<T> { self@ } fn into_iter(self) -> SeqIter<T> { SeqIter { v: <[T]>::into_vec(Box::new(self)) } } }
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Vec<T> {
        let mut r: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant 0 <= i <= self@.len(), r@ == self@.take(i as int)
            decreases self@.len() - i
        {
            r.push(self.v[i].clone());
            i = i + 1;
            proof { assert(r@ =~= self@.take(i as int)); }
        }
        proof { assert(r@ =~= self@); Vec::ax_of(r); Vec::ax_of(*self); }
        r
    }
}
impl<T> FromIter<T> for Vec<T> {
    open spec fn from_items(s: Seq<T>) -> Vec<T> { Vec::of(s) }
    fn build(v: std::vec::Vec<T>) -> Vec<T> { proof { let _ = |a0: Seq<T>| <Self as FromIter<T>>::from_items(a0); } let r = Vec { v }; proof { Vec::ax_of(r); } r }
}
pub trait SliceExt<T> {
    spec fn sl(&self) -> Seq<T>;
    fn viter(&self) -> (r: SliceIter<'_, T>)
        ensures r.rem() == refs(self.sl());
    fn vslice(&self, a: usize, b: usize) -> (r: &[T])
        requires a <= b <= self.sl().len()
        ensures r@ == self.sl().subrange(a as int, b as int);
}
impl<T> SliceExt<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ } fn viter(&self) -> SliceIter<'_, T> { proof { let _ = |a0: &Self| <Self as SliceExt<T>>::sl(a0); } slice_iter(self) } fn vslice(&self, a: usize, b: usize) -> &[T] { proof { let _ = |a0: &Self| <Self as SliceExt<T>>::sl(a0); } vstd::slice::slice_subrange(self, a, b) } }
impl<'a, T> IntoIterator for &'a [T] { type Item = &'a T; type IntoIter = SliceIter<'a, T>; open spec fn items(&self) -> Seq<&'a T> { refs(self@) } fn into_iter(self) -> SliceIter<'a, T> { proof { let _ = |a0: &Self| <Self as IntoIterator>::items(a0); } slice_iter(self) } }

/// stable sort: insertion sort by key, ties keep their order
pub open spec fn sins<T>(s: Seq<(int, T)>, k: int, x: T) -> Seq<(int, T)>
    decreases s.len()
{
    if s.len() > 0 && s.last().0 > k { sins(s.drop_last(), k, x).push(s.last()) } else { s.push((k, x)) }
}
pub open spec fn ssort_kv<T>(s: Seq<T>, ks: Seq<int>, n: nat) -> Seq<(int, T)>
    decreases n
{
    if n == 0 { Seq::empty() } else { sins(ssort_kv(s, ks, (n - 1) as nat), ks[n - 1], s[n - 1]) }
}
pub open spec fn ssort<T>(s: Seq<T>, ks: Seq<int>) -> Seq<T> {
    Seq::new(s.len(), |i: int| ssort_kv(s, ks, s.len())[i].1)
}
pub open spec fn kvs<K: Key, T>(s: Seq<(K, T)>) -> Seq<(int, T)> { Seq::new(s.len(), |i: int| (s[i].0.key(), s[i].1)) }
pub proof fn lemma_sins<T>(s: Seq<(int, T)>, k: int, x: T, j: int)
    requires 0 <= j <= s.len(), forall|m: int| j <= m < s.len() ==> (#[trigger] s[m]).0 > k, j > 0 ==> s[j - 1].0 <= k
    ensures sins(s, k, x) == s.insert(j, (k, x))
    decreases s.len()
{
    if j < s.len() {
        lemma_sins(s.drop_last(), k, x, j);
        assert(s.drop_last().insert(j, (k, x)).push(s.last()) =~= s.insert(j, (k, x)));
    } else {
        assert(s.push((k, x)) =~= s.insert(j, (k, x)));
    }
}
/// `ks` are the only keys `f` can give to the elements of `s`
pub open spec fn keyed<T, K: Key, F: Fn(&T) -> K>(f: F, s: Seq<T>, ks: Seq<int>) -> bool {
    ks.len() == s.len() && forall|i: int, k: K| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), k) ==> k.key() == ks[i]
}
pub trait Key {
    spec fn key(&self) -> int;
    fn after(&self, o: &Self) -> (r: bool)
        ensures r == (self.key() > o.key());
}
impl Key for usize { open spec fn key(&self) -> int { *self as int } fn after(&self, o: &usize) -> bool { proof { let _ = |a0: &Self| <Self as Key>::key(a0); } *self > *o } }
pub struct Reverse<T>(pub T);
impl<T: Key> Key for Reverse<T> { open spec fn key(&self) -> int { -self.0.key() } fn after(&self, o: &Reverse<T>) -> bool { proof { let _ = |a0: &Self| <Self as Key>::key(a0); } o.0.after(&self.0) } }

// --------------------------------------------------------------- VecDeque
// reference implementation: the items and a capacity
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: std::vec::Vec<T>, c: usize }
impl<T> View for VecDeque<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> VecDeque<T> {
    pub closed spec fn cap(&self) -> nat { if self.v@.len() > self.c { self.v@.len() } else { self.c as nat } }
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { VecDeque { v: std::vec::Vec::new(), c: 0 } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= self.cap() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap(), r >= self@.len() { if self.v.len() > self.c { self.v.len() } else { self.c } }
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures r is Some ==> i < usize::MAX, i < self@.len() ==> r == Option::Some(&self@[i as int]), i >= self@.len() ==> r is None { if i < self.v.len() { Option::Some(&self.v[i]) } else { Option::None } }
    pub fn push_back(&mut self, x: T)
        ensures final(self)@ == old(self)@.push(x), old(self)@.len() < old(self).cap() ==> final(self).cap() == old(self).cap()
    { self.v.push(x) }
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            final(self).cap() == old(self).cap(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Option::Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { self.c = self.capacity(); vpop(&mut self.v) }
    pub fn drain_to(&mut self, n: usize)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.skip(n as int), final(self).cap() == old(self).cap()
    {
        self.c = self.capacity();
        let ghost o = self.v@;
        let mut i: usize = 0;
        while i < n
            invariant 0 <= i <= n <= o.len(), self.v@ == o.skip(i as int), self.c == old(self).cap(), o.len() <= self.c
            decreases n - i
        {
            let _ = vpop(&mut self.v);
            i = i + 1;
            proof { assert(self.v@ =~= o.skip(i as int)); }
        }
    }
}

// ---------------------------------------------------------------- HashSet
// reference implementation: the members in some order, none twice
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { v: std::vec::Vec<T> }
impl<T> View for HashSet<T> { type V = Set<T>; closed spec fn view(&self) -> Set<T> { self.v@.to_set() } }
impl<T> HashSet<T> {
    #[verifier::type_invariant]
    closed spec fn wf(&self) -> bool { self.v@.no_duplicates() }
    pub uninterp spec fn of(s: Set<T>) -> HashSet<T>;
    #[verifier::external_body]
    pub broadcast proof fn ax_of(v: HashSet<T>)
        ensures #[trigger] HashSet::of(v@) == v
    { }
    #[verifier::external_body]
    pub broadcast proof fn ax_view_of(s: Set<T>)
        ensures (#[trigger] HashSet::of(s))@ == s
    { }
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { let r = HashSet { v: std::vec::Vec::new() }; proof { assert(r@ =~= Set::<T>::empty()); } r }
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { HashSet::new() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { proof { use_type_invariant(self); self.v@.unique_seq_to_set(); } self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
    pub fn viter(&self) -> (r: SliceIter<'_, T>)
        ensures derefs(r.rem()).to_set() == self@, derefs(r.rem()).no_duplicates()
    {
        proof { use_type_invariant(self); assert(derefs(refs(self.v@)) =~= self.v@); }
        slice_iter(self.v.as_slice())
    }
}
impl<T: Eq + Hash> HashSet<T> {
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x)
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant 0 <= i <= self.v@.len(), forall|j: int| 0 <= j < i ==> self.v@[j] != *x
            decreases self.v@.len() - i
        {
            proof { self.v@[i as int].eq_law(x); }
            if self.v[i].veq(x) {
                proof { assert(self.v@.contains(*x)); }
                return true;
            }
            i = i + 1;
        }
        false
    }
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x)
    {
        proof { use_type_invariant(&*self); }
        if self.contains(&x) {
            proof { assert(self@.insert(x) =~= self@); }
            false
        } else {
            let ghost o = self.v@;
            proof {
                assert(!o.contains(x)) by { if o.contains(x) { assert(o.to_set().contains(x)); } }
                assert forall|z: T| o.push(x).to_set().contains(z) == (o.to_set().contains(z) || z == x) by {
                    if o.contains(z) { let m = choose|m: int| 0 <= m < o.len() && o[m] == z; assert(o.push(x)[m] == z); }
                    assert(o.push(x)[o.len() as int] == x);
                }
                assert(o.push(x).to_set() =~= o.to_set().insert(x));
                assert(o.push(x).no_duplicates());
            }
            let mut s = HashSet::new();
            std::mem::swap(&mut s, self);
            let mut v = s.v;
            v.push(x);
            *self = HashSet { v };
            true
        }
    }
    pub fn extend<C: IntoIterator<Item = T>>(&mut self, x: C) ensures final(self)@ == old(self)@.union(x.items().to_set())
    {
        let ghost all = x.items();
        let mut v = vall(x.into_iter());
        let n = v.len();
        let mut i: usize = 0;
        proof { assert(self@ =~= old(self)@.union(all.take(0).to_set())); }
        while i < n
            invariant 0 <= i <= n, n == all.len(), v@ == all.skip(i as int), self@ == old(self)@.union(all.take(i as int).to_set())
            decreases n - i
        {
            match vpop(&mut v) { Option::Some(x) => { let _ = self.insert(x); } Option::None => {} }
            proof {
                assert(v@ =~= all.skip(i + 1));
                assert(all.take(i + 1) =~= all.take(i as int).push(all[i as int]));
                assert forall|z: T| all.take(i + 1).to_set().contains(z) == (all.take(i as int).to_set().contains(z) || z == all[i as int]) by {
                    if all.take(i as int).to_set().contains(z) { let m = choose|m: int| 0 <= m < i && all.take(i as int)[m] == z; assert(all.take(i + 1)[m] == z); }
                    if z == all[i as int] { assert(all.take(i + 1)[i as int] == z); }
                }
                assert(self@ =~= old(self)@.union(all.take(i + 1).to_set()));
            }
            i = i + 1;
        }
        proof { assert(all.take(n as int) =~= all); }
    }
}
impl<T: Clone> Clone for HashSet<T> {
    fn clone(&self) -> HashSet<T> {
        proof { use_type_invariant(self); }
        let mut v: std::vec::Vec<T> = std::vec::Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant 0 <= i <= self.v@.len(), v@ == self.v@.take(i as int)
            decreases self.v@.len() - i
        {
            v.push(self.v[i].clone());
            i = i + 1;
            proof { assert(v@ =~= self.v@.take(i as int)); }
        }
        proof { assert(v@ =~= self.v@); }
        let r = HashSet { v };
        proof { HashSet::ax_of(r); HashSet::ax_of(*self); }
        r
    }
}
impl<T: Eq + Hash> FromIter<T> for HashSet<T> {
    open spec fn from_items(s: Seq<T>) -> HashSet<T> { HashSet::of(s.to_set()) }
    fn build(v: std::vec::Vec<T>) -> HashSet<T> { proof { let _ = |a0: Seq<T>| <Self as FromIter<T>>::from_items(a0); }
        let mut r = HashSet::new();
        r.extend(VecIter { v });
        proof { assert(r@ =~= v@.to_set()); HashSet::ax_of(r); }
        r
    }
}

// ------------------------------------------------------------- Rc and Weak
#[verifier::reject_recursive_types(T)]
pub struct Rc<T> { v: std::rc::Rc<T>, i: Ghost<int> }
#[verifier::reject_recursive_types(T)]
pub struct Weak<T> { v: Ghost<T>, i: Ghost<int> }
impl<T> Rc<T> {
    /// identity of the allocation
    pub closed spec fn id(&self) -> int { self.i@ }
    pub closed spec fn val(&self) -> T { *self.v }
    pub fn new(x: T) -> (r: Self) ensures r.val() == x { Rc { v: std::rc::Rc::new(x), i: Ghost(arbitrary()) } }
    pub fn downgrade(x: &Rc<T>) -> (r: Weak<T>) ensures r.id() == x.id(), r.val() == x.val() { Weak { v: Ghost(x.val()), i: Ghost(x.id()) } }
}
impl<T> std::ops::Deref for Rc<T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == self.val() { &*self.v } }
impl<T> Clone for Rc<T> { fn clone(&self) -> Rc<T> { Rc { v: ::core::clone::Clone::clone(&self.v), i: Ghost(self.i@) } } }
/// Ghost clock of a stream. `gone_at(s, i, e)`: at tick `e` of stream `s`, no
/// strong reference to allocation `i` existed any more.
pub struct Clock { pub sid: int, pub epoch: nat }
/// the tick from which on an allocation is seen to be gone, if ever
pub uninterp spec fn gone_from(sid: int, id: int) -> Option<nat>;
pub open spec fn gone_at(sid: int, id: int, epoch: nat) -> bool { gone_from(sid, id) is Some && gone_from(sid, id)->Some_0 <= epoch }
pub broadcast proof fn ax_gone(sid: int, id: int, e1: nat, e2: nat)
    requires e1 <= e2, #[trigger] gone_at(sid, id, e1),
    ensures #[trigger] gone_at(sid, id, e2)
{ }
impl<T> Weak<T> {
    pub closed spec fn id(&self) -> int { self.i@ }
    pub closed spec fn val(&self) -> T { self.v@ }
    /// reading the count is a tick of the clock
    #[verifier::external_body]
    pub fn strong_count(&self, gh: &mut Ghost<Clock>) -> (r: usize)
        ensures
            final(gh)@.sid == old(gh)@.sid, final(gh)@.epoch == old(gh)@.epoch + 1,
            (r == 0) == gone_at(final(gh)@.sid, self.id(), final(gh)@.epoch),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn upgrade(&self, gh: &mut Ghost<Clock>) -> (r: Option<Rc<T>>)
        ensures
            final(gh)@.sid == old(gh)@.sid, final(gh)@.epoch == old(gh)@.epoch + 1,
            (r is None) == gone_at(final(gh)@.sid, self.id(), final(gh)@.epoch),
            r is Some ==> r->Some_0.id() == self.id() && r->Some_0.val() == self.val(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- RefCell
/// write-once cell: `first()` is the first value it is ever given
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { v: std::cell::RefCell<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CellRef<'a, T> { v: PhantomData<&'a T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CellMut<'a, T> { v: PhantomData<&'a T> }
impl<T> RefCell<Option<T>> {
    pub uninterp spec fn first(&self) -> T;
    /// user obligation: no value has been stored yet / a value has been stored
    pub uninterp spec fn unset(&self) -> bool;
    pub uninterp spec fn ready(&self) -> bool;
    #[verifier::external_body] pub fn borrow(&self) -> (r: CellRef<'_, T>) ensures self.ready() ==> r.val() == Option::Some(self.first()) { unimplemented!() }
    #[verifier::external_body] pub fn borrow_mut(&self) -> (r: CellMut<'_, T>) ensures r.unset() == self.unset(), r.first() == self.first() { unimplemented!() }
}
impl<'a, T> CellRef<'a, T> {
    pub uninterp spec fn val(&self) -> Option<T>;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: Option<&T>) ensures r == (match self.val() { Option::Some(x) => Option::Some(&x), Option::None => Option::None }) { unimplemented!() }
}
impl<'a, T> CellMut<'a, T> {
    pub uninterp spec fn unset(&self) -> bool;
    pub uninterp spec fn first(&self) -> T;
    #[verifier::external_body] pub fn replace(self, x: T) -> (r: Option<T>)
        ensures self.unset() ==> r is None && x == self.first()
    { unimplemented!() }
}
impl<T> Default for Rc<RefCell<Option<T>>> {
    open spec fn is_default(&self) -> bool { self.val().unset() }
    #[verifier::external_body] fn default() -> Rc<RefCell<Option<T>>> { proof { let _ = |a0: &Self| <Self as Default>::is_default(a0); } unimplemented!() }
}

// ---------------------------------------------------------------- strings
pub open spec fn utf8_len(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
/// a string slice fits in memory (str::len returns the length as a usize)
#[verifier::external_body]
pub broadcast proof fn ax_str_fits(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= usize::MAX
{ unimplemented!() }
pub trait StrExt {
    spec fn chs(&self) -> Seq<char>;
    fn vchars(&self) -> (r: CharIter<'_>) ensures r.rem() == self.chs();
}
impl StrExt for str { open spec fn chs(&self) -> Seq<char> { self@ } fn vchars(&self) -> CharIter<'_> { proof { let _ = |a0: &Self| <Self as StrExt>::chs(a0); } char_iter(self) } }
impl StrExt for String { open spec fn chs(&self) -> Seq<char> { self@ } fn vchars(&self) -> CharIter<'_> { proof { let _ = |a0: &Self| <Self as StrExt>::chs(a0); } char_iter(self.as_str()) } }
fn char_iter<'a>(s: &'a str) -> (r: CharIter<'a>)
    ensures r.rem() == s@
{
    let n = s.unicode_len();
    let mut v: std::vec::Vec<char> = std::vec::Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant n == s@.len(), 0 <= i <= n, v@ == s@.take(i as int)
        decreases n - i
    {
        v.push(s.get_char(i));
        i = i + 1;
        proof { assert(v@ =~= s@.take(i as int)); }
    }
    proof { assert(v@ =~= s@); }
    CharIter { v, l: PhantomData }
}

// -------------------------------------------------------------- functions
pub fn opt_cloned<T: Clone>(o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Option::Some(x) => Option::Some(*x), Option::None => Option::None })
{ match o { Option::Some(x) => Option::Some(x.clone()), Option::None => Option::None } }
/// the parts of `Option::get_or_insert_with`
pub trait OptMut<T>: Sized {
    spec fn ov(&self) -> Option<T>;
    fn vput(&mut self, x: T)
        ensures final(self).ov() == Option::Some(x);
    fn vforce(&mut self) -> (r: &mut T)
        requires old(self).ov() is Some
        ensures *r == old(self).ov()->Some_0, final(self).ov() == Option::Some(*final(r));
}
impl<T> OptMut<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    fn vput(&mut self, x: T) { proof { let _ = |a0: &Self| <Self as OptMut<T>>::ov(a0); } *self = Option::Some(x) }
    fn vforce(&mut self) -> &mut T { proof { let _ = |a0: &Self| <Self as OptMut<T>>::ov(a0); } match self { Option::Some(x) => x, Option::None => vpanic() } }
}
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }

// ------------------------------------------------------- user's functions
// A user callback is assumed total and deterministic: these name its value.
pub open spec fn ok0<O, F: Fn() -> O>(f: F) -> bool { f.requires(()) && forall|r1: O, r2: O| #[trigger] f.ensures((), r1) && #[trigger] f.ensures((), r2) ==> r1 == r2 }
pub open spec fn ap0<O, F: Fn() -> O>(f: F) -> O { choose|r: O| f.ensures((), r) }
pub open spec fn ok1<A, O, F: Fn(A) -> O>(f: F) -> bool {
    &&& forall|a: A| #[trigger] f.requires((a,))
    &&& forall|a: A, r1: O, r2: O| #[trigger] f.ensures((a,), r1) && #[trigger] f.ensures((a,), r2) ==> r1 == r2
}
pub open spec fn ap1<A, O, F: Fn(A) -> O>(f: F, a: A) -> O { choose|r: O| f.ensures((a,), r) }
pub open spec fn ok2<A, B, O, F: Fn(A, B) -> O>(f: F) -> bool {
    &&& forall|a: A, b: B| #[trigger] f.requires((a, b))
    &&& forall|a: A, b: B, r1: O, r2: O| #[trigger] f.ensures((a, b), r1) && #[trigger] f.ensures((a, b), r2) ==> r1 == r2
}
pub open spec fn ap2<A, B, O, F: Fn(A, B) -> O>(f: F, a: A, b: B) -> O { choose|r: O| f.ensures((a, b), r) }
pub open spec fn okr<A, O, F: Fn(&A) -> O>(f: F) -> bool {
    &&& forall|a: &A| #[trigger] f.requires((a,))
    &&& forall|a: &A, r1: O, r2: O| #[trigger] f.ensures((a,), r1) && #[trigger] f.ensures((a,), r2) ==> r1 == r2
}
pub open spec fn apr<A, O, F: Fn(&A) -> O>(f: F, a: A) -> O { choose|r: O| f.ensures((&a,), r) }
pub open spec fn okor<A, B, O, F: Fn(Option<&A>, B) -> O>(f: F) -> bool {
    &&& forall|a: Option<&A>, b: B| #[trigger] f.requires((a, b))
    &&& forall|a: Option<&A>, b: B, r1: O, r2: O| #[trigger] f.ensures((a, b), r1) && #[trigger] f.ensures((a, b), r2) ==> r1 == r2
}
pub open spec fn oref<'a, A>(a: Option<A>) -> Option<&'a A> { match a { Option::Some(x) => Option::Some(&x), Option::None => Option::None } }
pub open spec fn apor<A, B, O, F: Fn(Option<&A>, B) -> O>(f: F, a: Option<A>, b: B) -> O { choose|r: O| f.ensures((oref(a), b), r) }
// error updaters work through `&mut Vec<E>`
pub uninterp spec fn upd1<E, F: Fn(&mut Vec<E>)>(f: F, es: Seq<E>) -> Seq<E>;
pub uninterp spec fn upd2<E, A, F: Fn(&mut Vec<E>, A)>(f: F, es: Seq<E>, a: A) -> Seq<E>;
pub uninterp spec fn upd3<E, A, B, F: Fn(&mut Vec<E>, Option<&A>, B)>(f: F, es: Seq<E>, a: Option<A>, b: B) -> Seq<E>;
#[verifier::external_body] pub fn call_upd1<E, F: Fn(&mut Vec<E>)>(f: &F, es: &mut Vec<E>) ensures final(es)@ == upd1(*f, old(es)@) { unimplemented!() }
#[verifier::external_body] pub fn call_upd2<E, A, F: Fn(&mut Vec<E>, A)>(f: &F, es: &mut Vec<E>, a: A) ensures final(es)@ == upd2(*f, old(es)@, a) { unimplemented!() }
#[verifier::external_body] pub fn call_upd3<E, A, B, F: Fn(&mut Vec<E>, Option<&A>, B)>(f: &F, es: &mut Vec<E>, a: Option<&A>, b: B) ensures final(es)@ == upd3(*f, old(es)@, (match a { Option::Some(x) => Option::Some(*x), Option::None => Option::None }), b) { unimplemented!() }

/// instances of facts about sequences under the triggers the contracts below use
pub broadcast proof fn push_at<A>(s: Seq<A>, x: A, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger s.push(x), s[i]] s.push(x)[i] == s[i]
{ }
pub broadcast proof fn push_last<A>(s: Seq<A>, x: A)
    ensures #![trigger s.push(x)] s.push(x)[s.len() as int] == x
{ }
pub broadcast proof fn update_at<A>(s: Seq<A>, k: int, x: A, i: int)
    requires 0 <= i < s.len(), 0 <= k < s.len(),
    ensures #![trigger s.update(k, x), s[i]] s.update(k, x)[i] == (if i == k { x } else { s[i] })
{ }
pub broadcast proof fn update_same<A>(s: Seq<A>, k: int, x: A)
    requires 0 <= k < s.len(),
    ensures #![trigger s.update(k, x)] s.update(k, x)[k] == x
{ }
pub broadcast proof fn remove_at<A>(s: Seq<A>, k: int, i: int)
    requires 0 <= i < s.len(), 0 <= k < s.len(), i != k,
    ensures #![trigger s.remove(k), s[i]] s.remove(k)[if i < k { i } else { i - 1 }] == s[i]
{ }
pub broadcast proof fn arr0<A>(a: [A; 0])
    ensures #[trigger] a@ == Seq::<A>::empty()
{ assert(a@ =~= Seq::<A>::empty()); }
pub broadcast proof fn arr1<A>(a: [A; 1])
    ensures #[trigger] a@ == seq![a@[0]]
{ assert(a@ =~= seq![a@[0]]); }
pub broadcast group arrlem { arr0, arr1, }
pub broadcast group seqlem { push_at, push_last, update_at, update_same, remove_at, }
/// a slice has at most `usize::MAX` elements
pub broadcast proof fn slice_fits<T>(s: &[T])
    ensures #[trigger] s@.len() <= usize::MAX
{ assert(s.len() == s@.len()); }
pub broadcast group axioms {
    ax_eq_sym, slice_fits, Vec::ax_of, Vec::ax_view_of, HashSet::ax_of, HashSet::ax_view_of, ax_gone, ax_string, ax_str_fits,
}
}
}
%end
%drop prelude -- re-exports only
