## Primitives (C14)
%mod primitive
%broadcast crate::shim::arrlem
%raw
use vstd::seq::Seq as Sq;
use crate::stream::Src;
use crate::error::LT;
use crate::error::AtT;
use crate::error::At;
use crate::parser::SRes;
use crate::parser::lawful;
use crate::parser::good1;
/// one token taken
pub open spec fn took<O, E>(o: O, p: nat) -> (SRes<O, E>, nat) { (SRes::Ok(o), p + 1) }
/// failure at `i`: expected something else there
pub open spec fn missed<'i, I: Clone + 'i, O, E: error::Error<'i, I>>(expected: Sq<Option<I>>, found: Option<I>, at: AtT<'i, I, E>, i: nat, p: nat) -> (SRes<O, E>, nat) {
    (SRes::Fail(i, seq![E::ef(expected, found, at)]), p)
}
/// failure on the token at `i`
pub open spec fn miss<'i, I: Clone + 'i, O, E: error::Error<'i, I>>(src: Src<I, LT<'i, I, E>>, expected: Sq<Option<I>>, i: nat, p: nat) -> (SRes<O, E>, nat) {
    missed::<'i, I, O, E>(expected, src.tok(i), At::Span(src.tspan(i)), i, p)
}
pub open spec fn is_tok<I: PartialEq>(t: Option<I>, x: I) -> bool { t is Some && t->Some_0.eqs(&x) }
pub open spec fn among<I: PartialEq>(t: I, xs: Sq<I>) -> bool { exists|i: int| 0 <= i < xs.len() && t.eqs(&#[trigger] xs[i]) }
/// number of tokens of `xs` found from `p` on
pub open spec fn matched<I: PartialEq, L: crate::location::Tracker<I>>(src: Src<I, L>, p: nat, xs: Sq<I>) -> nat
    decreases xs.len()
{
    if xs.len() > 0 && is_tok(src.tok(p), xs[0]) { 1 + matched(src, p + 1, xs.skip(1)) } else { 0 }
}
pub proof fn matched_len<I: PartialEq, L: crate::location::Tracker<I>>(src: Src<I, L>, p: nat, xs: Sq<I>)
    requires p <= src.len()
    ensures matched(src, p, xs) <= xs.len(), p + matched(src, p, xs) <= src.len()
    decreases xs.len()
{
    if xs.len() > 0 && is_tok(src.tok(p), xs[0]) { matched_len(src, p + 1, xs.skip(1)); }
}
pub open spec fn none_s<O, E>() -> None<O, E> { None { phantom: std::marker::PhantomData } }
%end
%impl Parser for Empty
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<(), E>, nat) { (SRes::Ok(()), p) }
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn Empty::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
%fn empty
@props: C14
%impl Parser for None
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<Option<O>, E>, nat) { (SRes::Ok(Option::None), p) }
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn None::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
%fn none
@ensures C14: r == none_s::<O, E>()
@props: C14
%impl Parser for End
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<(), E>, nat) {
    if p >= src.len() { (SRes::Ok(()), p) } else { missed::<'i, I, (), E>(seq![Option::None], src.tok(p), At::Location(src.loc(p)), p, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn End::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
%fn end
@props: C14
%impl Parser for Just
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<I, E>, nat) {
    if is_tok(src.tok(p), self.expected) { took(self.expected, p) } else { miss::<'i, I, I, E>(src, seq![Option::Some(self.expected)], p, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn Just::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
%fn just
@ensures C14: r.expected == expected
@props: C14
%impl Parser for Filter
open spec fn valid(&self) -> bool { okr(self.filter) }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<I, E>, nat) {
    if src.tok(p) is Some && apr(self.filter, src.tok(p)->Some_0) { took(src.tok(p)->Some_0, p) } else { miss::<'i, I, I, E>(src, seq![], p, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn Filter::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
%fn filter
@params: filter_
@ensures C14: r.filter == filter_
@props: C14
%impl Parser for FilterMap
open spec fn valid(&self) -> bool { okr(self.filter) }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<O, E>, nat) {
    if src.tok(p) is Some && apr(self.filter, src.tok(p)->Some_0) is Some { took(apr(self.filter, src.tok(p)->Some_0)->Some_0, p) } else { miss::<'i, I, O, E>(src, seq![], p, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn FilterMap::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
%fn filter_map
@params: filter_
@ensures C14: r.filter == filter_
@props: C14
%impl Parser for Seq
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<O, E>, nat) {
    let n = matched(src, p, self.expected.elems());
    if n >= self.expected.elems().len() { (SRes::Ok(self.expected), p + n) }
    else { miss::<'i, I, O, E>(src, seq![Option::Some(self.expected.elems()[n as int])], p + n, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { matched_len(src, p, self.expected.elems()); }
%fn Seq::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost s0 = *stream; let ghost xs = self.expected.elems(); let ghost mut k: nat = 0; proof { self.law(s0.src(), s0.pos()); }
@loopsome 0: proof { assert(xs.skip(k as int).skip(1) =~= xs.skip((k + 1) as int)); k = k + 1; }
@looppre 0: proof { assert(xs.skip(0) =~= xs); }
@loop 0 for:
    invariant
        s0.evolves(stream), stream.knows(saved_state), k <= xs.len(), $it.rem() == xs.skip(k as int), stream.pos() == s0.pos() + k,
        matched(s0.src(), s0.pos(), xs) == k + matched(s0.src(), s0.pos() + k, xs.skip(k as int)),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
%fn seq
@ensures C14: r.expected == expected
@props: C14
%impl Parser for OneOf
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<I, E>, nat) {
    if src.tok(p) is Some && among(src.tok(p)->Some_0, self.expected.elems()) { took(src.tok(p)->Some_0, p) }
    else { miss::<'i, I, I, E>(src, somes(self.expected.elems()), p, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn OneOf::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost s0 = *stream; let ghost xs = self.expected.elems(); let ghost t = stream.src().tok(stream.pos()); let ghost mut k: nat = 0;
@loopsome 0: proof { k = k + 1; }
@loop 0 for:
    invariant
        k <= xs.len(), $it.rem() =~= xs.skip(k as int), $hit ==> among(t->Some_0, xs),
        !$hit ==> forall|j: int| 0 <= j < k ==> !t->Some_0.eqs(&#[trigger] xs[j]),
    ensures !$hit ==> k == xs.len()
    decreases $it.rem().len()
%fn one_of
@ensures C14: r.expected == expected
@props: C14
%impl Parser for NoneOf
open spec fn valid(&self) -> bool { true }
open spec fn honest(&self) -> bool { true }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<I, E>, nat) {
    if src.tok(p) is Some && !among(src.tok(p)->Some_0, self.rejected.elems()) { took(src.tok(p)->Some_0, p) }
    else if src.tok(p) is Some { miss::<'i, I, I, E>(src, seq![], p, p) }
    else { missed::<'i, I, I, E>(seq![], Option::None, At::Location(src.loc(p)), p, p) }
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
%fn NoneOf::parse_internal
@sem: kind=C14,C04?; val=C14; erf=C14,C13; err=C14; idx=C14,C19?; pos=C14
@props: C14
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost s0 = *stream; let ghost xs = self.rejected.elems(); let ghost t = stream.src().tok(stream.pos()); let ghost mut k: nat = 0;
@loopsome 0: proof { k = k + 1; }
@loop 0 for:
    invariant
        k <= xs.len(), $it.rem() =~= xs.skip(k as int), $hit ==> among(t->Some_0, xs),
        !$hit ==> forall|j: int| 0 <= j < k ==> !t->Some_0.eqs(&#[trigger] xs[j]),
    ensures !$hit ==> k == xs.len()
    decreases $it.rem().len()
%fn none_of
@ensures C14: r.rejected == rejected
@props: C14
