## Scanners (C18)
%mod scanner
%raw
use crate::error::LocT;
use crate::error::SpanT;
use crate::error::At;
use crate::error::AtT;
use vstd::seq::Seq as Sq;
/// first pair from the `k`-th on that opens / closes with `t`
pub open spec fn opens<I: PartialEq>(types: Sq<(I, I)>, t: I, k: nat) -> Option<nat>
    decreases types.len() - k
{
    if k >= types.len() { Option::None } else if t.eqs(&types[k as int].0) { Option::Some(k) } else { opens(types, t, k + 1) }
}
pub open spec fn closes<I: PartialEq>(types: Sq<(I, I)>, t: I, k: nat) -> Option<nat>
    decreases types.len() - k
{
    if k >= types.len() { Option::None } else if t.eqs(&types[k as int].1) { Option::Some(k) } else { closes(types, t, k + 1) }
}
/// pair `r` is among the open ones
pub open spec fn is_open<I, S>(stack: Sq<(usize, I, S)>, r: nat) -> bool { exists|j: int| 0 <= j < stack.len() && (#[trigger] stack[j]).0 == r }
pub proof fn still_open<I, S>(stack: Sq<(usize, I, S)>, r: nat)
    requires is_open(stack, r), stack.len() > 0, stack.last().0 != r,
    ensures is_open(stack.drop_last(), r)
{
    let j = choose|j: int| 0 <= j < stack.len() && (#[trigger] stack[j]).0 == r;
    assert(j != stack.len() - 1);
    assert(stack.drop_last()[j].0 == r);
}
/// everything inside the innermost open pair `r` is unclosed
pub open spec fn unwound<'i, I: Clone + 'i, E: error::Error<'i, I>>(stack: Sq<(usize, I, SpanT<'i, I, E>)>, r: nat, at: AtT<'i, I, E>, errs: Sq<E>) -> (Sq<(usize, I, SpanT<'i, I, E>)>, Sq<E>)
    decreases stack.len()
{
    if stack.len() == 0 { (stack, errs) }
    else if stack.last().0 == r { (stack.drop_last(), errs) }
    else { unwound::<I, E>(stack.drop_last(), r, at, errs.push(E::ul(stack.last().1, stack.last().2, at))) }
}
/// one token: what is open afterwards, and the errors
pub open spec fn handled<'i, I: Clone + PartialEq + 'i, E: error::Error<'i, I>>(types: Sq<(I, I)>, stack: Sq<(usize, I, SpanT<'i, I, E>)>, t: I, span: SpanT<'i, I, E>, errs: Sq<E>) -> (Sq<(usize, I, SpanT<'i, I, E>)>, Sq<E>) {
    if stack.len() > 0 && t.eqs(&types[stack.last().0 as int].1) { (stack.drop_last(), errs) }
    else {
        match opens(types, t, 0) {
            Option::Some(i) => (stack.push((i as usize, t, span)), errs),
            Option::None => match closes(types, t, 0) {
                Option::Some(r) =>
                    if is_open(stack, r) { unwound::<I, E>(stack, r, At::Span(span), errs) }
                    else if stack.len() > 0 { (stack.drop_last(), errs.push(E::ut(stack.last().1, stack.last().2, t, span))) }
                    else { (stack, errs.push(E::ur(t, span, At::None))) },
                Option::None => (stack, errs),
            },
        }
    }
}
/// everything still open is reported, innermost first
pub open spec fn unclosed<'i, I: Clone + 'i, E: error::Error<'i, I>>(stack: Sq<(usize, I, SpanT<'i, I, E>)>, at: AtT<'i, I, E>, errs: Sq<E>) -> Sq<E>
    decreases stack.len()
{
    if stack.len() == 0 { errs } else { unclosed::<I, E>(stack.drop_last(), at, errs.push(E::ul(stack.last().1, stack.last().2, at))) }
}
impl<'i, I, S> NestedDelimiters<'i, I, S> {
    pub open spec fn wf(&self) -> bool { forall|j: int| 0 <= j < self.stack@.len() ==> (#[trigger] self.stack@[j]).0 < self.types@.len() }
}
%impl trait Scanner
/// the scanner can be used
spec fn sc_ok(&self) -> bool;
spec fn scan_s(self, token: I, span: SpanT<'i, I, E>, errs: Seq<E>) -> (Self, bool, Seq<E>);
spec fn eof_s(self, location: LocT<'i, I, E>, errs: Seq<E>) -> Seq<E>;
%fn Scanner::scan
@requires: old(self).sc_ok()
@ensures inv: final(self).sc_ok()
@ensures stop: r == old(self).scan_s(token, span, old(errors)@).1
@ensures state: *final(self) == old(self).scan_s(token, span, old(errors)@).0
@ensures errs: final(errors)@ == old(self).scan_s(token, span, old(errors)@).2
%fn Scanner::eof
@params: location errors
@requires: old(self).sc_ok()
@ensures errs: final(errors)@ == old(self).eof_s(location, old(errors)@)
%fn Scanner::eof__default
@params: this location errors
@ensures C18: *final(this) == *old(this) && final(errors)@ == old(errors)@
@props: C18
%impl Scanner for NestedDelimiters
open spec fn sc_ok(&self) -> bool { self.wf() }
open spec fn scan_s(self, token: I, span: SpanT<'i, I, E>, errs: Seq<E>) -> (Self, bool, Seq<E>) {
    let x = handled::<I, E>(self.types@, self.stack@, token, span, errs);
    (NestedDelimiters { types: self.types, stack: Vec::of(x.0) }, x.0.len() == 0, x.1)
}
open spec fn eof_s(self, location: LocT<'i, I, E>, errs: Seq<E>) -> Seq<E> { unclosed::<I, E>(self.stack@, At::Location(location), errs) }
%fn NestedDelimiters::scan
@sem: inv=C18; stop=C18; state=C18; errs=C18
@props: C18
%fn NestedDelimiters::eof
@sem: errs=C18
@props: C18
@loop 0 while:
    invariant unclosed::<I, E>(self.stack@, At::Location(location), errors@) == unclosed::<I, E>(old(self).stack@, At::Location(location), old(errors)@),
    ensures errors@ == unclosed::<I, E>(old(self).stack@, At::Location(location), old(errors)@),
    decreases self.stack@.len()
%fn NestedDelimiters::handle_token
@requires: old(self).wf()
@ensures C18: final(self).wf() && final(self).types == old(self).types
@ensures C18: final(self).stack@ == handled::<I, E>(old(self).types@, old(self).stack@, token, span, old(errors)@).0
@ensures C18: final(errors)@ == handled::<I, E>(old(self).types@, old(self).stack@, token, span, old(errors)@).1
@props: C18
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@loop 0 for:
    invariant
        *self == *old(self), errors@ == old(errors)@, $it.rem().len() <= self.types@.len(),
        $it.rem() == enumerated(refs(self.types@)).skip(self.types@.len() - $it.rem().len()),
        opens(self.types@, token, 0) == opens(self.types@, token, (self.types@.len() - $it.rem().len()) as nat),
    ensures opens(self.types@, token, 0) is None
    decreases $it.rem().len()
@loop 1 for:
    invariant
        *self == *old(self), errors@ == old(errors)@, $it.rem().len() <= self.types@.len(),
        $it.rem() == enumerated(refs(self.types@)).skip(self.types@.len() - $it.rem().len()),
        closes(self.types@, token, 0) == closes(self.types@, token, (self.types@.len() - $it.rem().len()) as nat),
    ensures closes(self.types@, token, 0) is None
    decreases $it.rem().len()
@loop 2 any:
    invariant
        $it.rem().len() <= self.stack@.len(), $it.rem() == refs(self.stack@).skip(self.stack@.len() - $it.rem().len()),
        !$acc, forall|j: int| 0 <= j < self.stack@.len() - $it.rem().len() ==> (#[trigger] self.stack@[j]).0 != right_index,
    ensures $acc == is_open(self.stack@, right_index as nat)
    decreases $it.rem().len()
@loophead 3: let ghost st0 = self.stack@;
@loopsome 3: proof { if st0.last().0 != right_index { still_open(st0, right_index as nat); } }
@loop 3 while:
    invariant
        self.wf(), self.types == old(self).types, is_open(self.stack@, right_index as nat),
        unwound::<I, E>(self.stack@, right_index as nat, At::Span(span), errors@) == unwound::<I, E>(old(self).stack@, right_index as nat, At::Span(span), old(errors)@),
    ensures false
    decreases self.stack@.len()
%fn nested_delimiters
@closure 0: -> (d: NestedDelimiters<'i, I, S>) ensures d.types == types && d.stack@.len() == 0
@ensures C18: forall|d: NestedDelimiters<'i, I, S>| #[trigger] r.ensures((), d) ==> d.types == types && d.stack@.len() == 0
@ensures C18: r.requires(())
@props: C18
