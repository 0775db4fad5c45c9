## Results, the parser trait and everything defined on it
%mod parser
%ext Parser
%inherent impl Iterator for Stream
%inherent impl Iterator for Tail
%raw
use crate::stream::Src;
use crate::error::LT;
/// a parse result, with failure index and errors
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
#[verifier::ext_equal]
pub ghost enum SRes<O, E> { Ok(O), Rec(O, Seq<E>), Fail(nat, Seq<E>) }
impl<O, E> SRes<O, E> {
    pub open spec fn kind(self) -> int { match self { SRes::Ok(_) => 0, SRes::Rec(_, _) => 1, SRes::Fail(_, _) => 2 } }
    pub open spec fn oval(self) -> Option<O> { match self { SRes::Ok(o) => Option::Some(o), SRes::Rec(o, _) => Option::Some(o), SRes::Fail(_, _) => Option::None } }
    pub open spec fn errs(self) -> Seq<E> { match self { SRes::Ok(_) => Seq::empty(), SRes::Rec(_, es) => es, SRes::Fail(_, es) => es } }
    pub open spec fn fidx(self) -> nat { match self { SRes::Fail(i, _) => i, _ => 0 } }
    pub open spec fn val(self) -> O { match self { SRes::Ok(o) => o, SRes::Rec(o, _) => o, SRes::Fail(_, _) => arbitrary() } }
    /// the output replaced
    pub open spec fn with<X>(self, x: X) -> SRes<X, E> { match self { SRes::Ok(_) => SRes::Ok(x), SRes::Rec(_, es) => SRes::Rec(x, es), SRes::Fail(i, es) => SRes::Fail(i, es) } }
}
impl<O, E> Result<O, E> {
    pub open spec fn sr(self) -> SRes<O, E> {
        match self { Result::Success(o) => SRes::Ok(o), Result::Recovered(o, es) => SRes::Rec(o, es@), Result::Failed(i, es) => SRes::Fail(i as nat, es@) }
    }
}
/// What every parser guarantees about its results at a position `p` of an
/// input of `len` tokens, without (`f`) and with (`t`) recovery.
pub open spec fn good1<O, E>(x: (SRes<O, E>, nat), p: nat, len: nat, honest: bool) -> bool {
    &&& x.0 is Fail ==> x.1 == p && p <= x.0.fidx() <= len
    &&& p <= x.1 <= len
    &&& honest && !(x.0 is Ok) ==> x.0.errs().len() > 0
}
pub open spec fn lawful<O, E>(f: (SRes<O, E>, nat), t: (SRes<O, E>, nat), p: nat, len: nat, honest: bool) -> bool {
    &&& good1(f, p, len, honest)
    &&& good1(t, p, len, honest)
    &&& !(f.0 is Rec)
    &&& f.0 is Ok ==> t == f
    &&& f.0 is Fail ==> !(t.0 is Ok)
}
pub open spec fn first_err<E: error::Fallback>(es: Seq<E>) -> E { if es.len() > 0 { es[0] } else { E::simp("unknown error"@) } }
pub open spec fn std_res<O, E: error::Fallback>(x: SRes<O, E>) -> std::result::Result<O, E> {
    match x { SRes::Ok(o) => std::result::Result::Ok(o), SRes::Rec(_, es) => std::result::Result::Err(first_err(es)), SRes::Fail(_, es) => std::result::Result::Err(first_err(es)) }
}
/// two parsers with the same behaviour
pub open spec fn same<'i, I: Clone + 'i, P: Parser<'i, I>, Q: Parser<'i, I, Output = P::Output, Error = P::Error>>(a: &P, b: &Q) -> bool {
    &&& a.valid() == b.valid()
    &&& a.honest() == b.honest()
    &&& forall|src: Src<I, LT<'i, I, P::Error>>, p: nat, rec: bool| #[trigger] b.sem(src, p, rec) == a.sem(src, p, rec)
}
/// `Rc<dyn Parser>`
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
pub struct DynParser<'i, I, O, E> { x: std::marker::PhantomData<(&'i (), I, O, E)> }
impl<'i, I, O, E> Clone for DynParser<'i, I, O, E> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<'i, I: Clone + 'i, O, E: error::Error<'i, I>> DynParser<'i, I, O, E> {
    #[verifier::external_body]
    pub fn new<P: Parser<'i, I, Output = O, Error = E>>(p: P) -> (r: Self)
        ensures same(&p, &r)
    { unimplemented!() }
}
impl<'i, I: Clone + 'i, O, E: error::Error<'i, I>> Parser<'i, I> for DynParser<'i, I, O, E> {
    type Output = O;
    type Error = E;
    uninterp spec fn valid(&self) -> bool;
    uninterp spec fn honest(&self) -> bool;
    uninterp spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<O, E>, nat);
    #[verifier::external_body]
    proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { }
    #[verifier::external_body]
    fn parse_internal(&self, stream: &mut stream::Stream<'i, I, LT<'i, I, E>>, enable_recovery: bool) -> Result<O, E> { unimplemented!() }
}
%impl trait Parser
/// what the user must guarantee (callbacks total and deterministic, recursive parsers defined, ...)
spec fn valid(&self) -> bool;
/// the user's functions do not drop errors
spec fn honest(&self) -> bool;
/// the result and end position at position `p`
spec fn sem(&self, src: Src<I, LT<'i, I, Self::Error>>, p: nat, rec: bool) -> (SRes<Self::Output, Self::Error>, nat);
proof fn law(&self, src: Src<I, LT<'i, I, Self::Error>>, p: nat)
    requires self.valid(), src.ok(), p <= src.len(),
    ensures lawful(self.sem(src, p, false), self.sem(src, p, true), p, src.len(), self.honest());
%fn Parser::parse_internal
@requires: self.valid() && old(stream).wf()
@ensures evo: old(stream).evolves(final(stream))
@ensures kind: r.sr().kind() == self.sem(old(stream).src(), old(stream).pos(), enable_recovery).0.kind()
@ensures val: r.sr().oval() == self.sem(old(stream).src(), old(stream).pos(), enable_recovery).0.oval()
@ensures erf: r is Failed ==> r.sr().errs() =~= self.sem(old(stream).src(), old(stream).pos(), enable_recovery).0.errs()
@ensures err: !(r is Failed) ==> r.sr().errs() =~= self.sem(old(stream).src(), old(stream).pos(), enable_recovery).0.errs()
@ensures idx: r.sr().fidx() == self.sem(old(stream).src(), old(stream).pos(), enable_recovery).0.fidx()
@ensures pos: final(stream).pos() == self.sem(old(stream).src(), old(stream).pos(), enable_recovery).1
@ensures C01: r is Failed ==> final(stream).pos() == old(stream).pos()
@ensures C02: !enable_recovery ==> !(r is Recovered)
@ensures C02: self.honest() && !(r is Success) ==> r.sr().errs().len() > 0
@ensures C19: r is Failed ==> old(stream).pos() <= r.sr().fidx() <= old(stream).src().len()
@ensures all: r.sr() =~~= self.sem(old(stream).src(), old(stream).pos(), enable_recovery).0

%fn Result::is_ok
@ensures C21: r == (self is Success)
@props: C21
%fn Result::tree
@ensures C21: r == oref(self.sr().oval())
@props: C21
%fn Result::errors
@ensures C21: r.rem() == refs(self.sr().errs())
@props: C21
%fn Result::map
@requires: map.requires((self.sr().val(),)) || self is Failed
@ensures C21: r.sr().kind() == self.sr().kind() && r.sr().errs() == self.sr().errs() && r.sr().fidx() == self.sr().fidx()
@ensures C21: !(self is Failed) ==> map.ensures((self.sr().val(),), r.sr().val())
@props: C21
%fn Result::map_err
@requires: ok1(map)
@ensures C21: r.sr().kind() == self.sr().kind() && r.sr().oval() == self.sr().oval() && r.sr().fidx() == self.sr().fidx()
@ensures C21: r.sr().errs() == map1(map, self.sr().errs())
@props: C21
@loop 0 collect:
    invariant
        ok1(map), !(self is Success), self.sr().errs().len() >= $it.rem().len(), $it.rem() == self.sr().errs().skip(self.sr().errs().len() - $it.rem().len()),
        $acc@ == map1(map, self.sr().errs().take(self.sr().errs().len() - $it.rem().len())),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loop 1 collect:
    invariant
        ok1(map), !(self is Success), self.sr().errs().len() >= $it.rem().len(), $it.rem() == self.sr().errs().skip(self.sr().errs().len() - $it.rem().len()),
        $acc@ == map1(map, self.sr().errs().take(self.sr().errs().len() - $it.rem().len())),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
%fn Result::try_map
@requires: map.requires((self.sr().val(),)) || self is Failed
@ensures C21,C03: self is Success ==> map.ensures((self.sr().val(),), r)
@ensures C21: self is Failed ==> r.sr() == SRes::<X, E>::Fail(self.sr().fidx(), self.sr().errs())
@ensures C21,C03: self is Recovered ==> exists|m: Result<X, E>| #[trigger] map.ensures((self.sr().val(),), m) && r.sr() == after(self.sr().errs(), m.sr())
@props: C21,C03
%fn from__Result
@ensures C21: r == std_res(result.sr())
@props: C21
%impl Iterator for ErrorIter
open spec fn rem(&self) -> Seq<&'e E> {
    match self { ErrorIter::None => Seq::empty(), ErrorIter::Many(es, i) => if *i <= es@.len() { refs(es@).skip(*i as int) } else { Seq::empty() } }
}
%fn ErrorIter::next
@props: C21
%raw
pub open spec fn map1<A, B, F: Fn(A) -> B>(f: F, s: Seq<A>) -> Seq<B> { Seq::new(s.len(), |i: int| ap1(f, s[i])) }
/// a result obtained after errors `es` were already recovered from
pub open spec fn after<O, E>(es: Seq<E>, x: SRes<O, E>) -> SRes<O, E> {
    match x { SRes::Ok(o) => SRes::Rec(o, es), SRes::Rec(o, es2) => SRes::Rec(o, es + es2), SRes::Fail(i, es2) => SRes::Fail(i, es + es2) }
}
%fn Parser::parse_with_recovery_and_location
@requires: self.valid() && (Src { toks: source.items(), l0: start_location }).ok()
@ensures C20: r.sr() == self.sem(Src { toks: source.items(), l0: start_location }, 0, true).0
@props: C20
%fn Parser::parse_with_location
@requires: self.valid() && (Src { toks: source.items(), l0: start_location }).ok()
@ensures C20,C21: r == std_res(self.sem(Src { toks: source.items(), l0: start_location }, 0, true).0)
@props: C20,C21
%fn Parser::parse_with_recovery
@requires: self.valid() && forall|l0: LT<'i, I, Self::Error>| (#[trigger] l0.is_default()) ==> (Src { toks: source.items(), l0 }).ok()
@ensures C20: exists|l0: LT<'i, I, Self::Error>| #[trigger] l0.is_default() && r.sr() == self.sem(Src { toks: source.items(), l0 }, 0, true).0
@props: C20
%fn Parser::parse
@requires: self.valid() && forall|l0: LT<'i, I, Self::Error>| (#[trigger] l0.is_default()) ==> (Src { toks: source.items(), l0 }).ok()
@ensures C20,C21: exists|l0: LT<'i, I, Self::Error>| #[trigger] l0.is_default() && r == std_res(self.sem(Src { toks: source.items(), l0 }, 0, true).0)
@props: C20,C21
%fn Parser::stream_with_location
@requires: (Src { toks: source.items(), l0: start_location }).ok()
@ensures C20: r.parser == self && r.input.wf() && r.input.pos() == 0 && r.input.src() == (Src { toks: source.items(), l0: start_location })
@props: C20
%fn Parser::stream
@requires: forall|l0: LT<'i, I, Self::Error>| (#[trigger] l0.is_default()) ==> (Src { toks: source.items(), l0 }).ok()
@ensures C20: r.parser == self && r.input.wf() && r.input.pos() == 0 && r.input.src().toks == source.items() && r.input.src().l0.is_default()
@props: C20
%fn Parser::boxed
@ensures C24: same(&self, &r)
@props: C24
%fn Parser::with_error
@ensures C24: r.child == self
@props: C24
%fn Parser::to
@ensures C05,C03: r == (combinator::To { child: self, to })
@props: C05,C03
%fn Parser::ignored
@ensures C05: r.child == self
@props: C05
%fn Parser::some
@ensures C06: r == (combinator::Some { child: self })
@props: C06
%fn Parser::map
@ensures C03: r == (combinator::Map { child: self, map })
@props: C03
%fn Parser::map_with_span
@ensures C03,C13: r == (combinator::MapWithSpan { child: self, map })
@props: C03,C13
%fn Parser::map_err
@ensures C03: r == (combinator::MapErr { child: self, map })
@props: C03
%fn Parser::map_err_with_span
@ensures C03,C13: r == (combinator::MapErrWithSpan { child: self, map })
@props: C03,C13
%fn Parser::try_map
@ensures C03,C13: r == (combinator::TryMap { child: self, map })
@props: C03,C13
%fn Parser::then
@ensures C05: r == (combinator::Then { a: self, b })
@props: C05
%fn Parser::then_ignore
@ensures C05: r == (combinator::ThenIgnore { a: self, b })
@props: C05
%fn Parser::ignore_then
@ensures C05: r == (combinator::IgnoreThen { a: self, b })
@props: C05
%fn Parser::delimited_by
@ensures C05: r == (combinator::DelimitedBy { left, middle: self, right })
@props: C05
%fn Parser::padded_by
@ensures C05: r == (combinator::PaddedBy { padding, middle: self })
@props: C05
%fn Parser::chain
@ensures C05: r.parsers@.len() == 2 && same(&self, &r.parsers@[0]) && same(&other, &r.parsers@[1])
@props: C05
%fn Parser::or
@ensures C06: r == (combinator::Or { a: self, b: other })
@props: C06
%fn Parser::or_not
@ensures C06: r == (combinator::OrNot { child: combinator::Some { child: self } })
@props: C06
%fn Parser::alters
@ensures C06: r.parsers@.len() == 2 && same(&self, &r.parsers@[0]) && same(&other, &r.parsers@[1])
@props: C06
%fn Parser::repeated
@ensures C08,C09: r.minimum == 0 && r.maximum is None && r.item == self && r.separator is None && !r.allow_leading && !r.allow_trailing
@props: C08,C09
%fn Parser::separated_by
@ensures C08,C09: r.minimum == 0 && r.maximum is None && r.item == self && r.separator == Option::Some(separator) && !r.allow_leading && !r.allow_trailing
@props: C08,C09
%fn Parser::to_recover
@ensures C15: r == (combinator::ToRecover { parser: self, strategy })
@props: C15
%fn Stream::next
@requires: old(self).input.wf() && old(self).parser.valid()
@ensures C20: old(self).input.evolves(&final(self).input) && final(self).parser == old(self).parser
@ensures C20: r is None == (old(self).input.pos() >= old(self).input.src().len())
@ensures C20: r is None ==> final(self).input.pos() == old(self).input.pos()
@ensures C20: r is Some ==> r->Some_0.sr() == old(self).parser.sem(old(self).input.src(), old(self).input.pos(), true).0
@ensures C20: r is Some ==> final(self).input.pos() == old(self).parser.sem(old(self).input.src(), old(self).input.pos(), true).1
@props: C20
%fn Stream::tail
@ensures C20: r.input == self.input
@props: C20
%fn Tail::next
@requires: old(self).input.wf()
@ensures C20: old(self).input.evolves(&final(self).input)
@ensures C20: r == old(self).input.src().tok(old(self).input.pos())
@ensures C20: final(self).input.pos() == old(self).input.pos() + (if r is Some { 1int } else { 0int })
@props: C20
