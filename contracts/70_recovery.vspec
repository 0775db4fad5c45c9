## Recovery strategies (C16, C17)
%mod recovery
%ext IncompleteStrategy
%raw
use std::marker::PhantomData;
use crate::stream::Src;
use crate::error::LT;
use crate::error::LocT;
use crate::error::SpanT;
use crate::parser::SRes;
use crate::parser::Parser;
use crate::parser::lawful;
use crate::parser::good1;
use crate::scanner::Scanner;
/// what a strategy works on: stream position, start of the failed parser,
/// token at which the last parser failed, error list
#[verifier::reject_recursive_types(E)]
#[verifier::ext_equal]
pub ghost struct RS<E> { pub pos: nat, pub started: nat, pub failed: nat, pub errs: Seq<E> }
impl<E> RS<E> {
    pub open spec fn ok(self, len: nat) -> bool { self.started <= self.pos <= len && self.started <= self.failed <= len }
    pub open spec fn at(self, p: nat) -> RS<E> { RS { pos: p, ..self } }
    pub open spec fn with(self, es: Seq<E>) -> RS<E> { RS { errs: es, ..self } }
}
pub open spec fn cut(i: nat, len: nat) -> nat { if i <= len { i } else { len } }
/// a step runs only if the steps before it gave no output
pub open spec fn then_do<O, E>(x: (Option<O>, RS<E>), y: (Option<O>, RS<E>)) -> (Option<O>, RS<E>) {
    match x.0 { Option::Some(_) => x, Option::None => y }
}
pub open spec fn moved<O, E>(s: RS<E>, p: nat) -> (Option<O>, RS<E>) { (Option::None, s.at(p)) }
pub open spec fn wrote<O, E>(s: RS<E>, es: Seq<E>) -> (Option<O>, RS<E>) { (Option::None, s.with(es)) }
/// a parser run by a strategy
pub open spec fn ran<O, E>(x: (SRes<O, E>, nat), silent: bool, s: RS<E>) -> (Option<O>, RS<E>) {
    let es = if silent { s.errs } else { s.errs + x.0.errs() };
    match x.0 {
        SRes::Fail(i, _) => (Option::None, RS { failed: i, errs: es, ..s }),
        _ => (x.0.oval(), RS { pos: x.1, errs: es, ..s }),
    }
}
/// first position from `p` on at which `f` holds, or the end
pub open spec fn seek<I, L: location::Tracker<I>, F: Fn(&I) -> bool>(f: F, src: Src<I, L>, p: nat) -> nat
    decreases src.len() - p
{
    if p < src.len() && !apr(f, src.toks[p as int]) { seek(f, src, p + 1) } else { p }
}
pub proof fn seek_len<I, L: location::Tracker<I>, F: Fn(&I) -> bool>(f: F, src: Src<I, L>, p: nat)
    requires p <= src.len()
    ensures p <= seek(f, src, p) <= src.len()
    decreases src.len() - p
{
    if p < src.len() && !apr(f, src.toks[p as int]) { seek_len(f, src, p + 1); }
}
/// where a scanner stops and the errors it leaves
pub open spec fn scanned<'i, I: Clone + 'i, E: error::Error<'i, I>, T: Scanner<'i, I, E>>(sc: T, src: Src<I, LT<'i, I, E>>, p: nat, es: Seq<E>) -> (nat, Seq<E>)
    decreases src.len() - p
{
    if p < src.len() {
        let x = sc.scan_s(src.toks[p as int], src.tspan(p), es);
        if x.1 { (p, x.2) } else { scanned(x.0, src, p + 1, x.2) }
    } else {
        (p, sc.eof_s(src.loc(p), es))
    }
}
pub open spec fn scan_honest<'i, I: Clone + 'i, E: error::Error<'i, I>, T: Scanner<'i, I, E>>(f: T) -> bool {
    &&& forall|sc: T, t: I, s: SpanT<'i, I, E>, es: Seq<E>| es.len() > 0 ==> (#[trigger] sc.scan_s(t, s, es)).2.len() > 0
    &&& forall|sc: T, l: LocT<'i, I, E>, es: Seq<E>| es.len() > 0 ==> (#[trigger] sc.eof_s(l, es)).len() > 0
}
pub proof fn scanned_len<'i, I: Clone + 'i, E: error::Error<'i, I>, T: Scanner<'i, I, E>>(sc: T, src: Src<I, LT<'i, I, E>>, p: nat, es: Seq<E>)
    requires p <= src.len()
    ensures p <= scanned::<I, E, T>(sc, src, p, es).0 <= src.len(), scan_honest::<I, E, T>(sc) && es.len() > 0 ==> scanned::<I, E, T>(sc, src, p, es).1.len() > 0
    decreases src.len() - p
{
    if p < src.len() {
        let x = sc.scan_s(src.toks[p as int], src.tspan(p), es);
        if !x.1 { scanned_len::<I, E, T>(x.0, src, p + 1, x.2); }
    }
}
/// `n` rounds of while_not at most
pub open spec fn rounds<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>, n: nat) -> Option<(Option<C::Output>, RS<C::Error>)>
    decreases n
{
    if s.pos >= src.len() || apr(f, src.toks[s.pos as int]) { Option::Some((Option::None, s)) }
    else if n == 0 { Option::None }
    else {
        let x = t.rsem(parser, src, s);
        if x.0 is Some { Option::Some(x) } else { rounds(f, t, parser, src, x.1.at(cut(x.1.pos + 1, src.len())), (n - 1) as nat) }
    }
}
/// while_not, if it comes to an end
pub open spec fn looped<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    if exists|n: nat| #[trigger] rounds(f, t, parser, src, s, n) is Some { rounds(f, t, parser, src, s, choose|n: nat| #[trigger] rounds(f, t, parser, src, s, n) is Some)->Some_0 } else { (Option::None, s) }
}
pub proof fn rounds_more<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>, n: nat, m: nat)
    requires n <= m, rounds(f, t, parser, src, s, n) is Some,
    ensures rounds(f, t, parser, src, s, m) == rounds(f, t, parser, src, s, n)
    decreases n
{
    if !(s.pos >= src.len() || apr(f, src.toks[s.pos as int])) {
        let x = t.rsem(parser, src, s);
        if !(x.0 is Some) { rounds_more(f, t, parser, src, x.1.at(cut(x.1.pos + 1, src.len())), (n - 1) as nat, (m - 1) as nat); }
    }
}
pub proof fn rounds_is<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>, n: nat)
    requires rounds(f, t, parser, src, s, n) is Some,
    ensures looped(f, t, parser, src, s) == rounds(f, t, parser, src, s, n)->Some_0
{
    let m = choose|m: nat| #[trigger] rounds(f, t, parser, src, s, m) is Some;
    if m <= n { rounds_more(f, t, parser, src, s, m, n); } else { rounds_more(f, t, parser, src, s, n, m); }
}
/// one more round in front
pub proof fn looped_step<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>)
    requires s.pos < src.len(), !apr(f, src.toks[s.pos as int]),
    ensures ({
        let x = t.rsem(parser, src, s);
        let s2 = x.1.at(cut(x.1.pos + 1, src.len()));
        &&& x.0 is Some ==> looped(f, t, parser, src, s) == x
        &&& x.0 is None ==> forall|n: nat| #[trigger] rounds(f, t, parser, src, s2, n) == rounds(f, t, parser, src, s, n + 1)
        &&& x.0 is None && (exists|n: nat| #[trigger] rounds(f, t, parser, src, s2, n) is Some) ==> looped(f, t, parser, src, s) == looped(f, t, parser, src, s2)
    })
{
    let x = t.rsem(parser, src, s);
    let s2 = x.1.at(cut(x.1.pos + 1, src.len()));
    if x.0 is Some {
        assert(rounds(f, t, parser, src, s, 1) == Option::Some(x));
        rounds_is(f, t, parser, src, s, 1);
    } else if exists|n: nat| #[trigger] rounds(f, t, parser, src, s2, n) is Some {
        let n = choose|n: nat| #[trigger] rounds(f, t, parser, src, s2, n) is Some;
        assert(rounds(f, t, parser, src, s, n + 1) == rounds(f, t, parser, src, s2, n));
        rounds_is(f, t, parser, src, s2, n);
        rounds_is(f, t, parser, src, s, n + 1);
    }
}
pub proof fn looped_law<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>)
    requires t.rvalid(parser), src.ok(), s.ok(src.len()),
    ensures rlawful(looped(f, t, parser, src, s), s, src.len(), t.rhonest(parser))
{
    if exists|n: nat| #[trigger] rounds(f, t, parser, src, s, n) is Some {
        let n = choose|n: nat| #[trigger] rounds(f, t, parser, src, s, n) is Some;
        rounds_law(f, t, parser, src, s, n);
    }
}
pub proof fn rounds_law<'i, I: Clone + 'i, C: Parser<'i, I>, F: Fn(&I) -> bool, T: Recover<'i, I, C>>(f: F, t: T, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>, n: nat)
    requires t.rvalid(parser), src.ok(), s.ok(src.len()), rounds(f, t, parser, src, s, n) is Some,
    ensures rlawful(rounds(f, t, parser, src, s, n)->Some_0, s, src.len(), t.rhonest(parser))
    decreases n
{
    if !(s.pos >= src.len() || apr(f, src.toks[s.pos as int])) {
        t.rlaw(parser, src, s);
        let x = t.rsem(parser, src, s);
        if !(x.0 is Some) { rounds_law(f, t, parser, src, x.1.at(cut(x.1.pos + 1, src.len())), (n - 1) as nat); }
    }
}
/// what every strategy guarantees
pub open spec fn rlawful<O, E>(x: (Option<O>, RS<E>), s: RS<E>, len: nat, honest: bool) -> bool {
    &&& x.1.started == s.started
    &&& x.1.ok(len)
    &&& honest && s.errs.len() > 0 ==> x.1.errs.len() > 0
}
/// error updaters leave at least one error
pub open spec fn leaves1<E, F: Fn(&mut Vec<E>)>(f: F) -> bool { forall|es: Seq<E>| es.len() > 0 ==> (#[trigger] upd1(f, es)).len() > 0 }
pub open spec fn leaves2<E, A, F: Fn(&mut Vec<E>, A)>(f: F) -> bool { forall|es: Seq<E>, a: A| es.len() > 0 ==> (#[trigger] upd2(f, es, a)).len() > 0 }
pub open spec fn leaves3<E, A, B, F: Fn(&mut Vec<E>, Option<&A>, B)>(f: F) -> bool { forall|es: Seq<E>, a: Option<A>, b: B| es.len() > 0 ==> (#[trigger] upd3(f, es, a, b)).len() > 0 }
/// two strategies with the same behaviour
pub open spec fn rsame<'i, I: Clone + 'i, C: Parser<'i, I>, P: Recover<'i, I, C>, Q: Recover<'i, I, C>>(a: &P, b: &Q) -> bool {
    &&& forall|parser: &C| #[trigger] b.rvalid(parser) == a.rvalid(parser)
    &&& forall|parser: &C| #[trigger] b.rhonest(parser) == a.rhonest(parser)
    &&& forall|parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>| #[trigger] b.rsem(parser, src, s) == a.rsem(parser, src, s)
}
/// `Rc<dyn IncompleteStrategy>`
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(C)]
pub struct DynStrategy<'i, I, C> { x: std::marker::PhantomData<(&'i (), I,C)> }
impl<'i, I: Clone + 'i, C: Parser<'i, I>> DynStrategy<'i, I, C> {
    #[verifier::external_body]
    pub fn new<X: Recover<'i, I, C>>(x: X) -> (r: Self)
        ensures rsame(&x, &r)
    { unimplemented!() }
}
impl<'i, I, C> Clone for DynStrategy<'i, I, C> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<'i, I: Clone + 'i, C: Parser<'i, I>> Recover<'i, I, C> for DynStrategy<'i, I, C> {
    uninterp spec fn rvalid(&self, parser: &C) -> bool;
    uninterp spec fn rhonest(&self, parser: &C) -> bool;
    uninterp spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>);
    #[verifier::external_body]
    proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { }
    #[verifier::external_body]
    fn recover(&self, parser: &C, stream: &mut stream::Stream<'i, I, LT<'i, I, C::Error>>, started_at: &stream::SavedState, failed_at: &mut stream::SavedState, errors: &mut Vec<C::Error>) -> Option<C::Output> { unimplemented!() }
}
pub open spec fn rstate<'i, I: Clone + 'i, E: error::Error<'i, I>>(stream: &stream::Stream<'i, I, LT<'i, I, E>>, started_at: &stream::SavedState, failed_at: &stream::SavedState, errors: &Vec<E>) -> RS<E> {
    RS { pos: stream.pos(), started: started_at.val(), failed: failed_at.val(), errs: errors@ }
}
%impl trait Recover
spec fn rvalid(&self, parser: &C) -> bool;
/// never leaves an empty error list behind if there was one error before
spec fn rhonest(&self, parser: &C) -> bool;
spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>);
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>)
    requires self.rvalid(parser), src.ok(), s.ok(src.len()),
    ensures rlawful(self.rsem(parser, src, s), s, src.len(), self.rhonest(parser));
%fn Recover::recover
@requires: self.rvalid(parser) && old(stream).wf() && old(stream).knows(*started_at) && old(stream).knows(*old(failed_at))
@requires: rstate(old(stream), started_at, old(failed_at), old(errors)).ok(old(stream).src().len())
@ensures evo: old(stream).evolves(final(stream))
@ensures evo: final(stream).knows(*final(failed_at))
@ensures out: r == self.rsem(parser, old(stream).src(), rstate(old(stream), started_at, old(failed_at), old(errors))).0
@ensures pos: final(stream).pos() == self.rsem(parser, old(stream).src(), rstate(old(stream), started_at, old(failed_at), old(errors))).1.pos
@ensures fail: final(failed_at).val() == self.rsem(parser, old(stream).src(), rstate(old(stream), started_at, old(failed_at), old(errors))).1.failed
@ensures errs: final(errors)@ =~= self.rsem(parser, old(stream).src(), rstate(old(stream), started_at, old(failed_at), old(errors))).1.errs

%impl Recover for AttemptTo
open spec fn rvalid(&self, parser: &C) -> bool { true }
open spec fn rhonest(&self, parser: &C) -> bool { true }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    (Option::None, s)
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) {  }
%fn AttemptTo::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
%impl Recover for Restart
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, moved(s, s.started))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn Restart::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for SeekToFailed
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, moved(s, s.failed))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn SeekToFailed::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for Skip
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, moved(s, cut(s.pos + 1, src.len())))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn Skip::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for SkipIf
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && okr(self.predicate) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, moved(s, if s.pos < src.len() && apr(self.predicate, src.toks[s.pos as int]) { s.pos + 1 } else { s.pos }))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn SkipIf::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for Find
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && okr(self.predicate) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, moved(s, seek(self.predicate, src, s.pos)))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1; seek_len(self.predicate, src, s.pos); }
%fn Find::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@looppre 0: let ghost g0 = *stream;
@loop 0 while:
    invariant
        g0.evolves(stream), stream.knows(*failed_at), stream.src() == g0.src(),
        seek(self.predicate, stream.src(), stream.pos()) == seek(self.predicate, g0.src(), g0.pos()), stream.pos() <= stream.src().len(),
    ensures stream.pos() == seek(self.predicate, g0.src(), g0.pos())
    decreases stream.src().len() - stream.pos()
%impl Recover for Scan
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && ok0(self.factory) && forall|t: T| #[trigger] self.factory.ensures((), t) ==> t.sc_ok() }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && scan_honest::<I, C::Error, T>(ap0(self.factory)) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, { let y = scanned::<I, C::Error, T>(ap0(self.factory), src, s.pos, s.errs); (Option::None, RS { pos: y.0, errs: y.1, ..s }) })
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1; scanned_len::<I, C::Error, T>(ap0(self.factory), src, s.pos, s.errs); }
%fn Scan::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@looppre 0: let ghost g0 = *stream; let ghost c0 = seeker; let ghost e0 = errors@;
@loop 0 while:
    invariant
        g0.evolves(stream), stream.knows(*failed_at), stream.src() == g0.src(), stream.pos() <= stream.src().len(), seeker.sc_ok(),
        scanned::<I, C::Error, T>(seeker, stream.src(), stream.pos(), errors@) == scanned::<I, C::Error, T>(c0, g0.src(), g0.pos(), e0),
    ensures (stream.pos(), errors@) == scanned::<I, C::Error, T>(c0, g0.src(), g0.pos(), e0)
    decreases stream.src().len() - stream.pos()
%impl Recover for Maybe
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && self.inner.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && self.inner.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, { let y = self.inner.rsem(parser, src, s); if y.0 is Some { y } else { (Option::None, y.1.at(s.pos)) } })
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1; self.inner.rlaw(parser, src, s); }
%fn Maybe::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for WhileNot
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && okr(self.predicate) && self.inner.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && self.inner.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, looped(self.predicate, self.inner, parser, src, s))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1; looped_law(self.predicate, self.inner, parser, src, s); }
%fn WhileNot::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
@looppre 0: let ghost g0 = *stream; let ghost s0 = rstate(stream, started_at, failed_at, errors);
proof { assert forall|n: nat| #[trigger] rounds(self.predicate, self.inner, parser, g0.src(), s0, n) is Some implies looped(self.predicate, self.inner, parser, g0.src(), s0) == rounds(self.predicate, self.inner, parser, g0.src(), s0, n)->Some_0 by { rounds_is(self.predicate, self.inner, parser, g0.src(), s0, n); } }
@loop 0 while:
    invariant
        g0.evolves(stream), stream.knows(*failed_at), stream.src() == g0.src(), rstate(stream, started_at, failed_at, errors).ok(g0.src().len()),
        forall|n: nat| #[trigger] rounds(self.predicate, self.inner, parser, g0.src(), rstate(stream, started_at, failed_at, errors), n) is Some ==> looped(self.predicate, self.inner, parser, g0.src(), s0) == rounds(self.predicate, self.inner, parser, g0.src(), rstate(stream, started_at, failed_at, errors), n)->Some_0,
    ensures looped(self.predicate, self.inner, parser, g0.src(), s0) == (Option::<C::Output>::None, rstate(stream, started_at, failed_at, errors))
@loophead 0: proof {
    let c = rstate(stream, started_at, failed_at, errors);
    self.inner.rlaw(parser, g0.src(), c);
    let x = self.inner.rsem(parser, g0.src(), c);
    let s2 = x.1.at(cut(x.1.pos + 1, g0.src().len()));
    assert(rounds(self.predicate, self.inner, parser, g0.src(), c, 0) is Some ==> looped(self.predicate, self.inner, parser, g0.src(), s0) == (Option::<C::Output>::None, c));
    assert(c.pos < g0.src().len() && !apr(self.predicate, g0.src().toks[c.pos as int]) && x.0 is Some ==> rounds(self.predicate, self.inner, parser, g0.src(), c, 1) == Option::Some(x));
    assert forall|n: nat| c.pos < g0.src().len() && !apr(self.predicate, g0.src().toks[c.pos as int]) && x.0 is None && #[trigger] rounds(self.predicate, self.inner, parser, g0.src(), s2, n) is Some implies looped(self.predicate, self.inner, parser, g0.src(), s0) == rounds(self.predicate, self.inner, parser, g0.src(), s2, n)->Some_0 by {
        assert(rounds(self.predicate, self.inner, parser, g0.src(), c, n + 1) == rounds(self.predicate, self.inner, parser, g0.src(), s2, n));
    }
}
%impl Recover for Retry
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && parser.valid() }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, ran(parser.sem(src, s.pos, !self.exact), self.silent, s))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1; parser.law(src, s.pos); }
%fn Retry::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for TryToParse
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && self.parser.valid() }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, ran(self.parser.sem(src, s.pos, !self.exact), self.silent, s))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1; self.parser.law(src, s.pos); }
%fn TryToParse::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for PushError
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && ok0(self.factory) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, s.errs.push(ap0(self.factory))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn PushError::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for PushErrorHere
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && ok1(self.factory) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, s.errs.push(ap1(self.factory, src.loc(s.pos)))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn PushErrorHere::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for PushErrorUpToHere
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && ok1(self.factory) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, s.errs.push(ap1(self.factory, src.span(s.started, s.pos)))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn PushErrorUpToHere::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for PushErrorForToken
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && okor(self.factory) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, s.errs.push(apor(self.factory, src.tok(s.pos), src.tspan(s.pos)))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn PushErrorForToken::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for UpdateErrors
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && leaves1(self.updater) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, upd1(self.updater, s.errs)))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn UpdateErrors::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for UpdateErrorsHere
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && leaves2(self.updater) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, upd2(self.updater, s.errs, src.loc(s.pos))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn UpdateErrorsHere::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for UpdateErrorsUpToHere
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && leaves2(self.updater) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, upd2(self.updater, s.errs, src.span(s.started, s.pos))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn UpdateErrorsUpToHere::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for UpdateErrorsForToken
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) && leaves3(self.updater) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, wrote(s, upd3(self.updater, s.errs, src.tok(s.pos), src.tspan(s.pos))))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn UpdateErrorsForToken::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for Boxed
open spec fn rvalid(&self, parser: &C) -> bool { self.strategy.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.strategy.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) { self.strategy.rsem(parser, src, s) }
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.strategy.rlaw(parser, src, s); }
%fn Boxed::recover
@sem: out=C16; pos=C16; fail=C16; errs=C16; evo=C16
@props: C16
%impl Recover for Return
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, (Option::Some(self.output), s))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn Return::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for ReturnWith
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && ok0(self.output) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, (Option::Some(ap0(self.output)), s))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn ReturnWith::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for ReturnWithSpan
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) && ok1(self.output) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, (Option::Some(ap1(self.output, src.span(s.started, s.pos))), s))
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn ReturnWithSpan::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%impl Recover for OrFail
open spec fn rvalid(&self, parser: &C) -> bool { self.child.rvalid(parser) }
open spec fn rhonest(&self, parser: &C) -> bool { self.child.rhonest(parser) }
open spec fn rsem(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) -> (Option<C::Output>, RS<C::Error>) {
    let x = self.child.rsem(parser, src, s);
    let s = x.1;
    then_do(x, x)
}
proof fn rlaw(&self, parser: &C, src: Src<I, LT<'i, I, C::Error>>, s: RS<C::Error>) { self.child.rlaw(parser, src, s); let s = self.child.rsem(parser, src, s).1;  }
%fn OrFail::recover
@sem: out=C17; pos=C17; fail=C17; errs=C17; evo=C17
@props: C17
@entry: proof { self.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); self.child.rlaw(parser, stream.src(), rstate(stream, started_at, failed_at, errors)); }
%fn IncompleteStrategy::restart
@ensures C16: r == (Restart { child: self })
@props: C16
%fn IncompleteStrategy::seek_to_failed
@ensures C16: r == (SeekToFailed { child: self })
@props: C16
%fn IncompleteStrategy::skip
@ensures C16: r == (Skip { child: self })
@props: C16
%fn IncompleteStrategy::skip_if
@ensures C16: r == (SkipIf { child: self, predicate })
@props: C16
%fn IncompleteStrategy::find
@ensures C16: r == (Find { child: self, predicate })
@props: C16
%fn IncompleteStrategy::scan
@ensures C16: r == (Scan { child: self, factory })
@props: C16
%fn IncompleteStrategy::maybe
@ensures C16: r == (Maybe { child: self, inner })
@props: C16
%fn IncompleteStrategy::while_not
@ensures C16: r == (WhileNot { child: self, predicate, inner })
@props: C16
%fn IncompleteStrategy::retry
@ensures C17: r == (Retry { child: self, exact: false, silent: false })
@props: C17
%fn IncompleteStrategy::try_to_parse
@ensures C17: r == (TryToParse { child: self, parser, exact: false, silent: false })
@props: C17
%fn IncompleteStrategy::push_error
@ensures C17: r == (PushError { child: self, factory })
@props: C17
%fn IncompleteStrategy::push_error_here
@ensures C17: r == (PushErrorHere { child: self, factory })
@props: C17
%fn IncompleteStrategy::push_error_up_to_here
@ensures C17: r == (PushErrorUpToHere { child: self, factory })
@props: C17
%fn IncompleteStrategy::push_error_for_token
@ensures C17: r == (PushErrorForToken { child: self, factory })
@props: C17
%fn IncompleteStrategy::update_errors
@ensures C17: r == (UpdateErrors { child: self, updater })
@props: C17
%fn IncompleteStrategy::update_errors_here
@ensures C17: r == (UpdateErrorsHere { child: self, updater })
@props: C17
%fn IncompleteStrategy::update_errors_up_to_here
@ensures C17: r == (UpdateErrorsUpToHere { child: self, updater })
@props: C17
%fn IncompleteStrategy::update_errors_for_token
@ensures C17: r == (UpdateErrorsForToken { child: self, updater })
@props: C17
%fn IncompleteStrategy::and_return
@ensures C17: r == (Return { child: self, output })
@props: C17
%fn IncompleteStrategy::and_return_with
@ensures C17: r == (ReturnWith { child: self, output })
@props: C17
%fn IncompleteStrategy::and_return_with_span
@ensures C17: r == (ReturnWithSpan { child: self, output })
@props: C17
%fn IncompleteStrategy::or_fail
@ensures C17: r == (OrFail { child: self })
@props: C17
%fn IncompleteStrategy::do_nothing
@ensures C17: r == self
@props: C17
%fn IncompleteStrategy::boxed
@ensures C24: rsame(&self, &r)
@props: C24
%raw
pub open spec fn nothing<I, C>() -> AttemptTo<I, C> { AttemptTo { phantom: PhantomData } }
%end
%fn attempt_to
@ensures C16: r == nothing::<I, C>()
@props: C16
%fn seek_to_failed
@ensures C16: r == (SeekToFailed { child: nothing::<I, C>() })
@props: C16
%fn skip
@ensures C16: r == (Skip { child: nothing::<I, C>() })
@props: C16
%fn skip_if
@ensures C16: r == (SkipIf { child: nothing::<I, C>(), predicate })
@props: C16
%fn find
@ensures C16: r == (Find { child: nothing::<I, C>(), predicate })
@props: C16
%fn scan
@ensures C16: r == (Scan { child: nothing::<I, C>(), factory })
@props: C16
%fn maybe
@ensures C16: r == (Maybe { child: nothing::<I, C>(), inner })
@props: C16
%fn while_not
@ensures C16: r == (WhileNot { child: nothing::<I, C>(), predicate, inner })
@props: C16
%fn retry
@ensures C17: r == (Retry { child: nothing::<I, C>(), exact: false, silent: false })
@props: C17
%fn try_to_parse
@ensures C17: r == (TryToParse { child: nothing::<I, C>(), parser, exact: false, silent: false })
@props: C17
%fn push_error
@ensures C17: r == (PushError { child: nothing::<I, C>(), factory })
@props: C17
%fn push_error_here
@ensures C17: r == (PushErrorHere { child: nothing::<I, C>(), factory })
@props: C17
%fn push_error_up_to_here
@ensures C17: r == (PushErrorUpToHere { child: nothing::<I, C>(), factory })
@props: C17
%fn push_error_for_token
@ensures C17: r == (PushErrorForToken { child: nothing::<I, C>(), factory })
@props: C17
%fn update_errors
@ensures C17: r == (UpdateErrors { child: nothing::<I, C>(), updater })
@props: C17
%fn update_errors_here
@ensures C17: r == (UpdateErrorsHere { child: nothing::<I, C>(), updater })
@props: C17
%fn update_errors_up_to_here
@ensures C17: r == (UpdateErrorsUpToHere { child: nothing::<I, C>(), updater })
@props: C17
%fn update_errors_for_token
@ensures C17: r == (UpdateErrorsForToken { child: nothing::<I, C>(), updater })
@props: C17
%fn just_return
@ensures C17: r == (Return { child: nothing::<I, C>(), output })
@props: C17
%fn just_return_with
@ensures C17: r == (ReturnWith { child: nothing::<I, C>(), output })
@props: C17
%fn just_return_with_span
@ensures C17: r == (ReturnWithSpan { child: nothing::<I, C>(), output })
@props: C17
%fn Retry::exactly
@ensures C17: r == (Retry { exact: true, ..self })
@props: C17
%fn Retry::silently
@ensures C17: r == (Retry { silent: true, ..self })
@props: C17
%fn Retry::exactly_and_silently
@ensures C17: r == (Retry { exact: true, silent: true, ..self })
@props: C17
%fn TryToParse::exactly
@ensures C17: r == (TryToParse { exact: true, ..self })
@props: C17
%fn TryToParse::silently
@ensures C17: r == (TryToParse { silent: true, ..self })
@props: C17
%fn TryToParse::exactly_and_silently
@ensures C17: r == (TryToParse { exact: true, silent: true, ..self })
@props: C17
