## Combinators
%mod combinator
%raw
use crate::stream::Src;
use crate::error::LT;
use crate::error::SpanT;
use crate::parser::SRes;
use crate::parser::ParserExt;
use crate::parser::map1;
use crate::parser::after;
use crate::parser::lawful;
use crate::parser::good1;
/// two results in sequence, the first one from position `p`
pub open spec fn seq2<A, B, E>(x: (SRes<A, E>, nat), y: (SRes<B, E>, nat), p: nat) -> (SRes<(A, B), E>, nat) {
    match (x.0, y.0) {
        (SRes::Fail(i, es), _) => (SRes::Fail(i, es), p),
        (_, SRes::Fail(i, es)) => (SRes::Fail(i, es), p),
        (SRes::Ok(a), SRes::Ok(b)) => (SRes::Ok((a, b)), y.1),
        (_, _) => (SRes::Rec((x.0.val(), y.0.val()), x.0.errs() + y.0.errs()), y.1),
    }
}
/// the result of a parser with its errors replaced
pub open spec fn errmap<O, E, X>(x: SRes<O, E>, es: Seq<X>) -> SRes<O, X> {
    match x { SRes::Ok(o) => SRes::Ok(o), SRes::Rec(o, _) => SRes::Rec(o, es), SRes::Fail(i, _) => SRes::Fail(i, es) }
}
pub open spec fn map2<A, B, S, F: Fn(A, S) -> B>(f: F, s: Seq<A>, x: S) -> Seq<B> { Seq::new(s.len(), |i: int| ap2(f, s[i], x)) }
/// what a try_map function decided, for an item that started at `p` and ended at `q`
pub open spec fn tried<O, E>(m: TryMapResult<O, E>, p: nat, q: nat, rec: bool) -> (SRes<O, E>, nat) {
    match m {
        TryMapResult::Ok(o) => (SRes::Ok(o), q),
        TryMapResult::Err(es) => (SRes::Fail(p, es@), p),
        TryMapResult::Recovered(o, es) => if rec { (SRes::Rec(o, es@), q) } else { (SRes::Fail(p, es@), p) },
    }
}
/// rejections carry errors
pub open spec fn rejects<A, S, O, E, F: Fn(A, S) -> TryMapResult<O, E>>(f: F) -> bool {
    forall|a: A, s: S| match #[trigger] ap2(f, a, s) {
        TryMapResult::Ok(_) => true,
        TryMapResult::Err(es) => es@.len() > 0,
        TryMapResult::Recovered(_, es) => es@.len() > 0,
    }
}
%impl Parser for Boxed
open spec fn valid(&self) -> bool { self.child.valid() }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<O, E>, nat) { self.child.sem(src, p, rec) }
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { self.child.law(src, p); }
%fn Boxed::parse_internal
@sem: kind=C24,C04?; val=C24,C04?; erf=C24; err=C24,C03; idx=C24; pos=C24,C04?
@props: C24
%impl Parser for WithError
open spec fn valid(&self) -> bool { self.child.valid() }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<C::Output, C::Error>, nat) { self.child.sem(src, p, rec) }
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) { self.child.law(src, p); }
%fn WithError::parse_internal
@sem: kind=C24,C04?; val=C24,C04?; erf=C24; err=C24,C03; idx=C24; pos=C24,C04?
@props: C24
%impl Parser for To
open spec fn valid(&self) -> bool { self.child.valid() }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<O, C::Error>, nat) {
    let x = self.child.sem(src, p, rec);
    (x.0.with(self.to), x.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) { self.child.law(src, p); }
%fn To::parse_internal
@sem: kind=C21,C03,C04?; val=C21,C04?; erf=C21,C03; err=C03,C21; idx=C21,C19?; pos=C21,C04?
@props: C21
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for Some
open spec fn valid(&self) -> bool { self.child.valid() }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<Option<C::Output>, C::Error>, nat) {
    let x = self.child.sem(src, p, rec);
    (x.0.with(Option::Some(x.0.val())), x.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) { self.child.law(src, p); }
%fn Some::parse_internal
@sem: kind=C06,C04?; val=C06,C04?; erf=C06; err=C03; idx=C06; pos=C06,C04?
@props: C06
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for Map
open spec fn valid(&self) -> bool { self.child.valid() && ok1(self.map) }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<O, C::Error>, nat) {
    let x = self.child.sem(src, p, rec);
    (x.0.with(ap1(self.map, x.0.val())), x.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) { self.child.law(src, p); }
%fn Map::parse_internal
@sem: kind=C21,C03,C04?; val=C21,C04?; erf=C21,C03; err=C03,C21; idx=C21,C19?; pos=C21,C04?
@props: C21
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for MapWithSpan
open spec fn valid(&self) -> bool { self.child.valid() && ok2(self.map) }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<O, C::Error>, nat) {
    let x = self.child.sem(src, p, rec);
    (x.0.with(ap2(self.map, x.0.val(), src.span(p, x.1))), x.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) { self.child.law(src, p); }
%fn MapWithSpan::parse_internal
@sem: kind=C21,C03,C04?; val=C21,C13,C04?; erf=C21,C03; err=C03,C21; idx=C21,C19?; pos=C21,C04?
@props: C13,C21
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for MapErr
open spec fn valid(&self) -> bool { self.child.valid() && ok1(self.map) }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<C::Output, E>, nat) {
    let x = self.child.sem(src, p, rec);
    (errmap(x.0, map1(self.map, x.0.errs())), x.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { self.child.law(src, p); }
%fn MapErr::parse_internal
@sem: kind=C21,C03,C04?; val=C21,C04?; erf=C21,C03; err=C03,C21; idx=C21,C19?; pos=C21,C04?
@props: C03
@entry: proof { self.law(stream.src(), stream.pos()); }
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost x = self.child.sem(stream.src(), stream.pos(), enable_recovery).0;
@loop 0 collect:
    invariant
        x.errs().len() >= $it.rem().len(), $it.rem() == x.errs().skip(x.errs().len() - $it.rem().len()),
        $acc@ == map1(self.map, x.errs().take(x.errs().len() - $it.rem().len())),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loop 1 collect:
    invariant
        x.errs().len() >= $it.rem().len(), $it.rem() == x.errs().skip(x.errs().len() - $it.rem().len()),
        $acc@ == map1(self.map, x.errs().take(x.errs().len() - $it.rem().len())),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
%impl Parser for MapErrWithSpan
open spec fn valid(&self) -> bool { self.child.valid() && ok2(self.map) }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<C::Output, E>, nat) {
    let x = self.child.sem(src, p, rec);
    (errmap(x.0, map2(self.map, x.0.errs(), src.span(p, x.1))), x.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { self.child.law(src, p); }
%fn MapErrWithSpan::parse_internal
@sem: kind=C21,C03,C04?; val=C21,C04?; erf=C21,C03,C13; err=C03,C21,C13; idx=C21,C19?; pos=C21,C04?
@props: C03,C13
@entry: proof { self.law(stream.src(), stream.pos()); }
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost x = self.child.sem(stream.src(), stream.pos(), enable_recovery);
@looppre 0: let ghost g0 = *stream;
@looppre 1: let ghost g0 = *stream;
@loop 0 collect:
    invariant
        g0.evolves(stream), stream.pos() == g0.pos(),
        x.0.errs().len() >= $it.rem().len(), $it.rem() == x.0.errs().skip(x.0.errs().len() - $it.rem().len()),
        $acc@ == map2(self.map, x.0.errs().take(x.0.errs().len() - $it.rem().len()), g0.src().span(old(stream).pos(), x.1)),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loop 1 collect:
    invariant
        g0.evolves(stream), stream.pos() == g0.pos(),
        x.0.errs().len() >= $it.rem().len(), $it.rem() == x.0.errs().skip(x.0.errs().len() - $it.rem().len()),
        $acc@ == map2(self.map, x.0.errs().take(x.0.errs().len() - $it.rem().len()), g0.src().span(old(stream).pos(), x.1)),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
%impl Parser for TryMap
open spec fn valid(&self) -> bool { self.child.valid() && ok2(self.map) && rejects(self.map) }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<O, C::Error>, nat) {
    let x = self.child.sem(src, p, rec);
    let m = tried(ap2(self.map, x.0.val(), src.span(p, x.1)), p, x.1, rec);
    match x.0 {
        SRes::Ok(_) => m,
        SRes::Rec(_, es) => (after(es, m.0), m.1),
        SRes::Fail(i, es) => (SRes::Fail(i, es), p),
    }
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) { self.child.law(src, p); }
%fn TryMap::parse_internal
@sem: kind=C21,C03,C02,C04?; val=C21,C13,C04?; erf=C21,C03,C13; err=C03,C21,C13; idx=C21,C19?; pos=C21,C04?
@props: C03,C13
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for Then
open spec fn valid(&self) -> bool { self.a.valid() && self.b.valid() }
open spec fn honest(&self) -> bool { self.a.honest() && self.b.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<(A::Output, B::Output), A::Error>, nat) {
    let x = self.a.sem(src, p, rec);
    seq2(x, self.b.sem(src, x.1, rec), p)
}
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) {
    self.a.law(src, p);
    self.b.law(src, self.a.sem(src, p, false).1);
    self.b.law(src, self.a.sem(src, p, true).1);
}
%fn Then::parse_internal
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for ThenIgnore
open spec fn valid(&self) -> bool { self.a.valid() && self.b.valid() }
open spec fn honest(&self) -> bool { self.a.honest() && self.b.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<A::Output, A::Error>, nat) {
    let x = self.a.sem(src, p, rec);
    let r = seq2(x, self.b.sem(src, x.1, rec), p);
    (r.0.with(x.0.val()), r.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) {
    self.a.law(src, p);
    self.b.law(src, self.a.sem(src, p, false).1);
    self.b.law(src, self.a.sem(src, p, true).1);
}
%fn ThenIgnore::parse_internal
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for IgnoreThen
open spec fn valid(&self) -> bool { self.a.valid() && self.b.valid() }
open spec fn honest(&self) -> bool { self.a.honest() && self.b.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<B::Output, A::Error>, nat) {
    let x = self.a.sem(src, p, rec);
    let y = self.b.sem(src, x.1, rec);
    let r = seq2(x, y, p);
    (r.0.with(y.0.val()), r.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) {
    self.a.law(src, p);
    self.b.law(src, self.a.sem(src, p, false).1);
    self.b.law(src, self.a.sem(src, p, true).1);
}
%fn IgnoreThen::parse_internal
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for DelimitedBy
open spec fn valid(&self) -> bool { self.left.valid() && self.middle.valid() && self.right.valid() }
open spec fn honest(&self) -> bool { self.left.honest() && self.middle.honest() && self.right.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<B::Output, A::Error>, nat) {
    let x = self.left.sem(src, p, rec);
    let y = self.middle.sem(src, x.1, rec);
    let r = seq2(seq2(x, y, p), self.right.sem(src, y.1, rec), p);
    (r.0.with(y.0.val()), r.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) {
    let f = self.left.sem(src, p, false);
    let t = self.left.sem(src, p, true);
    self.left.law(src, p);
    self.middle.law(src, f.1);
    self.middle.law(src, t.1);
    self.right.law(src, self.middle.sem(src, f.1, false).1);
    self.right.law(src, self.middle.sem(src, t.1, true).1);
}
%fn DelimitedBy::parse_internal
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@entry: proof { self.law(stream.src(), stream.pos()); }
%impl Parser for PaddedBy
open spec fn valid(&self) -> bool { self.padding.valid() && self.middle.valid() }
open spec fn honest(&self) -> bool { self.padding.honest() && self.middle.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<B::Output, A::Error>, nat) {
    let x = self.padding.sem(src, p, rec);
    let y = self.middle.sem(src, x.1, rec);
    let r = seq2(seq2(x, y, p), self.padding.sem(src, y.1, rec), p);
    (r.0.with(y.0.val()), r.1)
}
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) {
    let f = self.padding.sem(src, p, false);
    let t = self.padding.sem(src, p, true);
    self.padding.law(src, p);
    self.middle.law(src, f.1);
    self.middle.law(src, t.1);
    self.padding.law(src, self.middle.sem(src, f.1, false).1);
    self.padding.law(src, self.middle.sem(src, t.1, true).1);
}
%fn PaddedBy::parse_internal
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@entry: proof { self.law(stream.src(), stream.pos()); }
