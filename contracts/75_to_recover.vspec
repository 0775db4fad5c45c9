## to_recover (C15)
%mod combinator
%raw
use crate::recovery::RS;
use crate::recovery::Recover;
/// a failed parser with errors handed to a strategy
pub open spec fn recovered<O, E>(i: nat, p: nat, y: (Option<O>, RS<E>)) -> (SRes<O, E>, nat) {
    match y.0 { Option::Some(o) => (SRes::Rec(o, y.1.errs), y.1.pos), Option::None => (SRes::Fail(i, y.1.errs), p) }
}
%impl Parser for ToRecover
open spec fn valid(&self) -> bool { self.parser.valid() && self.strategy.rvalid(&self.parser) }
open spec fn honest(&self) -> bool { self.parser.honest() && self.strategy.rhonest(&self.parser) }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<C::Output, C::Error>, nat) {
    let x = self.parser.sem(src, p, rec);
    match x.0 {
        SRes::Fail(i, es) => if rec { recovered(i, p, self.strategy.rsem(&self.parser, src, RS { pos: p, started: p, failed: i, errs: es })) } else { x },
        _ => x,
    }
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) {
    self.parser.law(src, p);
    let x = self.parser.sem(src, p, true);
    match x.0 {
        SRes::Fail(i, es) => { self.strategy.rlaw(&self.parser, src, RS { pos: p, started: p, failed: i, errs: es }); }
        _ => {}
    }
}
%fn ToRecover::parse_internal
@sem: kind=C15,C04?; val=C15,C04?; erf=C15; err=C15,C03; idx=C15; pos=C15,C04?
@props: C15
@entry: proof { self.law(stream.src(), stream.pos()); self.parser.law(stream.src(), stream.pos()); }
