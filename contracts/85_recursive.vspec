## Recursive parsers (C24)
%mod recursive
%raw
use crate::parser::ParserExt;
use crate::parser::Parser;
use crate::parser::SRes;
use crate::parser::same;
use crate::stream::Src;
use crate::error::LT;
%impl Parser for Recursive
open spec fn valid(&self) -> bool { self.inner.val().ready() && self.inner.val().first().valid() }
open spec fn honest(&self) -> bool { self.inner.val().first().honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<O, E>, nat) { self.inner.val().first().sem(src, p, rec) }
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { self.inner.val().first().law(src, p); }
%fn Recursive::parse_internal
@sem: kind=C24; val=C24; erf=C24; err=C24; idx=C24; pos=C24
@props: C24
@entry: proof { self.law(stream.src(), stream.pos()); }
%fn Recursive::declare
@ensures C24: r.inner.val().unset()
@props: C24
%fn Recursive::define
@requires C24: old(self).inner.val().unset()
@ensures C24: final(self).inner == old(self).inner
@ensures C24: same(&parser, &final(self).inner.val().first())
@props: C24
%fn recursive
@requires C24: forall|d: &Recursive<'i, I, C::Output, C::Error>| #[trigger] f.requires((d,))
@ensures C24: exists|d: Recursive<'i, I, C::Output, C::Error>, c: C| #[trigger] f.ensures((&d,), c) && r.inner.val() == d.inner.val() && same(&c, &r.inner.val().first())
@props: C24
