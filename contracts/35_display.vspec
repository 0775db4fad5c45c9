## Printed errors and locations (C27)
%mod error
%broadcast crate::shim::grown_trans
%impl Display for At
open spec fn says(&self, n: Seq<Seq<char>>) -> bool {
    match self { At::None => n.len() == 0, At::Location(l) => l.says(n), At::Span(s) => s.says(n) }
}
uninterp spec fn text(&self) -> Seq<char>;
open spec fn show_ok(&self) -> bool {
    match self { At::None => true, At::Location(l) => l.show_ok(), At::Span(s) => s.show_ok() }
}
%fn At::fmt
@props: C27
%impl Display for Simple
open spec fn says(&self, n: Seq<Seq<char>>) -> bool {
    match self {
        Simple::ExpectedFound(expected, found, at) => exists|os: Seq<Option<I>>| #[trigger] lists(expected@, os) && shown(os, *found, *at, n),
        Simple::UnmatchedLeftDelimiter(t, s, at) => exists|a: Seq<Seq<char>>, b: Seq<Seq<char>>| #[trigger] s.says(a) && #[trigger] at.says(b) && n =~= seq![t.text()] + a + b,
        Simple::UnmatchedRightDelimiter(t, s, at) => exists|a: Seq<Seq<char>>, b: Seq<Seq<char>>| #[trigger] s.says(a) && #[trigger] at.says(b) && n =~= seq![t.text()] + a + b,
        Simple::UnmatchedDelimiterType(t, s, t2, s2) => exists|a: Seq<Seq<char>>, b: Seq<Seq<char>>| #[trigger] s.says(a) && #[trigger] s2.says(b) && n =~= seq![t.text()] + a + seq![t2.text()] + b,
        Simple::Custom(m, at) => exists|b: Seq<Seq<char>>| #[trigger] at.says(b) && n =~= seq![m@] + b,
    }
}
uninterp spec fn text(&self) -> Seq<char>;
open spec fn show_ok(&self) -> bool {
    &&& leaf::<I>()
    &&& forall|x: I| (#[trigger] x.show_ok())
    &&& forall|x: L::Location| (#[trigger] x.show_ok())
    &&& forall|x: L::Span| (#[trigger] x.show_ok())
}
%fn Simple::fmt
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost g0 = *f; let ghost mut os: Seq<Option<I>> = Seq::empty();
@looppre 0: proof { os = derefs($it.rem()); }
@loop 0 collect:
    invariant
        self is ExpectedFound, lists(self->ExpectedFound_0@, os), texts($acc@).len() + $it.rem().len() == os.len(),
        forall|i: int| 0 <= i < $it.rem().len() ==> *(#[trigger] $it.rem()[i]) == os[os.len() - $it.rem().len() + i],
        forall|i: int| 0 <= i < texts($acc@).len() && (#[trigger] os[i]) is Some ==> texts($acc@)[i] == os[i]->Some_0.text(),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 0: proof { let k = os.len() - $it.rem().len() - 1; assert(*$e == os[k]); }
@loop 1 for:
    invariant
        grown(g0.said(), f.said()), $it.rem().len() <= os.len() - 2,
        $it.rem() =~= refs(expected@.subrange(1, os.len() - 1)).skip(os.len() - 2 - $it.rem().len()),
        since(g0.said(), f.said()).len() == os.len() - 1 - $it.rem().len(),
        forall|i: int| 0 <= i < os.len() - 1 - $it.rem().len() ==> #[trigger] since(g0.said(), f.said())[i] == expected@[i]@,
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@exit: proof { assert(At::<L::Location, L::Span>::None.says(Seq::empty())); }
@props: C27
%end
%mod error
%raw
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// every expected token once, in some order
pub open spec fn lists<I>(s: Set<Option<I>>, os: Seq<Option<I>>) -> bool { os.no_duplicates() && os.to_set() == s }
/// the expected tokens in that order (end of input under any name), then what was found, then where
pub open spec fn shown<I: Display, L: Display, S: Display>(os: Seq<Option<I>>, found: Option<I>, at: At<L, S>, n: Seq<Seq<char>>) -> bool {
    let m = os.len() as int;
    let k = if found is Some { m + 1 } else { m };
    &&& forall|i: int| 0 <= i < m && (#[trigger] os[i]) is Some ==> n[i] == os[i]->Some_0.text()
    &&& found is Some ==> n[m] == found->Some_0.text()
    &&& exists|b: Seq<Seq<char>>| #[trigger] at.says(b) && n.len() == k + b.len() && n.skip(k) =~= b
}
%mod location
%broadcast crate::shim::grown_trans
%impl Display for RichOffset
open spec fn says(&self, n: Seq<Seq<char>>) -> bool { n =~= seq![decimal(self.row), decimal(self.column)] }
uninterp spec fn text(&self) -> Seq<char>;
open spec fn show_ok(&self) -> bool { true }
%fn RichOffset::fmt
@props: C27
%impl Display for RichLocation
open spec fn says(&self, n: Seq<Seq<char>>) -> bool { n =~= seq![self.filename.val()@, decimal(self.offset.row), decimal(self.offset.column)] }
uninterp spec fn text(&self) -> Seq<char>;
open spec fn show_ok(&self) -> bool { true }
%fn RichLocation::fmt
@props: C27
%impl Display for RichSpan
open spec fn says(&self, n: Seq<Seq<char>>) -> bool { n =~= seq![self.filename.val()@, decimal(self.from.row), decimal(self.from.column), decimal(self.to.row), decimal(self.to.column)] }
uninterp spec fn text(&self) -> Seq<char>;
open spec fn show_ok(&self) -> bool { true }
%fn RichSpan::fmt
@props: C27
