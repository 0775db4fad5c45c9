## Location trackers (C13)
%mod location
%raw
impl Default for Simple { open spec fn is_default(&self) -> bool { true } fn default() -> Simple { Simple() } }
/// the text of a token, as given by the user's function
pub open spec fn conv_ok<I: ?Sized, F: Fn(&I) -> &str>(f: F) -> bool {
    &&& forall|a: &I| #[trigger] f.requires((a,))
    &&& forall|a: &I, r1: &str, r2: &str| #[trigger] f.ensures((a,), r1) && #[trigger] f.ensures((a,), r2) ==> r1@ == r2@
}
pub open spec fn conv<I: ?Sized, F: Fn(&I) -> &str>(f: F, a: &I) -> Seq<char> { (choose|r: &str| f.ensures((a,), r))@ }
pub open spec fn rc_step(rc: (int, int), c: char) -> (int, int) { if c == '\n' { (rc.0 + 1, 1) } else { (rc.0, rc.1 + 1) } }
/// row and column after the first `n` characters of `s`
pub open spec fn rc_after(s: Seq<char>, n: nat, rc: (int, int)) -> (int, int)
    decreases n
{
    if n == 0 { rc } else { rc_step(rc_after(s, (n - 1) as nat, rc), s[n - 1]) }
}
pub proof fn lemma_rc_after(s: Seq<char>, n: nat, rc: (int, int))
    ensures rc.0 <= rc_after(s, n, rc).0 <= rc.0 + n, rc_after(s, n, rc).1 <= (if rc.1 < 1 { 1 } else { rc.1 }) + n,
        rc.1 >= 0 ==> rc_after(s, n, rc).1 >= 0
    decreases n
{
    if n > 0 { lemma_rc_after(s, (n - 1) as nat, rc); }
}
impl<I, F: Fn(&I) -> &str> Rich<I, F> {
    pub open spec fn text(&self, t: &I) -> Seq<char> { conv(self.immutable.val().1, t) }
    pub open spec fn rof(&self, i: usize) -> RichOffset { RichOffset { row: self.row, column: self.column, offset: self.offset, index: i } }
}
%end
## equality, derived or written by hand (C07: failures at the same place are merged)
%impl PartialEq for RichOffset
open spec fn eqs(&self, o: &Self) -> bool { *self == *o }
proof fn eq_sym(&self, o: &Self) {}
%impl PartialEq for RichLocation
open spec fn eqs(&self, o: &Self) -> bool { self.filename.val()@ == o.filename.val()@ && self.offset == o.offset }
proof fn eq_sym(&self, o: &Self) {}
%impl PartialEq for RichSpan
open spec fn eqs(&self, o: &Self) -> bool { self.filename.val()@ == o.filename.val()@ && self.from == o.from && self.to == o.to }
proof fn eq_sym(&self, o: &Self) {}
%fn RichOffset::veq
@props: C07,C13
%fn RichLocation::veq
@props: C07,C13
%fn RichSpan::veq
@props: C07,C13
%impl trait Tracker
/// the tracker after a token
spec fn adv_s(&self, t: I) -> Self;
/// user obligation: the tracker can represent the location after the token
spec fn adv_ok(&self, t: I) -> bool;
spec fn loc_s(&self, i: usize) -> Self::Location;
spec fn span_s(&self, i: usize, to: &Self, j: usize) -> Self::Span;
%fn Tracker::advance
@requires C13,C23: old(self).adv_ok(*token)
@ensures adv: *final(self) == old(self).adv_s(*token)
%fn Tracker::location
@ensures loc: r == self.loc_s(index)
%fn Tracker::spanning_to
@ensures span: r == self.span_s(from_index, to, to_index)

%impl Tracker for Simple
open spec fn adv_s(&self, t: I) -> Self { *self }
open spec fn adv_ok(&self, t: I) -> bool { true }
open spec fn loc_s(&self, i: usize) -> usize { i }
open spec fn span_s(&self, i: usize, to: &Self, j: usize) -> std::ops::Range<usize> { i..j }
%fn Simple::advance
@sem: adv=C13
%fn Simple::location
@sem: loc=C13
%fn Simple::spanning_to
@sem: span=C13

%impl Tracker for Rich
open spec fn adv_s(&self, t: I) -> Self {
    let s = self.text(&t);
    let rc = rc_after(s, s.len(), (self.row as int, self.column as int));
    Rich { row: rc.0 as usize, column: rc.1 as usize, offset: (self.offset + utf8_len(s)) as usize, ..*self }
}
open spec fn adv_ok(&self, t: I) -> bool {
    let s = self.text(&t);
    &&& conv_ok(self.immutable.val().1)
    &&& self.row + s.len() <= usize::MAX
    &&& self.column + s.len() < usize::MAX
    &&& self.offset + utf8_len(s) <= usize::MAX
}
open spec fn loc_s(&self, i: usize) -> RichLocation { RichLocation { filename: self.immutable.val().0, offset: self.rof(i) } }
open spec fn span_s(&self, i: usize, to: &Self, j: usize) -> RichSpan { RichSpan { filename: self.immutable.val().0, from: self.rof(i), to: to.rof(j) } }
%fn Rich::new
@ensures C13: r.row == 1 && r.column == 1 && r.offset == 0 && r.immutable.val().1 == converter && r.immutable.val().0.val()@ == source_file.string_of()
%fn Rich::advance
@sem: adv=C13
@props: C13
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@looppre 0: let ghost g0 = *self;
@loop 0 for:
    invariant
        *self == (Rich { row: self.row, column: self.column, ..g0 }), g0.row == old(self).row, g0.column == old(self).column,
        old(self).adv_ok(*token),
        s@ == old(self).text(token),
        $it.rem() == s@.skip(s@.len() - $it.rem().len()), $it.rem().len() <= s@.len(),
        (self.row as int, self.column as int) == rc_after(s@, (s@.len() - $it.rem().len()) as nat, (old(self).row as int, old(self).column as int)),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 0: proof { lemma_rc_after(s@, (s@.len() - $it.rem().len() - 1) as nat, (old(self).row as int, old(self).column as int)); }
%fn Rich::location
@sem: loc=C13
%fn Rich::spanning_to
@sem: span=C13
