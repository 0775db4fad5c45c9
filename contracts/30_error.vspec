## Error values (C25)
%mod error
%raw
pub type LT<'i, I, E> = <E as Error<'i, I>>::LocationTracker;
pub type LocT<'i, I, E> = <<E as Error<'i, I>>::LocationTracker as location::Tracker<I>>::Location;
pub type SpanT<'i, I, E> = <<E as Error<'i, I>>::LocationTracker as location::Tracker<I>>::Span;
pub type AtT<'i, I, E> = At<LocT<'i, I, E>, SpanT<'i, I, E>>;
impl<L, S> At<L, S> {
    pub open spec fn refs(&self) -> At<&L, &S> {
        match self { At::None => At::None, At::Location(l) => At::Location(l), At::Span(s) => At::Span(s) }
    }
}
impl<L, S> Discr for At<L, S> {
    open spec fn d(&self) -> usize { match self { At::None => 0, At::Location(_) => 1, At::Span(_) => 2 } }
    fn discr_of(&self) -> usize { match self { At::None => 0, At::Location(_) => 1, At::Span(_) => 2 } }
}
%impl PartialEq for At
open spec fn eqs(&self, o: &Self) -> bool {
    match (self, o) {
        (At::None, At::None) => true,
        (At::Location(a), At::Location(b)) => a.eqs(b),
        (At::Span(a), At::Span(b)) => a.eqs(b),
        _ => false,
    }
}
proof fn eq_sym(&self, o: &Self) {
    match (self, o) {
        (At::Location(a), At::Location(b)) => a.eq_sym(b),
        (At::Span(a), At::Span(b)) => a.eq_sym(b),
        _ => {}
    }
}
%fn At::veq
@props: C07,C25
%impl trait Error
spec fn ef(expected: Seq<Option<I>>, found: Option<I>, at: At<<Self::LocationTracker as location::Tracker<I>>::Location, <Self::LocationTracker as location::Tracker<I>>::Span>) -> Self;
spec fn mrg(&self, other: &Self) -> Self;
spec fn is_ef(&self) -> bool;
spec fn at(&self) -> At<<Self::LocationTracker as location::Tracker<I>>::Location, <Self::LocationTracker as location::Tracker<I>>::Span>;
spec fn ul(t: I, s: <Self::LocationTracker as location::Tracker<I>>::Span, before: At<<Self::LocationTracker as location::Tracker<I>>::Location, <Self::LocationTracker as location::Tracker<I>>::Span>) -> Self;
spec fn ur(t: I, s: <Self::LocationTracker as location::Tracker<I>>::Span, before: At<<Self::LocationTracker as location::Tracker<I>>::Location, <Self::LocationTracker as location::Tracker<I>>::Span>) -> Self;
spec fn ut(t: I, s: <Self::LocationTracker as location::Tracker<I>>::Span, t2: I, s2: <Self::LocationTracker as location::Tracker<I>>::Span) -> Self;
spec fn cust(m: Seq<char>, at: At<<Self::LocationTracker as location::Tracker<I>>::Location, <Self::LocationTracker as location::Tracker<I>>::Span>) -> Self;
%fn Error::expected_found
@ensures con: r == Self::ef(expected.items(), found, at)
%fn Error::merge_expected_found
@ensures con: *final(self) == old(self).mrg(other)
%fn Error::is_expected_found
@ensures con: r == self.is_ef()
%fn Error::location
@ensures con: r == self.at().refs()
%fn Error::unmatched_left_delimiter
@ensures con: r == Self::ul(left_token, left_span, close_before)
%fn Error::unmatched_right_delimiter
@ensures con: r == Self::ur(right_token, right_span, open_before)
%fn Error::unmatched_delimiter_type
@ensures con: r == Self::ut(left_token, left_span, right_token, right_span)
%fn Error::custom
@ensures con: r == Self::cust(msg.string_of(), at)
%impl trait Fallback
spec fn simp(m: Seq<char>) -> Self;
%fn Fallback::simple
@ensures con: r == Self::simp(msg.string_of())

%fn At::as_ref
@ensures C25: r == self.refs()
@props: C25
%fn At::is_known
@ensures C25: r == !(*self is None)
@props: C25

%impl Default for Void
open spec fn is_default(&self) -> bool { self.phantom.is_default() }
%fn Void::default
@props: C25
%impl Error for Void
open spec fn ef(expected: Seq<Option<I>>, found: Option<I>, at: At<usize, std::ops::Range<usize>>) -> Self { Void { phantom: std::marker::PhantomData } }
open spec fn mrg(&self, other: &Self) -> Self { *self }
open spec fn is_ef(&self) -> bool { false }
open spec fn at(&self) -> At<usize, std::ops::Range<usize>> { At::None }
open spec fn ul(t: I, s: std::ops::Range<usize>, before: At<usize, std::ops::Range<usize>>) -> Self { Void { phantom: std::marker::PhantomData } }
open spec fn ur(t: I, s: std::ops::Range<usize>, before: At<usize, std::ops::Range<usize>>) -> Self { Void { phantom: std::marker::PhantomData } }
open spec fn ut(t: I, s: std::ops::Range<usize>, t2: I, s2: std::ops::Range<usize>) -> Self { Void { phantom: std::marker::PhantomData } }
open spec fn cust(m: Seq<char>, at: At<usize, std::ops::Range<usize>>) -> Self { Void { phantom: std::marker::PhantomData } }
%impl Fallback for Void
open spec fn simp(m: Seq<char>) -> Self { Void { phantom: std::marker::PhantomData } }
%fn Void::expected_found
@sem: con=C25
%fn Void::merge_expected_found
@sem: con=C25
%fn Void::is_expected_found
@sem: con=C25
%fn Void::location
@sem: con=C25
%fn Void::unmatched_left_delimiter
@sem: con=C25
%fn Void::unmatched_right_delimiter
@sem: con=C25
%fn Void::unmatched_delimiter_type
@sem: con=C25
%fn Void::custom
@sem: con=C25
%fn Void::simple
@sem: con=C25

%impl Error for Simple
open spec fn ef(expected: Seq<Option<I>>, found: Option<I>, at: At<L::Location, L::Span>) -> Self { Simple::ExpectedFound(HashSet::of(expected.to_set()), found, at) }
open spec fn mrg(&self, other: &Self) -> Self {
    match (self, other) {
        (Simple::ExpectedFound(a, f, at), Simple::ExpectedFound(b, _, _)) => Simple::ExpectedFound(HashSet::of(a@.union(b@)), *f, *at),
        _ => *self,
    }
}
open spec fn is_ef(&self) -> bool { self is ExpectedFound }
open spec fn at(&self) -> At<L::Location, L::Span> {
    match self {
        Simple::ExpectedFound(_, _, l) => *l,
        Simple::UnmatchedLeftDelimiter(_, _, l) => *l,
        Simple::UnmatchedRightDelimiter(_, _, l) => *l,
        Simple::UnmatchedDelimiterType(_, _, _, s) => At::Span(*s),
        Simple::Custom(_, l) => *l,
    }
}
open spec fn ul(t: I, s: L::Span, before: At<L::Location, L::Span>) -> Self { Simple::UnmatchedLeftDelimiter(t, s, before) }
open spec fn ur(t: I, s: L::Span, before: At<L::Location, L::Span>) -> Self { Simple::UnmatchedRightDelimiter(t, s, before) }
open spec fn ut(t: I, s: L::Span, t2: I, s2: L::Span) -> Self { Simple::UnmatchedDelimiterType(t, s, t2, s2) }
open spec fn cust(m: Seq<char>, at: At<L::Location, L::Span>) -> Self { Simple::Custom(string_from(m), at) }
%impl Fallback for Simple
open spec fn simp(m: Seq<char>) -> Self { Simple::Custom(string_from(m), At::None) }
%fn Simple::expected_found
@sem: con=C25
%fn Simple::merge_expected_found
@sem: con=C25,C07
%fn Simple::is_expected_found
@sem: con=C25
%fn Simple::location
@sem: con=C25
%fn Simple::unmatched_left_delimiter
@sem: con=C25
%fn Simple::unmatched_right_delimiter
@sem: con=C25
%fn Simple::unmatched_delimiter_type
@sem: con=C25
%fn Simple::custom
@sem: con=C25
%fn Simple::simple
@sem: con=C25
