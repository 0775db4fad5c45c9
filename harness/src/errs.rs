//! Error types and location trackers the crate is exercised with, and how
//! their values are rendered; the renderings of model errors are computed
//! without the crate.
use crate::model::*;
use parse_proof_of_concept::error::{self, At, Error, Fallback};
use parse_proof_of_concept::location::{self, Tracker};

pub type LTof<E> = <E as Error<'static, char>>::LocationTracker;
pub type LocOf<E> = <LTof<E> as Tracker<char>>::Location;
pub type SpanOf<E> = <LTof<E> as Tracker<char>>::Span;

pub trait HE: Error<'static, char> + Clone + 'static {
    const NAME: &'static str;
    /// has expected-found errors
    const EF: bool;
    /// renders errors at all
    const VOID: bool;
    /// expected sets (else: logs of merges)
    const SETS: bool;
    fn start(ctx: &Ctx) -> LTof<Self>;
    fn mkstream(ctx: &Ctx) -> crate::build::St<Self> {
        parse_proof_of_concept::stream::Stream::new_with_location(ctx.toks.clone(), Self::start(ctx))
    }
    fn lcanon(l: &LocOf<Self>) -> String;
    fn scanon(s: &SpanOf<Self>) -> String;
    fn loc_m(ctx: &Ctx, k: usize) -> String;
    fn span_m(ctx: &Ctx, i: usize, j: usize) -> String;
    fn mkloc(ctx: &Ctx, k: usize) -> LocOf<Self>;
    fn mkspan(ctx: &Ctx, i: usize, j: usize) -> SpanOf<Self>;
    fn canon(&self) -> String;
}
fn at_m<E: HE>(ctx: &Ctx, at: &MAt) -> String {
    match at {
        MAt::No => "none".into(),
        MAt::Loc(k) => E::loc_m(ctx, *k),
        MAt::Span(i, j) => E::span_m(ctx, *i, *j),
    }
}
fn at_c<E: HE>(at: &At<LocOf<E>, SpanOf<E>>) -> String {
    match at {
        At::None => "none".into(),
        At::Location(k) => E::lcanon(k),
        At::Span(s) => E::scanon(s),
    }
}
fn mkat<E: HE>(ctx: &Ctx, at: &MAt) -> At<LocOf<E>, SpanOf<E>> {
    match at {
        MAt::No => At::None,
        MAt::Loc(k) => At::Location(E::mkloc(ctx, *k)),
        MAt::Span(i, j) => At::Span(E::mkspan(ctx, *i, *j)),
    }
}
fn set(mut v: Vec<Option<char>>) -> String {
    v.sort();
    v.dedup();
    format!("{:?}", v)
}
/// how the error `e` is to be rendered
pub fn canon_me<E: HE>(ctx: &Ctx, e: &ME) -> String {
    if E::VOID {
        return "void".into();
    }
    let s = |x: &(usize, usize)| E::span_m(ctx, x.0, x.1);
    match e {
        ME::Ef { exp, found, at, merged } => {
            if E::SETS {
                format!("EF{}|{:?}|{}", set(exp.clone()), found, at_m::<E>(ctx, at))
            } else {
                // the log keeps the own list and the merged errors apart
                let own = exp.len() - merged.iter().map(|m| if let ME::Ef { exp, .. } = m { exp.len() } else { 0 }).sum::<usize>();
                let m: Vec<String> = merged.iter().map(|m| canon_me::<E>(ctx, m)).collect();
                format!("EF{:?}|{:?}|{}|{:?}", &exp[..own], found, at_m::<E>(ctx, at), m)
            }
        }
        ME::Ul(t, sp, at) => format!("UL{:?}|{}|{}", t, s(sp), at_m::<E>(ctx, at)),
        ME::Ur(t, sp, at) => format!("UR{:?}|{}|{}", t, s(sp), at_m::<E>(ctx, at)),
        ME::Ut(t, a, u, b) => format!("UT{:?}|{}|{:?}|{}", t, s(a), u, s(b)),
        ME::Cust(m, at) => format!("CU{:?}|{}", m, at_m::<E>(ctx, at)),
    }
}
/// the error `e`, made by the error type's own constructors
pub fn mk<E: HE>(ctx: &Ctx, e: &ME) -> E {
    match e {
        ME::Ef { exp, found, at, merged } => {
            assert!(merged.is_empty());
            E::expected_found(exp.clone(), *found, mkat::<E>(ctx, at))
        }
        ME::Ul(t, s, at) => E::unmatched_left_delimiter(*t, E::mkspan(ctx, s.0, s.1), mkat::<E>(ctx, at)),
        ME::Ur(t, s, at) => E::unmatched_right_delimiter(*t, E::mkspan(ctx, s.0, s.1), mkat::<E>(ctx, at)),
        ME::Ut(t, s, u, r) => E::unmatched_delimiter_type(*t, E::mkspan(ctx, s.0, s.1), *u, E::mkspan(ctx, r.0, r.1)),
        ME::Cust(m, at) => E::custom(m, mkat::<E>(ctx, at)),
    }
}
fn canon_simple<L: Tracker<char>>(e: &error::Simple<char, L>, at: impl Fn(&At<L::Location, L::Span>) -> String, s: impl Fn(&L::Span) -> String) -> String {
    use error::Simple::*;
    match e {
        ExpectedFound(x, f, l) => format!("EF{}|{:?}|{}", set(x.iter().cloned().collect()), f, at(l)),
        UnmatchedLeftDelimiter(t, p, l) => format!("UL{:?}|{}|{}", t, s(p), at(l)),
        UnmatchedRightDelimiter(t, p, l) => format!("UR{:?}|{}|{}", t, s(p), at(l)),
        UnmatchedDelimiterType(t, p, u, q) => format!("UT{:?}|{}|{:?}|{}", t, s(p), u, s(q)),
        Custom(m, l) => format!("CU{:?}|{}", m, at(l)),
    }
}

// ----------------------------------------------------- simple, token indices
pub type SimpleE = error::Simple<char>;
impl HE for SimpleE {
    const NAME: &'static str = "Simple";
    const EF: bool = true;
    const VOID: bool = false;
    const SETS: bool = true;
    fn start(_: &Ctx) -> LTof<Self> {
        Default::default()
    }
    fn mkstream(ctx: &Ctx) -> crate::build::St<Self> {
        if ctx.toks.len() % 2 == 0 {
            parse_proof_of_concept::stream::Stream::new(ctx.toks.clone())
        } else {
            parse_proof_of_concept::stream::Stream::new_with_location(ctx.toks.clone(), Self::start(ctx))
        }
    }
    fn lcanon(l: &usize) -> String {
        format!("@{l}")
    }
    fn scanon(s: &std::ops::Range<usize>) -> String {
        format!("@{}..{}", s.start, s.end)
    }
    fn loc_m(_: &Ctx, k: usize) -> String {
        format!("@{k}")
    }
    fn span_m(_: &Ctx, i: usize, j: usize) -> String {
        format!("@{i}..{j}")
    }
    fn mkloc(_: &Ctx, k: usize) -> usize {
        k
    }
    fn mkspan(_: &Ctx, i: usize, j: usize) -> std::ops::Range<usize> {
        i..j
    }
    fn canon(&self) -> String {
        canon_simple(self, at_c::<Self>, Self::scanon)
    }
}
// ------------------------------------------------------------------- void
pub type VoidE = error::Void<char>;
impl HE for VoidE {
    const NAME: &'static str = "Void";
    const EF: bool = false;
    const VOID: bool = true;
    const SETS: bool = true;
    fn start(_: &Ctx) -> LTof<Self> {
        Default::default()
    }
    fn mkstream(ctx: &Ctx) -> crate::build::St<Self> {
        if ctx.toks.len() % 2 == 0 {
            parse_proof_of_concept::stream::Stream::new(ctx.toks.clone())
        } else {
            parse_proof_of_concept::stream::Stream::new_with_location(ctx.toks.clone(), Self::start(ctx))
        }
    }
    fn lcanon(l: &usize) -> String {
        format!("@{l}")
    }
    fn scanon(s: &std::ops::Range<usize>) -> String {
        format!("@{}..{}", s.start, s.end)
    }
    fn loc_m(_: &Ctx, k: usize) -> String {
        format!("@{k}")
    }
    fn span_m(_: &Ctx, i: usize, j: usize) -> String {
        format!("@{i}..{j}")
    }
    fn mkloc(_: &Ctx, k: usize) -> usize {
        k
    }
    fn mkspan(_: &Ctx, i: usize, j: usize) -> std::ops::Range<usize> {
        i..j
    }
    fn canon(&self) -> String {
        "void".into()
    }
}
// ------------------------------------------------------------------- rich
pub fn tokstr(c: &char) -> &str {
    match c {
        'a' => "a",
        'b' => "b\n",
        'c' => "\u{e9}\u{4e2d}",
        'd' => "",
        'e' => "x\ny\n\nz",
        '\n' => "\n",
        '(' => "(",
        ')' => ")\r\n",
        '|' => "\t\r\u{b}\u{200b}\u{2028}\0",
        '[' => "\u{1F600}",
        ']' => "]",
        ',' => ", ",
        _ => "??",
    }
}
pub type RichT = location::Rich<char, fn(&char) -> &str>;
pub type RichE = error::Simple<char, RichT>;
/// row, column, byte offset after the first k tokens
pub fn rich_at(ctx: &Ctx, k: usize) -> (usize, usize, usize) {
    let mut text = String::new();
    for c in ctx.pre.iter().chain(ctx.toks[..k].iter()) {
        text += tokstr(c);
    }
    let row = 1 + text.matches('\n').count();
    let col = 1 + text.rsplit('\n').next().unwrap().chars().count();
    (row, col, text.len())
}
fn rich_off(o: &location::RichOffset) -> String {
    format!("{}:{}+{}#{}", o.row, o.column, o.offset, o.index)
}
fn rich_m(ctx: &Ctx, k: usize) -> String {
    let (r, c, o) = rich_at(ctx, k);
    format!("{}:{}+{}#{}", r, c, o, k)
}
fn rich_o(ctx: &Ctx, k: usize) -> location::RichOffset {
    let (row, column, offset) = rich_at(ctx, k);
    location::RichOffset { row, column, offset, index: k }
}
thread_local! { static FN: std::rc::Rc<String> = std::rc::Rc::new("file".to_string()); }
impl HE for RichE {
    const NAME: &'static str = "Simple/Rich";
    const EF: bool = true;
    const VOID: bool = false;
    const SETS: bool = true;
    fn start(ctx: &Ctx) -> LTof<Self> {
        let mut t = RichT::new("file", tokstr as fn(&char) -> &str);
        for c in &ctx.pre {
            t.advance(c);
        }
        t
    }
    fn lcanon(l: &location::RichLocation) -> String {
        format!("{}:{}", l.filename, rich_off(&l.offset))
    }
    fn scanon(s: &location::RichSpan) -> String {
        format!("{}:{}..{}", s.filename, rich_off(&s.from), rich_off(&s.to))
    }
    fn loc_m(ctx: &Ctx, k: usize) -> String {
        format!("file:{}", rich_m(ctx, k))
    }
    fn span_m(ctx: &Ctx, i: usize, j: usize) -> String {
        format!("file:{}..{}", rich_m(ctx, i), rich_m(ctx, j))
    }
    fn mkloc(ctx: &Ctx, k: usize) -> location::RichLocation {
        location::RichLocation { filename: FN.with(|f| f.clone()), offset: rich_o(ctx, k) }
    }
    fn mkspan(ctx: &Ctx, i: usize, j: usize) -> location::RichSpan {
        location::RichSpan { filename: FN.with(|f| f.clone()), from: rich_o(ctx, i), to: rich_o(ctx, j) }
    }
    fn canon(&self) -> String {
        canon_simple(self, at_c::<Self>, Self::scanon)
    }
}
// --------------------------------------------- error type that logs merges,
// on a tracker that remembers the tokens it was advanced over
#[derive(Clone, Debug, PartialEq)]
pub struct LogT(pub String);
impl Tracker<char> for LogT {
    type Location = String;
    type Span = String;
    fn advance(&mut self, token: &char) {
        self.0.push(*token);
    }
    fn location(&self, index: usize) -> String {
        format!("{}#{}", self.0, index)
    }
    fn spanning_to(&self, from_index: usize, to: &Self, to_index: usize) -> String {
        format!("{}#{}-{}#{}", self.0, from_index, to.0, to_index)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum LogE {
    Ef(Vec<Option<char>>, Option<char>, At<String, String>, Vec<String>),
    Other(String),
}
impl Fallback for LogE {
    fn simple<M: ToString>(m: M) -> Self {
        LogE::Other(m.to_string())
    }
}
impl Error<'static, char> for LogE {
    type LocationTracker = LogT;
    fn expected_found<J>(expected: J, found: Option<char>, at: At<String, String>) -> Self
    where
        J: IntoIterator<Item = Option<char>>,
    {
        LogE::Ef(expected.into_iter().collect(), found, at, vec![])
    }
    fn merge_expected_found(&mut self, other: &Self) {
        if let LogE::Ef(_, _, _, log) = self {
            log.push(other.canon());
        }
    }
    fn is_expected_found(&self) -> bool {
        matches!(self, LogE::Ef(..))
    }
    fn location(&self) -> At<&String, &String> {
        match self {
            LogE::Ef(_, _, at, _) => match at {
                At::None => At::None,
                At::Location(l) => At::Location(l),
                At::Span(s) => At::Span(s),
            },
            _ => At::None,
        }
    }
    fn unmatched_left_delimiter(t: char, s: String, at: At<String, String>) -> Self {
        LogE::Other(format!("UL{:?}|{}|{}", t, s, at_c::<LogE>(&at)))
    }
    fn unmatched_right_delimiter(t: char, s: String, at: At<String, String>) -> Self {
        LogE::Other(format!("UR{:?}|{}|{}", t, s, at_c::<LogE>(&at)))
    }
    fn unmatched_delimiter_type(t: char, s: String, u: char, r: String) -> Self {
        LogE::Other(format!("UT{:?}|{}|{:?}|{}", t, s, u, r))
    }
    fn custom<M: ToString>(m: M, at: At<String, String>) -> Self {
        LogE::Other(format!("CU{:?}|{}", m.to_string(), at_c::<LogE>(&at)))
    }
}
fn log_at(ctx: &Ctx, k: usize) -> String {
    format!("{}#{}", ctx.pre.iter().chain(ctx.toks[..k].iter()).collect::<String>(), k)
}
impl HE for LogE {
    const NAME: &'static str = "Log";
    const EF: bool = true;
    const VOID: bool = false;
    const SETS: bool = false;
    fn start(ctx: &Ctx) -> LogT {
        LogT(ctx.pre.iter().collect())
    }
    fn lcanon(l: &String) -> String {
        l.clone()
    }
    fn scanon(s: &String) -> String {
        s.clone()
    }
    fn loc_m(ctx: &Ctx, k: usize) -> String {
        log_at(ctx, k)
    }
    fn span_m(ctx: &Ctx, i: usize, j: usize) -> String {
        format!("{}-{}", log_at(ctx, i), log_at(ctx, j))
    }
    fn mkloc(ctx: &Ctx, k: usize) -> String {
        log_at(ctx, k)
    }
    fn mkspan(ctx: &Ctx, i: usize, j: usize) -> String {
        Self::span_m(ctx, i, j)
    }
    fn canon(&self) -> String {
        match self {
            LogE::Ef(x, f, at, log) => format!("EF{:?}|{:?}|{}|{:?}", x, f, at_c::<LogE>(at), log),
            LogE::Other(s) => s.clone(),
        }
    }
}
