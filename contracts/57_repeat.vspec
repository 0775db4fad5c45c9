## Repetition (C08, C09)
%mod algorithm
%raw
// ------------------------------------------------------------ repetition
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(S)]
pub ghost struct Rep<C, S> { pub item: C, pub sep: Option<S>, pub min: nat, pub mx: nat, pub lead: bool, pub trail: bool }
/// position reached, items so far, errors recovered from so far (if any)
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
#[verifier::ext_equal]
pub ghost struct RepSt<O, E> { pub q: nat, pub out: Seq<O>, pub errs: Option<Seq<E>> }
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
#[verifier::ext_equal]
pub ghost enum RepOut<O, E> { More(RepSt<O, E>), Done(RepSt<O, E>), Failed(nat, Seq<E>) }
pub open spec fn add_errs<E>(a: Option<Seq<E>>, b: Seq<E>) -> Option<Seq<E>> { match a { Option::Some(x) => Option::Some(x + b), Option::None => Option::Some(b) } }
pub open spec fn rep_cfg<C, S>(item: C, sep: Option<S>, min: nat, max: Option<usize>, lead: bool, trail: bool) -> Rep<C, S> {
    Rep { item, sep, min, mx: (match max { Option::Some(m) => m, Option::None => usize::MAX }) as nat, lead, trail }
}
pub open spec fn deref_opt<'p, S>(s: Option<&'p S>) -> Option<S> { match s { Option::Some(x) => Option::Some(*x), Option::None => Option::None } }
/// the state the variables of `repeat` stand for
pub open spec fn rep_at<O, E>(q: nat, out: Seq<O>, r: Option<Vec<E>>) -> RepSt<O, E> { RepSt { q, out, errs: match r { Option::None => Option::None, Option::Some(es) => Option::Some(es@) } } }
/// one more item, where the separator in front of it ended at `st.q` and started at `before`
pub open spec fn rep_item<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, before: Option<nat>, rec: bool) -> RepOut<C::Output, C::Error> {
    let n = st.out.len();
    if c.trail && n >= c.mx { RepOut::Done(st) } else {
        let x = c.item.sem(src, st.q, rec && n < c.min);
        match x.0 {
            SRes::Ok(o) => RepOut::More(RepSt { q: x.1, out: st.out.push(o), errs: st.errs }),
            SRes::Rec(o, es) => RepOut::More(RepSt { q: x.1, out: st.out.push(o), errs: add_errs(st.errs, es) }),
            SRes::Fail(i, es) =>
                if n >= c.min { RepOut::Done(RepSt { q: if before is Some && !c.trail && n > 0 { before->Some_0 } else { st.q }, out: st.out, errs: st.errs }) }
                else { RepOut::Failed(i, es) },
        }
    }
}
/// whether a separator is tried in front of item `n`
pub open spec fn wants_sep<C, S>(c: Rep<C, S>, n: nat) -> bool { c.sep is Some && (n > 0 || c.lead) }
/// separator and item, or the end
pub open spec fn rep_step<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, rec: bool) -> RepOut<C::Output, C::Error> {
    let n = st.out.len();
    if !c.trail && n >= c.mx { RepOut::Done(st) }
    else if wants_sep(c, n) {
        let s = c.sep->Some_0.sem(src, st.q, rec && n < c.min && n > 0);
        match s.0 {
            SRes::Ok(_) => rep_item(c, src, RepSt { q: s.1, out: st.out, errs: st.errs }, Option::Some(st.q), rec),
            SRes::Rec(_, es) => rep_item(c, src, RepSt { q: s.1, out: st.out, errs: add_errs(st.errs, es) }, Option::Some(st.q), rec),
            SRes::Fail(i, es) =>
                if n == 0 { rep_item(c, src, RepSt { q: s.1, out: st.out, errs: st.errs }, Option::Some(st.q), rec) }
                else if n >= c.min { RepOut::Done(st) }
                else { RepOut::Failed(i, es) },
        }
    } else { rep_item(c, src, st, Option::None, rec) }
}
pub open spec fn rep_run<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, rec: bool) -> RepOut<C::Output, C::Error>
    decreases c.mx - st.out.len()
{
    let x = rep_step(c, src, st, rec);
    if x is More && st.out.len() < c.mx && x->More_0.out.len() > st.out.len() { rep_run(c, src, x->More_0, rec) } else { x }
}
pub open spec fn rep_start<O, E>(p: nat) -> RepSt<O, E> { RepSt { q: p, out: Seq::empty(), errs: Option::None } }
pub open spec fn rep_res<O, E>(x: RepOut<O, E>, p: nat) -> (SRes<Vec<O>, E>, nat) {
    match x {
        RepOut::Failed(i, es) => (SRes::Fail(i, es), p),
        RepOut::Done(st) | RepOut::More(st) => (match st.errs { Option::Some(es) => SRes::Rec(Vec::of(st.out), es), Option::None => SRes::Ok(Vec::of(st.out)) }, st.q),
    }
}
pub open spec fn rep<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<Vec<C::Output>, C::Error>, nat) {
    rep_res(rep_run(c, src, rep_start::<C::Output, C::Error>(p), rec), p)
}
pub open spec fn rep_valid<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>) -> bool { c.item.valid() && (c.sep is Some ==> c.sep->Some_0.valid()) }
pub open spec fn rep_honest<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>) -> bool { c.item.honest() && (c.sep is Some ==> c.sep->Some_0.honest()) }
/// what holds of every state on the way
pub open spec fn rep_ok<O, E>(st: RepSt<O, E>, p: nat, len: nat, honest: bool) -> bool {
    p <= st.q <= len && (honest && st.errs is Some ==> st.errs->Some_0.len() > 0)
}
pub open spec fn rep_out_ok<O, E>(x: RepOut<O, E>, p: nat, len: nat, honest: bool) -> bool {
    match x { RepOut::Failed(i, es) => p <= i <= len && (honest ==> es.len() > 0), RepOut::Done(st) | RepOut::More(st) => rep_ok(st, p, len, honest) }
}
pub proof fn rep_step_law<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, p: nat)
    requires rep_valid(c), src.ok(), rep_ok(st, p, src.len(), rep_honest(c)),
    ensures
        rep_out_ok(rep_step(c, src, st, false), p, src.len(), rep_honest(c)),
        rep_out_ok(rep_step(c, src, st, true), p, src.len(), rep_honest(c)),
        // errors only come with recovery, and stay
        st.errs is None ==> match rep_step(c, src, st, false) { RepOut::More(s) => s.errs is None, RepOut::Done(s) => s.errs is None, _ => true },
        st.errs is Some ==> match rep_step(c, src, st, true) { RepOut::More(s) => s.errs is Some, RepOut::Done(s) => s.errs is Some, _ => true },
        !(rep_step(c, src, st, false) is Failed) ==> rep_step(c, src, st, true) == rep_step(c, src, st, false),
        rep_step(c, src, st, false) is Failed ==> match rep_step(c, src, st, true) { RepOut::More(s) => s.errs is Some, RepOut::Done(s) => s.errs is Some, _ => true },
        rep_step(c, src, st, false) is More ==> st.out.len() < c.mx && rep_step(c, src, st, false)->More_0.out.len() == st.out.len() + 1,
        rep_step(c, src, st, true) is More ==> st.out.len() < c.mx && rep_step(c, src, st, true)->More_0.out.len() == st.out.len() + 1,
{
    let s = c.sep->Some_0;
    if c.sep is Some {
        s.law(src, st.q);
        c.item.law(src, s.sem(src, st.q, false).1);
        c.item.law(src, s.sem(src, st.q, true).1);
    }
    c.item.law(src, st.q);
}
pub proof fn rep_run_law<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, p: nat)
    requires rep_valid(c), src.ok(), rep_ok(st, p, src.len(), rep_honest(c)),
    ensures
        ({
            let f = rep_run(c, src, st, false);
            let t = rep_run(c, src, st, true);
            &&& !(f is More) && !(t is More)
            &&& rep_out_ok(f, p, src.len(), rep_honest(c))
            &&& rep_out_ok(t, p, src.len(), rep_honest(c))
            &&& st.errs is None ==> (f is Done ==> f->Done_0.errs is None && t == f)
            &&& st.errs is Some ==> (t is Done ==> t->Done_0.errs is Some)
            &&& f is Failed ==> (t is Done ==> t->Done_0.errs is Some)
        }),
    decreases c.mx - st.out.len()
{
    rep_step_law(c, src, st, p);
    let f = rep_step(c, src, st, false);
    let t = rep_step(c, src, st, true);
    if f is More { rep_run_law(c, src, f->More_0, p); }
    if t is More { rep_run_law(c, src, t->More_0, p); }
}
pub proof fn rep_law<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, p: nat)
    requires rep_valid(c), src.ok(), p <= src.len(),
    ensures lawful(rep(c, src, p, false), rep(c, src, p, true), p, src.len(), rep_honest(c))
{
    rep_run_law(c, src, rep_start::<C::Output, C::Error>(p), p);
}
pub proof fn rep_unroll<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, rec: bool, p: nat)
    requires rep_valid(c), src.ok(), rep_ok(st, p, src.len(), rep_honest(c)),
    ensures
        rep_run(c, src, st, rec) == (match rep_step(c, src, st, rec) { RepOut::More(s) => rep_run(c, src, s, rec), x => x }),
        rep_out_ok(rep_step(c, src, st, rec), p, src.len(), rep_honest(c)),
        rep_step(c, src, st, rec) is More ==> st.out.len() < c.mx && rep_step(c, src, st, rec)->More_0.out.len() == st.out.len() + 1,
{
    rep_step_law(c, src, st, p);
}
/// the next item (with the separator it needs) does not match any more
pub open spec fn rep_stuck<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>) -> bool {
    if wants_sep(c, st.out.len()) {
        let s = c.sep->Some_0.sem(src, st.q, false);
        (s.0 is Fail && st.out.len() > 0) || c.item.sem(src, s.1, false).0 is Fail
    } else { c.item.sem(src, st.q, false).0 is Fail }
}
/// C08, C09: between minimum and maximum, as many items as there are
pub proof fn rep_bounds<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, p: nat, rec: bool)
    requires rep_valid(c), src.ok(), rep_ok(st, p, src.len(), rep_honest(c)), c.min <= c.mx, st.out.len() <= c.mx,
    ensures
        rep_run(c, src, st, rec) is Done ==> c.min <= rep_run(c, src, st, rec)->Done_0.out.len() <= c.mx,
        // not at the maximum: the next item does not match; without trailing separators the result ends right behind the last item
        rep_run(c, src, st, rec) is Done && rep_run(c, src, st, rec)->Done_0.out.len() < c.mx ==>
            exists|s: RepSt<C::Output, C::Error>| #[trigger] rep_stuck(c, src, s) && s.out == rep_run(c, src, st, rec)->Done_0.out
                && (!c.trail && s.out.len() > 0 ==> s.q == rep_run(c, src, st, rec)->Done_0.q),
    decreases c.mx - st.out.len()
{
    rep_step_law(c, src, st, p);
    let x = rep_step(c, src, st, rec);
    if x is More { rep_bounds(c, src, x->More_0, p, rec); }
    else if x is Done {
        if c.sep is Some { c.sep->Some_0.law(src, st.q); }
        if x->Done_0.out.len() < c.mx { assert(rep_stuck(c, src, st)); }
    }
}
/// items that consume tokens bound the number of iterations
pub proof fn rep_consumes<'i, I: Clone + 'i, C: Parser<'i, I>, S: Parser<'i, I, Error = C::Error>>(c: Rep<C, S>, src: Src<I, LT<'i, I, C::Error>>, st: RepSt<C::Output, C::Error>, p: nat, rec: bool)
    requires
        rep_valid(c), src.ok(), rep_ok(st, p, src.len(), rep_honest(c)),
        forall|q: nat, r: bool| q <= src.len() && !((#[trigger] c.item.sem(src, q, r)).0 is Fail) ==> c.item.sem(src, q, r).1 > q,
    ensures rep_run(c, src, st, rec) is Done ==> rep_run(c, src, st, rec)->Done_0.out.len() <= st.out.len() + (src.len() - st.q),
    decreases c.mx - st.out.len()
{
    rep_step_law(c, src, st, p);
    if c.sep is Some { c.sep->Some_0.law(src, st.q); }
    let x = rep_step(c, src, st, rec);
    if x is More { rep_consumes(c, src, x->More_0, p, rec); }
}
%end
%fn repeat
@requires: old(stream).wf() && rep_valid(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing))
@ensures evo: old(stream).evolves(final(stream))
@ensures kind: r.sr().kind() == rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).0.kind()
@ensures val: r.sr().oval() == rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).0.oval()
@ensures erf: r is Failed ==> r.sr().errs() =~= rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).0.errs()
@ensures err: !(r is Failed) ==> r.sr().errs() =~= rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).0.errs()
@ensures idx: r.sr().fidx() == rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).0.fidx()
@ensures pos: final(stream).pos() == rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).1
@ensures C01: r is Failed ==> final(stream).pos() == old(stream).pos()
@ensures all: r.sr() =~~= rep(rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing), old(stream).src(), old(stream).pos(), enable_recovery).0
@sem: kind=C08,C09,C03,C04?; val=C08,C04?; erf=C08,C09?; err=C03,C08; idx=C08,C19?; pos=C08,C09,C04?
@props: C08,C09
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: hide(rep_run);
@entry: let ghost cfg = rep_cfg(*parser, deref_opt(separator), minimum as nat, maximum, allow_leading, allow_trailing); let ghost src = stream.src(); let ghost p = stream.pos();
@entry: let ghost s0: RepSt<C::Output, C::Error> = rep_start(p); proof { rep_law(cfg, src, p); }
@looppre 0: let ghost g0 = *stream; proof { assert(rep_at(stream.pos(), output@, recovery) =~= s0); }
@loop 0 loop:
    invariant
        old(stream).evolves(stream), g0.evolves(stream), recovery is Some ==> enable_recovery,
        rep_ok(rep_at(stream.pos(), output@, recovery), p, src.len(), rep_honest(cfg)),
        rep_run(cfg, src, s0, enable_recovery) == rep_run(cfg, src, rep_at(stream.pos(), output@, recovery), enable_recovery),
    ensures
        rep_run(cfg, src, s0, enable_recovery) =~~= RepOut::Done(rep_at(stream.pos(), output@, recovery)), recovery is Some ==> enable_recovery,
    decreases cfg.mx - output@.len()
@loophead 0: let ghost st = rep_at(stream.pos(), output@, recovery); proof { rep_unroll(cfg, src, st, enable_recovery, p); if cfg.sep is Some { cfg.sep->Some_0.law(src, st.q); } }
%mod combinator
%impl Parser for SeparatedBy
open spec fn valid(&self) -> bool { algorithm::rep_valid(self.cfg()) }
open spec fn honest(&self) -> bool { algorithm::rep_honest(self.cfg()) }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<Vec<A::Output>, A::Error>, nat) { algorithm::rep(self.cfg(), src, p, rec) }
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) { algorithm::rep_law(self.cfg(), src, p); }
%raw
impl<A, B> SeparatedBy<A, B> {
    pub open spec fn cfg(&self) -> algorithm::Rep<A, B> { algorithm::rep_cfg(self.item, self.separator, self.minimum as nat, self.maximum, self.allow_leading, self.allow_trailing) }
}
%fn SeparatedBy::parse_internal
@sem: kind=C08,C09,C03,C04?; val=C08,C04?; erf=C08,C09?; err=C03,C08; idx=C08,C19?; pos=C08,C09,C04?
@props: C08,C09
@entry: proof { self.law(stream.src(), stream.pos()); }
%fn SeparatedBy::at_least
@ensures C08,C09?: r.item == self.item && r.minimum == minimum && r.maximum == self.maximum
@ensures C09,C08?: r.separator == self.separator && r.allow_leading == self.allow_leading && r.allow_trailing == self.allow_trailing
@props: C08,C09
%fn SeparatedBy::at_most
@ensures C08,C09?: r.item == self.item && r.minimum == self.minimum && r.maximum == Option::Some(maximum)
@ensures C09,C08?: r.separator == self.separator && r.allow_leading == self.allow_leading && r.allow_trailing == self.allow_trailing
@props: C08,C09
%fn SeparatedBy::exactly
@ensures C08,C09?: r.item == self.item && r.minimum == amount && r.maximum == Option::Some(amount)
@ensures C09,C08?: r.separator == self.separator && r.allow_leading == self.allow_leading && r.allow_trailing == self.allow_trailing
@props: C08,C09
%fn SeparatedBy::with_separator
@ensures C08,C09?: r.item == self.item && r.minimum == self.minimum && r.maximum == self.maximum
@ensures C09,C08?: r.separator == Option::Some(separator) && r.allow_leading == self.allow_leading && r.allow_trailing == self.allow_trailing
@props: C08,C09
%fn SeparatedBy::allow_leading
@ensures C08,C09?: r.item == self.item && r.minimum == self.minimum && r.maximum == self.maximum
@ensures C09,C08?: r.separator == self.separator && r.allow_leading && r.allow_trailing == self.allow_trailing
@props: C08,C09
%fn SeparatedBy::allow_trailing
@ensures C08,C09?: r.item == self.item && r.minimum == self.minimum && r.maximum == self.maximum
@ensures C09,C08?: r.separator == self.separator && r.allow_leading == self.allow_leading && r.allow_trailing
@props: C08,C09
