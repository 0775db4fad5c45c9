## Sequencing, choice and repetition
%mod algorithm
%raw
use crate::stream::Src;
use crate::error::LT;
use crate::parser::SRes;
use crate::parser::lawful;
use crate::parser::good1;
use crate::parser::Parser;
use crate::combinator::Boxed;
/// result `x` so far, then one more output
pub open spec fn then1<O, E>(x: (SRes<Seq<O>, E>, nat), y: (SRes<O, E>, nat), p: nat) -> (SRes<Seq<O>, E>, nat) {
    match (x.0, y.0) {
        (SRes::Fail(i, es), _) => x,
        (_, SRes::Fail(i, es)) => (SRes::Fail(i, es), p),
        (SRes::Ok(a), SRes::Ok(b)) => (SRes::Ok(a.push(b)), y.1),
        (_, _) => (SRes::Rec(x.0.val().push(y.0.val()), x.0.errs() + y.0.errs()), y.1),
    }
}
/// the first `n` parsers in sequence
pub open spec fn cat_n<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool, n: nat) -> (SRes<Seq<O>, E>, nat)
    decreases n
{
    if n == 0 { (SRes::Ok(Seq::empty()), p) } else {
        let x = cat_n(ps, src, p, rec, (n - 1) as nat);
        then1(x, ps[n - 1].sem(src, x.1, rec), p)
    }
}
pub open spec fn cat<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<Vec<O>, E>, nat) {
    let x = cat_n(ps, src, p, rec, ps.len());
    (x.0.with(Vec::of(x.0.val())), x.1)
}
pub open spec fn all_valid<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).valid() }
pub open spec fn all_honest<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).honest() }
pub proof fn cat_law<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>, src: Src<I, LT<'i, I, E>>, p: nat, n: nat)
    requires all_valid(ps), src.ok(), p <= src.len(), n <= ps.len(),
    ensures lawful(cat_n(ps, src, p, false, n), cat_n(ps, src, p, true, n), p, src.len(), all_honest(ps)),
    decreases n
{
    if n > 0 {
        cat_law(ps, src, p, (n - 1) as nat);
        let f = cat_n(ps, src, p, false, (n - 1) as nat);
        let t = cat_n(ps, src, p, true, (n - 1) as nat);
        assert(ps[n - 1].valid());
        ps[n - 1].law(src, f.1);
        ps[n - 1].law(src, t.1);
    }
}
/// a failed prefix decides the whole
pub proof fn cat_fails<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool, k: nat, n: nat)
    requires k <= n, cat_n(ps, src, p, rec, k).0 is Fail,
    ensures cat_n(ps, src, p, rec, n) == cat_n(ps, src, p, rec, k),
    decreases n
{
    if k < n { cat_fails(ps, src, p, rec, k, (n - 1) as nat); }
}

// ---------------------------------------------------------------- choice
/// first alternative from `j` on that matched
pub open spec fn first_ok<O, E>(rf: Seq<(SRes<O, E>, nat)>, j: int) -> Option<int>
    decreases rf.len() - j
{
    if j < 0 || j >= rf.len() { Option::None } else if rf[j].0 is Ok { Option::Some(j) } else { first_ok(rf, j + 1) }
}
pub open spec fn iota(n: nat) -> Seq<int> { Seq::new(n, |i: int| i) }
pub open spec fn neg_idx<O, E>(rf: Seq<(SRes<O, E>, nat)>) -> Seq<int> { Seq::new(rf.len(), |i: int| -(rf[i].0.fidx() as int)) }
/// the alternatives by decreasing failure index, ties in the order given
pub open spec fn order<O, E>(rf: Seq<(SRes<O, E>, nat)>) -> Seq<int> { ssort(iota(rf.len()), neg_idx(rf)) }
/// first alternative in order `ord`, from `j` on, that recovers
pub open spec fn first_rec<O, E>(rt: Seq<(SRes<O, E>, nat)>, ord: Seq<int>, j: int) -> Option<int>
    decreases ord.len() - j
{
    if j < 0 || j >= ord.len() { Option::None } else if rt[ord[j]].0 is Rec { Option::Some(ord[j]) } else { first_rec(rt, ord, j + 1) }
}
/// merge the errors of one alternative
pub open spec fn merge1<'i, I: Clone + 'i, E: error::Error<'i, I>>(e: E, es: Seq<E>, j: int) -> E
    decreases es.len() - j
{
    if j < 0 || j >= es.len() { e } else { merge1(if es[j].is_ef() && es[j].at().eqs(&e.at()) { e.mrg(&es[j]) } else { e }, es, j + 1) }
}
/// merge the errors of the alternatives from the `j`th in order `ord`
pub open spec fn merge_all<'i, I: Clone + 'i, O, E: error::Error<'i, I>>(e: E, rf: Seq<(SRes<O, E>, nat)>, ord: Seq<int>, j: int) -> E
    decreases ord.len() - j
{
    if j < 0 || j >= ord.len() { e } else { merge_all::<I, O, E>(merge1::<I, E>(e, rf[ord[j]].0.errs(), 0), rf, ord, j + 1) }
}
pub open spec fn alt_errs<'i, I: Clone + 'i, O, E: error::Error<'i, I>>(rf: Seq<(SRes<O, E>, nat)>) -> Seq<E> {
    let ord = order(rf);
    let es = rf[ord[0]].0.errs();
    if es.len() == 1 && es[0].is_ef() { seq![merge_all::<I, O, E>(es[0], rf, ord, 1)] } else { es }
}
/// choice between alternatives with results `rf` without and `rt` with recovery, at `p`
pub open spec fn alt<'i, I: Clone + 'i, O, E: error::Error<'i, I>>(rf: Seq<(SRes<O, E>, nat)>, rt: Seq<(SRes<O, E>, nat)>, p: nat, rec: bool) -> (SRes<O, E>, nat) {
    match first_ok(rf, 0) {
        Option::Some(i) => rf[i],
        Option::None => match (if rec { first_rec(rt, order(rf), 0) } else { Option::None }) {
            Option::Some(i) => rt[i],
            Option::None => (SRes::Fail(rf[order(rf)[0]].0.fidx(), alt_errs::<I, O, E>(rf)), p),
        },
    }
}
pub open spec fn sems<'i, 'p, I: Clone + 'i, O, E: error::Error<'i, I>>(ps: Seq<&'p Boxed<'i, I, O, E>>, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> Seq<(SRes<O, E>, nat)> {
    Seq::new(ps.len(), |i: int| ps[i].sem(src, p, rec))
}
// sorting is a permutation, and independent of what is sorted
pub proof fn sins_perm<T>(s: Seq<(int, T)>, ix: Seq<(int, int)>, base: Seq<T>, k: int, n: int)
    requires
        s.len() == ix.len(), 0 <= n < base.len(),
        forall|j: int| 0 <= j < s.len() ==> s[j].0 == (#[trigger] ix[j]).0 && 0 <= ix[j].1 < base.len() && s[j].1 == base[ix[j].1],
    ensures
        sins(s, k, base[n]).len() == s.len() + 1, sins(ix, k, n).len() == s.len() + 1,
        forall|j: int| 0 <= j < s.len() + 1 ==> sins(s, k, base[n])[j].0 == (#[trigger] sins(ix, k, n)[j]).0 && 0 <= sins(ix, k, n)[j].1 < base.len() && sins(s, k, base[n])[j].1 == base[sins(ix, k, n)[j].1],
    decreases s.len()
{
    if s.len() > 0 && s.last().0 > k {
        assert(s.last().0 == ix[s.len() - 1].0);
        assert forall|j: int| 0 <= j < s.drop_last().len() implies s.drop_last()[j].0 == (#[trigger] ix.drop_last()[j]).0 && 0 <= ix.drop_last()[j].1 < base.len() && s.drop_last()[j].1 == base[ix.drop_last()[j].1] by {
            assert(ix[j] == ix.drop_last()[j]);
        }
        sins_perm(s.drop_last(), ix.drop_last(), base, k, n);
        assert(ix[s.len() - 1] == ix.last());
    } else if s.len() > 0 {
        assert(s.last().0 == ix[s.len() - 1].0);
    }
}
pub proof fn kv_perm<T>(s: Seq<T>, ks: Seq<int>, n: nat)
    requires n <= s.len(), ks.len() == s.len(),
    ensures
        ssort_kv(s, ks, n).len() == n, ssort_kv(iota(s.len()), ks, n).len() == n,
        forall|j: int| 0 <= j < n ==> ssort_kv(s, ks, n)[j].0 == (#[trigger] ssort_kv(iota(s.len()), ks, n)[j]).0 && 0 <= ssort_kv(iota(s.len()), ks, n)[j].1 < s.len() && ssort_kv(s, ks, n)[j].1 == s[ssort_kv(iota(s.len()), ks, n)[j].1],
    decreases n
{
    if n > 0 {
        kv_perm(s, ks, (n - 1) as nat);
        sins_perm(ssort_kv(s, ks, (n - 1) as nat), ssort_kv(iota(s.len()), ks, (n - 1) as nat), s, ks[n - 1], n - 1);
    }
}
/// `order` decides any sort of the failures by decreasing index
pub proof fn sort_perm<T>(s: Seq<T>, ks: Seq<int>)
    requires ks.len() == s.len(),
    ensures
        ssort(s, ks).len() == s.len(), ssort(iota(s.len()), ks).len() == s.len(),
        forall|j: int| 0 <= j < s.len() ==> 0 <= #[trigger] ssort(iota(s.len()), ks)[j] < s.len(),
        forall|j: int| 0 <= j < s.len() ==> ssort(s, ks)[j] == s[#[trigger] ssort(iota(s.len()), ks)[j]],
{
    kv_perm(s, ks, s.len());
    assert forall|j: int| 0 <= j < s.len() implies 0 <= #[trigger] ssort(iota(s.len()), ks)[j] < s.len() && ssort(s, ks)[j] == s[ssort(iota(s.len()), ks)[j]] by {
        let x = ssort_kv(iota(s.len()), ks, s.len())[j];
        assert(0 <= x.1 < s.len());
        assert(ssort(iota(s.len()), ks)[j] == x.1);
    }
}
/// the alternative preferred for its failure has the largest index
pub proof fn sins_max<T>(s: Seq<(int, T)>, k: int, x: T)
    requires forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0,
    ensures
        sins(s, k, x).len() == s.len() + 1,
        forall|i: int, j: int| 0 <= i <= j < s.len() + 1 ==> (#[trigger] sins(s, k, x)[i]).0 <= (#[trigger] sins(s, k, x)[j]).0,
        forall|j: int| 0 <= j < s.len() + 1 ==> (#[trigger] sins(s, k, x)[j]).0 == k || s.len() > 0 && sins(s, k, x)[j].0 <= s.last().0,
    decreases s.len()
{
    if s.len() > 0 && s.last().0 > k {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i <= j < d.len() implies (#[trigger] d[i]).0 <= (#[trigger] d[j]).0 by { assert(s[i].0 <= s[j].0); }
        sins_max(d, k, x);
        if d.len() > 0 { assert(s[d.len() - 1].0 <= s[s.len() - 1].0); }
    }
}
pub proof fn first_ok_none<O, E>(rf: Seq<(SRes<O, E>, nat)>, j: int)
    requires 0 <= j,
    ensures
        first_ok(rf, j) is None ==> forall|i: int| j <= i < rf.len() ==> !((#[trigger] rf[i]).0 is Ok),
        first_ok(rf, j) is Some ==> j <= first_ok(rf, j)->Some_0 < rf.len() && rf[first_ok(rf, j)->Some_0].0 is Ok,
    decreases rf.len() - j
{
    if j < rf.len() { first_ok_none(rf, j + 1); }
}
pub proof fn first_rec_in<O, E>(rt: Seq<(SRes<O, E>, nat)>, ord: Seq<int>, j: int)
    requires 0 <= j, forall|i: int| 0 <= i < ord.len() ==> 0 <= #[trigger] ord[i] < rt.len(),
    ensures first_rec(rt, ord, j) is Some ==> 0 <= first_rec(rt, ord, j)->Some_0 < rt.len() && rt[first_rec(rt, ord, j)->Some_0].0 is Rec,
    decreases ord.len() - j
{
    if j < ord.len() { first_rec_in(rt, ord, j + 1); }
}
pub open spec fn lawfuls<O, E>(rf: Seq<(SRes<O, E>, nat)>, rt: Seq<(SRes<O, E>, nat)>, p: nat, len: nat, honest: bool) -> bool {
    rf.len() == rt.len() && rf.len() > 0 && forall|i: int| 0 <= i < rf.len() ==> lawful(#[trigger] rf[i], rt[i], p, len, honest)
}
pub proof fn alt_law<'i, I: Clone + 'i, O, E: error::Error<'i, I>>(rf: Seq<(SRes<O, E>, nat)>, rt: Seq<(SRes<O, E>, nat)>, p: nat, len: nat, honest: bool)
    requires lawfuls(rf, rt, p, len, honest)
    ensures lawful(alt::<I, O, E>(rf, rt, p, false), alt::<I, O, E>(rf, rt, p, true), p, len, honest)
{
    first_ok_none(rf, 0);
    sort_perm(iota(rf.len()), neg_idx(rf));
    assert(iota(rf.len())[0] == 0);
    first_rec_in(rt, order(rf), 0);
    let i = first_ok(rf, 0);
    if i is Some {
        assert(lawful(rf[i->Some_0], rt[i->Some_0], p, len, honest));
    } else {
        let k = order(rf)[0];
        assert(0 <= k < rf.len());
        assert(lawful(rf[k], rt[k], p, len, honest));
        let j = first_rec(rt, order(rf), 0);
        if j is Some { assert(lawful(rf[j->Some_0], rt[j->Some_0], p, len, honest)); }
    }
}
/// tuples of failures as they are collected
pub open spec fn collected<O, E, X>(fs: Seq<(usize, Vec<E>, X)>, rf: Seq<(SRes<O, E>, nat)>) -> bool {
    forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 == rf[i].0.fidx() && fs[i].1@ == rf[i].0.errs()
}
%fn concatenate
@requires: old(stream).wf() && all_valid(parsers.items())
@ensures evo: old(stream).evolves(final(stream))
@ensures kind: r.sr().kind() == cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).0.kind()
@ensures val: r.sr().oval() == cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).0.oval()
@ensures erf: r is Failed ==> r.sr().errs() == cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).0.errs()
@ensures err: !(r is Failed) ==> r.sr().errs() == cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).0.errs()
@ensures idx: r.sr().fidx() == cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).0.fidx()
@ensures pos: final(stream).pos() == cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).1
@ensures C01: r is Failed ==> final(stream).pos() == old(stream).pos()
@ensures all: r.sr() =~~= cat(parsers.items(), old(stream).src(), old(stream).pos(), enable_recovery).0
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost ps = parsers.items(); let ghost src = stream.src(); let ghost p = stream.pos(); let ghost mut k: nat = 1;
@exit: proof { reveal_with_fuel(cat_n, 3); if k <= ps.len() && cat_n(ps, src, p, enable_recovery, k).0 is Fail { cat_fails(ps, src, p, enable_recovery, k, ps.len()); } }
@looppre 0: let ghost g0 = *stream; proof { reveal_with_fuel(cat_n, 3); if ps.len() > 0 { assert(ps[0].valid()); } }
@loop 0 for:
    invariant
        old(stream).evolves(stream), g0.evolves(stream), $it.rem().len() <= ps.len(), $it.rem() =~= ps.skip(ps.len() - $it.rem().len()),
        all_valid(ps),
        stream.pos() == cat_n(ps, src, p, enable_recovery, (ps.len() - $it.rem().len()) as nat).1,
        match recovery { Option::None => cat_n(ps, src, p, enable_recovery, (ps.len() - $it.rem().len()) as nat).0 =~~= SRes::<Seq<O>, E>::Ok(output@), Option::Some(es) => enable_recovery && cat_n(ps, src, p, enable_recovery, (ps.len() - $it.rem().len()) as nat).0 =~~= SRes::<Seq<O>, E>::Rec(output@, es@) },
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 0: proof { k = (ps.len() - $it.rem().len()) as nat; assert(ps[ps.len() - $it.rem().len() - 1].valid()); }
%fn alternate
@requires: old(stream).wf() && all_valid(parsers.items()) && parsers.items().len() > 0
@ensures evo: old(stream).evolves(final(stream))
@ensures kind: r.sr().kind() == alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).0.kind()
@ensures val: r.sr().oval() == alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).0.oval()
@ensures erf: r is Failed ==> r.sr().errs() == alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).0.errs()
@ensures err: !(r is Failed) ==> r.sr().errs() == alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).0.errs()
@ensures idx: r.sr().fidx() == alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).0.fidx()
@ensures pos: final(stream).pos() == alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).1
@ensures C01: r is Failed ==> final(stream).pos() == old(stream).pos()
@ensures all: r.sr() =~~= alt::<I, O, E>(sems(parsers.items(), old(stream).src(), old(stream).pos(), false), sems(parsers.items(), old(stream).src(), old(stream).pos(), true), old(stream).pos(), enable_recovery).0
@sem: kind=C06,C04?; val=C06,C04?; erf=C07; err=C06,C03; idx=C07,C19?; pos=C06,C04?
@props: C06,C07
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost ps = parsers.items(); let ghost src = stream.src(); let ghost p = stream.pos();
@entry: let ghost rf = sems(ps, src, p, false); let ghost rt = sems(ps, src, p, true);
@entry: proof { assert forall|i: int| 0 <= i < ps.len() implies lawful(#[trigger] rf[i], rt[i], p, src.len(), ps[i].honest()) by { assert(ps[i].valid()); ps[i].law(src, p); } }
@loop 0 for:
    invariant
        old(stream).evolves(stream), stream.pos() == p, $it.rem().len() <= ps.len(), $it.rem() =~= ps.skip(ps.len() - $it.rem().len()),
        failures@.len() == ps.len() - $it.rem().len(), collected(failures@, rf),
        forall|i: int| 0 <= i < failures@.len() ==> (#[trigger] failures@[i]).2 == ps[i] && rf[i].0 is Fail,
        first_ok(rf, 0) == first_ok(rf, failures@.len() as int),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@sorted 0: proof { sort_perm(__s0, neg_idx(rf)); assert(__s0.len() == rf.len()); assert(failures@ == ssort(__s0, neg_idx(rf))); assert(0 <= order(rf)[0] < rf.len()); assert(collected(__s0, rf)); assert(__s0[order(rf)[0]].1@ == rf[order(rf)[0]].0.errs()); }
@loop 1 for:
    invariant
        old(stream).evolves(stream), stream.pos() == p, $it.rem().len() <= ps.len(), $it.rem() =~= refs(failures@).skip(ps.len() - $it.rem().len()),
        first_rec(rt, order(rf), 0) == first_rec(rt, order(rf), ps.len() - $it.rem().len()),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 1: proof { let k = order(rf)[ps.len() - $it.rem().len() - 1]; assert(0 <= k < ps.len()); assert(ps[k].valid()); assert(lawful(rf[k], rt[k], p, src.len(), ps[k].honest())); assert(__s0[k].2 == ps[k]); }
@loop 2 for:
    invariant
        $it.rem().len() < ps.len(), $it.rem() =~= ssort(__s0, neg_idx(rf)).skip(ps.len() - $it.rem().len()),
        merge_all::<I, O, E>(rf[order(rf)[0]].0.errs()[0], rf, order(rf), 1) == merge_all::<I, O, E>(e, rf, order(rf), ps.len() - $it.rem().len()),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 2: proof { let k = order(rf)[ps.len() - $it.rem().len() - 1]; assert(0 <= k < ps.len()); assert(collected(__s0, rf)); assert(__s0[k].1@ == rf[k].0.errs()); }
@loop 3 for:
    invariant
        merge1::<I, E>(e0, es2@, 0) == merge1::<I, E>(e, es2@, es2@.len() - $it.rem().len()),
        $it.rem() =~= es2@.skip(es2@.len() - $it.rem().len()), $it.rem().len() <= es2@.len(),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@looppre 3: let ghost e0 = e;
@exit: proof { sort_perm(iota(rf.len()), neg_idx(rf)); }
@loopsome 0: proof { let k = ps.len() - $it.rem().len() - 1; assert(ps[k].valid()); assert(lawful(rf[k], rt[k], p, src.len(), ps[k].honest())); }
%mod combinator
%impl Parser for Chain
open spec fn valid(&self) -> bool { algorithm::all_valid(refs(self.parsers@)) }
open spec fn honest(&self) -> bool { algorithm::all_honest(refs(self.parsers@)) }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<Vec<O>, E>, nat) { algorithm::cat(refs(self.parsers@), src, p, rec) }
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) { algorithm::cat_law(refs(self.parsers@), src, p, self.parsers@.len()); }
%fn Chain::parse_internal
@sem: kind=C05,C03,C04?; val=C05,C04?; erf=C05; err=C03,C05; idx=C05,C19?; pos=C05,C04?
@props: C05
@entry: proof { self.law(stream.src(), stream.pos()); }
%fn Chain::and
@ensures C05: r.parsers@.len() == self.parsers@.len() + 1 && r.parsers@.drop_last() == self.parsers@ && crate::parser::same(&other, &r.parsers@.last())
@props: C05
%impl Parser for Alters
open spec fn valid(&self) -> bool { algorithm::all_valid(refs(self.parsers@)) && self.parsers@.len() > 0 }
open spec fn honest(&self) -> bool { algorithm::all_honest(refs(self.parsers@)) }
open spec fn sem(&self, src: Src<I, LT<'i, I, E>>, p: nat, rec: bool) -> (SRes<O, E>, nat) { algorithm::alt::<I, O, E>(algorithm::sems(refs(self.parsers@), src, p, false), algorithm::sems(refs(self.parsers@), src, p, true), p, rec) }
proof fn law(&self, src: Src<I, LT<'i, I, E>>, p: nat) {
    let ps = refs(self.parsers@);
    assert forall|i: int| 0 <= i < ps.len() implies lawful(#[trigger] algorithm::sems(ps, src, p, false)[i], algorithm::sems(ps, src, p, true)[i], p, src.len(), self.honest()) by {
        assert(ps[i].valid());
        if self.honest() { assert(ps[i].honest()); }
        ps[i].law(src, p);
    }
    algorithm::alt_law::<I, O, E>(algorithm::sems(ps, src, p, false), algorithm::sems(ps, src, p, true), p, src.len(), self.honest());
}
%fn Alters::parse_internal
@sem: kind=C06,C04?; val=C06,C04?; erf=C07; err=C06,C03; idx=C07,C19?; pos=C06,C04?
@props: C06,C07
@entry: proof { self.law(stream.src(), stream.pos()); }
%fn Alters::and
@ensures C06: r.parsers@.len() == self.parsers@.len() + 1 && r.parsers@.drop_last() == self.parsers@ && crate::parser::same(&other, &r.parsers@.last())
@props: C06
%impl Parser for Or
open spec fn valid(&self) -> bool { self.a.valid() && self.b.valid() }
open spec fn honest(&self) -> bool { self.a.honest() && self.b.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat, rec: bool) -> (SRes<A::Output, A::Error>, nat) {
    algorithm::alt::<I, A::Output, A::Error>(seq![self.a.sem(src, p, false), self.b.sem(src, p, false)], seq![self.a.sem(src, p, true), self.b.sem(src, p, true)], p, rec)
}
proof fn law(&self, src: Src<I, LT<'i, I, A::Error>>, p: nat) {
    self.a.law(src, p);
    self.b.law(src, p);
    let rf = seq![self.a.sem(src, p, false), self.b.sem(src, p, false)];
    let rt = seq![self.a.sem(src, p, true), self.b.sem(src, p, true)];
    assert forall|i: int| 0 <= i < rf.len() implies lawful(#[trigger] rf[i], rt[i], p, src.len(), self.honest()) by { }
    algorithm::alt_law::<I, A::Output, A::Error>(rf, rt, p, src.len(), self.honest());
}
%fn Or::parse_internal
@sem: kind=C06,C04?; val=C06,C04?; erf=C07; err=C06,C03; idx=C07,C19?; pos=C06,C04?
@props: C06,C07
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost p = stream.pos();
@entry: let ghost rf = seq![self.a.sem(stream.src(), p, false), self.b.sem(stream.src(), p, false)];
@entry: let ghost rt = seq![self.a.sem(stream.src(), p, true), self.b.sem(stream.src(), p, true)];
@entry: let ghost ord = algorithm::order(rf);
@entry: proof { self.a.law(stream.src(), p); self.b.law(stream.src(), p); self.law(stream.src(), p); reveal_with_fuel(algorithm::first_ok, 4); assert(rf.len() == 2 && rf[0] == self.a.sem(stream.src(), p, false) && rf[1] == self.b.sem(stream.src(), p, false)); assert(rt[0] == self.a.sem(stream.src(), p, true) && rt[1] == self.b.sem(stream.src(), p, true)); }
@sorted 0: proof { assert(__s0.len() == 2 && algorithm::collected(__s0, rf)); algorithm::sort_perm(__s0, algorithm::neg_idx(rf)); assert(failures@ == ssort(__s0, algorithm::neg_idx(rf))); assert(0 <= ord[0] < rf.len()); assert(__s0[ord[0]].1@ == rf[ord[0]].0.errs()); }
@loop 0 for:
    invariant
        old(stream).evolves(stream), stream.pos() == p, $it.rem().len() <= 2, $it.rem() =~= refs(failures@).skip(2 - $it.rem().len()),
        algorithm::first_rec(rt, ord, 0) == algorithm::first_rec(rt, ord, 2 - $it.rem().len()),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 0: proof { let k = ord[1 - $it.rem().len()]; assert(0 <= k < 2); assert(__s0[k].2 == k); }
@loop 1 for:
    invariant
        $it.rem().len() < 2, $it.rem() =~= ssort(__s0, algorithm::neg_idx(rf)).skip(2 - $it.rem().len()),
        algorithm::merge_all::<I, A::Output, A::Error>(rf[ord[0]].0.errs()[0], rf, ord, 1) == algorithm::merge_all::<I, A::Output, A::Error>(e, rf, ord, 2 - $it.rem().len()),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 1: proof { let k = ord[1 - $it.rem().len()]; assert(0 <= k < 2); assert(algorithm::collected(__s0, rf)); assert(__s0[k].1@ == rf[k].0.errs()); }
@looppre 2: let ghost e0 = e;
@loop 2 for:
    invariant
        algorithm::merge1::<I, A::Error>(e0, es2@, 0) == algorithm::merge1::<I, A::Error>(e, es2@, es2@.len() - $it.rem().len()),
        $it.rem() =~= es2@.skip(es2@.len() - $it.rem().len()), $it.rem().len() <= es2@.len(),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@exit: proof { algorithm::sort_perm(algorithm::iota(rf.len()), algorithm::neg_idx(rf)); }
%impl Parser for OrNot
open spec fn valid(&self) -> bool { self.child.valid() }
open spec fn honest(&self) -> bool { self.child.honest() }
open spec fn sem(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat, rec: bool) -> (SRes<Option<C::Output>, C::Error>, nat) {
    algorithm::alt::<I, Option<C::Output>, C::Error>(seq![self.child.sem(src, p, false), primitive::none_s::<C::Output, C::Error>().sem(src, p, false)], seq![self.child.sem(src, p, true), primitive::none_s::<C::Output, C::Error>().sem(src, p, true)], p, rec)
}
proof fn law(&self, src: Src<I, LT<'i, I, C::Error>>, p: nat) {
    self.child.law(src, p);
    primitive::none_s::<C::Output, C::Error>().law(src, p);
    let rf = seq![self.child.sem(src, p, false), primitive::none_s::<C::Output, C::Error>().sem(src, p, false)];
    let rt = seq![self.child.sem(src, p, true), primitive::none_s::<C::Output, C::Error>().sem(src, p, true)];
    assert forall|i: int| 0 <= i < rf.len() implies lawful(#[trigger] rf[i], rt[i], p, src.len(), self.honest()) by { }
    algorithm::alt_law::<I, Option<C::Output>, C::Error>(rf, rt, p, src.len(), self.honest());
}
%fn OrNot::parse_internal
@sem: kind=C06,C04?; val=C06,C04?; erf=C07; err=C06,C03; idx=C07,C19?; pos=C06,C04?
@props: C06,C07
@attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@entry: let ghost p = stream.pos();
@entry: let ghost rf = seq![self.child.sem(stream.src(), p, false), primitive::none_s::<C::Output, C::Error>().sem(stream.src(), p, false)];
@entry: let ghost rt = seq![self.child.sem(stream.src(), p, true), primitive::none_s::<C::Output, C::Error>().sem(stream.src(), p, true)];
@entry: let ghost ord = algorithm::order(rf);
@entry: proof { self.child.law(stream.src(), p); primitive::none_s::<C::Output, C::Error>().law(stream.src(), p); self.law(stream.src(), p); reveal_with_fuel(algorithm::first_ok, 4); assert(rf.len() == 2 && rf[0] == self.child.sem(stream.src(), p, false) && rf[1] == primitive::none_s::<C::Output, C::Error>().sem(stream.src(), p, false)); assert(rt[0] == self.child.sem(stream.src(), p, true) && rt[1] == primitive::none_s::<C::Output, C::Error>().sem(stream.src(), p, true)); }
@sorted 0: proof { assert(__s0.len() == 2 && algorithm::collected(__s0, rf)); algorithm::sort_perm(__s0, algorithm::neg_idx(rf)); assert(failures@ == ssort(__s0, algorithm::neg_idx(rf))); assert(0 <= ord[0] < rf.len()); assert(__s0[ord[0]].1@ == rf[ord[0]].0.errs()); }
@loop 0 for:
    invariant
        old(stream).evolves(stream), stream.pos() == p, $it.rem().len() <= 2, $it.rem() =~= refs(failures@).skip(2 - $it.rem().len()),
        algorithm::first_rec(rt, ord, 0) == algorithm::first_rec(rt, ord, 2 - $it.rem().len()),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 0: proof { let k = ord[1 - $it.rem().len()]; assert(0 <= k < 2); assert(__s0[k].2 == k); }
@loop 1 for:
    invariant
        $it.rem().len() < 2, $it.rem() =~= ssort(__s0, algorithm::neg_idx(rf)).skip(2 - $it.rem().len()),
        algorithm::merge_all::<I, Option<C::Output>, C::Error>(rf[ord[0]].0.errs()[0], rf, ord, 1) == algorithm::merge_all::<I, Option<C::Output>, C::Error>(e, rf, ord, 2 - $it.rem().len()),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@loopsome 1: proof { let k = ord[1 - $it.rem().len()]; assert(0 <= k < 2); assert(algorithm::collected(__s0, rf)); assert(__s0[k].1@ == rf[k].0.errs()); }
@looppre 2: let ghost e0 = e;
@loop 2 for:
    invariant
        algorithm::merge1::<I, C::Error>(e0, es2@, 0) == algorithm::merge1::<I, C::Error>(e, es2@, es2@.len() - $it.rem().len()),
        $it.rem() =~= es2@.skip(es2@.len() - $it.rem().len()), $it.rem().len() <= es2@.len(),
    ensures $it.rem().len() == 0
    decreases $it.rem().len()
@exit: proof { algorithm::sort_perm(algorithm::iota(rf.len()), algorithm::neg_idx(rf)); }
