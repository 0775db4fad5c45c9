//! Turns a grammar of the model into parsers of the crate under test.
use crate::errs::*;
use crate::model::*;
use parse_proof_of_concept::combinator::TryMapResult;
use parse_proof_of_concept::parser::{Parser, Result as PR};
use parse_proof_of_concept::primitive;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy, Recover, Strategy};
use parse_proof_of_concept::recursive;
use parse_proof_of_concept::scanner::{nested_delimiters, NestedDelimiters, Scanner};
use parse_proof_of_concept::stream::{SavedState, Stream};
use std::rc::Rc;

pub type St<E> = Stream<'static, char, LTof<E>>;

/// A parser behind a function pointer, independent of the crate's `Boxed`.
pub struct HP<E: HE>(pub Rc<dyn Fn(&mut St<E>, bool) -> PR<V, E>>);
impl<E: HE> Clone for HP<E> {
    fn clone(&self) -> Self {
        HP(self.0.clone())
    }
}
impl<E: HE> Parser<'static, char> for HP<E> {
    type Output = V;
    type Error = E;
    fn parse_internal(&self, stream: &mut St<E>, rec: bool) -> PR<V, E> {
        (self.0)(stream, rec)
    }
}
/// wraps any parser, converting its output (not through the crate's `Map`)
pub fn hp<E: HE, P>(p: P, f: impl Fn(P::Output) -> V + 'static) -> HP<E>
where
    P: Parser<'static, char, Error = E> + 'static,
{
    HP(Rc::new(move |s, r| match p.parse_internal(s, r) {
        PR::Success(o) => PR::Success(f(o)),
        PR::Recovered(o, es) => PR::Recovered(f(o), es),
        PR::Failed(i, es) => PR::Failed(i, es),
    }))
}
fn pair(o: (V, V)) -> V {
    V::P(Box::new(o.0), Box::new(o.1))
}
fn go<E: HE>(s: &mut St<E>, to: usize) {
    while s.index() < to {
        if !s.advance() {
            break;
        }
    }
}
fn ent<E: HE>(ctx: &Ctx, e: &Ent, s: &mut St<E>, look: usize) -> PR<V, E> {
    if look > 0 {
        let mark = s.save();
        for _ in 0..look {
            s.advance();
        }
        if look % 2 == 0 {
            let _ = s.token();
        }
        s.restore(&mark);
    }
    let mks = |es: &Vec<ME>| -> Vec<E> { es.iter().map(|e| mk::<E>(ctx, e)).collect() };
    match &e.res {
        SR::Ok(v) => {
            go::<E>(s, e.end);
            PR::Success(v.clone())
        }
        SR::Rec(v, es) => {
            go::<E>(s, e.end);
            PR::Recovered(v.clone(), mks(es))
        }
        SR::Fail(i, es) => PR::Failed(*i, mks(es)),
    }
}
fn pred(cs: &Vec<char>) -> impl Fn(&char) -> bool + Clone + 'static {
    let cs = cs.clone();
    move |c: &char| cs.contains(c)
}
fn tryf<E: HE>(n: u8) -> impl Fn(V, SpanOf<E>) -> TryMapResult<V, E> {
    move |v, s| {
        let s = E::scanon(&s);
        let e1 = |k: &str| E::custom(format!("try{k}:{s}"), parse_proof_of_concept::error::At::None);
        let d = decide(n, &v);
        let o = V::M(s.clone(), Box::new(v));
        match d {
            0 | 1 => TryMapResult::Ok(o),
            2 => TryMapResult::Err(vec![e1("E1"), e1("E2")]),
            _ => TryMapResult::Recovered(o, vec![e1("R")]),
        }
    }
}
fn none<L, S>() -> parse_proof_of_concept::error::At<L, S> {
    parse_proof_of_concept::error::At::None
}
fn cont<E: HE, R>(k: &Cont, f: impl ContFn<E, R>) -> R {
    match k {
        Cont::One(c) => f.call(*c),
        Cont::Str(s) => f.call(s.clone()),
        Cont::RefStr(s) => {
            let s: &'static str = Box::leak(s.clone().into_boxed_str());
            f.call(s)
        }
        Cont::Vec(v) => f.call(v.clone()),
        Cont::RefVec(v) => {
            let v: &'static Vec<char> = Box::leak(Box::new(v.clone()));
            f.call(v)
        }
        Cont::Slice(v) => {
            let v: &'static [char] = Box::leak(v.clone().into_boxed_slice());
            f.call(v)
        }
        Cont::Arr3(a) => f.call(*a),
        Cont::RefArr2(a) => {
            let a: &'static [char; 2] = Box::leak(Box::new(*a));
            f.call(a)
        }
    }
}
trait ContFn<E: HE, R> {
    fn call<C: parse_proof_of_concept::container::Container<char> + Clone + 'static>(self, c: C) -> R;
}
struct SeqF(Cont);
impl<E: HE> ContFn<E, HP<E>> for SeqF {
    fn call<C: parse_proof_of_concept::container::Container<char> + Clone + 'static>(self, c: C) -> HP<E> {
        let k = self.0;
        hp(primitive::seq::<char, C, E>(c), move |_| V::S(format!("{:?}", k)))
    }
}
struct OneF;
impl<E: HE> ContFn<E, HP<E>> for OneF {
    fn call<C: parse_proof_of_concept::container::Container<char> + Clone + 'static>(self, c: C) -> HP<E> {
        hp(primitive::one_of::<char, C, E>(c), V::T)
    }
}
struct NoneF;
impl<E: HE> ContFn<E, HP<E>> for NoneF {
    fn call<C: parse_proof_of_concept::container::Container<char> + Clone + 'static>(self, c: C) -> HP<E> {
        hp(primitive::none_of::<char, C, E>(c), V::T)
    }
}

pub fn build<E: HE + NestedScan>(ctx: &Rc<Ctx>, g: &G, env: &Vec<HP<E>>) -> HP<E> {
    let b = |g: &G| build::<E>(ctx, g, env);
    let id = |v: V| v;
    match g {
        G::Stub(_, tab, look) => {
            let (ctx, tab, look) = (ctx.clone(), tab.clone(), *look);
            HP(Rc::new(move |s, rec| {
                let p = s.index().min(tab.len() - 1);
                ent::<E>(&ctx, if rec { &tab[p].1 } else { &tab[p].0 }, s, look)
            }))
        }
        G::Empty => hp(primitive::empty::<char, E>(), |_| V::Unit),
        G::None_ => hp(primitive::none::<char, V, E>(), |o| V::O(o.map(Box::new))),
        G::End => hp(primitive::end::<char, E>(), |_| V::Unit),
        G::Just(c) => hp(primitive::just::<char, E>(*c), V::T),
        G::Filter(cs) => hp(primitive::filter::<char, _, E>(pred(cs)), V::T),
        G::FilterMap(cs) => {
            let cs = cs.clone();
            hp(
                primitive::filter_map::<char, _, V, E>(move |c: &char| if cs.contains(c) { Some(V::S(format!("fm{c}"))) } else { None }),
                id,
            )
        }
        G::Seq(k) => cont::<E, _>(k, SeqF(k.clone())),
        G::OneOf(k) => cont::<E, _>(k, OneF),
        G::NoneOf(k) => cont::<E, _>(k, NoneF),
        G::To(c) => hp(b(c).to(V::S("to".into())), id),
        G::Ignored(c) => hp(b(c).ignored::<()>(), |_| V::Unit),
        G::Some_(c) => hp(b(c).some(), |o| V::O(o.map(Box::new))),
        G::Map(c) => hp(b(c).map(|v| V::M("map".into(), Box::new(v))), id),
        G::MapSpan(c) => hp(b(c).map_with_span(|v, s| V::M(E::scanon(&s), Box::new(v))), id),
        G::MapErr(c) => hp(b(c).map_err(|e| E::custom(format!("me:{}", e.canon()), none())), id),
        G::MapErrSpan(c) => hp(b(c).map_err_with_span(|e, s| E::custom(format!("mes:{}:{}", e.canon(), E::scanon(&s)), none())), id),
        G::TryMap(n, c) => hp(b(c).try_map(tryf::<E>(*n)), id),
        G::Then(x, y) => hp(b(x).then(b(y)), pair),
        G::ThenIgnore(x, y) => hp(b(x).then_ignore(b(y)), id),
        G::IgnoreThen(x, y) => hp(b(x).ignore_then(b(y)), id),
        G::Delim(x, y, z) => hp(b(y).delimited_by(b(x), b(z)), id),
        G::Pad(x, y) => hp(b(y).padded_by(b(x)), id),
        G::Chain(gs) => {
            let mut c = b(&gs[0]).chain(b(&gs[1]));
            for g in &gs[2..] {
                c = c.and(b(g));
            }
            hp(c, V::L)
        }
        G::Or(x, y) => hp(b(x).or(b(y)), id),
        G::OrNot(c) => hp(b(c).or_not(), |o| V::O(o.map(Box::new))),
        G::Alters(gs) => {
            let mut c = b(&gs[0]).alters(b(&gs[1]));
            for g in &gs[2..] {
                c = c.and(b(g));
            }
            hp(c, id)
        }
        G::Rep { item, sep, min, max, lead, trail, how } => {
            let item = b(item);
            let mut r = match (sep, how % 2) {
                (Some(s), 0) => item.separated_by(b(s)),
                _ => item.repeated(),
            };
            // the settings, in an order of its own
            let mut steps: Vec<u8> = vec![];
            if sep.is_some() && how % 2 == 1 {
                steps.push(0);
            }
            if *lead {
                steps.push(1);
            }
            if *trail {
                steps.push(2);
            }
            match max {
                Some(m) if m == min && how & 2 == 2 => steps.push(3),
                _ => {
                    if *min > 0 || how & 2 == 2 {
                        steps.push(4);
                    }
                    if max.is_some() {
                        steps.push(5);
                    }
                }
            }
            let mut k = *how as usize / 4;
            while !steps.is_empty() {
                let n = steps.len();
                match steps.remove(k % n) {
                    0 => r = r.with_separator(b(sep.as_ref().unwrap())),
                    1 => r = r.allow_leading(),
                    2 => r = r.allow_trailing(),
                    3 => r = r.exactly(*min),
                    4 => r = r.at_least(*min),
                    _ => r = r.at_most(max.unwrap()),
                }
                k /= n;
            }
            hp(r, V::L)
        }
        G::ToRec(c, st) => hp(b(c).to_recover(build_strat::<E>(ctx, st, env)), id),
        G::Boxed(c) => hp(b(c).boxed(), id),
        G::WithErr(c) => hp(b(c).with_error::<E>(), id),
        G::Cloned(c) => {
            let x = b(c).boxed();
            let y = x.clone();
            drop(x);
            hp(y, id)
        }
        G::Fix(how, c) => {
            let (ctx2, c2, env2) = (ctx.clone(), c.clone(), env.clone());
            match how % 3 {
                0 => hp(
                    recursive::recursive(move |r: &recursive::Recursive<'static, char, V, E>| {
                        let mut env = env2.clone();
                        env.push(hp(r.clone(), |v| v));
                        build::<E>(&ctx2, &c2, &env)
                    }),
                    id,
                ),
                1 => {
                    let mut r = recursive::Recursive::<'static, char, V, E>::declare();
                    let used = r.clone();
                    let mut env = env2.clone();
                    env.push(hp(used.clone(), |v| v));
                    let body = build::<E>(&ctx2, &c2, &env);
                    r.define(body);
                    hp(used, id)
                }
                _ => {
                    let r = recursive::Recursive::<'static, char, V, E>::declare();
                    let mut r2 = r.clone();
                    let mut env = env2.clone();
                    env.push(hp(r.clone(), |v| v));
                    r2.define(build::<E>(&ctx2, &c2, &env));
                    hp(r, id)
                }
            }
        }
        G::Var => env.last().unwrap().clone(),
    }
}

// ------------------------------------------------------------- recovery
/// A strategy behind a function pointer, independent of the crate's `Boxed`.
pub struct HS<E: HE>(pub Rc<dyn Fn(&HP<E>, &mut St<E>, &SavedState, &mut SavedState, &mut Vec<E>) -> Option<V>>);
impl<E: HE> Clone for HS<E> {
    fn clone(&self) -> Self {
        HS(self.0.clone())
    }
}
impl<E: HE> Recover<'static, char, HP<E>> for HS<E> {
    fn recover(&self, p: &HP<E>, s: &mut St<E>, st: &SavedState, f: &mut SavedState, es: &mut Vec<E>) -> Option<V> {
        (self.0)(p, s, st, f, es)
    }
}
impl<E: HE> IncompleteStrategy<'static, char, HP<E>> for HS<E> {}
impl<E: HE> Strategy<'static, char, HP<E>> for HS<E> {}
fn hs<E: HE, S: Recover<'static, char, HP<E>> + 'static>(s: S) -> HS<E> {
    HS(Rc::new(move |p, st, a, f, es| s.recover(p, st, a, f, es)))
}
struct ScanStub<E> {
    stop: Vec<char>,
    k: usize,
    ph: std::marker::PhantomData<E>,
}
impl<E: HE> Scanner<'static, char, E> for ScanStub<E> {
    fn scan(&mut self, token: char, span: SpanOf<E>, errors: &mut Vec<E>) -> bool {
        errors.push(E::custom(format!("scan{}{}", self.k, token), parse_proof_of_concept::error::At::Span(span)));
        self.k += 1;
        self.stop.contains(&token)
    }
    fn eof(&mut self, location: LocOf<E>, errors: &mut Vec<E>) {
        errors.push(E::custom(format!("eof{}", self.k), parse_proof_of_concept::error::At::Location(location)));
    }
}
pub trait NestedScan: HE {
    fn scan_step(child: HS<Self>, first: bool, table: usize) -> HS<Self>;
    fn scan_new(table: usize) -> Box<dyn Scanner<'static, char, Self>>;
}
macro_rules! nested {
    ($($e:ty),*) => { $(impl NestedScan for $e {
        fn scan_step(child: HS<Self>, first: bool, table: usize) -> HS<Self> {
            let f = nested_delimiters::<char, SpanOf<$e>>(TABLES[table]);
            if first { hs(recovery::scan::<char, HP<$e>, _, NestedDelimiters<'static, char, SpanOf<$e>>>(f)) } else { hs(child.scan(f)) }
        }
        fn scan_new(table: usize) -> Box<dyn Scanner<'static, char, Self>> {
            Box::new(nested_delimiters::<char, SpanOf<$e>>(TABLES[table])())
        }
    })* }
}
nested!(SimpleE, VoidE, RichE, LogE);

fn upd<E: HE>(k: u8, es: &mut Vec<E>, tag: String) {
    match k {
        0 => es.push(E::custom(tag, none())),
        1 => es.insert(0, E::custom(tag, none())),
        2 => es.reverse(),
        _ => es.clear(),
    }
}
type C<E> = HP<E>;
fn exsil<E: HE>(how: (bool, bool), alt: bool, r: recovery::Retry<HS<E>>) -> recovery::Retry<HS<E>> {
    match how {
        (false, false) => r,
        (true, false) => r.exactly(),
        (false, true) => r.silently(),
        _ if alt => r.exactly_and_silently(),
        _ => r.silently().exactly(),
    }
}
fn exsil2<E: HE>(how: (bool, bool), alt: bool, r: recovery::TryToParse<HS<E>, HP<E>>) -> recovery::TryToParse<HS<E>, HP<E>> {
    match how {
        (false, false) => r,
        (true, false) => r.exactly(),
        (false, true) => r.silently(),
        _ if alt => r.exactly_and_silently(),
        _ => r.exactly().silently(),
    }
}
/// appends one step to a strategy; `first`: use the crate's free constructor
pub fn build_step<E: HE + NestedScan>(ctx: &Rc<Ctx>, s: &Step, env: &Vec<HP<E>>, child: HS<E>, first: bool) -> HS<E> {
    macro_rules! st {
        ($m:ident ( $($a:expr),* )) => { if first { hs(recovery::$m::<char, C<E>, $(st!(@ $a)),*>($($a),*)) } else { hs(child.$m($($a),*)) } };
        (@ $a:expr) => { _ };
    }
    match s {
        Step::Stub { to, failed, errs, out } => {
            let (to, failed, errs, out, ctx) = (*to, *failed, errs.clone(), out.clone(), ctx.clone());
            HS(Rc::new(move |p, s, a, f, es| {
                if let Some(v) = child.recover(p, s, a, f, es) {
                    return Some(v);
                }
                if to >= s.index_at(a) {
                    s.restore(a);
                    go::<E>(s, to);
                }
                if let Some(i) = failed {
                    if i >= s.index_at(a) {
                        let here = s.save();
                        s.restore(a);
                        go::<E>(s, i);
                        *f = s.save();
                        s.restore(&here);
                    }
                }
                es.extend(errs.iter().map(|e| mk::<E>(&ctx, e)));
                out.clone()
            }))
        }
        Step::Restart => hs(child.restart()),
        Step::SeekToFailed => st!(seek_to_failed()),
        Step::Skip => st!(skip()),
        Step::SkipIf(cs) => st!(skip_if(pred(cs))),
        Step::Find(cs) => st!(find(pred(cs))),
        Step::ScanStub(cs) => {
            let cs = cs.clone();
            let f = move || ScanStub::<E> { stop: cs.clone(), k: 0, ph: Default::default() };
            if first { hs(recovery::scan::<char, C<E>, _, ScanStub<E>>(f)) } else { hs(child.scan(f)) }
        }
        Step::ScanNested(t) => E::scan_step(child, first, *t),
        Step::Maybe(ss) => {
            let i = build_steps::<E>(ctx, ss, env);
            st!(maybe(i))
        }
        Step::WhileNot(cs, ss) => {
            let i = build_steps::<E>(ctx, ss, env);
            st!(while_not(pred(cs), i))
        }
        Step::Retry(e, s) => {
            if first {
                let r = recovery::retry::<char, C<E>>();
                hs(match (*e, *s) {
                    (false, false) => r,
                    (true, false) => r.exactly(),
                    (false, true) => r.silently(),
                    _ => r.exactly_and_silently(),
                })
            } else {
                hs(exsil::<E>((*e, *s), ctx.len() % 2 == 0, child.retry()))
            }
        }
        Step::TryParse(g, e, s) => {
            let q = build::<E>(ctx, g, env);
            if first {
                let r = recovery::try_to_parse::<char, C<E>, _>(q);
                hs(match (*e, *s) {
                    (false, false) => r,
                    (true, false) => r.exactly(),
                    (false, true) => r.silently(),
                    _ => r.exactly_and_silently(),
                })
            } else {
                hs(exsil2::<E>((*e, *s), ctx.len() % 2 == 0, child.try_to_parse(q)))
            }
        }
        Step::Push => st!(push_error(|| E::custom("push", none()))),
        Step::PushHere => st!(push_error_here(|l| E::custom("here", parse_proof_of_concept::error::At::Location(l)))),
        Step::PushUpTo => st!(push_error_up_to_here(|s| E::custom("upto", parse_proof_of_concept::error::At::Span(s)))),
        Step::PushTok => st!(push_error_for_token(|t: Option<&char>, s| E::custom(
            format!("tok{:?}", t.copied()),
            parse_proof_of_concept::error::At::Span(s)
        ))),
        Step::Upd(k) => {
            let k = *k;
            st!(update_errors(move |es: &mut Vec<E>| upd(k, es, "upd".into())))
        }
        Step::UpdHere(k) => {
            let k = *k;
            st!(update_errors_here(move |es: &mut Vec<E>, l| upd(k, es, E::lcanon(&l))))
        }
        Step::UpdUpTo(k) => {
            let k = *k;
            st!(update_errors_up_to_here(move |es: &mut Vec<E>, s| upd(k, es, E::scanon(&s))))
        }
        Step::UpdTok(k) => {
            let k = *k;
            st!(update_errors_for_token(move |es: &mut Vec<E>, t: Option<&char>, s| upd(
                k,
                es,
                format!("{:?}{}", t.copied(), E::scanon(&s))
            )))
        }
        Step::Nothing => hs(child.do_nothing()),
        Step::Boxed => hs(child.boxed().clone()),
    }
}
pub fn build_steps<E: HE + NestedScan>(ctx: &Rc<Ctx>, ss: &[Step], env: &Vec<HP<E>>) -> HS<E> {
    let mut s = hs::<E, _>(recovery::attempt_to::<char, HP<E>>());
    for (k, x) in ss.iter().enumerate() {
        let first = k == 0 && !matches!(x, Step::Restart | Step::Stub { .. } | Step::Nothing | Step::Boxed);
        s = build_step::<E>(ctx, x, env, s, first);
    }
    s
}
pub fn build_strat<E: HE + NestedScan>(ctx: &Rc<Ctx>, st: &Strat, env: &Vec<HP<E>>) -> HS<E> {
    let s = build_steps::<E>(ctx, &st.steps, env);
    build_fin::<E>(&st.fin, s, st.steps.is_empty())
}
pub fn build_fin<E: HE>(f: &Fin, s: HS<E>, first: bool) -> HS<E> {
    let span = |x: SpanOf<E>| V::S(E::scanon(&x));
    match (f, first) {
        (Fin::Return, true) => hs(recovery::just_return::<char, C<E>>(V::S("ret".into()))),
        (Fin::Return, _) => hs(s.and_return(V::S("ret".into()))),
        (Fin::ReturnWith, true) => hs(recovery::just_return_with::<char, C<E>, _>(|| V::S("retw".into()))),
        (Fin::ReturnWith, _) => hs(s.and_return_with(|| V::S("retw".into()))),
        (Fin::ReturnSpan, true) => hs(recovery::just_return_with_span::<char, C<E>, _>(span)),
        (Fin::ReturnSpan, _) => hs(s.and_return_with_span(span)),
        (Fin::Fail, _) => hs(s.or_fail()),
    }
}
