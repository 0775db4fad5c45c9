//! Reference semantics ("oracle"), written from the property statements.
//! Nothing in here uses the crate under test, except that errors are
//! rendered per error type through the `HE` trait.
use crate::errs::*;
use crate::rng::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MAt {
    No,
    Loc(usize),
    Span(usize, usize),
}
/// an error, with locations as token indices
#[derive(Clone, Debug, PartialEq)]
pub enum ME {
    Ef { exp: Vec<Option<char>>, found: Option<char>, at: MAt, merged: Vec<ME> },
    Ul(char, (usize, usize), MAt),
    Ur(char, (usize, usize), MAt),
    Ut(char, (usize, usize), char, (usize, usize)),
    Cust(String, MAt),
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    T(char),
    L(Vec<V>),
    P(Box<V>, Box<V>),
    O(Option<Box<V>>),
    S(String),
    U(u8, usize, bool),
    M(String, Box<V>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum SR {
    Ok(V),
    Rec(V, Vec<ME>),
    Fail(usize, Vec<ME>),
}
pub type Res = (SR, usize);

#[derive(Debug)]
pub struct Ctx {
    pub toks: Vec<char>,
    /// tokens the start location has already been advanced over
    pub pre: Vec<char>,
}
impl Ctx {
    pub fn len(&self) -> usize {
        self.toks.len()
    }
    pub fn tok(&self, p: usize) -> Option<char> {
        self.toks.get(p).copied()
    }
    /// span of the token at p
    pub fn tspan(&self, p: usize) -> (usize, usize) {
        (p, if p < self.len() { p + 1 } else { p })
    }
}
pub fn sp(x: (usize, usize)) -> MAt {
    MAt::Span(x.0, x.1)
}

/// an entry of a scripted parser
#[derive(Clone, Debug)]
pub struct Ent {
    pub res: SR,
    pub end: usize,
}
#[derive(Clone, Debug)]
pub enum Cont {
    One(char),
    Str(String),
    RefStr(String),
    Vec(Vec<char>),
    RefVec(Vec<char>),
    Slice(Vec<char>),
    Arr3([char; 3]),
    RefArr2([char; 2]),
}
impl Cont {
    pub fn elems(&self) -> Vec<char> {
        match self {
            Cont::One(c) => vec![*c],
            Cont::Str(s) | Cont::RefStr(s) => s.chars().collect(),
            Cont::Vec(v) | Cont::RefVec(v) | Cont::Slice(v) => v.clone(),
            Cont::Arr3(a) => a.to_vec(),
            Cont::RefArr2(a) => a.to_vec(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum G {
    Stub(u8, Rc<Vec<(Ent, Ent)>>, usize),
    Empty,
    None_,
    End,
    Just(char),
    Filter(Vec<char>),
    FilterMap(Vec<char>),
    Seq(Cont),
    OneOf(Cont),
    NoneOf(Cont),
    To(Box<G>),
    Ignored(Box<G>),
    Some_(Box<G>),
    Map(Box<G>),
    MapSpan(Box<G>),
    MapErr(Box<G>),
    MapErrSpan(Box<G>),
    TryMap(u8, Box<G>),
    Then(Box<G>, Box<G>),
    ThenIgnore(Box<G>, Box<G>),
    IgnoreThen(Box<G>, Box<G>),
    Delim(Box<G>, Box<G>, Box<G>),
    Pad(Box<G>, Box<G>),
    Chain(Vec<G>),
    Or(Box<G>, Box<G>),
    OrNot(Box<G>),
    Alters(Vec<G>),
    Rep { item: Box<G>, sep: Option<Box<G>>, min: usize, max: Option<usize>, lead: bool, trail: bool, how: u8 },
    ToRec(Box<G>, Strat),
    Boxed(Box<G>),
    WithErr(Box<G>),
    Cloned(Box<G>),
    /// recursive parser; `Var` inside refers to it
    Fix(u8, Box<G>),
    Var,
}

#[derive(Clone, Debug)]
pub enum Step {
    /// scripted step (position, failed, errors added, output)
    Stub { to: usize, failed: Option<usize>, errs: Vec<ME>, out: Option<V> },
    Restart,
    SeekToFailed,
    Skip,
    SkipIf(Vec<char>),
    Find(Vec<char>),
    ScanStub(Vec<char>),
    ScanNested(usize),
    Maybe(Vec<Step>),
    WhileNot(Vec<char>, Vec<Step>),
    Retry(bool, bool),
    TryParse(Box<G>, bool, bool),
    Push,
    PushHere,
    PushUpTo,
    PushTok,
    Upd(u8),
    UpdHere(u8),
    UpdUpTo(u8),
    UpdTok(u8),
    Nothing,
    Boxed,
}
#[derive(Clone, Debug)]
pub enum Fin {
    Return,
    ReturnWith,
    ReturnSpan,
    Fail,
}
#[derive(Clone, Debug)]
pub struct Strat {
    pub steps: Vec<Step>,
    pub fin: Fin,
}
/// state a strategy works on
#[derive(Clone, Debug)]
pub struct RSt {
    pub pos: usize,
    pub started: usize,
    pub failed: usize,
    pub errs: Vec<ME>,
}

pub static TABLES: &[&[(char, char)]] = &[
    &[('(', ')'), ('[', ']')],
    &[('|', '|'), ('(', ')')],
    &[('(', ')'), ('[', ']'), ('{', '}')],
    &[('(', ')'), ('|', '|'), ('[', ']')],
    &[('(', '['), ('[', ')')],
    &[('(', ')'), ('(', ']')],
    &[('(', ')')],
    &[],
];

pub fn decide(n: u8, v: &V) -> u8 {
    let mut h = n as u64 + 77;
    for b in format!("{:?}", v).bytes() {
        h = mix(h, b as u64);
    }
    (h % 4) as u8 // 0,1 Ok; 2 Err; 3 Recovered
}
pub fn spanv<E: HE>(ctx: &Ctx, v: V, i: usize, j: usize) -> V {
    V::M(E::span_m(ctx, i, j), Box::new(v))
}
pub fn sel2(k: u8, a: V, b: V) -> V {
    match k {
        0 => V::P(Box::new(a), Box::new(b)),
        1 => a,
        _ => b,
    }
}

/// C05, C03: run the parts in order
fn seqn<E: HE>(ctx: &Ctx, parts: &[&G], env: &Vec<G>, p: usize, rec: bool) -> Result<(Vec<V>, Option<Vec<ME>>, usize), Res> {
    let mut q = p;
    let mut out = vec![];
    let mut errs: Option<Vec<ME>> = None;
    for g in parts {
        let (r, e) = sem::<E>(ctx, g, env, q, rec);
        match r {
            SR::Ok(v) => out.push(v),
            SR::Rec(v, es) => {
                out.push(v);
                errs.get_or_insert(vec![]).extend(es);
            }
            SR::Fail(i, es) => return Err((SR::Fail(i, es), p)),
        }
        q = e;
    }
    Ok((out, errs, q))
}
fn fin(v: V, errs: Option<Vec<ME>>, q: usize) -> Res {
    (match errs { None => SR::Ok(v), Some(es) => SR::Rec(v, es) }, q)
}
fn choice<E: HE>(ctx: &Ctx, alts: &[&G], env: &Vec<G>, p: usize, rec: bool) -> Res {
    let mut fails: Vec<(usize, Vec<ME>)> = vec![];
    for g in alts {
        match sem::<E>(ctx, g, env, p, false) {
            (SR::Ok(v), q) => return (SR::Ok(v), q),
            (SR::Fail(i, es), _) => fails.push((i, es)),
            x => panic!("stub recovered with recovery off: {:?}", x),
        }
    }
    let mut order: Vec<usize> = (0..alts.len()).collect();
    // selection of the largest, ties in the order given
    let mut ord = vec![];
    while !order.is_empty() {
        let mut b = 0;
        for k in 1..order.len() {
            if fails[order[k]].0 > fails[order[b]].0 {
                b = k;
            }
        }
        ord.push(order.remove(b));
    }
    if rec {
        for k in &ord {
            if let (SR::Rec(v, es), q) = sem::<E>(ctx, alts[*k], env, p, true) {
                return (SR::Rec(v, es), q);
            }
        }
    }
    let (i, mut es) = fails[ord[0]].clone();
    if es.len() == 1 && E::EF {
        if let ME::Ef { exp, at, merged, .. } = &mut es[0] {
            for k in &ord[1..] {
                for e2 in &fails[*k].1 {
                    if let ME::Ef { exp: exp2, at: at2, .. } = e2 {
                        if at2 == at {
                            exp.extend(exp2.iter().cloned());
                            merged.push(e2.clone());
                        }
                    }
                }
            }
        }
    }
    (SR::Fail(i, es), p)
}
fn miss(ctx: &Ctx, exp: Vec<Option<char>>, q: usize, p: usize) -> Res {
    (SR::Fail(q, vec![ME::Ef { exp, found: ctx.tok(q), at: sp(ctx.tspan(q)), merged: vec![] }]), p)
}
pub fn sem<E: HE>(ctx: &Ctx, g: &G, env: &Vec<G>, p: usize, rec: bool) -> Res {
    let s = |g: &G| sem::<E>(ctx, g, env, p, rec);
    match g {
        G::Stub(_, t, _) => {
            let e = if rec { &t[p].1 } else { &t[p].0 };
            (e.res.clone(), e.end)
        }
        G::Empty => (SR::Ok(V::Unit), p),
        G::None_ => (SR::Ok(V::O(None)), p),
        G::End => match ctx.tok(p) {
            None => (SR::Ok(V::Unit), p),
            t => (SR::Fail(p, vec![ME::Ef { exp: vec![None], found: t, at: MAt::Loc(p), merged: vec![] }]), p),
        },
        G::Just(c) => {
            if ctx.tok(p) == Some(*c) {
                (SR::Ok(V::T(*c)), p + 1)
            } else {
                miss(ctx, vec![Some(*c)], p, p)
            }
        }
        G::Filter(cs) => match ctx.tok(p) {
            Some(c) if cs.contains(&c) => (SR::Ok(V::T(c)), p + 1),
            _ => miss(ctx, vec![], p, p),
        },
        G::FilterMap(cs) => match ctx.tok(p) {
            Some(c) if cs.contains(&c) => (SR::Ok(V::S(format!("fm{c}"))), p + 1),
            _ => miss(ctx, vec![], p, p),
        },
        G::Seq(k) => {
            for (i, c) in k.elems().iter().enumerate() {
                if ctx.tok(p + i) != Some(*c) {
                    return miss(ctx, vec![Some(*c)], p + i, p);
                }
            }
            (SR::Ok(V::S(format!("{:?}", k))), p + k.elems().len())
        }
        G::OneOf(k) => match ctx.tok(p) {
            Some(c) if k.elems().contains(&c) => (SR::Ok(V::T(c)), p + 1),
            _ => miss(ctx, k.elems().into_iter().map(Some).collect(), p, p),
        },
        G::NoneOf(k) => match ctx.tok(p) {
            Some(c) if !k.elems().contains(&c) => (SR::Ok(V::T(c)), p + 1),
            Some(_) => miss(ctx, vec![], p, p),
            None => (SR::Fail(p, vec![ME::Ef { exp: vec![], found: None, at: MAt::Loc(p), merged: vec![] }]), p),
        },
        G::To(c) => mapv(s(c), |_| V::S("to".into())),
        G::Ignored(c) => mapv(s(c), |_| V::Unit),
        G::Some_(c) => mapv(s(c), |v| V::O(Some(Box::new(v)))),
        G::Map(c) => mapv(s(c), |v| V::M("map".into(), Box::new(v))),
        G::MapSpan(c) => {
            let r = s(c);
            let q = r.1;
            mapv(r, |v| spanv::<E>(ctx, v, p, q))
        }
        G::MapErr(c) => mape(s(c), |e| ME::Cust(format!("me:{}", canon_me::<E>(ctx, &e)), MAt::No)),
        G::MapErrSpan(c) => {
            let r = s(c);
            let q = r.1;
            mape(r, |e| ME::Cust(format!("mes:{}:{}", canon_me::<E>(ctx, &e), E::span_m(ctx, p, q)), MAt::No))
        }
        G::TryMap(n, c) => {
            let (r, q) = s(c);
            let (v, es0) = match r {
                SR::Ok(v) => (v, None),
                SR::Rec(v, es) => (v, Some(es)),
                SR::Fail(i, es) => return (SR::Fail(i, es), p),
            };
            let e1 = |k: &str| ME::Cust(format!("try{k}:{}", E::span_m(ctx, p, q)), MAt::No);
            match decide(*n, &v) {
                0 | 1 => {
                    let v = spanv::<E>(ctx, v, p, q);
                    (match es0 { None => SR::Ok(v), Some(es) => SR::Rec(v, es) }, q)
                }
                2 => {
                    let mut es = es0.unwrap_or_default();
                    es.push(e1("E1"));
                    es.push(e1("E2"));
                    (SR::Fail(p, es), p)
                }
                _ => {
                    let v = spanv::<E>(ctx, v, p, q);
                    let mut es = es0.unwrap_or_default();
                    es.push(e1("R"));
                    if rec { (SR::Rec(v, es), q) } else { (SR::Fail(p, es), p) }
                }
            }
        }
        G::Then(a, b) => match seqn::<E>(ctx, &[a, b], env, p, rec) {
            Ok((o, es, q)) => fin(sel2(0, o[0].clone(), o[1].clone()), es, q),
            Err(r) => r,
        },
        G::ThenIgnore(a, b) => match seqn::<E>(ctx, &[a, b], env, p, rec) {
            Ok((o, es, q)) => fin(o[0].clone(), es, q),
            Err(r) => r,
        },
        G::IgnoreThen(a, b) => match seqn::<E>(ctx, &[a, b], env, p, rec) {
            Ok((o, es, q)) => fin(o[1].clone(), es, q),
            Err(r) => r,
        },
        G::Delim(a, b, c) => match seqn::<E>(ctx, &[a, b, c], env, p, rec) {
            Ok((o, es, q)) => fin(o[1].clone(), es, q),
            Err(r) => r,
        },
        G::Pad(a, b) => match seqn::<E>(ctx, &[a, b, a], env, p, rec) {
            Ok((o, es, q)) => fin(o[1].clone(), es, q),
            Err(r) => r,
        },
        G::Chain(gs) => match seqn::<E>(ctx, &gs.iter().collect::<Vec<_>>(), env, p, rec) {
            Ok((o, es, q)) => fin(V::L(o), es, q),
            Err(r) => r,
        },
        G::Or(a, b) => choice::<E>(ctx, &[a, b], env, p, rec),
        G::Alters(gs) => choice::<E>(ctx, &gs.iter().collect::<Vec<_>>(), env, p, rec),
        G::OrNot(c) => {
            let some = G::Some_(c.clone());
            choice::<E>(ctx, &[&some, &G::None_], env, p, rec)
        }
        G::Rep { item, sep, min, max, lead, trail, .. } => rep::<E>(ctx, item, sep.as_deref(), *min, *max, *lead, *trail, env, p, rec),
        G::ToRec(c, st) => {
            let (r, q) = s(c);
            match r {
                SR::Fail(i, es) if rec => {
                    let mut st0 = RSt { pos: p, started: p, failed: i, errs: es };
                    match strat::<E>(ctx, c, st, env, &mut st0) {
                        Some(v) => (SR::Rec(v, st0.errs), st0.pos),
                        None => (SR::Fail(i, st0.errs), p),
                    }
                }
                r => (r, q),
            }
        }
        G::Boxed(c) | G::WithErr(c) | G::Cloned(c) => s(c),
        G::Fix(_, c) => {
            let mut env2 = env.clone();
            env2.push(g.clone());
            let _ = c;
            sem::<E>(ctx, c, &env2, p, rec)
        }
        G::Var => {
            let mut env2 = env.clone();
            let g = env2.pop().unwrap();
            sem::<E>(ctx, &g, &env2, p, rec)
        }
    }
}
fn mapv(r: Res, f: impl FnOnce(V) -> V) -> Res {
    (match r.0 { SR::Ok(v) => SR::Ok(f(v)), SR::Rec(v, es) => SR::Rec(f(v), es), x => x }, r.1)
}
fn mape(r: Res, f: impl Fn(ME) -> ME) -> Res {
    (match r.0 {
        SR::Ok(v) => SR::Ok(v),
        SR::Rec(v, es) => SR::Rec(v, es.into_iter().map(f).collect()),
        SR::Fail(i, es) => SR::Fail(i, es.into_iter().map(f).collect()),
    }, r.1)
}
/// C08, C09
fn rep<E: HE>(ctx: &Ctx, item: &G, sep: Option<&G>, min: usize, max: Option<usize>, lead: bool, trail: bool, env: &Vec<G>, p: usize, rec: bool) -> Res {
    let mx = max.unwrap_or(usize::MAX);
    let mut out: Vec<V> = vec![];
    let mut errs: Option<Vec<ME>> = None;
    let mut q = p; // behind everything accepted so far
    loop {
        let n = out.len();
        let enough = n >= min;
        if n >= mx && !(trail && sep.is_some()) {
            break;
        }
        let mut r = q; // behind the separator
        if let Some(s) = sep {
            if n > 0 || lead {
                // a leading separator is optional, thus never recovered
                match sem::<E>(ctx, s, env, q, rec && !enough && n > 0) {
                    (SR::Ok(_), e) => r = e,
                    (SR::Rec(_, es), e) => {
                        errs.get_or_insert(vec![]).extend(es);
                        r = e;
                    }
                    (SR::Fail(i, es), _) => {
                        if n > 0 {
                            if enough {
                                break;
                            }
                            return (SR::Fail(i, es), p);
                        }
                    }
                }
            }
        }
        if n >= mx {
            q = r;
            break;
        }
        match sem::<E>(ctx, item, env, r, rec && !enough) {
            (SR::Ok(v), e) => {
                out.push(v);
                q = e;
            }
            (SR::Rec(v, es), e) => {
                out.push(v);
                errs.get_or_insert(vec![]).extend(es);
                q = e;
            }
            (SR::Fail(i, es), _) => {
                if enough {
                    if trail || n == 0 {
                        q = r;
                    }
                    break;
                }
                return (SR::Fail(i, es), p);
            }
        }
    }
    fin(V::L(out), errs, q)
}

// ------------------------------------------------------------- recovery
fn upd_n<E: HE>(k: u8, errs: &mut Vec<ME>, tag: String) {
    match k {
        0 => errs.push(ME::Cust(tag, MAt::No)),
        1 => errs.insert(0, ME::Cust(tag, MAt::No)),
        2 => errs.reverse(),
        _ => errs.clear(),
    }
    let _ = std::marker::PhantomData::<E>;
}
pub fn strat<E: HE>(ctx: &Ctx, child: &G, s: &Strat, env: &Vec<G>, st: &mut RSt) -> Option<V> {
    if let Some(v) = steps::<E>(ctx, child, &s.steps, env, st) {
        return Some(v);
    }
    match s.fin {
        Fin::Return => Some(V::S("ret".into())),
        Fin::ReturnWith => Some(V::S("retw".into())),
        Fin::ReturnSpan => Some(V::S(E::span_m(ctx, st.started, st.pos))),
        Fin::Fail => None,
    }
}
pub fn steps<E: HE>(ctx: &Ctx, child: &G, ss: &[Step], env: &Vec<G>, st: &mut RSt) -> Option<V> {
    for s in ss {
        if let Some(v) = step::<E>(ctx, child, s, env, st) {
            return Some(v);
        }
    }
    None
}
fn parse_step<E: HE>(ctx: &Ctx, g: &G, exact: bool, silent: bool, env: &Vec<G>, st: &mut RSt) -> Option<V> {
    let (r, q) = sem::<E>(ctx, g, env, st.pos, !exact);
    match r {
        SR::Ok(v) => {
            st.pos = q;
            Some(v)
        }
        SR::Rec(v, es) => {
            if !silent {
                st.errs.extend(es);
            }
            st.pos = q;
            Some(v)
        }
        SR::Fail(i, es) => {
            if !silent {
                st.errs.extend(es);
            }
            st.failed = i;
            None
        }
    }
}
pub fn step<E: HE>(ctx: &Ctx, child: &G, s: &Step, env: &Vec<G>, st: &mut RSt) -> Option<V> {
    match s {
        Step::Stub { to, failed, errs, out } => {
            if *to >= st.started {
                st.pos = *to;
            }
            if let Some(f) = failed {
                if *f >= st.started {
                    st.failed = *f;
                }
            }
            st.errs.extend(errs.iter().cloned());
            out.clone()
        }
        Step::Restart => {
            st.pos = st.started;
            None
        }
        Step::SeekToFailed => {
            st.pos = st.failed;
            None
        }
        Step::Skip => {
            st.pos = (st.pos + 1).min(ctx.len());
            None
        }
        Step::SkipIf(cs) => {
            if let Some(c) = ctx.tok(st.pos) {
                if cs.contains(&c) {
                    st.pos += 1;
                }
            }
            None
        }
        Step::Find(cs) => {
            while st.pos < ctx.len() && !cs.contains(&ctx.toks[st.pos]) {
                st.pos += 1;
            }
            None
        }
        Step::ScanStub(cs) => {
            let mut k = 0;
            loop {
                match ctx.tok(st.pos) {
                    None => {
                        st.errs.push(ME::Cust(format!("eof{k}"), MAt::Loc(st.pos)));
                        break;
                    }
                    Some(c) => {
                        st.errs.push(ME::Cust(format!("scan{k}{c}"), sp(ctx.tspan(st.pos))));
                        k += 1;
                        if cs.contains(&c) {
                            break;
                        }
                        st.pos += 1;
                    }
                }
            }
            None
        }
        Step::ScanNested(t) => {
            let mut stack = vec![];
            loop {
                match ctx.tok(st.pos) {
                    None => {
                        nested_eof(&mut stack, st.pos, &mut st.errs);
                        break;
                    }
                    Some(c) => {
                        if nested_scan(TABLES[*t], &mut stack, c, ctx.tspan(st.pos), &mut st.errs) {
                            break;
                        }
                        st.pos += 1;
                    }
                }
            }
            None
        }
        Step::Maybe(ss) => {
            let p = st.pos;
            let r = steps::<E>(ctx, child, ss, env, st);
            if r.is_none() {
                st.pos = p;
            }
            r
        }
        Step::WhileNot(cs, ss) => {
            while st.pos < ctx.len() && !cs.contains(&ctx.toks[st.pos]) {
                if let Some(v) = steps::<E>(ctx, child, ss, env, st) {
                    return Some(v);
                }
                st.pos = (st.pos + 1).min(ctx.len());
            }
            None
        }
        Step::Retry(exact, silent) => parse_step::<E>(ctx, child, *exact, *silent, env, st),
        Step::TryParse(g, exact, silent) => parse_step::<E>(ctx, g, *exact, *silent, env, st),
        Step::Push => {
            st.errs.push(ME::Cust("push".into(), MAt::No));
            None
        }
        Step::PushHere => {
            st.errs.push(ME::Cust("here".into(), MAt::Loc(st.pos)));
            None
        }
        Step::PushUpTo => {
            st.errs.push(ME::Cust("upto".into(), MAt::Span(st.started, st.pos)));
            None
        }
        Step::PushTok => {
            st.errs.push(ME::Cust(format!("tok{:?}", ctx.tok(st.pos)), sp(ctx.tspan(st.pos))));
            None
        }
        Step::Upd(k) => {
            upd_n::<E>(*k, &mut st.errs, "upd".into());
            None
        }
        Step::UpdHere(k) => {
            upd_n::<E>(*k, &mut st.errs, E::loc_m(ctx, st.pos));
            None
        }
        Step::UpdUpTo(k) => {
            upd_n::<E>(*k, &mut st.errs, E::span_m(ctx, st.started, st.pos));
            None
        }
        Step::UpdTok(k) => {
            let t = ctx.tspan(st.pos);
            upd_n::<E>(*k, &mut st.errs, format!("{:?}{}", ctx.tok(st.pos), E::span_m(ctx, t.0, t.1)));
            None
        }
        Step::Nothing | Step::Boxed => None,
    }
}
/// C18. The stack holds (pair, token, span).
pub fn nested_scan(types: &[(char, char)], stack: &mut Vec<(usize, char, (usize, usize))>, tok: char, span: (usize, usize), errs: &mut Vec<ME>) -> bool {
    let closes_top = stack.last().map_or(false, |t| types[t.0].1 == tok);
    if closes_top {
        stack.pop();
    } else if let Some(i) = types.iter().position(|t| t.0 == tok) {
        stack.push((i, tok, span));
    } else if let Some(i) = types.iter().position(|t| t.1 == tok) {
        if let Some(k) = stack.iter().rposition(|t| t.0 == i) {
            while stack.len() > k + 1 {
                let (_, t, s) = stack.pop().unwrap();
                errs.push(ME::Ul(t, s, sp(span)));
            }
            stack.pop();
        } else if let Some((_, t, s)) = stack.pop() {
            errs.push(ME::Ut(t, s, tok, span));
        } else {
            errs.push(ME::Ur(tok, span, MAt::No));
        }
    }
    stack.is_empty()
}
pub fn nested_eof(stack: &mut Vec<(usize, char, (usize, usize))>, p: usize, errs: &mut Vec<ME>) {
    while let Some((_, t, s)) = stack.pop() {
        errs.push(ME::Ul(t, s, MAt::Loc(p)));
    }
}
