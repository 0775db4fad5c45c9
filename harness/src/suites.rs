//! One function per kind of case: runs the crate and the oracle on the same
//! random case and lists the differences, each with the properties it breaks.
use crate::build::*;
use crate::errs::*;
use crate::gen;
use crate::model::*;
use crate::rng::*;
use parse_proof_of_concept::parser::{Parser, Result as PR};
use parse_proof_of_concept::recovery::Recover;
use parse_proof_of_concept::stream::{SavedState, Stream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Debug)]
pub struct Diff {
    pub props: Vec<&'static str>,
    pub what: String,
}
pub type Diffs = Vec<Diff>;
pub fn diff(ds: &mut Diffs, props: &[&'static str], what: String) {
    if !props.is_empty() {
        ds.push(Diff { props: props.to_vec(), what });
    }
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
    })
}

/// what a run of a parser looks like from outside
#[derive(Clone, Debug)]
pub struct Obs {
    pub kind: u8,
    pub val: Option<V>,
    pub errs: Vec<String>,
    pub idx: usize,
    pub pos: usize,
    /// location, token and rest read from the stream afterwards
    pub loc: String,
    pub rest: Vec<char>,
    /// another saved position, still held, restored afterwards: index, rest
    pub held: Option<(usize, usize, Vec<char>)>,
}
pub fn obs<E: HE>(ctx: &Ctx, p: &HP<E>, start: usize, rec: bool, hold: bool, peek: bool) -> Obs {
    let mut s: St<E> = E::mkstream(ctx);
    let mut held = None;
    for k in 0..start {
        if hold && k == start / 2 {
            held = Some(s.save());
        }
        s.advance();
    }
    if peek {
        let _ = s.token();
    }
    let r = p.parse_internal(&mut s, rec);
    let c = |es: &Vec<E>| es.iter().map(|e| e.canon()).collect::<Vec<_>>();
    let (kind, val, errs, idx) = match &r {
        PR::Success(v) => (0, Some(v.clone()), vec![], 0),
        PR::Recovered(v, es) => (1, Some(v.clone()), c(es), 0),
        PR::Failed(i, es) => (2, None, c(es), *i),
    };
    let pos = s.index();
    let loc = E::lcanon(&s.location());
    let drain = |s: &mut St<E>| {
        let mut v = vec![];
        while let Some(t) = s.token() {
            v.push(*t);
            s.advance();
            if v.len() > ctx.len() + 5 {
                break;
            }
        }
        v
    };
    let rest = drain(&mut s);
    let held = held.map(|h| {
        let want = start / 2;
        s.restore(&h);
        (want, s.index(), drain(&mut s))
    });
    Obs { kind, val, errs, idx, pos, loc, rest, held }
}
const KIND: [&str; 3] = ["Success", "Recovered", "Failed"];

/// properties a wrong kind / output / recovered errors / failure errors /
/// failure index / end position of a combinator is about
pub struct Sem {
    kind: &'static [&'static str],
    val: &'static [&'static str],
    err: &'static [&'static str],
    erf: &'static [&'static str],
    idx: &'static [&'static str],
    pos: &'static [&'static str],
}
pub fn sem_of(g: &G) -> Sem {
    let s = |kind, val, err, erf, idx, pos| Sem { kind, val, err, erf, idx, pos };
    match g {
        G::Stub(..) | G::Var => s(&[], &[], &[], &[], &[], &[]),
        G::Empty | G::None_ | G::End | G::Just(_) | G::Filter(_) | G::FilterMap(_) | G::Seq(_) | G::OneOf(_) | G::NoneOf(_) => {
            s(&["C14"], &["C14"], &["C14"], &["C14"], &["C14"], &["C14"])
        }
        G::To(_) | G::Ignored(_) | G::Map(_) | G::Some_(_) => s(&["C21"], &["C21"], &["C03"], &["C21"], &["C21"], &["C21"]),
        G::MapSpan(_) => s(&["C21"], &["C13"], &["C03"], &["C21"], &["C21"], &["C21"]),
        G::MapErr(_) => s(&["C21"], &["C21"], &["C21"], &["C21"], &["C21"], &["C21"]),
        G::MapErrSpan(_) => s(&["C21"], &["C21"], &["C13"], &["C13"], &["C21"], &["C21"]),
        G::TryMap(..) => s(&["C21"], &["C13"], &["C03", "C13"], &["C03", "C13"], &["C21"], &["C21"]),
        G::Then(..) | G::ThenIgnore(..) | G::IgnoreThen(..) | G::Delim(..) | G::Pad(..) | G::Chain(_) => {
            s(&["C05"], &["C05"], &["C03"], &["C05"], &["C05"], &["C05"])
        }
        G::Or(..) | G::OrNot(_) | G::Alters(_) => s(&["C06"], &["C06"], &["C06"], &["C07"], &["C07"], &["C06"]),
        G::Rep { sep, .. } => {
            if sep.is_some() {
                s(&["C08", "C09"], &["C08", "C09"], &["C03"], &["C08"], &["C08"], &["C09"])
            } else {
                s(&["C08"], &["C08"], &["C03"], &["C08"], &["C08"], &["C08", "C09"])
            }
        }
        G::ToRec(..) => s(&["C15"], &["C15"], &["C15"], &["C15"], &["C15"], &["C15"]),
        G::Boxed(_) | G::WithErr(_) | G::Cloned(_) | G::Fix(..) => s(&["C24"], &["C24"], &["C24"], &["C24"], &["C24"], &["C24"]),
    }
}
/// compares a run with the oracle
pub fn compare<E: HE>(ctx: &Ctx, m: &Sem, start: usize, o: &Obs, want: &Res, ds: &mut Diffs) {
    let c = |es: &Vec<ME>| es.iter().map(|e| canon_me::<E>(ctx, e)).collect::<Vec<_>>();
    let (kind, val, errs, idx) = match &want.0 {
        SR::Ok(v) => (0u8, Some(v.clone()), vec![], 0),
        SR::Rec(v, es) => (1, Some(v.clone()), c(es), 0),
        SR::Fail(i, es) => (2, None, c(es), *i),
    };
    let _ = start;
    if o.kind != kind {
        let mut props = m.kind.to_vec();
        if o.kind < 2 && kind < 2 {
            // clean success although a part recovered, or the reverse
            props.extend(m.err);
        }
        diff(ds, &props, format!("result is {} {:?} {:?}, expected {} {:?} {:?}", KIND[o.kind as usize], o.val, o.errs, KIND[kind as usize], val, errs));
        if (o.kind == 2) != (kind == 2) {
            return;
        }
    } else if o.errs != errs {
        diff(ds, if kind == 2 { m.erf } else { m.err }, format!("errors are {:?}, expected {:?}", o.errs, errs));
    }
    if o.val != val {
        diff(ds, m.val, format!("output is {:?}, expected {:?}", o.val, val));
    }
    if o.idx != idx {
        diff(ds, m.idx, format!("failure index is {}, expected {}", o.idx, idx));
    }
    if kind < 2 && o.pos != want.1 {
        diff(ds, m.pos, format!("end position is {}, expected {}", o.pos, want.1));
    }
}
/// what holds of every parser at every position
pub fn universal<E: HE>(ctx: &Ctx, start: usize, f: &Obs, t: &Obs, ds: &mut Diffs) {
    for (rec, o) in [(false, f), (true, t)] {
        if o.kind == 2 && o.pos != start {
            diff(ds, &["C01"], format!("recovery={rec}: failed at start position {start}, but the stream is left at {}", o.pos));
        }
        if o.kind == 2 && o.pos == start && (o.rest != ctx.toks[start..] || o.loc != E::loc_m(ctx, start)) {
            diff(ds, &["C01"], format!("recovery={rec}: after failing at {start} the stream reads {:?} at {}", o.rest, o.loc));
        }
        if !rec && o.kind == 1 {
            diff(ds, &["C02"], "recovered although recovery is disabled".into());
        }
        if o.kind != 0 && o.errs.is_empty() {
            diff(ds, &["C02"], format!("recovery={rec}: {} without errors", KIND[o.kind as usize]));
        }
        if o.kind == 2 && !(start <= o.idx && o.idx <= ctx.len()) {
            diff(ds, &["C19"], format!("recovery={rec}: failure index {} is outside {start}..={}", o.idx, ctx.len()));
        }
        if o.pos <= ctx.len() && (o.rest != ctx.toks[o.pos..] || o.loc != E::loc_m(ctx, o.pos)) {
            diff(ds, &["C10"], format!("recovery={rec}: at {} the stream reads {:?} at {}", o.pos, o.rest, o.loc));
        }
        if let Some((want, got, rest)) = &o.held {
            if want != got || rest != &ctx.toks[*want..] {
                diff(ds, &["C11"], format!("recovery={rec}: restoring a position held at {want} leads to {got}, rest {:?}", rest));
            }
        }
    }
    if (f.kind == 0) != (t.kind == 0) || (f.kind == 0 && (f.val != t.val || f.pos != t.pos)) {
        diff(ds, &["C04"], format!("without recovery: {} {:?} up to {}; with recovery: {} {:?} up to {}", KIND[f.kind as usize], f.val, f.pos, KIND[t.kind as usize], t.val, t.pos));
    }
}
/// runs grammar `g` in both modes and compares
pub fn run_both<E: HE + NestedScan>(r: &mut Rng, ctx: &Rc<Ctx>, g: &G, start: usize, m: &Sem, extra_panic: &[&'static str], ds: &mut Diffs) {
    let p = match catch(|| build::<E>(ctx, g, &vec![])) {
        Ok(p) => p,
        Err(e) => {
            diff(ds, &["C23"], format!("panic while building: {e}"));
            return;
        }
    };
    let (hold, peek) = (r.p(1, 3), r.p(1, 2));
    let mut os = vec![];
    for rec in [false, true] {
        match catch(|| obs::<E>(ctx, &p, start, rec, hold, peek)) {
            Ok(o) => os.push(o),
            Err(e) => {
                let mut ps = vec!["C23"];
                ps.extend(extra_panic);
                diff(ds, &ps, format!("recovery={rec}: panic: {e}"));
            }
        }
    }
    if os.len() < 2 {
        return;
    }
    universal::<E>(ctx, start, &os[0], &os[1], ds);
    for (k, rec) in [false, true].into_iter().enumerate() {
        let mut d = vec![];
        compare::<E>(ctx, m, start, &os[k], &sem::<E>(ctx, g, &vec![], start, rec), &mut d);
        for x in d {
            ds.push(Diff { props: x.props, what: format!("recovery={rec}: {}", x.what) });
        }
    }
}
pub static DESCRIBE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
pub fn describe<E: HE>(ctx: &Ctx, start: usize, g: &dyn std::fmt::Debug) -> String {
    if !DESCRIBE.load(std::sync::atomic::Ordering::Relaxed) {
        return String::new();
    }
    format!("error type {}; tokens {:?}; start location after {:?}; start position {}; {:#?}", E::NAME, ctx.toks, ctx.pre, start, g)
}

/// a primitive
pub fn prim_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    let ctx = gen::ctx_or_long(r, 12, 40);
    let k = r.n(gen::NPRIM);
    let g = gen::prim(r, &ctx, k);
    let start = r.n(ctx.len() + 1);
    run_both::<E>(r, &ctx, &g, start, &sem_of(&g), &["C14"], ds);
    describe::<E>(&ctx, start, &g)
}
/// one combinator over scripted parts
pub fn comb_case<E: HE + NestedScan>(r: &mut Rng, which: &str, ds: &mut Diffs) -> String {
    let ctx = gen::ctx_or_long(r, 30, match which { "Rep" | "Sep" => 40, "Chain" | "Alters" => 200, _ => 400 });
    let g = {
        let c2 = ctx.clone();
        let mut n = 0;
        gen::comb(r, &ctx, which, &mut |r, id, eat| {
            n += 1;
            gen::stub(r, &c2, id.wrapping_add(n), eat)
        })
    };
    let start = if r.p(1, 2) { 0 } else { r.n(ctx.len() + 1) };
    let m = sem_of(&g);
    let kp: Vec<&'static str> = m.kind.to_vec();
    run_both::<E>(r, &ctx, &g, start, &m, &kp, ds);
    describe::<E>(&ctx, start, &g)
}
/// nested grammar: only what every parser must satisfy
pub fn nested_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    let ctx = gen::ctx(r, 20);
    let d = 1 + r.n(4);
    let g = gen::grammar(r, &ctx, d, false);
    let start = if r.p(1, 2) { 0 } else { r.n(ctx.len() + 1) };
    let m = sem_of(&G::Var);
    run_both::<E>(r, &ctx, &g, start, &m, &[], ds);
    describe::<E>(&ctx, start, &g)
}
/// recursive grammar against its unrolling
pub fn fix_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    let ctx = gen::ctx(r, 12);
    let simple = r.p(1, 2);
    let g = if simple {
        let c2 = ctx.clone();
        G::Fix(r.n(3) as u8, Box::new(gen::stub(r, &c2, 1, false)))
    } else {
        gen::fix(r, &ctx)
    };
    let start = if r.p(1, 2) { 0 } else { r.n(ctx.len() + 1) };
    let m = sem_of(&g);
    run_both::<E>(r, &ctx, &g, start, &m, &["C24"], ds);
    describe::<E>(&ctx, start, &g)
}
/// declared but not defined, and defined twice
pub fn fix_panics(r: &mut Rng, ds: &mut Diffs) -> String {
    use parse_proof_of_concept::recursive::Recursive;
    let ctx = gen::ctx(r, 5);
    let x = catch(|| {
        let p = Recursive::<'static, char, V, SimpleE>::declare();
        let q = p.clone();
        obs::<SimpleE>(&ctx, &hp(q, |v| v), 0, true, false, false)
    });
    if x.is_ok() {
        diff(ds, &["C24"], "an undefined recursive parser gave a result".into());
    }
    "declare() without define()".into()
}

// -------------------------------------------------------------- recovery
fn seek<E: HE>(s: &mut St<E>, to: usize) {
    while s.index() < to {
        s.advance();
    }
}
fn step_props(s: &Step) -> (&'static [&'static str], &'static [&'static str]) {
    // (what a wrong position/output breaks, what wrong errors break)
    match s {
        Step::Restart | Step::SeekToFailed | Step::Skip | Step::SkipIf(_) | Step::Find(_) | Step::ScanStub(_) | Step::Maybe(_) | Step::WhileNot(..) => {
            (&["C16"], &["C16"])
        }
        Step::ScanNested(_) => (&["C16", "C18"], &["C16", "C18"]),
        Step::PushUpTo | Step::UpdUpTo(_) | Step::PushTok | Step::UpdTok(_) | Step::PushHere | Step::UpdHere(_) => (&["C17"], &["C17", "C13"]),
        Step::Boxed => (&["C16", "C17", "C24"], &["C16", "C17", "C24"]),
        _ => (&["C17"], &["C17"]),
    }
}
/// one step (behind a scripted one) on a random state
pub fn step_case<E: HE + NestedScan>(r: &mut Rng, which: &str, ds: &mut Diffs) -> String {
    let ctx = gen::ctx_or_long(r, 20, 60);
    let c2 = ctx.clone();
    let mut n = 20u8;
    let mut kid = |r: &mut Rng, _id: u8, eat: bool| {
        n += 1;
        gen::stub(r, &c2, n, eat)
    };
    let child = kid(r, 0, false);
    let st = gen::step_stub(r, &ctx, 0);
    let mut list = if r.p(2, 3) { vec![st] } else { vec![] };
    let fin = if which.is_empty() { Some(gen::fin(r)) } else { None };
    let mut which1 = which;
    if which == "chain" {
        list = gen::steps(r, &ctx, 1, false, &mut kid);
        which1 = *r.pick(gen::STEPS);
    }
    if fin.is_none() {
        if matches!(which1, "Maybe" | "WhileNot") && r.p(2, 3) {
            // scripted inner strategy
            let inner = vec![gen::step_stub(r, &ctx, 1)];
            let inner2 = vec![match &inner[0] {
                Step::Stub { errs, out, .. } => Step::Stub { to: 0, failed: None, errs: errs.clone(), out: out.clone() },
                _ => unreachable!(),
            }];
            list.push(if which1 == "Maybe" { Step::Maybe(inner) } else { Step::WhileNot(gen::chars(r, &ctx), inner2) });
        } else {
            let s = gen::step(r, &ctx, which1, 1, &mut kid);
            list.push(s);
        }
    }
    let started = r.n(ctx.len() + 1);
    let pos = started + r.n(ctx.len() - started + 1);
    let failed = started + r.n(ctx.len() - started + 1);
    let errs0 = if r.p(1, 4) { vec![] } else { gen::errs(r, &ctx, failed) };
    // the scripted WhileNot above must not go back
    let fwd = |s: &Step| -> Step {
        match s {
            Step::WhileNot(c, i) => Step::WhileNot(c.clone(), i.iter().map(|x| match x {
                Step::Stub { errs, out, .. } => Step::Stub { to: 0, failed: None, errs: errs.clone(), out: out.clone() },
                y => y.clone(),
            }).collect()),
            y => y.clone(),
        }
    };
    let list: Vec<Step> = list.iter().map(fwd).collect();
    // a stub with `to` 0 must not move: only possible when started > 0
    let started = if list.iter().any(|s| matches!(s, Step::WhileNot(..))) && started == 0 && ctx.len() > 0 { 1 } else { started };
    let list: Vec<Step> = if started == 0 { list.into_iter().filter(|s| !matches!(s, Step::WhileNot(..))).collect() } else { list };
    let (pos, failed) = (pos.max(started), failed.max(started));

    let mut want = RSt { pos, started, failed, errs: errs0.clone() };
    let steps_before = if list.is_empty() { 0 } else { list.len() - 1 };
    let mut w = steps::<E>(&ctx, &child, &list[..steps_before], &vec![], &mut want);
    let mut by_last = false;
    if w.is_none() && !list.is_empty() {
        by_last = true;
        w = step::<E>(&ctx, &child, &list[steps_before], &vec![], &mut want);
    }
    if let (Some(f), None) = (&fin, &w) {
        w = match f {
            Fin::Return => Some(V::S("ret".into())),
            Fin::ReturnWith => Some(V::S("retw".into())),
            Fin::ReturnSpan => Some(V::S(E::span_m(&ctx, want.started, want.pos))),
            Fin::Fail => None,
        };
    }
    let _ = by_last;
    let (pp, pe): (Vec<&'static str>, Vec<&'static str>) = if which == "chain" {
        (vec!["C16", "C17"], vec!["C16", "C17"])
    } else if fin.is_some() {
        (vec!["C17", "C13"], vec!["C17"])
    } else {
        let (a, b) = step_props(list.last().unwrap_or(&Step::Nothing));
        (a.to_vec(), b.to_vec())
    };
    let got = catch(|| {
        let p = build::<E>(&ctx, &child, &vec![]);
        let mut s = build_steps::<E>(&ctx, &list, &vec![]);
        if let Some(f) = &fin {
            s = build_fin::<E>(f, s, list.is_empty());
        }
        let mut st: St<E> = E::mkstream(&ctx);
        seek::<E>(&mut st, started);
        let a = st.save();
        seek::<E>(&mut st, failed);
        let mut f = st.save();
        st.restore(&a);
        seek::<E>(&mut st, pos);
        let mut es: Vec<E> = errs0.iter().map(|e| mk::<E>(&ctx, e)).collect();
        let o = s.recover(&p, &mut st, &a, &mut f, &mut es);
        let q = st.index();
        let fi = st.index_at(&f);
        st.restore(&f);
        let fi2 = st.index();
        (o, q, fi, fi2, es.iter().map(|e| e.canon()).collect::<Vec<_>>())
    });
    let d = format!(
        "{}; started at {started}, failed at {failed}, errors {:?}; parser {:?}; completing step {:?}",
        describe::<E>(&ctx, pos, &list),
        errs0,
        child,
        fin
    );
    match got {
        Err(e) => {
            let mut ps = vec!["C23"];
            ps.extend(&pp);
            diff(ds, &ps, format!("panic: {e}"));
        }
        Ok((o, q, fi, fi2, es)) => {
            if o != w {
                diff(ds, &pp, format!("output of the strategy is {:?}, expected {:?}", o, w));
            }
            if q != want.pos {
                diff(ds, &pp, format!("stream is at {q} afterwards, expected {}", want.pos));
            }
            if fi != want.failed || fi2 != want.failed {
                diff(ds, &pp, format!("failure position is {fi} (restored: {fi2}) afterwards, expected {}", want.failed));
            }
            let we: Vec<String> = want.errs.iter().map(|e| canon_me::<E>(&ctx, e)).collect();
            if es != we {
                diff(ds, &pe, format!("errors are {:?} afterwards, expected {:?}", es, we));
            }
        }
    }
    d
}
/// the nested delimiter scanner itself
pub fn nested_scan_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    let t = r.n(TABLES.len());
    let deep = r.p(1, 10);
    let n = if deep { r.n(120) } else { r.n(14) };
    let pool: Vec<char> = TABLES[t].iter().flat_map(|x| [x.0, x.1]).chain(['a']).collect();
    let left = 1 + r.n(9);
    let toks: Vec<char> = (0..n).map(|_| if deep && !TABLES[t].is_empty() && r.p(left, 10) { r.pick(TABLES[t]).0 } else { *r.pick(&pool) }).collect();
    let ctx = Ctx { toks: toks.clone(), pre: vec![] };
    let eof_at = if r.p(1, 2) { n } else { r.n(n + 1) };
    let mut want: Vec<String> = vec![];
    let mut stack = vec![];
    let mut es = vec![];
    for k in 0..eof_at {
        let b = nested_scan(TABLES[t], &mut stack, toks[k], (k, k + 1), &mut es);
        want.push(format!("{b} {:?}", es.iter().map(|e| canon_me::<E>(&ctx, e)).collect::<Vec<_>>()));
    }
    nested_eof(&mut stack, eof_at, &mut es);
    want.push(format!("{:?}", es.iter().map(|e| canon_me::<E>(&ctx, e)).collect::<Vec<_>>()));
    let got = catch(|| {
        let mut got: Vec<String> = vec![];
        let mut s = E::scan_new(t);
        let mut es: Vec<E> = vec![];
        for k in 0..eof_at {
            let b = s.scan(toks[k], E::mkspan(&ctx, k, k + 1), &mut es);
            got.push(format!("{b} {:?}", es.iter().map(|e| e.canon()).collect::<Vec<_>>()));
        }
        s.eof(E::mkloc(&ctx, eof_at), &mut es);
        got.push(format!("{:?}", es.iter().map(|e| e.canon()).collect::<Vec<_>>()));
        got
    });
    match got {
        Err(e) => diff(ds, &["C18", "C23"], format!("panic: {e}")),
        Ok(g) => {
            if let Some(k) = (0..want.len()).find(|k| g[*k] != want[*k]) {
                diff(ds, &["C18"], format!("after token {k}: scanner says {}, expected {}", g[k], want[k]));
            }
        }
    }
    format!("error type {}; table {:?}; tokens {:?}; end of input at {}", E::NAME, TABLES[t], toks, eof_at)
}

// ------------------------------------------------------------- streaming
pub fn streaming_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    let ctx = gen::ctx_or_long(r, 30, 20);
    let g = gen::stub(r, &ctx, 1, false);
    let nsteps = r.n(if ctx.len() >= gen::LONG { 160 } else { 5 });
    let mut want = vec![];
    let mut p = 0;
    for _ in 0..nsteps {
        if p == ctx.len() {
            want.push(None);
            continue;
        }
        let (res, q) = sem::<E>(&ctx, &g, &vec![], p, true);
        want.push(Some(render_sr::<E>(&ctx, &res)));
        p = q;
    }
    let rest = ctx.toks[p..].to_vec();
    let whole = sem::<E>(&ctx, &g, &vec![], 0, true).0;
    let c2 = ctx.clone();
    let got = catch(move || {
        let ctx = c2;
        let parser = build::<E>(&ctx, &g, &vec![]);
        let mut s = parser.stream_with_location(ctx.toks.clone(), E::start(&ctx));
        let mut got = vec![];
        for _ in 0..nsteps {
            got.push(s.next().map(|x| render::<E>(&x)));
        }
        let mut tail = s.tail();
        let mut rest = vec![];
        for _ in 0..ctx.len() + 3 {
            match tail.next() {
                Some(t) => rest.push(t),
                None => break,
            }
        }
        let ended = tail.next().is_none();
        let one = render::<E>(&parser.parse_with_recovery_and_location(ctx.toks.clone(), E::start(&ctx)));
        let std = parser.parse_with_location(ctx.toks.clone(), E::start(&ctx)).map_err(|e| e.canon());
        (got, rest, ended, one, std)
    });
    match got {
        Err(e) => diff(ds, &["C20", "C23"], format!("panic: {e}")),
        Ok((got, gr, ended, one, std)) => {
            if got != want {
                diff(ds, &["C20"], format!("streaming gives {:?}, expected {:?}", got, want));
            } else if gr != rest || !ended {
                diff(ds, &["C20"], format!("the tail is {:?}, expected {:?}", gr, rest));
            }
            if one != render_sr::<E>(&ctx, &whole) {
                diff(ds, &["C20"], format!("parsing in one go gives {one}, expected {}", render_sr::<E>(&ctx, &whole)));
            }
            let wstd = match &whole {
                SR::Ok(v) => Ok(v.clone()),
                SR::Rec(_, es) | SR::Fail(_, es) => Err(canon_me::<E>(&ctx, &es[0])),
            };
            if std != wstd {
                diff(ds, &["C20", "C21"], format!("parse gives {:?}, expected {:?}", std, wstd));
            }
        }
    }
    describe::<E>(&ctx, 0, &nsteps)
}
pub fn streaming_default(r: &mut Rng, ds: &mut Diffs) -> String {
    // the variants that start from the default location
    let mut ctx = gen::ctx(r, 20);
    Rc::get_mut(&mut ctx).unwrap().pre.clear();
    let g = gen::stub(r, &ctx, 1, false);
    let c2 = ctx.clone();
    let (g2, g3) = (g.clone(), g.clone());
    let got = catch(move || {
        let ctx = c2;
        let p = build::<SimpleE>(&ctx, &g2, &vec![]);
        let a = render::<SimpleE>(&p.parse_with_recovery(ctx.toks.clone()));
        let b = p.parse(ctx.toks.clone()).map_err(|e| e.canon());
        let mut s = p.stream(ctx.toks.clone());
        let c = s.next().map(|x| render::<SimpleE>(&x));
        (a, b, c)
    });
    let whole = sem::<SimpleE>(&ctx, &g3, &vec![], 0, true).0;
    let wr = render_sr::<SimpleE>(&ctx, &whole);
    let wstd = match &whole {
        SR::Ok(v) => Ok(v.clone()),
        SR::Rec(_, es) | SR::Fail(_, es) => Err(canon_me::<SimpleE>(&ctx, &es[0])),
    };
    match got {
        Err(e) => diff(ds, &["C20", "C23"], format!("panic: {e}")),
        Ok((a, b, c)) => {
            if a != wr {
                diff(ds, &["C20"], format!("parse_with_recovery gives {a}, expected {wr}"));
            }
            if b != wstd {
                diff(ds, &["C20", "C21"], format!("parse gives {:?}, expected {:?}", b, wstd));
            }
            let wc = if ctx.len() == 0 { None } else { Some(wr) };
            if c != wc {
                diff(ds, &["C20"], format!("stream gives {:?}, expected {:?}", c, wc));
            }
        }
    }
    describe::<SimpleE>(&ctx, 0, &g)
}
pub fn render<E: HE>(x: &PR<V, E>) -> String {
    let c = |es: &Vec<E>| es.iter().map(|e| e.canon()).collect::<Vec<_>>();
    match x {
        PR::Success(v) => format!("Success {:?}", v),
        PR::Recovered(v, es) => format!("Recovered {:?} {:?}", v, c(es)),
        PR::Failed(i, es) => format!("Failed {i} {:?}", c(es)),
    }
}
pub fn render_sr<E: HE>(ctx: &Ctx, x: &SR) -> String {
    let c = |es: &Vec<ME>| es.iter().map(|e| canon_me::<E>(ctx, e)).collect::<Vec<_>>();
    match x {
        SR::Ok(v) => format!("Success {:?}", v),
        SR::Rec(v, es) => format!("Recovered {:?} {:?}", v, c(es)),
        SR::Fail(i, es) => format!("Failed {i} {:?}", c(es)),
    }
}

// ---------------------------------------------------------------- results
pub fn result_case(r: &mut Rng, ds: &mut Diffs) -> String {
    type R = PR<u32, String>;
    let es = |r: &mut Rng| -> Vec<String> {
        let n = match r.n(12) {
            0 => r.n(50),
            1 | 2 => r.n(9),
            _ => r.n(4),
        };
        (0..n).map(|k| format!("e{}{}", k, r.n(9))).collect()
    };
    let make = |r: &mut Rng| -> R {
        let o = r.n(100) as u32;
        match r.n(3) {
            0 => PR::Success(o),
            1 => PR::Recovered(o, es(r)),
            _ => PR::Failed(if r.n(20) == 0 { usize::MAX - r.n(3) } else { r.n(9) }, es(r)),
        }
    };
    let x = make(r);
    let y = make(r);
    let d = format!("result {:?}; try_map function returns {:?}", x, y);
    let (o, e): (Option<u32>, Vec<String>) = match &x {
        PR::Success(o) => (Some(*o), vec![]),
        PR::Recovered(o, e) => (Some(*o), e.clone()),
        PR::Failed(_, e) => (None, e.clone()),
    };
    let got = catch(|| {
        let x = x.clone();
        let ok = x.is_ok();
        let tree = x.tree().copied();
        let mut it = x.errors();
        let mut errs: Vec<String> = vec![];
        for _ in 0..e.len() + 3 {
            if let Some(k) = it.next() {
                errs.push(k.clone());
            }
        }
        let n1 = std::cell::Cell::new(0usize);
        let m = x.clone().map(|o| {
            n1.set(n1.get() + 1);
            format!("<{o}>")
        });
        let mut n2 = vec![];
        let me = x.clone().map_err(|e| {
            n2.push(e.clone());
            format!("<{e}>{}", n2.len())
        });
        let n3 = std::cell::Cell::new(0usize);
        let tm = x.clone().try_map(|_| {
            n3.set(n3.get() + 1);
            y.clone()
        });
        (ok, tree, errs, m, n1.get(), me, n2, tm, n3.get())
    });
    let (ok, tree, errs, m, n1, me, n2, tm, n3) = match got {
        Ok(g) => g,
        Err(p) => {
            diff(ds, &["C21", "C23"], format!("panic: {p}"));
            return d;
        }
    };
    let mut chk = |b: bool, what: String| {
        if !b {
            diff(ds, &["C21"], what);
        }
    };
    chk(ok == matches!(x, PR::Success(_)), format!("is_ok is {ok}"));
    chk(tree == o, format!("tree is {:?}", tree));
    chk(errs == e, format!("errors are {:?}", errs));
    let once = o.is_some() as usize;
    let wm = match &x {
        PR::Success(o) => PR::Success(format!("<{o}>")),
        PR::Recovered(o, e) => PR::Recovered(format!("<{o}>"), e.clone()),
        PR::Failed(i, e) => PR::Failed(*i, e.clone()),
    };
    chk(m == wm && n1 == once, format!("map gives {:?}, function called {n1} times", m));
    let te: Vec<String> = e.iter().enumerate().map(|(k, e)| format!("<{e}>{}", k + 1)).collect();
    let wme = match &x {
        PR::Success(o) => PR::Success(*o),
        PR::Recovered(o, _) => PR::Recovered(*o, te),
        PR::Failed(i, _) => PR::Failed(*i, te),
    };
    chk(me == wme && n2 == e, format!("map_err gives {:?}, function called with {:?}", me, n2));
    let wtm = match (&x, &y) {
        (PR::Success(_), y) => y.clone(),
        (PR::Failed(i, e), _) => PR::Failed(*i, e.clone()),
        (PR::Recovered(_, a), PR::Success(o)) => PR::Recovered(*o, a.clone()),
        (PR::Recovered(_, a), PR::Recovered(o, b)) => PR::Recovered(*o, [a.clone(), b.clone()].concat()),
        (PR::Recovered(_, a), PR::Failed(i, b)) => PR::Failed(*i, [a.clone(), b.clone()].concat()),
    };
    if tm != wtm || n3 != once {
        diff(ds, &["C21", "C03"], format!("try_map gives {:?}, function called {n3} times", tm));
    }
    // conversion
    let x2: PR<u32, SimpleE> = match &x {
        PR::Success(o) => PR::Success(*o),
        PR::Recovered(o, e) => PR::Recovered(*o, e.iter().map(|m| SimpleE::Custom(m.clone(), parse_proof_of_concept::error::At::None)).collect()),
        PR::Failed(i, e) => PR::Failed(*i, e.iter().map(|m| SimpleE::Custom(m.clone(), parse_proof_of_concept::error::At::None)).collect()),
    };
    let std: Result<u32, SimpleE> = x2.into();
    let got = std.map_err(|e| e.canon());
    let want = match &x {
        PR::Success(o) => Ok(*o),
        _ => match e.first() {
            Some(m) => Err(format!("CU{:?}|none", m)),
            None => Err("CU\"unknown error\"|none".to_string()),
        },
    };
    if got != want {
        diff(ds, &["C21"], format!("conversion gives {:?}, expected {:?}", got, want));
    }
    d
}

// ------------------------------------------------------------- containers
pub fn container_case(r: &mut Rng, ds: &mut Diffs) -> String {
    use parse_proof_of_concept::container::Container;
    let n = if r.p(1, 8) { r.n(300) } else { r.n(7) };
    let v: Vec<char> = (0..n).map(|_| *r.pick(&['a', 'b', '\u{e9}', '\u{1F600}', '\n'])).collect();
    let s: String = v.iter().collect();
    let nums: Vec<u64> = (0..n).map(|_| r.next()).collect();
    fn take<T>(it: impl Iterator<Item = T>, n: usize) -> Vec<T> {
        let mut it = it;
        let mut v = vec![];
        for _ in 0..n + 3 {
            match it.next() {
                Some(x) => v.push(x),
                None => break,
            }
        }
        v
    }
    let mut chk = |name: &str, b: Result<bool, String>| match b {
        Ok(true) => (),
        Ok(false) => diff(ds, &["C22"], format!("{name} does not list its elements in order")),
        Err(e) => diff(ds, &["C22", "C23"], format!("{name}: panic: {e}")),
    };
    chk("String", catch(|| take(<String as Container<char>>::get_iter(&s), n) == v));
    chk("&str", catch(|| take(<&str as Container<char>>::get_iter(&s.as_str()), n) == v));
    chk("char", catch(|| n == 0 || take(<char as Container<char>>::get_iter(&v[0]), n) == vec![v[0]]));
    chk("[T]", catch(|| take(<[u64] as Container<u64>>::get_iter(&nums[..]), n) == nums));
    chk("&[T]", catch(|| take(<&[u64] as Container<u64>>::get_iter(&&nums[..]), n) == nums));
    chk("&[T] by reference", catch(|| take(<&[u64] as Container<&u64>>::get_iter(&&nums[..]), n) == nums.iter().collect::<Vec<_>>()));
    chk("Vec", catch(|| take(<Vec<u64> as Container<u64>>::get_iter(&nums), n) == nums));
    chk("&Vec", catch(|| take(<&Vec<u64> as Container<u64>>::get_iter(&&nums), n) == nums));
    chk("&Vec by reference", catch(|| take(<&Vec<u64> as Container<&u64>>::get_iter(&&nums), n) == nums.iter().collect::<Vec<_>>()));
    let a: [u64; 4] = [r.next(), r.next(), r.next(), r.next()];
    chk("[T; N]", catch(|| take(<[u64; 4] as Container<u64>>::get_iter(&a), 4) == a.to_vec()));
    chk("&[T; N]", catch(|| take(<&[u64; 4] as Container<u64>>::get_iter(&&a), 4) == a.to_vec()));
    chk("&[T; N] by reference", catch(|| take(<&[u64; 4] as Container<&u64>>::get_iter(&&a), 4) == a.iter().collect::<Vec<_>>()));
    chk("[T; 0]", catch(|| take(<[u64; 0] as Container<u64>>::get_iter(&[]), 0).is_empty()));
    format!("elements {:?}, {:?}, {:?}", v, nums, a)
}

// ----------------------------------------------------------------- errors
pub fn error_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    use parse_proof_of_concept::error::At;
    let ctx = gen::ctx(r, 8);
    let near = r.n(ctx.len() + 1);
    let a = gen::err(r, &ctx, near);
    let b = gen::err(r, &ctx, near);
    let got = catch(|| {
        let ea: E = mk(&ctx, &a);
        let eb: E = mk(&ctx, &b);
        let show = |e: &E| match e.location() {
            At::None => "none".to_string(),
            At::Location(l) => E::lcanon(l),
            At::Span(s) => E::scanon(s),
        };
        let mut m = ea.clone();
        m.merge_expected_found(&eb);
        let s = E::simple(format!("s{near}"));
        (ea.canon(), ea.is_expected_found(), show(&ea), m.canon(), show(&m), s.canon(), show(&s))
    });
    let d = format!("error type {}; {:?}; merged with {:?}", E::NAME, a, b);
    let (c, ef, loc, m, mloc, s, sloc) = match got {
        Ok(x) => x,
        Err(e) => {
            diff(ds, &["C25", "C23"], format!("panic: {e}"));
            return d;
        }
    };
    let at = |e: &ME| {
        if E::VOID {
            return "none".to_string();
        }
        let f = |at: &MAt| match at {
            MAt::No => "none".to_string(),
            MAt::Loc(k) => E::loc_m(&ctx, *k),
            MAt::Span(i, j) => E::span_m(&ctx, *i, *j),
        };
        match e {
            ME::Ef { at, .. } | ME::Ul(_, _, at) | ME::Ur(_, _, at) | ME::Cust(_, at) => f(at),
            ME::Ut(_, _, _, s) => f(&MAt::Span(s.0, s.1)),
        }
    };
    let merged = match (&a, &b) {
        (ME::Ef { exp, found, at, .. }, ME::Ef { exp: e2, .. }) => {
            ME::Ef { exp: [exp.clone(), e2.clone()].concat(), found: *found, at: at.clone(), merged: vec![] }
        }
        _ => a.clone(),
    };
    let mut chk = |ok: bool, what: String| {
        if !ok {
            diff(ds, &["C25"], what);
        }
    };
    chk(c == canon_me::<E>(&ctx, &a), format!("constructed error is {c}"));
    chk(ef == (E::EF && matches!(a, ME::Ef { .. })), format!("is_expected_found is {ef}"));
    chk(loc == at(&a), format!("location is {loc}"));
    chk(m == canon_me::<E>(&ctx, &merged), format!("after merging the error is {m}"));
    chk(mloc == at(&a), format!("after merging the location is {mloc}"));
    chk(s == canon_me::<E>(&ctx, &ME::Cust(format!("s{near}"), MAt::No)) && sloc == "none", format!("simple error is {s} at {sloc}"));
    d
}
pub fn at_case(r: &mut Rng, ds: &mut Diffs) -> String {
    use parse_proof_of_concept::error::At;
    let (i, j) = (r.n(9), r.n(9));
    let a: At<usize, u8> = match r.n(3) {
        0 => At::None,
        1 => At::Location(i),
        _ => At::Span(j as u8),
    };
    let known = !matches!(a, At::None);
    let got = catch(|| {
        let b = match (a.as_ref(), &a) {
            (At::None, At::None) => true,
            (At::Location(x), At::Location(y)) => *x == *y,
            (At::Span(x), At::Span(y)) => *x == *y,
            _ => false,
        };
        (b, a.is_known())
    });
    match got {
        Err(e) => diff(ds, &["C25", "C23"], format!("panic: {e}")),
        Ok((b, k)) => {
            if !b || k != known {
                diff(ds, &["C25"], format!("as_ref keeps the value: {b}; is_known: {k}"));
            }
        }
    }
    format!("{:?}", a)
}

// -------------------------------------------------------------- locations
pub fn location_case<E: HE + NestedScan>(r: &mut Rng, ds: &mut Diffs) -> String {
    use parse_proof_of_concept::location::Tracker;
    let ctx = gen::ctx(r, 12);
    let i = r.n(ctx.len() + 1);
    let j = i + r.n(ctx.len() - i + 1);
    let got = catch(|| {
        let mut t = E::start(&ctx);
        for c in &ctx.toks[..i] {
            t.advance(c);
        }
        let a = t.clone();
        for c in &ctx.toks[i..j] {
            t.advance(c);
        }
        (E::lcanon(&a.location(i)), E::lcanon(&t.location(j)), E::scanon(&a.spanning_to(i, &t, j)))
    });
    match got {
        Err(e) => diff(ds, &["C13", "C23"], format!("panic: {e}")),
        Ok(g) => {
            let w = (E::loc_m(&ctx, i), E::loc_m(&ctx, j), E::span_m(&ctx, i, j));
            if g != w {
                diff(ds, &["C13"], format!("locations and span are {:?}, expected {:?}", g, w));
            }
        }
    }
    // span of every token, through the stream
    let got = catch(|| {
        let mut s: St<E> = E::mkstream(&ctx);
        let mut v = vec![];
        loop {
            if r.p(1, 2) {
                let _ = s.token();
            }
            v.push((E::scanon(&s.span()), E::lcanon(&s.location())));
            if !s.advance() || v.len() > ctx.len() + 3 {
                break;
            }
        }
        v
    });
    match got {
        Err(e) => diff(ds, &["C13", "C23"], format!("panic: {e}")),
        Ok(v) => {
            let w: Vec<_> = (0..=ctx.len()).map(|k| { let t = ctx.tspan(k); (E::span_m(&ctx, t.0, t.1), E::loc_m(&ctx, k)) }).collect();
            if v != w {
                diff(ds, &["C13"], format!("token spans and locations are {:?}, expected {:?}", v, w));
            }
        }
    }
    format!("error type {}; tokens {:?}; start location after {:?}; from {} to {}", E::NAME, ctx.toks, ctx.pre, i, j)
}

// ----------------------------------------------------------------- stream
/// token that counts how many of its kind are alive
pub struct Tk(u32, Rc<std::cell::Cell<usize>>);
impl Drop for Tk {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1);
    }
}
/// location: hash of the tokens advanced over
#[derive(Clone, Debug, PartialEq)]
pub struct HT(u64);
impl parse_proof_of_concept::location::Tracker<Tk> for HT {
    type Location = (usize, u64);
    type Span = (usize, u64, usize, u64);
    fn advance(&mut self, t: &Tk) {
        self.0 = mix(self.0, t.0 as u64 + 1);
    }
    fn location(&self, i: usize) -> (usize, u64) {
        (i, self.0)
    }
    fn spanning_to(&self, i: usize, to: &Self, j: usize) -> Self::Span {
        (i, self.0, j, to.0)
    }
}
struct Source {
    next: u32,
    n: u32,
    live: Rc<std::cell::Cell<usize>>,
    ended: bool,
    polled_after_end: Rc<std::cell::Cell<bool>>,
}
impl Iterator for Source {
    type Item = Tk;
    fn next(&mut self) -> Option<Tk> {
        if self.ended {
            self.polled_after_end.set(true);
        }
        if self.next == self.n {
            self.ended = true;
            return None;
        }
        self.next += 1;
        self.live.set(self.live.get() + 1);
        Some(Tk(self.next - 1, self.live.clone()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}
pub fn stream_case(r: &mut Rng, ds: &mut Diffs) -> String {
    let n = match r.n(4) {
        0 => r.n(6),
        1 => r.n(40),
        2 => r.n(150),
        _ => 10 + r.n(15),
    };
    let nops = 5 + r.n(if n > 50 { 250 } else { 60 });
    let live = Rc::new(std::cell::Cell::new(0usize));
    let after = Rc::new(std::cell::Cell::new(false));
    let hash: Vec<u64> = {
        let mut v = vec![42u64];
        for k in 0..n {
            v.push(mix(v[k], k as u64 + 1));
        }
        v
    };
    let mut s: Stream<Tk, HT> = Stream::new_with_location(Source { next: 0, n: n as u32, live: live.clone(), ended: false, polled_after_end: after.clone() }, HT(42));
    let mut pos = 0usize;
    let mut held: Vec<(usize, SavedState)> = vec![];
    let mut log: Vec<String> = vec![];
    let mut maxw = 0usize; // widest window that had to be kept
    let mut far = 0usize; // furthest token read
    // how observant this run is: looking at the token buffers it
    let nosy = r.n(4);
    let holding = r.n(3);
    let mut since: Vec<&'static str> = vec![]; // operations since the last full check
    let chk = catch(|| {
        for _ in 0..nops {
            let mut op = r.n(16);
            if holding == 0 && matches!(op, 4 | 5 | 9) && !held.is_empty() {
                op = 6;
            }
            let mut bad: Option<(Vec<&'static str>, String)> = None;
            let mut expect = |ok: bool, props: &[&'static str], what: String| {
                if !ok && bad.is_none() {
                    bad = Some((props.to_vec(), what));
                }
            };
            let tok = |k: usize| if k < n { Some(k as u32) } else { None };
            let loc = |k: usize| (k, hash[k]);
            match op {
                0 | 1 => {
                    log.push("advance".into());
                    since.push("C10");
                    let b = s.advance();
                    expect(b == (pos < n), &["C10"], format!("advance at {pos} of {n} says {b}"));
                    far = far.max((pos + 1).min(n));
                    pos = (pos + 1).min(n);
                }
                2 => {
                    let k = r.n(12);
                    log.push(format!("advance {k} times"));
                    since.push("C10");
                    for _ in 0..k {
                        s.advance();
                        far = far.max((pos + 1).min(n));
                        pos = (pos + 1).min(n);
                        maxw = maxw.max(far - held.iter().map(|h| h.0).min().unwrap_or(pos).min(pos) + 1);
                    }
                }
                3 => {
                    let m = if r.p(1, 4) { 20 } else { 4 }; let to = pos + r.n(m);
                    log.push(format!("advance_to {to}"));
                    since.push("C10");
                    let b = s.advance_to(to);
                    expect(b == (to <= n), &["C10"], format!("advance_to({to}) at {pos} of {n} says {b}"));
                    far = far.max(to.min(n));
                    pos = to.min(n);
                }
                4 | 5 => {
                    log.push(format!("save #{}", held.len()));
                    held.push((pos, s.save()));
                }
                6 => {
                    if !held.is_empty() {
                        let k = r.n(held.len());
                        log.push(format!("drop #{k} (at {})", held[k].0));
                        held.remove(k);
                    }
                }
                7 | 8 => {
                    if !held.is_empty() {
                        let k = r.n(held.len());
                        log.push(format!("restore #{k} (at {})", held[k].0));
                        since.push("C11");
                        s.restore(&held[k].1);
                        pos = held[k].0;
                    }
                }
                9 => {
                    let m = if r.p(1, 4) { 20 } else { 4 }; let to = pos + r.n(m);
                    log.push(format!("save_at {to} as #{}", held.len()));
                    since.push("C12");
                    let x = s.save_at(to);
                    let i = s.index_at(&x);
                    expect(i == to.min(n), &["C12"], format!("save_at({to}) of {n} saved {i}"));
                    expect(s.index() == pos, &["C12"], format!("save_at({to}) moved the stream from {pos} to {}", s.index()));
                    far = far.max(to.min(n));
                    held.push((to.min(n), x));
                }
                10 => {
                    let k = r.n(5);
                    let ok = r.p(1, 2);
                    log.push(format!("attempt: advance {k} times, {}", if ok { "keep" } else { "give up" }));
                    since.push("C11");
                    let b = s.attempt(|s| {
                        for _ in 0..k {
                            s.advance();
                        }
                        if ok { Ok(true) } else { Err(false) }
                    });
                    expect(b == ok, &["C11"], "attempt returned the wrong result".into());
                    far = far.max((pos + k).min(n));
                    if ok {
                        pos = (pos + k).min(n);
                    }
                    maxw = maxw.max(far.saturating_sub(pos) + k + 1);
                }
                11 => {
                    if !held.is_empty() {
                        let k = r.n(held.len());
                        log.push(format!("token_at #{k} (at {})", held[k].0));
                        let t = s.token_at(&held[k].1).map(|t| t.0);
                        expect(t == tok(held[k].0), &["C11"], format!("token at held position {} is {:?}", held[k].0, t));
                        far = far.max((held[k].0 + 1).min(n));
                        since.push("C11");
                    }
                }
                12 => {
                    if !held.is_empty() {
                        let k = r.n(held.len());
                        log.push(format!("location_at/spanning_back_to #{k} (at {})", held[k].0));
                        let l = s.location_at(&held[k].1);
                        expect(l == loc(held[k].0), &["C11", "C13"], format!("location at held position {} is {:?}", held[k].0, l));
                        let sp = s.spanning_back_to(&held[k].1);
                        let w = (held[k].0, hash[held[k].0], pos, hash[pos]);
                        expect(sp == w, &["C11", "C13"], format!("span from held position {} to {pos} is {:?}", held[k].0, sp));
                        expect(s.index_at(&held[k].1) == held[k].0, &["C11"], format!("index_at held position {} is {}", held[k].0, s.index_at(&held[k].1)));
                        since.push("C11");
                    }
                }
                13 => {
                    log.push("span".into());
                    let sp = s.span();
                    let e = (pos + 1).min(n);
                    expect(sp == (pos, hash[pos], e, hash[e]), &["C13"], format!("token span at {pos} is {:?}", sp));
                    far = far.max(e);
                    since.push("C10");
                }
                14 => {
                    log.push("eof".into());
                    let b = s.eof();
                    expect(b == (pos == n), &["C10"], format!("eof at {pos} of {n} is {b}"));
                    far = far.max((pos + 1).min(n));
                }
                _ => {
                    log.push("token".into());
                    let t = s.token().map(|t| t.0);
                    expect(t == tok(pos), &["C10"], format!("token at {pos} of {n} is {:?}", t));
                    far = far.max((pos + 1).min(n));
                }
            }
            let oldest = held.iter().map(|h| h.0).min().unwrap_or(pos).min(pos);
            maxw = maxw.max(far.saturating_sub(oldest) + 1);
            // look around
            let mut ps: Vec<&'static str> = since.clone();
            if ps.is_empty() {
                ps.push("C10");
            }
            expect(s.index() == pos, &ps, format!("index is {}, expected {pos}", s.index()));
            if r.n(4) < nosy {
                let l = s.location();
                expect(l == loc(pos), &ps, format!("location is {:?}, expected {:?}", l, loc(pos)));
                let t = s.token().map(|t| t.0);
                expect(t == tok(pos), &ps, format!("next token is {:?}, expected {:?}", t, tok(pos)));
                let l = s.location();
                expect(l == loc(pos) && s.index() == pos, &["C10"], format!("peeking changed the position to {:?}", l));
                far = far.max((pos + 1).min(n));
                maxw = maxw.max(far - oldest + 1);
                since.clear();
            }
            expect(!after.get(), &["C10"], "the source was polled after its end".into());
            let allowed = (2 * maxw).max(8);
            expect(live.get() <= allowed, &["C26"], format!("{} tokens are kept, although at most {} were ever needed at once", live.get(), maxw));
            if let Some(b) = bad {
                return Some(b);
            }
        }
        // every position still held can be restored
        let order: Vec<usize> = (0..held.len()).collect();
        for k in order {
            s.restore(&held[k].1);
            let (i, t, l) = (s.index(), s.token().map(|t| t.0), s.location());
            let h = held[k].0;
            if i != h || l != (h, hash[h]) || t != (if h < n { Some(h as u32) } else { None }) {
                return Some((vec!["C11"], format!("restoring position {h} leads to index {i}, token {:?}, location {:?}", t, l)));
            }
        }
        // the rest of the input
        let mut k = s.index();
        while let Some(t) = s.token().map(|t| t.0) {
            if t as usize != k {
                return Some((vec!["C10"], format!("token {k} of the rest is {t}")));
            }
            k += 1;
            s.advance();
            if k > n + 3 {
                break;
            }
        }
        if k != n {
            return Some((vec!["C10"], format!("the input ends at {k} instead of {n}")));
        }
        None
    });
    let d = format!("source of {n} tokens; operations: {}", log.join("; "));
    match chk {
        Ok(None) => (),
        Ok(Some((ps, w))) => diff(ds, &ps, w),
        Err(e) => {
            let last = log.last().cloned().unwrap_or_default();
            let mut ps: Vec<&'static str> = vec!["C23"];
            ps.push(if last.starts_with("save_at") {
                "C12"
            } else if last.contains('#') || last.contains("attempt") {
                "C11"
            } else {
                "C10"
            });
            diff(ds, &ps, format!("panic: {e}"));
        }
    }
    d
}
/// long input streamed past: memory stays bounded
pub fn stream_long_case(r: &mut Rng, ds: &mut Diffs) -> String {
    let n = 300 + r.n(1500);
    let win = r.n(20);
    let mode = r.n(3);
    let live = Rc::new(std::cell::Cell::new(0usize));
    let after = Rc::new(std::cell::Cell::new(false));
    let mut s: Stream<Tk, HT> = Stream::new_with_location(Source { next: 0, n: n as u32, live: live.clone(), ended: false, polled_after_end: after.clone() }, HT(42));
    let mut held: std::collections::VecDeque<SavedState> = Default::default();
    let mut worst = 0;
    let x = catch(|| {
        while !s.eof() {
            match mode {
                0 => (),
                1 => {
                    held.push_back(s.save());
                    if held.len() > win {
                        held.pop_front();
                    }
                }
                _ => {
                    let _ = s.attempt(|s| {
                        for _ in 0..win {
                            s.advance();
                        }
                        Err::<u8, u8>(0)
                    });
                    held.clear();
                    held.push_back(s.save_at((s.index() + win).min(n)));
                }
            }
            s.advance();
            worst = worst.max(live.get());
        }
        worst
    });
    match x {
        Err(e) => diff(ds, &["C26", "C23", "C11"], format!("panic: {e}")),
        Ok(w) => {
            let allowed = (2 * (win + 3)).max(8);
            if w > allowed {
                diff(ds, &["C26"], format!("{w} tokens are kept at once, although a window of {} was needed", win + 1));
            }
        }
    }
    format!("source of {n} tokens, streamed with a window of {win} tokens, mode {mode}")
}

// ---------------------------------------------------------- printed errors
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Named(&'static str, u32);
impl std::fmt::Display for Named {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}{}>", self.0, self.1)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct NoTrack;
impl parse_proof_of_concept::location::Tracker<Named> for NoTrack {
    type Location = Named;
    type Span = Named;
    fn advance(&mut self, _: &Named) {}
    fn location(&self, index: usize) -> Named {
        Named("l", index as u32)
    }
    fn spanning_to(&self, from_index: usize, _: &Self, _: usize) -> Named {
        Named("s", from_index as u32)
    }
}
/// the names in the text, in order; end of input as `EOF`
fn names(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = s;
    loop {
        let a = rest.find('<');
        let b = rest.find("EOF");
        match (a, b) {
            (Some(a), b) if b.map_or(true, |b| a < b) => match rest[a..].find('>') {
                Some(e) => {
                    v.push(rest[a..=a + e].to_string());
                    rest = &rest[a + e + 1..];
                }
                None => return v,
            },
            (_, Some(b)) => {
                v.push("EOF".into());
                rest = &rest[b + 3..];
            }
            _ => return v,
        }
    }
}
pub fn display_case(r: &mut Rng, ds: &mut Diffs) -> String {
    use parse_proof_of_concept::error::{At, Simple};
    use parse_proof_of_concept::location::{RichLocation, RichOffset, RichSpan};
    let tok = |r: &mut Rng| Named("t", r.n(12) as u32);
    let (l, s) = (Named("l", r.n(99) as u32), Named("s", r.n(99) as u32));
    let at: At<Named, Named> = match r.n(3) {
        0 => At::None,
        1 => At::Location(l),
        _ => At::Span(s),
    };
    let at_names: Vec<String> = match &at {
        At::None => vec![],
        At::Location(x) | At::Span(x) => vec![x.to_string()],
    };
    let (t, u, p, q) = (tok(r), tok(r), Named("s", r.n(99) as u32), Named("s", r.n(99) as u32));
    let one = |o: &Option<Named>| o.map_or("EOF".to_string(), |x| x.to_string());
    let (e, mut want, free): (Simple<Named, NoTrack>, Vec<String>, usize) = match r.n(6) {
        0 | 1 => {
            let n = if r.p(1, 8) { r.n(40) } else { r.n(6) };
            let mut xs: Vec<Option<Named>> = (0..n).map(|_| if r.p(1, 5) { None } else { Some(tok(r)) }).collect();
            let found = if r.p(1, 4) { None } else { Some(u) };
            let e = Simple::ExpectedFound(xs.iter().cloned().collect(), found, at);
            xs.sort_by_key(one);
            xs.dedup();
            let mut want: Vec<String> = xs.iter().map(one).collect();
            want.push(one(&found));
            (e, want, xs.len())
        }
        2 => (Simple::UnmatchedLeftDelimiter(t, p, at), vec![t.to_string(), p.to_string()], 0),
        3 => (Simple::UnmatchedRightDelimiter(t, p, at), vec![t.to_string(), p.to_string()], 0),
        4 => {
            let w = vec![t.to_string(), p.to_string(), u.to_string(), q.to_string()];
            (Simple::UnmatchedDelimiterType(t, p, u, q), w, 0)
        }
        _ => (Simple::Custom(u.to_string(), at), vec![u.to_string()], 0),
    };
    if !matches!(e, Simple::UnmatchedDelimiterType(..)) {
        want.extend(at_names);
    }
    let text = match catch(|| if r.p(1, 4) { format!("{e:#}") } else { format!("{e}") }) {
        Ok(t) => t,
        Err(m) => {
            diff(ds, &["C27", "C23"], format!("panic: {m}"));
            return format!("{e:?}");
        }
    };
    // the expected tokens come in any order
    let mut got = names(&text);
    let k = free.min(got.len());
    got[..k].sort();
    if got != want {
        diff(ds, &["C27"], format!("{text:?} names {got:?} instead of {want:?}"));
    }
    // locations
    let off = |r: &mut Rng| RichOffset { row: 1000 + r.n(999), column: 2000 + r.n(999), offset: 3000 + r.n(9), index: 4000 + r.n(9) };
    let (a, b) = (off(r), off(r));
    let file = std::rc::Rc::new("<file>".to_string());
    let loc = RichLocation { filename: file.clone(), offset: a.clone() };
    let span = RichSpan { filename: file, from: a.clone(), to: b.clone() };
    let nums = |s: &str| -> Vec<usize> { s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).filter(|x| *x < 3000).collect() };
    let shown = catch(|| (a.to_string(), At::<_, RichSpan>::Location(loc.clone()).to_string(), format!("{:#}", At::<RichLocation, _>::Span(span.clone()))));
    match shown {
        Err(m) => diff(ds, &["C27", "C23"], format!("panic: {m}")),
        Ok((x, y, z)) => {
            if nums(&x) != [a.row, a.column] {
                diff(ds, &["C27"], format!("{a:?} is shown as {x:?}"));
            }
            if nums(&y) != [a.row, a.column] || names(&y) != ["<file>"] {
                diff(ds, &["C27"], format!("{loc:?} is shown as {y:?}"));
            }
            if nums(&z) != [a.row, a.column, b.row, b.column] || names(&z) != ["<file>"] {
                diff(ds, &["C27"], format!("{span:?} is shown as {z:?}"));
            }
        }
    }
    format!("{e:?}")
}
