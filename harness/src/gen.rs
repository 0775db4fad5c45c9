//! Random inputs, scripted parsers, grammars and strategies.
use crate::model::*;
use crate::rng::*;
use std::rc::Rc;

pub const ALPHA: &[char] = &['a', 'b', 'c', 'd', 'e', ',', '(', ')', '[', ']', '\n', '|'];
pub fn toks(r: &mut Rng, max: usize) -> Vec<char> {
    let n = if r.p(1, 8) { r.n(max + 1) } else { r.n(max.min(9) + 1) };
    let k = 1 + r.n(ALPHA.len());
    let off = r.n(ALPHA.len());
    (0..n).map(|_| ALPHA[(off + r.n(k)) % ALPHA.len()]).collect()
}
pub fn ctx(r: &mut Rng, max: usize) -> Rc<Ctx> {
    let t = toks(r, max);
    let pre = if r.p(1, 2) { vec![] } else { toks(r, 4) };
    Rc::new(Ctx { toks: t, pre })
}
/// rarely a much longer input than usual
pub fn ctx_or_long(r: &mut Rng, max: usize, one_in: usize) -> Rc<Ctx> {
    if !r.p(1, one_in) {
        return ctx(r, max);
    }
    let n = LONG + r.n(110);
    let k = 1 + r.n(ALPHA.len());
    let t = (0..n).map(|_| ALPHA[r.n(k)]).collect();
    Rc::new(Ctx { toks: t, pre: vec![] })
}
pub const LONG: usize = 40;
pub fn chars(r: &mut Rng, ctx: &Ctx) -> Vec<char> {
    let n = if r.p(1, 40) { r.n(80) } else { r.n(4) };
    (0..n).map(|_| one(r, ctx)).collect()
}
/// a token, mostly one of the input
pub fn one(r: &mut Rng, ctx: &Ctx) -> char {
    if ctx.len() > 0 && r.p(3, 4) {
        *r.pick(&ctx.toks)
    } else {
        *r.pick(ALPHA)
    }
}
pub fn err(r: &mut Rng, ctx: &Ctx, near: usize) -> ME {
    let len = ctx.len();
    let k = (near + r.geo(2)).min(len);
    let at = match r.n(8) {
        0 => MAt::No,
        1 | 2 => MAt::Loc(k),
        3 => MAt::Span(near.min(len), k),
        _ => sp(ctx.tspan(k)),
    };
    match r.n(10) {
        0 => ME::Cust(format!("c{}", r.n(50)), at),
        1 => ME::Ul(one(r, ctx), ctx.tspan(k), at),
        2 => ME::Ut(one(r, ctx), ctx.tspan(near.min(len)), one(r, ctx), ctx.tspan(k)),
        3 => ME::Ur(one(r, ctx), ctx.tspan(k), at),
        _ => {
            let n = if r.p(1, 40) { r.n(30) } else { r.n(3) };
            ME::Ef {
                exp: (0..n).map(|_| if r.p(1, 6) { None } else { Some(*r.pick(ALPHA)) }).collect(),
                found: ctx.tok(k),
                at,
                merged: vec![],
            }
        }
    }
}
pub fn errs(r: &mut Rng, ctx: &Ctx, near: usize) -> Vec<ME> {
    let n = 1 + if r.p(1, 3) { r.geo(3) } else { 0 } + if r.p(1, 200) { r.n(40) } else { 0 };
    (0..n).map(|_| err(r, ctx, near)).collect()
}
/// scripted parser; `eat`: every output consumes input
pub fn stub(r: &mut Rng, ctx: &Ctx, id: u8, eat: bool) -> G {
    let len = ctx.len();
    let mut ok = *r.pick(&[0usize, 2, 5, 7, 9]) * 10;
    let mut rec = *r.pick(&[0usize, 3, 6, 9]) * 10;
    let mut far = 1 + r.n(4);
    let mut long = r.p(1, 6);
    if len >= LONG {
        // mostly one token at a time
        ok = *r.pick(&[0usize, 50, 98, 100, 100]);
        rec = *r.pick(&[0usize, 90, 99, 100, 100]);
        far = 1;
        long = false;
    }
    let tab = (0..=len)
        .map(|p| {
            let end = |r: &mut Rng| -> usize {
                let mut e = p + if long { r.n(len - p + 1) } else { r.geo(far) };
                if eat && e == p {
                    e = p + 1;
                }
                e.min(len)
            };
            let idx = |r: &mut Rng| (p + r.geo(far)).min(len);
            let can = !(eat && p == len);
            if can && r.p(ok, 100) {
                let e = Ent { res: SR::Ok(V::U(id, p, false)), end: end(r) };
                return (e.clone(), e);
            }
            let i = idx(r);
            let f = Ent { res: SR::Fail(i, errs(r, ctx, i)), end: p };
            let t = if can && r.p(rec, 100) {
                let e = end(r);
                Ent { res: SR::Rec(V::U(id, p, true), errs(r, ctx, i)), end: e }
            } else if r.p(1, 2) {
                f.clone()
            } else {
                let i = idx(r);
                Ent { res: SR::Fail(i, errs(r, ctx, i)), end: p }
            };
            (f, t)
        })
        .collect();
    G::Stub(id, Rc::new(tab), if r.p(1, 3) { r.n(6) } else { 0 })
}
pub fn cont(r: &mut Rng, ctx: &Ctx, seq: bool) -> Cont {
    let mut v = chars(r, ctx);
    if seq && ctx.len() > 0 && r.p(2, 3) {
        // a piece of the input
        let i = r.n(ctx.len());
        let j = (i + 1 + r.geo(3)).min(ctx.len());
        v = ctx.toks[i..j].to_vec();
    }
    let at = |k: usize| if v.is_empty() { 'z' } else { v[k % v.len()] };
    match r.n(8) {
        0 => Cont::One(at(0)),
        1 => Cont::Str(v.iter().collect()),
        2 => Cont::RefStr(v.iter().collect()),
        3 => Cont::Vec(v.clone()),
        4 => Cont::RefVec(v.clone()),
        5 => Cont::Slice(v.clone()),
        6 => Cont::Arr3([at(0), at(1), at(2)]),
        _ => Cont::RefArr2([at(0), at(1)]),
    }
}
pub const NPRIM: usize = 9;
pub fn prim(r: &mut Rng, ctx: &Ctx, k: usize) -> G {
    match k {
        0 => G::Empty,
        1 => G::None_,
        2 => G::End,
        3 => G::Just(one(r, ctx)),
        4 => G::Filter(chars(r, ctx)),
        5 => G::FilterMap(chars(r, ctx)),
        6 => G::Seq(cont(r, ctx, true)),
        7 => G::OneOf(cont(r, ctx, false)),
        _ => G::NoneOf(cont(r, ctx, false)),
    }
}
/// combinators; `kid(r, id, eat)` makes the parts
pub const COMBS: &[&str] = &[
    "To", "Ignored", "Some", "Map", "MapSpan", "MapErr", "MapErrSpan", "TryMap", "Then", "ThenIgnore", "IgnoreThen", "Delim", "Pad", "Chain",
    "Or", "OrNot", "Alters", "Rep", "Sep", "ToRec", "Boxed", "WithErr", "Cloned",
];
pub fn comb(r: &mut Rng, ctx: &Ctx, which: &str, kid: &mut dyn FnMut(&mut Rng, u8, bool) -> G) -> G {
    let mut k = |r: &mut Rng, id: u8| Box::new(kid(r, id, false));
    match which {
        "To" => G::To(k(r, 0)),
        "Ignored" => G::Ignored(k(r, 0)),
        "Some" => G::Some_(k(r, 0)),
        "Map" => G::Map(k(r, 0)),
        "MapSpan" => G::MapSpan(k(r, 0)),
        "MapErr" => G::MapErr(k(r, 0)),
        "MapErrSpan" => G::MapErrSpan(k(r, 0)),
        "TryMap" => G::TryMap(r.n(8) as u8, k(r, 0)),
        "Then" => G::Then(k(r, 0), k(r, 1)),
        "ThenIgnore" => G::ThenIgnore(k(r, 0), k(r, 1)),
        "IgnoreThen" => G::IgnoreThen(k(r, 0), k(r, 1)),
        "Delim" => G::Delim(k(r, 0), k(r, 1), k(r, 2)),
        "Pad" => G::Pad(k(r, 0), k(r, 1)),
        "Chain" => {
            let n = 2 + if ctx.len() >= LONG { r.n(60) } else { r.geo(4) };
            G::Chain((0..n).map(|i| *k(r, i as u8)).collect())
        }
        "Or" => G::Or(k(r, 0), k(r, 1)),
        "OrNot" => G::OrNot(k(r, 0)),
        "Alters" => {
            let n = 2 + r.geo(4);
            let kids: Vec<G> = (0..n).map(|i| *k(r, i as u8)).collect();
            if r.p(1, 6) {
                // many alternatives (sorting switches its algorithm at some length)
                let m = 21 + r.n(if ctx.len() >= LONG { 150 } else { 20 });
                return G::Alters((0..m).map(|_| r.pick(&kids).clone()).collect());
            }
            G::Alters(kids)
        }
        "Rep" | "Sep" => {
            let long = ctx.len() >= LONG;
            let min = if r.p(1, 2) { r.n(if long { ctx.len() } else { 4 }) } else { 0 };
            let max = match r.n(3) {
                1 if long => Some((min + r.n(ctx.len())).max(1)),
                0 => None,
                1 => Some((min + r.geo(3)).max(1)),
                _ => Some(min.max(1)),
            };
            let (sep, lead, trail) = if which == "Sep" {
                (Some(Box::new(kid(r, 1, false))), r.p(1, 2), r.p(1, 2))
            } else {
                (None, r.p(1, 5), r.p(1, 5))
            };
            // without a maximum, items that match nothing would go on for ever
            let eat = max.is_none() || r.p(1, 2);
            G::Rep { item: Box::new(kid(r, 0, eat)), sep, min, max, lead, trail, how: r.n(240) as u8 }
        }
        "ToRec" => {
            let c = k(r, 0);
            let s = strat(r, ctx, 1, kid);
            G::ToRec(c, s)
        }
        "Boxed" => G::Boxed(k(r, 0)),
        "WithErr" => G::WithErr(k(r, 0)),
        _ => G::Cloned(k(r, 0)),
    }
}
pub const STEPS: &[&str] = &[
    "Restart", "SeekToFailed", "Skip", "SkipIf", "Find", "ScanStub", "ScanNested", "Maybe", "WhileNot", "Retry", "TryParse", "Push", "PushHere",
    "PushUpTo", "PushTok", "Upd", "UpdHere", "UpdUpTo", "UpdTok", "Nothing", "Boxed",
];
pub fn step_stub(r: &mut Rng, ctx: &Ctx, id: usize) -> Step {
    let len = ctx.len();
    let to = r.n(len + 1);
    Step::Stub {
        to,
        failed: if r.p(1, 3) { Some(r.n(len + 1)) } else { None },
        errs: if r.p(1, 2) { errs(r, ctx, to) } else { vec![] },
        out: if r.p(1, 5) { Some(V::U(100 + id as u8, to, true)) } else { None },
    }
}
pub fn step(r: &mut Rng, ctx: &Ctx, which: &str, depth: usize, kid: &mut dyn FnMut(&mut Rng, u8, bool) -> G) -> Step {
    match which {
        "Restart" => Step::Restart,
        "SeekToFailed" => Step::SeekToFailed,
        "Skip" => Step::Skip,
        "SkipIf" => Step::SkipIf(chars(r, ctx)),
        "Find" => Step::Find(chars(r, ctx)),
        "ScanStub" => Step::ScanStub(chars(r, ctx)),
        "ScanNested" => Step::ScanNested(r.n(TABLES.len())),
        "Maybe" => Step::Maybe(steps(r, ctx, depth.saturating_sub(1), false, kid)),
        // nothing that goes back: that loops forever by design
        "WhileNot" => Step::WhileNot(chars(r, ctx), steps(r, ctx, depth.saturating_sub(1), true, kid)),
        "Retry" => Step::Retry(r.p(1, 2), r.p(1, 2)),
        "TryParse" => {
            let g = kid(r, 7, false);
            Step::TryParse(Box::new(g), r.p(1, 2), r.p(1, 2))
        }
        "Push" => Step::Push,
        "PushHere" => Step::PushHere,
        "PushUpTo" => Step::PushUpTo,
        "PushTok" => Step::PushTok,
        "Upd" => Step::Upd(r.n(3) as u8),
        "UpdHere" => Step::UpdHere(r.n(3) as u8),
        "UpdUpTo" => Step::UpdUpTo(r.n(3) as u8),
        "UpdTok" => Step::UpdTok(r.n(3) as u8),
        "Nothing" => Step::Nothing,
        _ => Step::Boxed,
    }
}
pub fn steps(r: &mut Rng, ctx: &Ctx, depth: usize, forward: bool, kid: &mut dyn FnMut(&mut Rng, u8, bool) -> G) -> Vec<Step> {
    let n = r.geo(4);
    let mut v = vec![];
    for i in 0..n {
        let w = *r.pick(STEPS);
        if forward && matches!(w, "Restart" | "SeekToFailed") {
            continue;
        }
        if depth == 0 && matches!(w, "Maybe" | "WhileNot") {
            v.push(if forward { Step::Skip } else { step_stub(r, ctx, i) });
            continue;
        }
        v.push(step(r, ctx, w, depth, kid));
    }
    v
}
pub fn fin(r: &mut Rng) -> Fin {
    match r.n(4) {
        0 => Fin::Return,
        1 => Fin::ReturnWith,
        2 => Fin::ReturnSpan,
        _ => Fin::Fail,
    }
}
pub fn strat(r: &mut Rng, ctx: &Ctx, depth: usize, kid: &mut dyn FnMut(&mut Rng, u8, bool) -> G) -> Strat {
    let s = steps(r, ctx, depth, false, kid);
    Strat { steps: s, fin: fin(r) }
}
/// nested grammar of the crate's own parsers (no scripted parts)
pub fn grammar(r: &mut Rng, ctx: &Ctx, depth: usize, eat: bool) -> G {
    if depth == 0 || r.p(1, 6) {
        let k = if eat { *r.pick(&[3, 4, 5, 7, 8]) } else { r.n(NPRIM) };
        return prim(r, ctx, k);
    }
    if eat {
        // something that surely consumes
        let a = Box::new(grammar(r, ctx, 0, true));
        let b = Box::new(grammar(r, ctx, depth - 1, false));
        return match r.n(3) {
            0 => G::Then(a, b),
            1 => G::IgnoreThen(b, a),
            _ => *a,
        };
    }
    let w = *r.pick(COMBS);
    let mut kid = |r: &mut Rng, _id: u8, eat: bool| grammar(r, ctx, depth - 1, eat);
    comb(r, ctx, w, &mut kid)
}
/// recursive grammar: references to itself only behind a consuming token
pub fn fix(r: &mut Rng, ctx: &Ctx) -> G {
    let var = || Box::new(G::Var);
    let eat = |r: &mut Rng| Box::new(grammar(r, ctx, 0, true));
    let (a, b) = (eat(r), eat(r));
    let guarded = match r.n(6) {
        0 => G::Then(a, var()),
        1 => G::Delim(a, var(), b),
        2 => G::Chain(vec![*a, G::Var, G::Var]),
        3 => G::IgnoreThen(a, Box::new(G::Rep { item: Box::new(G::ThenIgnore(b, Box::new(G::Empty))), sep: Some(Box::new(G::Then(eat(r), var()))), min: 0, max: None, lead: true, trail: r.p(1, 2), how: 0 })),
        4 => G::Pad(a, var()),
        _ => G::Then(a, Box::new(G::OrNot(Box::new(G::Var)))),
    };
    let base = Box::new(grammar(r, ctx, 1, false));
    let guarded = Box::new(guarded);
    let body = match r.n(4) {
        0 => G::Or(guarded, base),
        1 => G::Or(base, guarded),
        2 => G::Alters(vec![*base, *guarded, *eat(r)]),
        _ => {
            let s = strat(r, ctx, 1, &mut |r, _, _| grammar(r, ctx, 0, false));
            G::ToRec(Box::new(G::Or(guarded, base)), s)
        }
    };
    G::Fix(r.n(3) as u8, Box::new(body))
}
