//! Rewriting of the source before extraction. Every rewrite keeps the meaning of the program:
//! items declared inside of functions move to their module, a few library imports are written out,
//! `&` patterns become dereferences, and a search whose success leaves the function becomes the
//! loop it abbreviates.
use crate::util::*;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn run(file: &mut File, notes: &mut BTreeSet<String>) {
    for it in file.items.iter_mut() {
        let Item::Mod(m) = it else { continue };
        let Some((_, items)) = &mut m.content else { continue };
        // nested items
        let mut h = Hoist { names: items.iter().filter_map(item_name).collect(), found: vec![] };
        for it in items.iter_mut() {
            h.visit_item_mut(it);
        }
        if !h.found.is_empty() {
            notes.insert("R0 items declared in a function moved to its module".into());
        }
        for f in h.found {
            items.push(f);
        }
        // imports
        let mut im: BTreeMap<String, Vec<String>> = Default::default();
        items.retain(|it| {
            let Item::Use(u) = it else { return true };
            let mut found = vec![];
            imports(&u.tree, &mut vec![], &mut found);
            let std = found.iter().all(|(p, _)| matches!(p[0].as_str(), "std" | "core" | "alloc"));
            if std {
                for (p, name) in found {
                    let last = p.last().unwrap().clone();
                    let in_cmp = p.len() == 3 && matches!(p[1].as_str(), "cmp" | "mem");
                    if name != last || in_cmp || last.chars().next().map_or(false, |c| c.is_lowercase()) {
                        im.insert(name, p);
                    }
                }
            }
            true
        });
        let mut x = Expand { im };
        for it in items.iter_mut() {
            if !matches!(it, Item::Use(_)) {
                x.visit_item_mut(it);
            }
        }
        let mut r = Plainly { notes };
        for it in items.iter_mut() {
            r.visit_item_mut(it);
        }
        let mut r = RefPats { n: 0, notes };
        for it in items.iter_mut() {
            r.visit_item_mut(it);
        }
        let mut r = Searches { notes };
        for it in items.iter_mut() {
            r.visit_item_mut(it);
        }
    }
}

fn item_name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Fn(f) => f.sig.ident.to_string(),
        Item::Const(c) => c.ident.to_string(),
        Item::Struct(s) => s.ident.to_string(),
        Item::Enum(s) => s.ident.to_string(),
        Item::Trait(s) => s.ident.to_string(),
        Item::Type(s) => s.ident.to_string(),
        Item::Mod(s) => s.ident.to_string(),
        Item::Static(s) => s.ident.to_string(),
        _ => return None,
    })
}

struct Hoist {
    names: BTreeSet<String>,
    found: Vec<Item>,
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Use(u)) => self.found.push(Item::Use(u)),
                Stmt::Item(i @ (Item::Fn(_) | Item::Const(_))) => {
                    let n = item_name(&i).unwrap();
                    if self.names.insert(n) {
                        self.found.push(i);
                    } else {
                        out.push(Stmt::Item(i));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

fn imports(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            imports(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            let mut p = pre.clone();
            if s != "self" {
                p.push(s);
            }
            if let Some(l) = p.last().cloned() {
                out.push((p, l));
            }
        }
        UseTree::Rename(r) => {
            let mut p = pre.clone();
            if r.ident != "self" {
                p.push(r.ident.to_string());
            }
            out.push((p, r.rename.to_string()));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                imports(t, pre, out);
            }
        }
        UseTree::Glob(_) => out.push((vec!["".into()], "*".into())),
    }
}

struct Expand {
    im: BTreeMap<String, Vec<String>>,
}
impl Expand {
    fn fix(&self, p: &mut Path) {
        if p.leading_colon.is_some() {
            return;
        }
        if let Some(full) = self.im.get(&p.segments[0].ident.to_string()) {
            let mut segs: Vec<PathSegment> = full.iter().map(|s| PathSegment { ident: format_ident!("{s}"), arguments: PathArguments::None }).collect();
            segs.last_mut().unwrap().arguments = p.segments[0].arguments.clone();
            segs.extend(p.segments.iter().skip(1).cloned());
            p.segments = segs.into_iter().collect();
        }
    }
}
impl VisitMut for Expand {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let lower = p.segments[0].ident.to_string().chars().next().map_or(false, |c| c.is_lowercase());
        if p.segments.len() > 1 || !lower {
            self.fix(p);
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &mut *c.func {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                self.fix(&mut p.path);
            }
        }
    }
}

/// `&x` in a pattern: bind the reference, dereference it first thing
struct RefPats<'a> {
    n: usize,
    notes: &'a mut BTreeSet<String>,
}
struct Strip<'b> {
    n: &'b mut usize,
    depth: usize,
    lets: Vec<Stmt>,
    bad: bool,
}
impl<'b> VisitMut for Strip<'b> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_some() {
                self.bad = true;
                return;
            }
            let mut inner = (*r.pat).clone();
            self.depth += 1;
            // below a constructor the binding is to a part of what one `&` refers to
            let d = self.depth;
            if !matches!(inner, Pat::Ident(_) | Pat::Reference(_) | Pat::Wild(_)) {
                self.depth = 1;
            }
            self.visit_pat_mut(&mut inner);
            self.depth = d - 1;
            *p = inner;
            return;
        }
        if self.depth > 0 {
            match p {
                Pat::Ident(i) => {
                    if i.by_ref.is_some() || i.subpat.is_some() {
                        self.bad = true;
                        return;
                    }
                    let own = i.ident.clone();
                    let f = format_ident!("__rp{}_{}", *self.n, own);
                    *self.n += 1;
                    let m = i.mutability.take();
                    let mut v: Expr = parse_quote!(#f);
                    for _ in 0..self.depth {
                        v = parse_quote!(*#v);
                    }
                    self.lets.push(parse_quote!(let #m #own = #v;));
                    i.ident = f;
                    return;
                }
                Pat::Lit(_) | Pat::Wild(_) | Pat::Tuple(_) | Pat::TupleStruct(_) | Pat::Struct(_) | Pat::Path(_) | Pat::Rest(_) => {}
                _ => {
                    self.bad = true;
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl<'a> RefPats<'a> {
    fn strip(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut q = p.clone();
        let mut s = Strip { n: &mut self.n, depth: 0, lets: vec![], bad: false };
        s.visit_pat_mut(&mut q);
        if s.bad || norm(&q.to_token_stream().to_string()) == norm(&p.to_token_stream().to_string()) {
            return vec![];
        }
        let l = s.lets;
        *p = q;
        self.notes.insert("R0 `&` patterns written as dereferences".into());
        l
    }
}
fn in_front(l: &[Stmt], e: &Expr) -> Expr {
    match e {
        Expr::Block(b) if b.label.is_none() => {
            let st = &b.block.stmts;
            parse_quote!({ #(#l)* #(#st)* })
        }
        e => parse_quote!({ #(#l)* #e }),
    }
}
impl<'a> VisitMut for RefPats<'a> {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let l = self.strip(&mut a.pat);
        if !l.is_empty() {
            a.body = Box::new(in_front(&l, &a.body));
            if let Some((_, g)) = &mut a.guard {
                **g = in_front(&l, g);
            }
            a.comma = Some(Default::default());
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if let Expr::Let(c) = &mut *i.cond {
            let l = self.strip(&mut c.pat);
            i.then_branch.stmts.splice(0..0, l);
        }
    }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        visit_mut::visit_expr_while_mut(self, i);
        if let Expr::Let(c) = &mut *i.cond {
            let l = self.strip(&mut c.pat);
            i.body.stmts.splice(0..0, l);
        }
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        let l = self.strip(&mut f.pat);
        f.body.stmts.splice(0..0, l);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        let mut all = vec![];
        for p in c.inputs.iter_mut() {
            all.extend(match p {
                Pat::Type(t) => {
                    // the type would have to follow
                    let mut q = (*t.pat).clone();
                    if matches!(q, Pat::Reference(_)) { vec![] } else { let l = self.strip(&mut q); t.pat = Box::new(q); l }
                }
                p => self.strip(p),
            });
        }
        if !all.is_empty() {
            c.body = Box::new(in_front(&all, &c.body));
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Local(mut l) => {
                    let mut lets = vec![];
                    if !matches!(l.pat, Pat::Type(_)) {
                        lets = self.strip(&mut l.pat);
                    }
                    out.push(Stmt::Local(l));
                    out.extend(lets);
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
}

/// `if let Some(p) = it.position(f) { ...; return }` and the like
struct Searches<'a> {
    notes: &'a mut BTreeSet<String>,
}
fn names_in<T: ToTokens>(t: &T) -> BTreeSet<String> {
    t.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect()
}
struct Bound(BTreeSet<String>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
        self.0.insert(i.ident.to_string());
        syn::visit::visit_pat_ident(self, i);
    }
}
fn bound(p: &Pat) -> BTreeSet<String> {
    let mut b = Bound(Default::default());
    b.visit_pat(p);
    b.0
}
struct Jumps(bool, bool);
impl<'ast> Visit<'ast> for Jumps {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Break(_) | Expr::Continue(_) => self.0 = true,
            Expr::Return(_) | Expr::Try(_) => self.1 = true,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
fn leaves(b: &Block) -> bool {
    let mut j = Jumps(false, false);
    j.visit_block(b);
    !j.0 && matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}
/// only used as the receiver of a method or the base of a field
struct Plain {
    name: String,
    other: bool,
}
impl<'ast> Visit<'ast> for Plain {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::MethodCall(m) => {
                if !is_var(&m.receiver, &self.name) {
                    self.visit_expr(&m.receiver);
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            Expr::Field(f) if is_var(&f.base, &self.name) => {}
            e if is_var(e, &self.name) => self.other = true,
            e => syn::visit::visit_expr(self, e),
        }
    }
}
fn is_var(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(n))
}
struct RenameVar<'a>(&'a str, &'a str);
impl<'a> VisitMut for RenameVar<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(self.0) {
            p.path = Path::from(format_ident!("{}", self.1));
        }
    }
}
struct AtIndex<'a> {
    v: String,
    p: &'a str,
    x: &'a str,
}
impl<'a> VisitMut for AtIndex<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Index(i) = e {
            if is_var(&i.index, self.p) && norm(&i.expr.to_token_stream().to_string()) == self.v {
                let x = format_ident!("{}", self.x);
                *e = parse_quote!(*#x);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn some_of(p: &Pat) -> Option<Pat> {
    let Pat::TupleStruct(t) = p else { return None };
    if t.elems.len() == 1 && t.path.segments.last().unwrap().ident == "Some" && !matches!(t.elems[0], Pat::Rest(_)) {
        Some(t.elems[0].clone())
    } else {
        None
    }
}
fn is_none(p: &Pat) -> bool {
    match p {
        Pat::Wild(_) => true,
        Pat::Ident(i) => i.ident == "None",
        Pat::Path(p) => p.path.segments.last().unwrap().ident == "None",
        _ => false,
    }
}
fn is_search(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_))
        && matches!(m.method.to_string().as_str(), "position" | "find" | "rposition") && matches!(*m.receiver, Expr::MethodCall(_)))
}

impl<'a> Searches<'a> {
    /// the loop for `if let Some(p) = search { then }`
    fn as_loop(&mut self, search: &Expr, p: &Pat, then: &Block) -> Option<Expr> {
        if !is_search(search) || !leaves(then) {
            return None;
        }
        let Expr::MethodCall(m) = search else { return None };
        let Expr::Closure(c) = &m.args[0] else { return None };
        if c.inputs.len() != 1 {
            return None;
        }
        let q = match &c.inputs[0] {
            Pat::Type(t) => (*t.pat).clone(),
            q => q.clone(),
        };
        let mut cond = (*c.body).clone();
        let mut j = Jumps(false, false);
        j.visit_expr(&cond);
        let (bp, bq) = (bound(p), bound(&q));
        let (nc, nt) = (names_in(&cond), names_in(then));
        if j.1 || bq.iter().any(|n| nt.contains(n)) || bp.iter().any(|n| nc.contains(n) && !bq.contains(n)) {
            return None;
        }
        let recv = &m.receiver;
        let st = &then.stmts;
        let r: Expr = match m.method.to_string().as_str() {
            "position" => {
                if bp.iter().any(|n| bq.contains(n)) {
                    return None;
                }
                parse_quote!(for (#p, #q) in #recv.enumerate() { if #cond { #(#st)* } })
            }
            "find" => {
                let (Pat::Ident(pi), Pat::Ident(qi)) = (p, &q) else {
                    let x = format_ident!("__found");
                    return Some(parse_quote!(for #x in #recv { if { let #q = &#x; #cond } { let #p = #x; #(#st)* } }));
                };
                let (pn, qn) = (pi.ident.to_string(), qi.ident.to_string());
                let mut pl = Plain { name: qn.clone(), other: false };
                pl.visit_expr(&cond);
                if pl.other {
                    let x = &pi.ident;
                    parse_quote!(for #x in #recv { if { let #q = &#x; #cond } { #(#st)* } })
                } else {
                    RenameVar(&qn, &pn).visit_expr_mut(&mut cond);
                    let x = &pi.ident;
                    parse_quote!(for #x in #recv { if #cond { #(#st)* } })
                }
            }
            _ => {
                // rposition over a vector that the way out assigns to
                let (Pat::Ident(pi), Pat::Ident(qi)) = (p, &q) else { return None };
                let Expr::MethodCall(it) = &**recv else { return None };
                if it.method != "iter" {
                    return None;
                }
                let v = &it.receiver;
                let mut then = then.clone();
                let (pn, qn) = (pi.ident.to_string(), qi.ident.to_string());
                AtIndex { v: norm(&v.to_token_stream().to_string()), p: &pn, x: &qn }.visit_block_mut(&mut then);
                if names_in(&then).contains(&pn) {
                    return None;
                }
                let st = &then.stmts;
                parse_quote!(for #q in #v.iter_mut().rev() { if #cond { #(#st)* } })
            }
        };
        self.notes.insert("R14 search that leaves the function on success written as a loop".into());
        Some(r)
    }
}
impl<'a> VisitMut for Searches<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // `let f = it.find(..); if let Some(p) = f { .. }`
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut go = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(f), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && f.mutability.is_none() && f.by_ref.is_none() && is_search(&init.expr) {
                        let n = f.ident.to_string();
                        let used = b.stmts[i + 2..].iter().any(|s| names_in(s).contains(&n));
                        if !used {
                            go = Some((n, (*init.expr).clone()));
                        }
                    }
                }
            }
            if let Some((n, search)) = go {
                let mut done = false;
                match &mut b.stmts[i + 1] {
                    Stmt::Expr(Expr::If(x), _) => {
                        if let Expr::Let(l) = &mut *x.cond {
                            if is_var(&l.expr, &n) && !names_in(&x.then_branch).contains(&n) {
                                *l.expr = search;
                                done = true;
                            }
                        }
                    }
                    Stmt::Expr(Expr::Match(x), _) => {
                        if is_var(&x.expr, &n) && !x.arms.iter().any(|a| names_in(a).contains(&n)) {
                            *x.expr = search;
                            done = true;
                        }
                    }
                    _ => {}
                }
                if done {
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut parts: Option<(Expr, Pat, Block, Option<Expr>)> = None;
            match &s {
                Stmt::Expr(Expr::If(x), _) => {
                    if let Expr::Let(l) = &*x.cond {
                        if let Some(p) = some_of(&l.pat) {
                            parts = Some(((*l.expr).clone(), p, x.then_branch.clone(), x.else_branch.as_ref().map(|e| (*e.1).clone())));
                        }
                    }
                }
                Stmt::Expr(Expr::Match(x), _) if x.arms.len() == 2 && x.arms.iter().all(|a| a.guard.is_none()) => {
                    let (a, c) = (&x.arms[0], &x.arms[1]);
                    let order = if some_of(&a.pat).is_some() && is_none(&c.pat) {
                        Some((a, c))
                    } else if some_of(&c.pat).is_some() && is_none(&a.pat) && !matches!(a.pat, Pat::Wild(_)) {
                        Some((c, a))
                    } else {
                        None
                    };
                    if let Some((a, c)) = order {
                        let then: Block = match &*a.body {
                            Expr::Block(b) if b.label.is_none() => b.block.clone(),
                            e => parse_quote!({ #e }),
                        };
                        parts = Some(((*x.expr).clone(), some_of(&a.pat).unwrap(), then, Some((*c.body).clone())));
                    }
                }
                _ => {}
            }
            if let Some((search, p, then, els)) = parts {
                if let Some(l) = self.as_loop(&search, &p, &then) {
                    out.push(Stmt::Expr(l, None));
                    match els {
                        None => {}
                        Some(Expr::Tuple(t)) if t.elems.is_empty() => {}
                        Some(Expr::Block(b)) if b.label.is_none() && b.block.stmts.is_empty() => {}
                        Some(e) => {
                            let semi = match &s {
                                Stmt::Expr(_, s) => s.clone(),
                                _ => None,
                            };
                            out.push(Stmt::Expr(e, semi));
                        }
                    }
                    continue;
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

/// Shapes with a plainer equivalent: values named only to be used at once, a `return` in the last
/// place, `into_iter()` on what a `for` loop runs over, loops that are a `while let`.
struct Plainly<'a> {
    notes: &'a mut BTreeSet<String>,
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}
fn is_name(e: &Expr, n: &Ident) -> bool {
    matches!(unparen(e), Expr::Path(p) if p.qself.is_none() && p.path.is_ident(n))
}
/// `let n = e;`
fn plain_let(s: &Stmt) -> Option<(Ident, bool, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let Pat::Ident(i) = &l.pat else { return None };
    let init = l.init.as_ref()?;
    if i.by_ref.is_some() || i.subpat.is_some() || init.diverge.is_some() {
        return None;
    }
    Some((i.ident.clone(), i.mutability.is_some(), (*init.expr).clone()))
}
fn is_break(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, _) => is_break(e),
            _ => false,
        },
        _ => false,
    }
}
fn body_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
impl<'a> Plainly<'a> {
    fn note(&mut self) {
        self.notes.insert("R0 shapes with a plainer equivalent (names used once, `return` in the last place, loops that are a `while let` or a `for`) written plainly".into());
    }
    /// the value of this block is the value of the function
    fn last(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
            let r = r.expr.clone();
            b.stmts.pop();
            if let Some(e) = r {
                b.stmts.push(Stmt::Expr(*e, None));
            }
            self.note();
        }
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.last_expr(e);
        }
    }
    fn last_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                let r = r.expr.clone();
                *e = match r {
                    Some(e) => *e,
                    None => parse_quote!({}),
                };
                self.note();
                self.last_expr(e);
            }
            Expr::Block(b) if b.label.is_none() => self.last(&mut b.block),
            Expr::If(i) => {
                self.last(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.last_expr(e);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.last_expr(&mut a.body);
                    a.comma = Some(Default::default());
                }
            }
            _ => {}
        }
    }
    fn while_let(l: &ExprLoop) -> Option<Expr> {
        if l.label.is_some() || l.body.stmts.is_empty() {
            return None;
        }
        let rest = &l.body.stmts[1..];
        match &l.body.stmts[0] {
            Stmt::Expr(Expr::If(i), _) if rest.is_empty() => {
                let Expr::Let(c) = &*i.cond else { return None };
                if !is_break(&i.else_branch.as_ref()?.1) {
                    return None;
                }
                let (p, x, b) = (&c.pat, &c.expr, &i.then_branch);
                Some(parse_quote!(while let #p = #x #b))
            }
            Stmt::Expr(Expr::Match(m), _) if rest.is_empty() && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let (p, x) = (&m.arms[0].pat, &m.expr);
                if !is_break(&m.arms[1].body) || matches!(p, Pat::Wild(_)) || is_break(&m.arms[0].body) {
                    return None;
                }
                let b = body_of(&m.arms[0].body);
                Some(parse_quote!(while let #p = #x { #(#b)* }))
            }
            Stmt::Local(lo) => {
                let init = lo.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if !is_break(d) {
                        return None;
                    }
                    let (p, x) = (&lo.pat, &init.expr);
                    return Some(parse_quote!(while let #p = #x { #(#rest)* }));
                }
                let Expr::Match(m) = &*init.expr else { return None };
                if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) || matches!(lo.pat, Pat::Type(_)) {
                    return None;
                }
                let k = m.arms.iter().position(|a| is_break(&a.body))?;
                let (keep, out) = (&m.arms[1 - k], &m.arms[k]);
                // the two patterns must exclude each other
                if k == 0 && !matches!(&out.pat, Pat::Ident(i) if i.ident == "None") && !matches!(&out.pat, Pat::Path(_)) {
                    return None;
                }
                let Pat::TupleStruct(t) = &keep.pat else { return None };
                if t.elems.len() != 1 {
                    return None;
                }
                let Pat::Ident(v) = &t.elems[0] else { return None };
                if v.by_ref.is_some() || v.subpat.is_some() || !is_name(&keep.body, &v.ident) {
                    return None;
                }
                let (c, p, x) = (&t.path, &lo.pat, &m.expr);
                Some(parse_quote!(while let #c(#p) = #x { #(#rest)* }))
            }
            _ => None,
        }
    }
}
impl<'a> Plainly<'a> {
    fn plainer(&mut self, e: &mut Expr) -> Option<Expr> {
        // `{ x }` as an argument
        let args = match e {
            Expr::Call(c) => Some(&mut c.args),
            Expr::MethodCall(m) => Some(&mut m.args),
            _ => None,
        };
        for a in args.into_iter().flat_map(|a| a.iter_mut()) {
            let inner = match &*a {
                Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                    Stmt::Expr(x, None) => x.clone(),
                    _ => continue,
                },
                _ => continue,
            };
            *a = inner;
            self.note();
        }
        match e {
            // a `match` on a truth value
            Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let t = m.arms.iter().position(|a| matches!(&a.pat, Pat::Lit(l) if l.to_token_stream().to_string() == "true"));
                let f = m.arms.iter().position(|a| matches!(&a.pat, Pat::Lit(l) if l.to_token_stream().to_string() == "false"));
                let k = t.or(f.map(|f| 1 - f))?;
                let other = &m.arms[1 - k].pat;
                if t.is_none() && f.is_none() || !(matches!(other, Pat::Wild(_)) || matches!(other, Pat::Lit(_))) || f.is_none() && k != 0 && !matches!(other, Pat::Lit(_)) {
                    return None;
                }
                if t.is_none() && f == Some(1) {
                    return None;
                }
                let (c, a, b) = (&m.expr, body_of(&m.arms[k].body), body_of(&m.arms[1 - k].body));
                if b.is_empty() {
                    Some(parse_quote!(if #c { #(#a)* }))
                } else {
                    Some(parse_quote!(if #c { #(#a)* } else { #(#b)* }))
                }
            }
            // a closure called where it stands
            Expr::Call(c) => {
                let Expr::Closure(f) = unparen(&c.func) else { return None };
                if f.inputs.len() != c.args.len() || f.capture.is_some() || c.args.len() > 1 {
                    return None;
                }
                if !f.inputs.iter().all(|p| matches!(p, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none())) || names_in(&f.body).contains("return") || names_in(&f.body).contains("?") {
                    return None;
                }
                if f.body.to_token_stream().to_string().contains('?') {
                    return None;
                }
                let (p, a, b) = (f.inputs.iter(), c.args.iter(), body_of(&f.body));
                Some(parse_quote!({ #(let #p = #a;)* #(#b)* }))
            }
            // the items of a vector pushed one by one
            Expr::ForLoop(f) if f.label.is_none() && f.body.stmts.len() == 1 && matches!(unparen(&f.expr), Expr::Path(_)) => {
                let Pat::Ident(p) = &*f.pat else { return None };
                let Stmt::Expr(Expr::MethodCall(m), _) = &f.body.stmts[0] else { return None };
                if m.method != "push" || m.args.len() != 1 || !is_name(&m.args[0], &p.ident) {
                    return None;
                }
                let r = root(&m.receiver)?;
                if names_in(&f.expr).contains(&r) {
                    return None;
                }
                let (r, x) = (&m.receiver, &f.expr);
                Some(parse_quote!(#r.extend(#x)))
            }
            // values pushed one by one
            Expr::ForLoop(f) if f.label.is_none() && f.body.stmts.len() == 1 && has_iter(&f.expr) => {
                let Stmt::Expr(Expr::MethodCall(m), _) = &f.body.stmts[0] else { return None };
                if m.method != "push" || m.args.len() != 1 || !matches!(&*f.pat, Pat::Ident(_)) {
                    return None;
                }
                let (r, x, v, p) = (&m.receiver, &f.expr, &m.args[0], &f.pat);
                let n = root(r)?;
                let t = v.to_token_stream().to_string();
                if t.contains('?') || t.contains("return") || t.contains("break") || t.contains("continue") || t.contains('!') || names_in(x).contains(&n) || names_in(v).contains(&n) {
                    return None;
                }
                if is_name(v, match &**p { Pat::Ident(i) => &i.ident, _ => return None }) {
                    return None;
                }
                Some(parse_quote!(#r.extend(#x.map(|#p| #v).collect::<Vec<_>>())))
            }
            // what is computed item by item, computed before it is appended
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 => {
                let Expr::MethodCall(a) = unparen(&m.args[0]) else { return None };
                if !matches!(a.method.to_string().as_str(), "map" | "filter" | "filter_map") || a.args.len() != 1 {
                    return None;
                }
                let n = root(&m.receiver)?;
                if names_in(a).contains(&n) {
                    return None;
                }
                let r = &m.receiver;
                Some(parse_quote!(#r.extend(#a.collect::<Vec<_>>())))
            }
            // `.map(|v| v.clone())` on what is iterated over by reference
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
                let Expr::MethodCall(r) = unparen(&m.receiver) else { return None };
                if r.method != "iter" || !r.args.is_empty() {
                    return None;
                }
                let Expr::Closure(c) = &m.args[0] else { return None };
                let (Some(Pat::Ident(p)), Expr::MethodCall(b)) = (c.inputs.first(), unparen(&c.body)) else { return None };
                if b.method != "clone" || !b.args.is_empty() || !is_name(&b.receiver, &p.ident) {
                    return None;
                }
                let r = &m.receiver;
                Some(parse_quote!(#r.cloned()))
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Plainly<'a> {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        self.last(&mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.last(&mut f.block);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        visit_mut::visit_trait_item_fn_mut(self, f);
        if let Some(b) = &mut f.default {
            self.last(b);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        self.last_expr(&mut c.body);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.visit_for_only(e);
        let new = self.plainer(e);
        if let Some(n) = new {
            *e = n;
            self.note();
        }
        if let Expr::Loop(l) = e {
            if let Some(w) = Self::while_let(l) {
                *e = w;
                self.note();
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // a block that binds nothing needs no braces; nor does one with nothing behind it
        let mut k = 0;
        while k < b.stmts.len() {
            let last = k + 1 == b.stmts.len();
            let inner = match &b.stmts[k] {
                Stmt::Expr(Expr::Block(i), semi) if i.label.is_none() && i.attrs.is_empty() => {
                    let own = i.block.stmts.iter().any(|s| matches!(s, Stmt::Local(_) | Stmt::Item(_) | Stmt::Macro(_)));
                    let value = matches!(i.block.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_)));
                    if (last && semi.is_none()) || (!own && !value) { Some(i.block.stmts.clone()) } else { None }
                }
                _ => None,
            };
            match inner {
                Some(x) => {
                    b.stmts.splice(k..k + 1, x);
                    self.note();
                }
                None => k += 1,
            }
        }
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let Some((n, mutable, e)) = plain_let(&b.stmts[i]) else {
                i += 1;
                continue;
            };
            let later = names_in(&Block { brace_token: Default::default(), stmts: b.stmts[i + 2..].to_vec() }).contains(&n.to_string());
            let new = match &b.stmts[i + 1] {
                Stmt::Expr(t, None) if i + 2 == b.stmts.len() && is_name(t, &n) => Some(Stmt::Expr(e, None)),
                Stmt::Expr(Expr::If(f), semi) if !mutable && !later && is_name(&f.cond, &n) => {
                    let mut g = f.clone();
                    g.cond = Box::new(parse_quote!(true));
                    if names_in(&g).contains(&n.to_string()) {
                        None
                    } else {
                        g.cond = Box::new(e);
                        Some(Stmt::Expr(Expr::If(g), *semi))
                    }
                }
                Stmt::Expr(Expr::MethodCall(m), semi) if !mutable && !later && m.args.first().map_or(false, |a| is_name(a, &n)) => {
                    let mut g = m.clone();
                    g.args[0] = parse_quote!(());
                    match root(&m.receiver) {
                        Some(r) if !names_in(&g).contains(&n.to_string()) && !names_in(&e).contains(&r) && !matches!(e, Expr::Closure(_)) => {
                            g.args[0] = e;
                            Some(Stmt::Expr(Expr::MethodCall(g), *semi))
                        }
                        _ => None,
                    }
                }
                Stmt::Expr(Expr::Call(m), semi) if !mutable && !later && matches!(&*m.func, Expr::Path(_)) && m.args.first().map_or(false, |a| is_name(a, &n)) => {
                    let mut g = m.clone();
                    g.args[0] = parse_quote!(());
                    if names_in(&g).contains(&n.to_string()) || matches!(e, Expr::Closure(_)) {
                        None
                    } else {
                        g.args[0] = e;
                        Some(Stmt::Expr(Expr::Call(g), *semi))
                    }
                }
                Stmt::Expr(Expr::While(w), semi) if mutable && !later && w.label.is_none() => match &*w.cond {
                    Expr::Let(c) => match (&*c.pat, unparen(&c.expr)) {
                        (Pat::TupleStruct(t), Expr::MethodCall(m))
                            if t.path.segments.last().unwrap().ident == "Some" && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() && is_name(&m.receiver, &n) && !names_in(&w.body).contains(&n.to_string()) && has_iter(&e) =>
                        {
                            let (p, body) = (&t.elems[0], &w.body);
                            let mut x: Expr = parse_quote!(for #p in #e #body);
                            self.visit_for_only(&mut x);
                            Some(Stmt::Expr(x, *semi))
                        }
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            match new {
                Some(s) => {
                    b.stmts.splice(i..i + 2, [s]);
                    self.note();
                    i = i.saturating_sub(1);
                }
                None => i += 1,
            }
        }
    }
}
/// `a` of `a.b.c`
fn root(e: &Expr) -> Option<String> {
    match unparen(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        _ => None,
    }
}
/// an iterator made here, not one the caller goes on using
fn has_iter(e: &Expr) -> bool {
    matches!(unparen(e), Expr::MethodCall(m) if !matches!(m.method.to_string().as_str(), "by_ref" | "take" | "borrow_mut" | "as_mut"))
}
impl<'a> Plainly<'a> {
    fn visit_for_only(&mut self, e: &mut Expr) {
        let Expr::ForLoop(f) = e else { return };
        loop {
            let r = match unparen(&f.expr) {
                Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() && !matches!(unparen(&m.receiver), Expr::Index(_)) => (*m.receiver).clone(),
                _ => break,
            };
            f.expr = Box::new(unparen(&r).clone());
            self.note();
        }
    }
}
