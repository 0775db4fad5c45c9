//! Lowering of function bodies into the subset of Rust that Verus accepts.
//! Every rule is a syntactic, semantics-preserving rewrite; what a rule cannot
//! handle is reported, and the function is then left out of the proof.
use crate::util::norm;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Iter,
    Res,
    Other,
}

#[derive(Clone)]
pub struct RegFn {
    pub sig: Signature,
    pub block: Block,
    pub module: String,
}

/// Functions of the crate, by "module::Type::name".
#[derive(Default)]
pub struct Registry {
    pub fns: BTreeMap<String, RegFn>,
}

#[derive(Clone)]
pub struct Hole(pub Expr);

pub type Chain = Vec<Hole>;

#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub kind: String,
    /// variables the lowering introduced: role -> name
    pub vars: BTreeMap<String, String>,
}

pub struct Lower<'a> {
    pub reg: &'a Registry,
    pub module: String,
    pub self_kind: Kind,
    pub errs: Vec<String>,
    pub notes: BTreeSet<String>,
    pub fresh: usize,
    pub loops: Vec<LoopInfo>,
    pub env: Vec<(String, Kind)>,
    pub closures: Vec<(String, ExprClosure)>,
    pub ret: Option<Chain>,
    /// what the function returns, for the `?` operator
    pub ret_kind: Kind,
    /// generic names whose Fn bound takes a `&mut` first argument
    pub updaters: BTreeSet<String>,
    /// helper functions to inline: name -> registry key
    pub helpers: BTreeMap<String, Vec<String>>,
    /// the type the function belongs to
    pub own: String,
    /// names an inlined body may not bind
    pub taken: BTreeSet<String>,
    pub depth: usize,
    pub nclosures: usize,
    pub nsnap: usize,
    pub called: BTreeSet<String>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

pub fn pe(ts: TokenStream) -> Expr {
    parse2::<Expr>(ts.clone()).unwrap_or_else(|e| panic!("internal: {e}: {ts}"))
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

pub fn expr_path(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => Some(path_str(&p.path)),
        Expr::Paren(p) => expr_path(&p.expr),
        _ => None,
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => {
            if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                strip(x)
            } else {
                e
            }
        }
        _ => e,
    }
}

fn as_closure(e: &Expr) -> Option<ExprClosure> {
    match strip(e) {
        Expr::Closure(c) => Some(c.clone()),
        _ => None,
    }
}

/// marker for "a `return` in here returns from an inlined closure or function"
fn scope(e: Expr) -> Expr {
    let b: Block = match e {
        Expr::Block(ExprBlock { block, label: None, .. }) => block,
        e => parse_quote!({ #e }),
    };
    Expr::Const(ExprConst { attrs: vec![], const_token: Default::default(), block: b })
}

struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

/// substitute a single-identifier path by an expression
struct Subst<'a> {
    from: &'a str,
    to: Expr,
    count: usize,
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].ident == self.from {
                *e = self.to.clone();
                self.count += 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    // a name bound again hides the one being replaced
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if !binds(&a.pat, self.from) {
            if let Some((_, g)) = &mut a.guard {
                self.visit_expr_mut(g);
            }
            self.visit_expr_mut(&mut a.body);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                if let Some(i) = &mut l.init {
                    self.visit_expr_mut(&mut i.expr);
                    if let Some((_, d)) = &mut i.diverge {
                        self.visit_expr_mut(d);
                    }
                }
                if binds(&l.pat, self.from) {
                    return;
                }
            } else {
                self.visit_stmt_mut(s);
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        if !c.inputs.iter().any(|p| binds(p, self.from)) {
            self.visit_expr_mut(&mut c.body);
        }
    }
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        self.visit_expr_mut(&mut l.expr);
        if !binds(&l.pat, self.from) {
            self.visit_block_mut(&mut l.body);
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.visit_expr_mut(&mut i.cond);
        if !cond_binds(&i.cond, self.from) {
            self.visit_block_mut(&mut i.then_branch);
        }
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.visit_expr_mut(&mut w.cond);
        if !cond_binds(&w.cond, self.from) {
            self.visit_block_mut(&mut w.body);
        }
    }
    fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
        self.visit_expr_mut(&mut b.left);
        if !(matches!(b.op, BinOp::And(_)) && cond_binds(&b.left, self.from)) {
            self.visit_expr_mut(&mut b.right);
        }
    }
}
fn binds(p: &Pat, name: &str) -> bool {
    let mut b = Binders(Default::default());
    syn::visit::Visit::visit_pat(&mut b, p);
    b.0.contains(name)
}
fn cond_binds(c: &Expr, name: &str) -> bool {
    match c {
        Expr::Let(l) => binds(&l.pat, name),
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => cond_binds(&b.left, name) || cond_binds(&b.right, name),
        Expr::Paren(p) => cond_binds(&p.expr, name),
        _ => false,
    }
}
pub fn subst(e: &mut Expr, from: &str, to: Expr) -> usize {
    let mut s = Subst { from, to, count: 0 };
    s.visit_expr_mut(e);
    s.count
}
pub fn subst_block(e: &mut Block, from: &str, to: Expr) -> usize {
    let mut s = Subst { from, to, count: 0 };
    s.visit_block_mut(e);
    s.count
}

/// rename the identifiers bound in a body
struct Binders(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0.insert(s);
        }
    }
}
/// mentions one of the names (macros and nested patterns count as well)
struct Uses<'a> {
    names: &'a BTreeSet<String>,
    hit: bool,
}
impl<'a, 'b> syn::visit::Visit<'b> for Uses<'a> {
    fn visit_ident(&mut self, i: &'b Ident) {
        if self.names.contains(&i.to_string()) {
            self.hit = true;
        }
    }
    fn visit_macro(&mut self, _m: &'b Macro) {
        self.hit = true;
    }
}
struct Rename<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = id(n);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.segments[0].arguments.is_none() {
            if let Some(n) = self.0.get(&p.segments[0].ident.to_string()) {
                p.segments[0].ident = id(n);
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// names of the module a body comes from
struct Qualify<'a>(&'a str, BTreeSet<String>);
impl<'a> VisitMut for Qualify<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let first = p.segments[0].ident.to_string();
        let own = p.segments.len() > 1 && self.1.contains(&first);
        if (own || self.0 == "parser" && first == "Result") && p.leading_colon.is_none() {
            let rest = p.segments.clone();
            let m = id(self.0);
            let q: Path = parse_quote!(crate::#m::#rest);
            *p = q;
        }
        visit_mut::visit_path_mut(self, p);
    }
}

impl<'a> Lower<'a> {
    fn fresh(&mut self, s: &str) -> Ident {
        self.fresh += 1;
        id(&format!("{s}{}", self.fresh))
    }
    fn err(&mut self, s: impl Into<String>) {
        self.errs.push(s.into());
    }
    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }

    pub fn kind(&self, e: &Expr) -> Kind {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "parse_internal" | "try_map" | "map_err" => Kind::Res,
                    "parse_with_recovery" | "parse_with_recovery_and_location" => Kind::Res,
                    "iter" | "viter" | "into_iter" | "iter_mut" | "get_iter" | "chars" | "vchars" | "rev"
                    | "enumerate" | "filter_map" | "drain" | "drain_all" | "zip" | "skip" | "take" | "errors"
                    | "take_while" | "skip_while" | "map_while" | "inspect" | "chain" | "flat_map" => {
                        Kind::Iter
                    }
                    "filter" | "map" | "cloned" | "copied" => match self.kind(&m.receiver) {
                        Kind::Other => Kind::Opt,
                        k => k,
                    },
                    "recover" | "token" | "token_at" | "as_ref" | "or_else" | "or" | "and_then" | "get"
                    | "last" | "first" | "pop" | "next" | "min" | "max" | "upgrade" | "find" | "position"
                    | "checked_sub" | "checked_add" | "min_by_key" | "max_by_key" | "ok" => Kind::Opt,
                    n => self.known(n),
                }
            }
            Expr::Call(c) => match expr_path(&c.func).as_deref() {
                Some(p) if p.ends_with("parse_internal") => Kind::Res,
                Some(p) if p.ends_with("Recover::recover") => Kind::Opt,
                Some(p) if p.ends_with("Some") || p.ends_with("opt_cloned") => Kind::Opt,
                Some(p) if p.ends_with("IntoIterator::into_iter") || p.ends_with("iter::once") => Kind::Iter,
                Some(p)
                    if p.ends_with("Result::Success")
                        || p.ends_with("Result::Recovered")
                        || p.ends_with("Result::Failed") =>
                {
                    Kind::Res
                }
                Some(p) => self.known(p.rsplit("::").next().unwrap()),
                _ => Kind::Other,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) if self.kind(e) != Kind::Other => self.kind(e),
                _ => i.else_branch.as_ref().map_or(Kind::Other, |(_, e)| self.kind(e)),
            },
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if s == "self" {
                    return self.self_kind;
                }
                for (n, k) in self.env.iter().rev() {
                    if *n == s {
                        return *k;
                    }
                }
                Kind::Other
            }
            Expr::Match(m) => m
                .arms
                .iter()
                .map(|a| self.kind(&a.body))
                .find(|k| *k != Kind::Other)
                .unwrap_or(Kind::Other),
            Expr::Const(c) => match c.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            Expr::Block(c) => match c.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            Expr::Reference(r) => self.kind(&r.expr),
            _ => Kind::Other,
        }
    }

    /// what the functions of the crate with this name return
    fn known(&self, name: &str) -> Kind {
        let mut k = None;
        for (key, f) in &self.reg.fns {
            if key.rsplit("::").next() == Some(name) {
                let r = match &f.sig.output {
                    ReturnType::Type(_, t) => Self::type_kind(t),
                    _ => Kind::Other,
                };
                if k.map_or(false, |k| k != r) {
                    return Kind::Other;
                }
                k = Some(r);
            }
        }
        k.unwrap_or(Kind::Other)
    }

    pub fn type_kind(ty: &Type) -> Kind {
        match ty {
            Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                "Option" => Kind::Opt,
                "Result" | "FmtResult" => Kind::Res,
                _ => Kind::Other,
            },
            Type::Reference(r) => Self::type_kind(&r.elem),
            _ => Kind::Other,
        }
    }

    /// apply a function value (closure, path, `&self.field`) to arguments
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        if let Some(p) = expr_path(f) {
            if let Some((_, c)) = self.closures.iter().rev().find(|(n, _)| *n == p).cloned() {
                return self.beta(&c, args);
            }
        }
        match strip(f) {
            Expr::Closure(c) => self.beta(&c.clone(), args),
            Expr::Reference(r) => {
                let x = &r.expr;
                pe(quote!((#x)(#(#args),*)))
            }
            Expr::Path(_) => {
                let x = strip(f).clone();
                pe(quote!(#x(#(#args),*)))
            }
            x => {
                let x = x.clone();
                pe(quote!((#x)(#(#args),*)))
            }
        }
    }

    fn beta(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
        if c.inputs.len() != args.len() {
            self.err("closure arity");
            return pe(quote!(()));
        }
        let mut body = (*c.body).clone();
        let mut pats: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        for (p, a) in c.inputs.iter().zip(args) {
            let p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            if let (Pat::Ident(pi), Some(an)) = (&p, expr_path(&a)) {
                if pi.mutability.is_none() && pi.by_ref.is_none() {
                    let pn = pi.ident.to_string();
                    let mut inner = Binders(Default::default());
                    syn::visit::Visit::visit_expr(&mut inner, &body);
                    if pn == an || !inner.0.contains(&an) {
                        if pn != an {
                            subst(&mut body, &pn, a.clone());
                        }
                        continue;
                    }
                }
            }
            pats.push(p);
            vals.push(a);
        }
        let inner = scope(body);
        match pats.len() {
            0 => inner,
            1 => {
                let (p, v) = (&pats[0], &vals[0]);
                pe(quote!({ let #p = #v; #inner }))
            }
            _ => pe(quote!({ let (#(#pats),*) = (#(#vals),*); #inner })),
        }
    }

    /// pattern and body of a one-argument function value, for use in a match arm
    fn arm1(&mut self, f: &Expr) -> (Pat, Expr) {
        if let Some(c) = as_closure(f) {
            if c.inputs.len() == 1 {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                return (p, scope((*c.body).clone()));
            }
        }
        let x = self.fresh("__x");
        let a = self.apply(f, vec![pe(quote!(#x))]);
        (parse_quote!(#x), a)
    }

    fn arm0(&mut self, f: &Expr) -> Expr {
        if let Some(c) = as_closure(f) {
            if c.inputs.is_empty() {
                return scope((*c.body).clone());
            }
        }
        self.apply(f, vec![])
    }

    fn is_simple(e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => Self::is_simple(&f.base),
            Expr::Reference(r) => Self::is_simple(&r.expr),
            Expr::Unary(u) => Self::is_simple(&u.expr),
            Expr::Binary(b) => Self::is_simple(&b.left) && Self::is_simple(&b.right),
            Expr::Tuple(t) => t.elems.iter().all(Self::is_simple),
            Expr::MethodCall(m) => {
                matches!(m.method.to_string().as_str(), "index" | "len" | "is_empty")
                    && m.args.is_empty()
                    && Self::is_simple(&m.receiver)
            }
            _ => false,
        }
    }

    /// the function without a contract a call of `name` reaches; `ty` is the type it is called on
    fn helper(&self, name: &str, ty: Option<&str>) -> Option<String> {
        let keys = self.helpers.get(name)?;
        let parts = |k: &String| k.split("::").map(|s| s.to_string()).collect::<Vec<_>>();
        let fit: Vec<&String> = keys
            .iter()
            .filter(|k| {
                let p = parts(k);
                match ty {
                    None => p.len() == 2 && p[0] == self.module,
                    Some("Self") => p.len() == 3 && p[0] == self.module && p[1] == self.own,
                    Some("?") => false,
                    Some(t) => p.len() == 3 && p[1] == t || p.len() == 2 && p[0] == t,
                }
            })
            .collect();
        if fit.len() == 1 {
            return Some(fit[0].clone());
        }
        // a name only one function has needs no type
        let far = match ty {
            None => keys[0].split("::").count() == 2,
            Some(t) => matches!(t, "Self" | "?" | "super" | "crate" | "self"),
        };
        if keys.len() == 1 && far { Some(keys[0].clone()) } else { None }
    }

    fn inline_fn(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let rf = self.reg.fns.get(key)?.clone();
        if self.depth > 12 {
            self.err("inlining too deep");
            return None;
        }
        let mut block = rf.block.clone();
        // fresh names for the callee's locals
        let mut b = Binders(Default::default());
        syn::visit::Visit::visit_block(&mut b, &block);
        self.fresh += 1;
        let n = self.fresh;
        let map: BTreeMap<String, String> =
            b.0.iter().filter(|s| *s != "_" && self.taken.contains(*s)).map(|s| (s.clone(), format!("{s}_v{n}"))).collect();
        self.taken.extend(b.0.iter().cloned());
        Rename(&map).visit_block_mut(&mut block);
        let names: BTreeSet<String> = if rf.module == self.module {
            Default::default()
        } else {
            let pre = format!("{}::", rf.module);
            self.reg.fns.keys().filter_map(|k| k.strip_prefix(&pre)).map(|k| k.split("::").next().unwrap().to_string()).collect()
        };
        Qualify(&rf.module, names).visit_block_mut(&mut block);
        let mut lets: Vec<TokenStream> = vec![];
        let mut argi = args.into_iter();
        let mut pairs: Vec<(String, bool, Expr)> = vec![];
        for inp in rf.sig.inputs.iter() {
            match inp {
                FnArg::Receiver(r) => {
                    let m = r.mutability.is_some() && r.reference.is_none();
                    pairs.push(("self".into(), m, recv.clone()?))
                }
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => {
                        let nm = p.ident.to_string();
                        let nm2 = map.get(&nm).cloned().unwrap_or(nm);
                        pairs.push((nm2, p.mutability.is_some(), argi.next()?))
                    }
                    Pat::Wild(_) => {
                        let a = argi.next()?;
                        lets.push(quote!(let _ = #a;));
                    }
                    _ => return None,
                },
            }
        }
        // two-step substitution keeps arguments from being captured
        for (nm, is_mut, val) in pairs {
            let ph = format!("__vparg_{n}_{nm}");
            let count = subst_block(&mut block, &nm, pe({
                let i = id(&ph);
                quote!(#i)
            }));
            let fnval = as_closure(&val).is_some()
                || matches!(strip(&val), Expr::Reference(r) if !matches!(*r.expr, Expr::Path(_)) && rf_is_fn(&rf.sig, &nm, n));
            if is_mut {
                // the parameter keeps its name where that hides nothing else
                let same = expr_path(&val).map_or(false, |v| v == nm) || !self.taken.contains(&nm);
                let t = if same && nm != "self" { id(&nm) } else { id(&format!("{nm}_a{n}")) };
                lets.push(quote!(let mut #t = #val;));
                subst_block(&mut block, &ph, pe(quote!(#t)));
            } else if fnval || expr_path(&val).is_some() || rf_is_fn(&rf.sig, &nm, n) {
                // applied in place
                let mut ap = ApplyHole { name: ph.clone(), f: val.clone(), l: self };
                ap.visit_block_mut(&mut block);
                subst_block(&mut block, &ph, val);
            } else if let Expr::Reference(r) = strip(&val) {
                // `&mut x` / `&x` handed to a parameter
                if expr_path(&r.expr).is_some() {
                    subst_block(&mut block, &ph, pe(quote!((#val))));
                } else {
                    let t = id(&format!("{nm}_a{n}"));
                    lets.push(quote!(let #t = #val;));
                    subst_block(&mut block, &ph, pe(quote!(#t)));
                }
            } else if count == 1 && nm == "self" && matches!(block.stmts.first(), Some(Stmt::Expr(Expr::Match(_), None))) {
                subst_block(&mut block, &ph, val);
            } else {
                let t = id(&format!("{nm}_a{n}"));
                lets.push(quote!(let #t = #val;));
                subst_block(&mut block, &ph, pe(quote!(#t)));
            }
        }
        let body = scope(Expr::Block(ExprBlock { attrs: vec![], label: None, block }));
        self.note(&format!("R5 call of {key} replaced by its extracted body"));
        Some(if lets.is_empty() { body } else { pe(quote!({ #(#lets)* #body })) })
    }

    pub fn block(&mut self, b: &mut Block, tail: Option<Chain>) {
        let nenv = self.env.len();
        let nclo = self.closures.len();
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        let mut stmts: std::collections::VecDeque<Stmt> = stmts.into();
        let mut i = 0;
        while let Some(s) = stmts.pop_front() {
            // the rest of the block is the continuation of a scope whose value
            // this statement takes
            if let (Some(t), false) = (&tail, stmts.is_empty()) {
                let (scoped, pat) = match &s {
                    Stmt::Local(l) => (l.init.as_ref().map_or(false, |x| x.diverge.is_none() && contains_scope(&x.expr)), Some(l.pat.clone())),
                    Stmt::Expr(e, Some(_)) => (contains_scope(e), None),
                    _ => (false, None),
                };
                if scoped {
                    let mut rest = Block { brace_token: b.brace_token, stmts: std::mem::take(&mut stmts).into_iter().collect() };
                    let ne = self.env.len();
                    if let Some(p) = &pat {
                        let mut bs = Binders(Default::default());
                        syn::visit::Visit::visit_pat(&mut bs, p);
                        for nm in bs.0 {
                            self.closures.retain(|(x, _)| *x != nm);
                            self.env.push((nm, Kind::Other));
                        }
                    }
                    self.block(&mut rest, Some(t.clone()));
                    self.env.truncate(ne);
                    if rest.to_token_stream().to_string().contains("__VP_") {
                        self.err("loop or closure behind an inlined closure");
                    }
                    let st = &rest.stmts;
                    let hole = match &pat {
                        Some(p) => pe(quote!({ let #p = __VP_HOLE; #(#st)* })),
                        None => pe(quote!({ __VP_HOLE; #(#st)* })),
                    };
                    let mut c = vec![Hole(hole)];
                    c.extend(t.clone());
                    match s {
                        Stmt::Local(mut l) => {
                            if let Some(x) = &mut l.init {
                                self.lower(&mut x.expr, Some(c));
                            }
                            out.push(Stmt::Local(l));
                        }
                        Stmt::Expr(mut e, semi) => {
                            self.lower(&mut e, Some(c));
                            out.push(Stmt::Expr(e, semi));
                        }
                        s => out.push(s),
                    }
                    out.extend(rest.stmts);
                    break;
                }
            }
            i += 1;
            let i = i - 1;
            match s {
                Stmt::Local(mut l) => {
                    let name = pat_name(&l.pat);
                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                        // `let x = x;` changes nothing
                        if pi.mutability.is_none() && pi.by_ref.is_none() && init.diverge.is_none() {
                            if let Expr::Path(ep) = &*init.expr {
                                if ep.path.is_ident(&pi.ident) {
                                    self.note("R7 `let x = x;` dropped");
                                    continue;
                                }
                            }
                        }
                    }
                    if let (Some(nm), Some(init)) = (&name, &l.init) {
                        if let Some(c) = as_closure(&init.expr) {
                            self.closures.push((nm.clone(), c));
                            self.note("R6 local closure applied in place");
                            continue;
                        }
                    }
                    let mut k = Kind::Other;
                    if let Pat::Type(t) = &l.pat {
                        k = Self::type_kind(&t.ty);
                    }
                    if let Some(init) = &mut l.init {
                        if k == Kind::Other {
                            k = self.kind(&init.expr);
                        }
                        self.lower(&mut init.expr, None);
                        if let Some((_, d)) = &mut init.diverge {
                            self.lower(d, None);
                        }
                    }
                    if let Some(nm) = name {
                        // a plain rebinding shadows a closure of that name
                        self.closures.retain(|(x, _)| *x != nm);
                        self.env.push((nm, k));
                    } else {
                        let mut bs = Binders(Default::default());
                        syn::visit::Visit::visit_pat(&mut bs, &l.pat);
                        for nm in bs.0 {
                            self.env.push((nm, Kind::Other));
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(mut e, semi) => {
                    let t = if semi.is_none() && i + 1 == n { tail.clone() } else { None };
                    let mut after = None;
                    if let Expr::MethodCall(m) = &mut e {
                        if m.method == "sort_by" || m.method == "sort_unstable_by" {
                            if let Some(c) = comparator_key(m) {
                                self.note("R13 comparator that compares one key of both elements written as a sort key");
                                m.method = id(if m.method == "sort_by" { "sort_by_key" } else { "sort_unstable_by_key" });
                                m.args.clear();
                                m.args.push(c);
                            }
                        }
                    }
                    if let Expr::MethodCall(m) = &e {
                        if m.method == "sort_by_key" || m.method == "sort_by_cached_key" || m.method == "sort_unstable_by_key" {
                            if let Expr::Path(p) = strip(&m.receiver) {
                                // ghost snapshot of what is sorted
                                let ph = id(&format!("__VP_SNAP_{}__{}", self.nsnap, norm(&p.to_token_stream().to_string())));
                                after = Some(id(&format!("__VP_SORTED_{}__", self.nsnap)));
                                self.nsnap += 1;
                                out.push(Stmt::Expr(pe(quote!(#ph)), Some(Default::default())));
                            }
                        }
                    }
                    let was_block = matches!(e, Expr::Block(_));
                    self.lower(&mut e, t);
                    if !was_block && matches!(e, Expr::Block(_)) {
                        // a block right behind a loop with clauses would be read as one of them
                        if let Some(Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _)) = out.last() {
                            e = pe(quote!((#e)));
                        }
                    }
                    // a diverging panic as last statement: drop the `;`
                    let semi = if i + 1 == n && is_vpanic(&e) { None } else { semi };
                    out.push(Stmt::Expr(e, semi));
                    if let (Some(ph), true) = (after, semi.is_some()) {
                        out.push(Stmt::Expr(pe(quote!(#ph)), Some(Default::default())));
                    }
                }
                Stmt::Item(it) => {
                    self.err("nested item");
                    out.push(Stmt::Item(it));
                }
                Stmt::Macro(m) => {
                    self.err(format!("macro {}", norm(&m.mac.path.to_token_stream().to_string())));
                    out.push(Stmt::Macro(m));
                }
            }
        }
        b.stmts = out;
        self.env.truncate(nenv);
        self.closures.truncate(nclo);
    }

    fn new_loop(&mut self, kind: &str) -> Ident {
        let n = self.loops.len();
        self.loops.push(LoopInfo { kind: kind.into(), vars: Default::default() });
        id(&format!("__VP_LOOP_{n}__"))
    }

    fn loop_var(&mut self, role: &str, v: &Ident) {
        if let Some(l) = self.loops.last_mut() {
            l.vars.insert(role.into(), v.to_string());
        }
    }

    pub fn lower(&mut self, e: &mut Expr, tail: Option<Chain>) {
        self.depth += 1;
        if self.depth > 400 {
            self.err("recursion");
            self.depth -= 1;
            return;
        }
        self.lower_inner(e, tail);
        self.depth -= 1;
    }

    fn lower_inner(&mut self, e: &mut Expr, tail: Option<Chain>) {
        match e {
            Expr::Paren(p) => self.lower(&mut p.expr, tail),
            Expr::Group(p) => {
                let mut x = (*p.expr).clone();
                self.lower(&mut x, tail);
                *e = pe(quote!((#x)));
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    self.err("labelled block");
                }
                self.block(&mut b.block, tail);
                // `{ e }` around a single panic keeps its type
            }
            Expr::Const(c) => {
                let saved = std::mem::replace(&mut self.ret, tail.clone());
                let mut b = c.block.clone();
                self.block(&mut b, tail);
                self.ret = saved;
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::If(i) => {
                self.lower(&mut i.cond, None);
                self.block(&mut i.then_branch, tail.clone());
                if let Some((_, el)) = &mut i.else_branch {
                    self.lower(el, tail);
                }
            }
            Expr::Match(m) => {
                let scrut_kind = self.kind(&m.expr);
                let has_scope = matches!(strip(&m.expr), Expr::Const(_)) || contains_scope(&m.expr);
                for a in &mut m.arms {
                    let nenv = self.env.len();
                    let mut bs = Binders(Default::default());
                    syn::visit::Visit::visit_pat(&mut bs, &a.pat);
                    for nm in bs.0 {
                        self.env.push((nm, Kind::Other));
                    }
                    let _ = scrut_kind;
                    if let Some((_, g)) = &mut a.guard {
                        self.lower(g, None);
                    }
                    self.lower(&mut a.body, tail.clone());
                    self.env.truncate(nenv);
                }
                let st = if has_scope {
                    tail.map(|t| {
                        let arms = &m.arms;
                        let k = Hole(pe(quote!(match __VP_HOLE { #(#arms)* })));
                        let mut c = vec![k];
                        c.extend(t);
                        c
                    })
                } else {
                    None
                };
                self.lower(&mut m.expr, st);
            }
            Expr::Return(r) => {
                let ret = self.ret.clone();
                match ret {
                    None => {
                        self.err("return from an inlined closure that is not in tail position");
                    }
                    Some(chain) => {
                        let mut v = match r.expr.take() {
                            Some(x) => *x,
                            None => pe(quote!(())),
                        };
                        let t = if chain.is_empty() { Some(vec![]) } else { None };
                        self.lower(&mut v, t);
                        for h in &chain {
                            let mut k = h.0.clone();
                            subst(&mut k, "__VP_HOLE", v);
                            v = k;
                        }
                        *e = pe(quote!(return #v));
                    }
                }
            }
            Expr::Let(l) => self.lower(&mut l.expr, None),
            Expr::Closure(c) => {
                // left to Verus: must not capture anything mutably
                let saved = std::mem::replace(&mut self.ret, Some(vec![]));
                let mut b = (*c.body).clone();
                self.lower(&mut b, None);
                self.ret = saved;
                let inputs = &c.inputs;
                let ph = id(&format!("__VP_CLOSURE_{}__", self.nclosures));
                self.nclosures += 1;
                *e = Expr::Verbatim(quote!(|#inputs| #ph { #b }));
            }
            Expr::ForLoop(_) => self.for_loop(e),
            Expr::While(_) => self.while_loop(e),
            Expr::Loop(l) => {
                if l.label.is_some() {
                    self.err("labelled loop");
                }
                let ph = self.new_loop("loop");
                let mut b = l.body.clone();
                self.block(&mut b, None);
                let st = &b.stmts;
                *e = pe(quote!(loop { #ph; #(#st)* }));
            }
            Expr::Break(b) => {
                if b.expr.is_some() || b.label.is_some() {
                    self.err("break with value or label");
                }
            }
            Expr::Continue(b) => {
                if b.label.is_some() {
                    self.err("labelled continue");
                }
            }
            Expr::Call(_) => self.call(e, tail),
            Expr::MethodCall(_) => self.method(e, tail),
            Expr::Binary(_) => self.binary(e),
            Expr::Index(_) => self.index(e),
            Expr::Assign(a) => {
                if let Expr::Tuple(_) = &*a.left {
                    self.err("tuple assignment");
                }
                if let Expr::Index(ix) = &*a.left {
                    let (b, i, r) = (ix.expr.clone(), ix.index.clone(), a.right.clone());
                    let mut n = pe(quote!(#b.vset(#i, #r)));
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Try(x) => {
                let v = &x.expr;
                let k = match self.kind(v) {
                    Kind::Other => self.ret_kind,
                    k => k,
                };
                if !matches!(&self.ret, Some(c) if c.is_empty()) {
                    self.err("? operator in a closure");
                }
                let mut n = if k == Kind::Opt {
                    pe(quote!(match #v { Option::Some(__q) => __q, Option::None => return Option::None }))
                } else {
                    pe(quote!(match #v { ::core::result::Result::Ok(__q) => __q, ::core::result::Result::Err(__q) => return ::core::result::Result::Err(__q) }))
                };
                self.note("R15 ? operator written as match (the error types have to be the same)");
                self.lower(&mut n, None);
                *e = n;
            }
            Expr::Unsafe(_) => self.err("unsafe block"),
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) => self.err("async"),
            Expr::Macro(m) => self.err(format!("macro {}", norm(&m.mac.path.to_token_stream().to_string()))),
            Expr::Cast(_) => visit_mut::visit_expr_mut(self, e),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn for_loop(&mut self, e: &mut Expr) {
        let Expr::ForLoop(f) = e else { unreachable!() };
        if f.label.is_some() {
            self.err("labelled for");
        }
        let pat = (*f.pat).clone();
        let mut it = (*f.expr).clone();
        let mut body = f.body.clone();
        // `for x in v.iter_mut().rev()` / `v.iter_mut()`
        if let Some((v, rev)) = iter_mut_source(&it) {
            if let Pat::Ident(p) = &pat {
                let x = p.ident.to_string();
                let ix = self.fresh("__ix");
                let mut v2 = v.clone();
                self.lower(&mut v2, None);
                let mut r = IterMutRewrite { x: x.clone(), v: v2.clone(), ix: ix.clone(), bad: false };
                r.visit_block_mut(&mut body);
                if r.bad {
                    self.err("use of an iter_mut() element");
                }
                let ph = self.new_loop(if rev { "itermutrev" } else { "itermut" });
                self.loop_var("ix", &ix);
                self.block(&mut body, None);
                let st = &body.stmts;
                self.note("R4 iter_mut() loop turned into an index loop");
                *e = if rev {
                    pe(quote!({ let mut #ix: usize = #v2.len(); loop { #ph; if #ix == 0 { break; } #ix -= 1; #(#st)* } }))
                } else {
                    pe(quote!({ let mut #ix: usize = 0; loop { #ph; if #ix >= #v2.len() { break; } #(#st)* #ix += 1; } }))
                };
                return;
            }
            self.err("iter_mut() loop");
            return;
        }
        // a loop that looks for an item and then leaves the function without
        // using the item: the leaving part moves behind the loop
        if let [Stmt::Expr(Expr::If(i), _)] = &body.stmts[..] {
            let ends = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
            if i.else_branch.is_none() && ends && !matches!(&*i.cond, Expr::Let(_)) {
                let mut bs = Binders(Default::default());
                syn::visit::Visit::visit_pat(&mut bs, &pat);
                let mut u = Uses { names: &bs.0, hit: false };
                syn::visit::Visit::visit_block(&mut u, &i.then_branch);
                if !u.hit {
                    let hit = self.fresh("__hit");
                    let (c, t) = (&i.cond, &i.then_branch);
                    self.note("R14 exit of a search loop moved behind the loop");
                    let mut x = pe(quote!({
                        let mut #hit = false;
                        for #pat in #it { if #c { #hit = true; break; } }
                        if #hit #t
                    }));
                    let n0 = self.loops.len();
                    self.lower(&mut x, None);
                    if let Some(l) = self.loops[n0..].iter_mut().find(|l| l.kind == "for") {
                        l.vars.insert("hit".into(), hit.to_string());
                        l.vars.insert("acc".into(), hit.to_string());
                    }
                    *e = x;
                    return;
                }
            }
        }
        // a closure-carrying pipeline is unfolded into the loop
        let (src, stages) = unfold_pipeline(self, &it);
        let mut bodyx: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() });
        let mut outer_pat = pat;
        if !stages.is_empty() {
            let x0 = self.fresh("__e");
            let cur = pe(quote!(#x0));
            bodyx = self.stages(cur, &stages, &mut |y| {
                pe(quote!({ let #outer_pat = #y; #bodyx }))
            });
            outer_pat = parse_quote!(#x0);
            it = src;
        }
        self.lower(&mut it, None);
        let iv = self.fresh("__it");
        let ph = self.new_loop("for");
        self.loop_var("it", &iv);
        // a loop that sets a flag and stops
        if let Some(flag) = sets_flag(&body) {
            self.loop_var("hit", &flag);
            self.loop_var("acc", &flag);
        }
        let nenv = self.env.len();
        let mut bs = Binders(Default::default());
        syn::visit::Visit::visit_pat(&mut bs, &outer_pat);
        for nm in bs.0 {
            self.env.push((nm, Kind::Other));
        }
        self.lower(&mut bodyx, None);
        self.env.truncate(nenv);
        self.note("R3 for loop written with an explicit iterator");
        let n = self.loops.len() - 1;
        let _ = n;
        let (ps, pn) = (id(&format!("{}SOME", ph)), id(&format!("{}NONE", ph)));
        *e = pe(quote!({
            let mut #iv = IntoIterator::into_iter(#it);
            loop { #ph; match #iv.next() { Option::None => { #pn; break; } Option::Some(#outer_pat) => { #ps; #bodyx } } }
        }));
    }

    fn while_loop(&mut self, e: &mut Expr) {
        let Expr::While(w) = e else { unreachable!() };
        if w.label.is_some() {
            self.err("labelled while");
        }
        let mut cond = (*w.cond).clone();
        let mut body = w.body.clone();
        // `while let Some(p) = it.next()` over an iterator the body leaves
        // alone is a for loop on that iterator
        if let Some((p, iv)) = while_next(&cond) {
            if !body.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| iv == x) {
                let ph = self.new_loop("for");
                self.loop_var("it", &iv);
                self.note("R3 while-let over an iterator written as a for loop");
                let nenv = self.env.len();
                let mut bs = Binders(Default::default());
                syn::visit::Visit::visit_pat(&mut bs, &p);
                for nm in bs.0 {
                    self.env.push((nm, Kind::Other));
                }
                self.block(&mut body, None);
                self.env.truncate(nenv);
                let st = &body.stmts;
                let (ps, pn) = (id(&format!("{}SOME", ph)), id(&format!("{}NONE", ph)));
                *e = pe(quote!({ loop { #ph; match #iv.next() { Option::None => { #pn; break; } Option::Some(#p) => { #ps; #(#st)* } } } }));
                return;
            }
        }
        let ph = self.new_loop("while");
        self.note("R4 while loop written as loop/break");
        if let Expr::Let(l) = &mut cond {
            self.lower(&mut l.expr, None);
            let nenv = self.env.len();
            let mut bs = Binders(Default::default());
            syn::visit::Visit::visit_pat(&mut bs, &l.pat);
            for nm in bs.0 {
                self.env.push((nm, Kind::Other));
            }
            self.block(&mut body, None);
            self.env.truncate(nenv);
            let (p, x) = (&l.pat, &l.expr);
            let st = &body.stmts;
            let (ps, pn) = (id(&format!("{}SOME", ph)), id(&format!("{}NONE", ph)));
            *e = pe(quote!(loop { #ph; match #x { #p => { #ps; #(#st)* } _ => { #pn; break; } } }));
        } else {
            self.lower(&mut cond, None);
            self.block(&mut body, None);
            let st = &body.stmts;
            let (ps, pn) = (id(&format!("{}SOME", ph)), id(&format!("{}NONE", ph)));
            let cv = self.fresh("__c");
            *e = pe(quote!(loop { #ph; let #cv: bool = #cond; if !#cv { #pn; break; } #ps; #(#st)* }));
        }
    }

    fn binary(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        let (l, r) = (&b.left, &b.right);
        match b.op {
            BinOp::Eq(_) => {
                *e = pe(quote!(PartialEq::veq(&(#l), &(#r))));
                self.note("R9 == written as PartialEq::eq");
            }
            BinOp::Ne(_) => {
                *e = pe(quote!(!PartialEq::veq(&(#l), &(#r))));
            }
            _ => {}
        }
    }

    fn index(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Index(i) = e else { return };
        if let Expr::Range(r) = strip(&i.index) {
            let b = &i.expr;
            let lo = r.start.as_deref().cloned().unwrap_or_else(|| pe(quote!(0usize)));
            let hi = match (&r.end, &r.limits) {
                (None, _) => pe(quote!((#b).len())),
                (Some(h), RangeLimits::HalfOpen(_)) => (**h).clone(),
                (Some(h), RangeLimits::Closed(_)) => pe(quote!(#h + 1)),
            };
            *e = pe(quote!((*(#b).vslice(#lo, #hi))));
            return;
        }
        let (b, x) = (&i.expr, &i.index);
        *e = pe(quote!((*(#b).vindex(#x))));
    }

    fn call(&mut self, e: &mut Expr, tail: Option<Chain>) {
        let Expr::Call(c) = e else { unreachable!() };
        let p = expr_path(&c.func).unwrap_or_default();
        let q = p.trim_start_matches("::").to_string();
        if q.starts_with("core::panicking::") || q.starts_with("std::rt::") {
            if q.ends_with("assert_failed") {
                self.err("assert_eq");
            }
            *e = pe(quote!(vpanic()));
            self.note("R1 panic/assert failure written as a call that must be unreachable");
            return;
        }
        if q.ends_with("box_assume_init_into_vec_unsafe") {
            // vec![..]
            if let Some(Expr::Call(inner)) = c.args.first() {
                if let Some(Expr::Array(a)) = inner.args.iter().nth(1) {
                    let mut a = Expr::Array(a.clone());
                    self.lower(&mut a, None);
                    *e = pe(quote!(Vec::from_array(#a)));
                    self.note("R2 vec![..] written as Vec::from_array");
                    return;
                }
            }
            self.err("vec! literal");
            return;
        }
        if matches!(q.as_str(), "Vec::from" | "std::vec::Vec::from" | "alloc::vec::Vec::from") && c.args.len() == 1 {
            if let Expr::Array(a) = &c.args[0] {
                let mut a = Expr::Array(a.clone());
                self.lower(&mut a, None);
                *e = pe(quote!(Vec::from_array(#a)));
                self.note("R2 vec![..] written as Vec::from_array");
                return;
            }
        }
        if q == "alloc::vec::Vec::new" {
            *e = pe(quote!(Vec::new()));
            return;
        }
        if q == "alloc::vec::from_elem" {
            self.err("vec![x; n]");
            return;
        }
        if q == "drop" || q == "core::mem::drop" || q == "std::mem::drop" {
            if let Some(Expr::MethodCall(m)) = c.args.first().map(strip) {
                if m.method == "drain" {
                    let mut x = Expr::MethodCall(m.clone());
                    self.lower(&mut x, None);
                    *e = x;
                    return;
                }
            }
        }
        if q == "usize::min" || q == "std::cmp::min" || q == "core::cmp::min" || q == "cmp::min" || q == "Ord::min" || q == "std::cmp::Ord::min" {
            c.func = Box::new(pe(quote!(vmin)));
        } else if q == "usize::max" || q == "std::cmp::max" || q == "core::cmp::max" {
            c.func = Box::new(pe(quote!(vmax)));
        } else if q == "core::iter::once" || q == "std::iter::once" {
            c.func = Box::new(pe(quote!(once)));
        } else if q == "Box::new" {
            c.func = Box::new(if self.module == "stream" { pe(quote!(SourceIter::new)) } else { pe(quote!(DynIter::new)) });
        } else if (q == "Rc::new" || q == "std::rc::Rc::new") && c.args.len() == 1 && norm(&c.args[0].to_token_stream().to_string()) == "self" {
            if self.module == "recovery" {
                c.func = Box::new(pe(quote!(DynStrategy::new)));
            } else {
                c.func = Box::new(pe(quote!(DynParser::new)));
            }
        }
        // local closure
        if let Some(fname) = expr_path(&c.func) {
            if let Some((_, cl)) = self.closures.iter().rev().find(|(n, _)| *n == fname).cloned() {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut x = self.beta(&cl, args);
                self.lower(&mut x, tail);
                *e = x;
                return;
            }
            let last = fname.rsplit("::").next().unwrap().to_string();
            let ty = fname.rsplit("::").nth(1).map(|s| s.to_string());
            if let Some(key) = self.helper(&last, ty.as_deref()) {
                if fname == last || fname == format!("Self::{last}") || fname.ends_with(&format!("::{last}")) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let is_m = self.reg.fns.get(&key).map(|f| f.sig.receiver().is_some()).unwrap_or(false);
                    let r = if is_m {
                        let mut a = args.into_iter();
                        let recv = a.next();
                        let rest: Vec<Expr> = a.collect();
                        self.inline_fn(&key, recv, rest)
                    } else {
                        self.inline_fn(&key, None, args)
                    };
                    if let Some(mut x) = r {
                        self.lower(&mut x, tail);
                        *e = x;
                        return;
                    }
                    self.err(format!("cannot inline helper {key}"));
                    return;
                }
            }
            self.called.insert(fname);
        }
        // user closure with a `&mut` first argument
        let Expr::Call(c) = e else { unreachable!() };
        if let Expr::Paren(pp) = &*c.func {
            if let Expr::Field(f) = &*pp.expr {
                if let Member::Named(n) = &f.member {
                    if self.updaters.contains(&n.to_string()) {
                        let n_args = c.args.len();
                        let fx = &pp.expr;
                        let name = id(&format!("call_upd{n_args}"));
                        let args = &c.args;
                        let mut x = pe(quote!(#name(&#fx, #args)));
                        visit_mut::visit_expr_mut(self, &mut x);
                        *e = x;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    /// `f.write_fmt(format_args!(..))`: the pieces written one after the other
    fn format_args(&mut self, f: &Expr, tk: TokenStream) -> Option<Expr> {
        let xs = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, tk).ok()?;
        let mut it = xs.into_iter();
        let fs = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let args: Vec<Expr> = it.collect();
        let mut steps: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut cs = fs.chars().peekable();
        let mut next = 0;
        let mut flush = |lit: &mut String, steps: &mut Vec<Expr>| {
            if !lit.is_empty() {
                let l = LitStr::new(lit, proc_macro2::Span::call_site());
                steps.push(pe(quote!((#f).vlit(#l))));
                lit.clear();
            }
        };
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    let mut spec = String::new();
                    for c in cs.by_ref() {
                        if c == '}' {
                            break;
                        }
                        spec.push(c);
                    }
                    let (n, alt) = match spec.split_once(':') {
                        None => (spec.clone(), false),
                        Some((n, "")) => (n.to_string(), false),
                        Some((n, "#")) => (n.to_string(), true),
                        _ => return None,
                    };
                    let a = if n.is_empty() {
                        next += 1;
                        args.get(next - 1)?.clone()
                    } else if let Ok(k) = n.parse::<usize>() {
                        args.get(k)?.clone()
                    } else {
                        let i = parse_str::<Ident>(&n).ok()?;
                        pe(quote!(#i))
                    };
                    flush(&mut lit, &mut steps);
                    steps.push(pe(quote!((#f).vdisp(&(#a), #alt))));
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut steps);
        self.note("R16 write!: the literals and arguments written one after the other");
        let mut r = match steps.pop() {
            None => return Some(pe(quote!(::core::result::Result::Ok(())))),
            Some(x) => x,
        };
        while let Some(s) = steps.pop() {
            r = pe(quote!(match #s { ::core::result::Result::Ok(_) => #r, ::core::result::Result::Err(__e) => ::core::result::Result::Err(__e) }));
        }
        Some(r)
    }

    fn method(&mut self, e: &mut Expr, tail: Option<Chain>) {
        let Expr::MethodCall(m) = e else { unreachable!() };
        let name = m.method.to_string();
        let rk = self.kind(&m.receiver);
        let recv = (*m.receiver).clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let a0 = args.first().cloned();
        // --- functions of the crate that take closures: replaced by their bodies
        if rk == Kind::Res && matches!(name.as_str(), "map" | "map_err" | "try_map") {
            let key = format!("parser::Result::{name}");
            if let Some(mut x) = self.inline_fn(&key, Some(recv), args) {
                self.lower(&mut x, tail);
                *e = x;
            } else {
                self.err(format!("cannot inline {key}"));
            }
            return;
        }
        if args.len() == 1 && matches!(name.as_str(), "eq" | "ne") {
            if let Expr::Reference(r) = strip(&args[0]) {
                let (l, r) = (&recv, &r.expr);
                let mut x = if name == "eq" { pe(quote!((#l) == (#r))) } else { pe(quote!((#l) != (#r))) };
                self.lower(&mut x, tail);
                *e = x;
                return;
            }
        }
        if name == "write_fmt" {
            match a0.as_ref().map(strip) {
                Some(Expr::Macro(mc)) if mc.mac.path.segments.last().map(|s| s.ident == "format_args").unwrap_or(false) => {
                    let tk = mc.mac.tokens.clone();
                    match self.format_args(&recv, tk) {
                        Some(mut x) => {
                            self.lower(&mut x, None);
                            *e = x;
                        }
                        None => self.err("format string"),
                    }
                }
                _ => self.err("write_fmt"),
            }
            return;
        }
        if name == "attempt" {
            if let Some(mut x) = self.inline_fn("stream::Stream::attempt", Some(recv), args) {
                self.lower(&mut x, tail);
                *e = x;
            } else {
                self.err("cannot inline attempt");
            }
            return;
        }
        let std_name = ["as_ref", "get", "len", "next", "push", "pop", "insert", "remove", "iter", "first", "last", "map", "clone", "take", "replace", "extend",
            "append", "is_empty", "unwrap", "unwrap_or", "into_iter", "collect", "borrow", "borrow_mut", "to_string", "chars", "rev", "cloned", "min", "max", "contains", "clear"]
            .contains(&name.as_str());
        let own_recv = matches!(expr_path(&recv).as_deref(), Some("self") | Some("this"));
        if let Some(key) = self.helper(&name, if own_recv { Some("Self") } else { Some("?") }).filter(|k| k.split("::").count() == 3 && (!std_name || own_recv)) {
            if let Some(mut x) = self.inline_fn(&key, Some(recv), args) {
                self.lower(&mut x, tail);
                *e = x;
            } else {
                self.err(format!("cannot inline helper {key}"));
            }
            return;
        }
        // --- Option combinators
        let optish = rk == Kind::Opt || rk == Kind::Other;
        let lowered: Option<Expr> = match (name.as_str(), args.len()) {
            ("or_else", 1) if rk != Kind::Iter => {
                let b = self.arm0(&a0.clone().unwrap());
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => Option::Some(#v), Option::None => #b })))
            }
            ("map", 1) if optish => {
                let (p, b) = self.arm1(&a0.clone().unwrap());
                Some(pe(quote!(match #recv { Option::Some(#p) => Option::Some(#b), Option::None => Option::None })))
            }
            ("and_then", 1) if optish => {
                let (p, b) = self.arm1(&a0.clone().unwrap());
                Some(pe(quote!(match #recv { Option::Some(#p) => #b, Option::None => Option::None })))
            }
            ("map_or", 2) => {
                if !Self::is_simple(&args[0]) {
                    self.err("map_or default");
                }
                let (p, b) = self.arm1(&args[1]);
                let d = &args[0];
                Some(pe(quote!(match #recv { Option::Some(#p) => #b, Option::None => #d })))
            }
            ("map_or_else", 2) => {
                let (p, b) = self.arm1(&args[1]);
                let d = self.arm0(&args[0]);
                Some(pe(quote!(match #recv { Option::Some(#p) => #b, Option::None => #d })))
            }
            ("filter", 1) if rk == Kind::Opt && as_closure(&args[0]).is_some() => {
                let (p, b) = self.arm1(&args[0]);
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => if { let #p = &#v; #b } { Option::Some(#v) } else { Option::None }, Option::None => Option::None })))
            }
            ("ok_or", 1) if rk != Kind::Iter && Self::is_simple(&args[0]) => {
                let d = &args[0];
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => ::core::result::Result::Ok(#v), Option::None => ::core::result::Result::Err(#d) })))
            }
            ("ok_or_else", 1) if rk != Kind::Iter => {
                let d = self.arm0(&args[0]);
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => ::core::result::Result::Ok(#v), Option::None => ::core::result::Result::Err(#d) })))
            }
            ("is_some_and", 1) => {
                let (p, b) = self.arm1(&args[0]);
                Some(pe(quote!(match #recv { Option::Some(#p) => #b, Option::None => false })))
            }
            ("is_none_or", 1) => {
                let (p, b) = self.arm1(&args[0]);
                Some(pe(quote!(match #recv { Option::Some(#p) => #b, Option::None => true })))
            }
            ("unwrap_or_else", 1) if as_closure(&args[0]).map(|c| c.inputs.len() == 1).unwrap_or(false) => {
                let (p, b) = self.arm1(&args[0]);
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { ::core::result::Result::Ok(#v) => #v, ::core::result::Result::Err(#p) => #b })))
            }
            ("unwrap_or_else", 1) => {
                let d = self.arm0(&args[0]);
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => #v, Option::None => #d })))
            }
            ("unwrap_or", 1) if Self::is_simple(&args[0]) => {
                let d = &args[0];
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => #v, Option::None => #d })))
            }
            ("get_or_insert_with", 1) if rk != Kind::Res => {
                let d = self.arm0(&args[0]);
                Some(pe(quote!({ if !(#recv).is_some() { (#recv).vput(#d); } (#recv).vforce() })))
            }
            ("get_or_insert", 1) if Self::is_simple(&args[0]) => {
                let d = &args[0];
                Some(pe(quote!({ if !(#recv).is_some() { (#recv).vput(#d); } (#recv).vforce() })))
            }
            ("unwrap_or_default", 0) => {
                let v = self.fresh("__v");
                Some(pe(quote!(match #recv { Option::Some(#v) => #v, Option::None => Default::default() })))
            }
            ("then", 1) if as_closure(&args[0]).map(|c| c.inputs.is_empty()).unwrap_or(false) => {
                let b = self.arm0(&args[0]);
                Some(pe(quote!(if #recv { Option::Some(#b) } else { Option::None })))
            }
            ("cloned" | "copied", 0) if rk != Kind::Iter => {
                let mut r = recv.clone();
                self.lower(&mut r, None);
                *e = pe(quote!(opt_cloned(#r)));
                return;
            }
            ("expect", 1) => Some(pe(quote!(#recv.unwrap()))),
            _ => None,
        };
        if let Some(mut x) = lowered {
            self.note("R7 Option method with a closure written as match");
            self.lower(&mut x, tail);
            *e = x;
            return;
        }
        // --- in-place filtering
        if name == "retain" && args.len() == 1 {
            let mut v = recv.clone();
            self.lower(&mut v, None);
            let ix = self.fresh("__ix");
            let kv = self.fresh("__keep");
            let el = pe(quote!((#v).vindex(#ix)));
            let mut b = match as_closure(&args[0]) {
                Some(c) => {
                    let mut bd = (*c.body).clone();
                    if let Pat::Ident(p) = &c.inputs[0] {
                        subst(&mut bd, &p.ident.to_string(), el);
                        scope(bd)
                    } else {
                        self.err("retain closure pattern");
                        bd
                    }
                }
                None => self.apply(&args[0], vec![el]),
            };
            let ph = self.new_loop("retain");
            self.loop_var("ix", &ix);
            self.lower(&mut b, None);
            self.note("R8 iterator chain with closures written as a loop");
            *e = pe(quote!({ let mut #ix: usize = 0; loop { #ph; if #ix >= #v.len() { break; } let #kv: bool = #b; if #kv { #ix += 1; } else { #v.remove(#ix); } } }));
            return;
        }
        // --- iterator chains with closures
        if matches!(name.as_str(), "any" | "all" | "min" | "max" | "collect" | "count" | "for_each" | "last" | "find" | "position" | "fold" | "sum")
            && (rk == Kind::Iter)
        {
            let (src, stages) = unfold_pipeline(self, &recv);
            let closure_terminal = matches!(name.as_str(), "any" | "all" | "for_each" | "find" | "position" | "fold");
            if !stages.is_empty() || closure_terminal || matches!(name.as_str(), "min" | "max" | "count") {
                self.pipeline(e, &name, src, stages, args, m_turbofish_hint(e_hint()));
                return;
            }
        }
        // closure stage without a terminal operation: a fused map only
        if name == "map" && rk == Kind::Iter && args.len() == 1 {
            if let Some(p) = expr_path(&args[0]) {
                if p == "Some" || p == "Option::Some" {
                    let mut r = recv.clone();
                    self.lower(&mut r, None);
                    *e = pe(quote!(#r.map_some()));
                    self.note("R8 .map(Some) written as a named adapter");
                    return;
                }
            }
            self.err("lazy iterator map");
            return;
        }
        let Expr::MethodCall(m) = e else { unreachable!() };
        match name.as_str() {
            "drain" => {
                if let Some(Expr::Range(r)) = a0.as_ref().map(strip) {
                    let mut v = recv.clone();
                    self.lower(&mut v, None);
                    match (&r.start, &r.end) {
                        (None, None) => {
                            *e = pe(quote!(#v.drain_all()));
                            return;
                        }
                        (None, Some(n)) => {
                            let mut n = (**n).clone();
                            self.lower(&mut n, None);
                            *e = pe(if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                                quote!(#v.drain_to(#n))
                            } else {
                                quote!(#v.drain_to(#n + 1))
                            });
                            return;
                        }
                        _ => {}
                    }
                }
                self.err("drain range");
                return;
            }
            "iter" => m.method = id("viter"),
            "chars" => m.method = id("vchars"),
            "into" => {
                let mut v = recv.clone();
                self.lower(&mut v, None);
                *e = pe(quote!(crate::parser::from__Result(#v)));
                return;
            }
            "strong_count" | "upgrade" if self.module == "stream" && args.is_empty() => {
                m.args.push(pe(quote!(&mut self.gh)));
            }
            "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" => {
                if let Some(c) = a0.as_ref().and_then(as_closure) {
                    let mut b = (*c.body).clone();
                    self.lower(&mut b, None);
                    if let Expr::Call(k) = &mut b {
                        if expr_path(&k.func).map(|p| p.ends_with("::Reverse")).unwrap_or(false) {
                            k.func = Box::new(pe(quote!(crate::shim::Reverse)));
                        }
                    }
                    let ty: TokenStream = match strip(&b) {
                        Expr::Call(k) if expr_path(&k.func).map(|p| p.ends_with("Reverse")).unwrap_or(false) => {
                            quote!(Reverse<usize>)
                        }
                        _ => quote!(usize),
                    };
                    let p = &c.inputs;
                    let mut v = recv.clone();
                    self.lower(&mut v, None);
                    self.note("R13 sort key closure given its own body as postcondition");
                    m.receiver = Box::new(v);
                    m.method = id(if name == "sort_unstable_by_key" { "sort_unstable_by_key" } else { "sort_by_key" });
                    m.args.clear();
                    m.args.push(Expr::Verbatim(quote!(|#p| -> (__k: #ty) ensures __k == #b { #b })));
                    return;
                }
                self.err("sort key");
                return;
            }
            "sort_by" | "sort" | "sort_unstable" | "sort_unstable_by" | "dedup" | "dedup_by" | "swap" | "splice" | "split_off" | "truncate_front" => {
                self.err(format!("method {name}"));
                return;
            }
            _ => {}
        }
        self.called.insert(name);
        visit_mut::visit_expr_mut(self, e);
    }

    fn stages(&mut self, cur: Expr, stages: &[(String, Expr)], fin: &mut dyn FnMut(Expr) -> Expr) -> Expr {
        if stages.is_empty() {
            return fin(cur);
        }
        let (n, f) = &stages[0];
        match n.as_str() {
            "map" => {
                let b = self.apply(f, vec![cur]);
                let x = self.fresh("__e");
                let rest = self.stages(pe(quote!(#x)), &stages[1..], fin);
                pe(quote!({ let #x = #b; #rest }))
            }
            "cloned" | "copied" => {
                let x = self.fresh("__e");
                let rest = self.stages(pe(quote!(#x)), &stages[1..], fin);
                pe(quote!({ let #x = #cur.clone(); #rest }))
            }
            "filter" => {
                let b = self.apply(f, vec![pe(quote!(&#cur))]);
                let rest = self.stages(cur, &stages[1..], fin);
                pe(quote!(if #b { #rest }))
            }
            "filter_map" => {
                let b = self.apply(f, vec![cur]);
                let x = self.fresh("__e");
                let rest = self.stages(pe(quote!(#x)), &stages[1..], fin);
                pe(quote!(match #b { Option::Some(#x) => { #rest } Option::None => {} }))
            }
            _ => {
                self.err(format!("iterator stage {n}"));
                fin(cur)
            }
        }
    }

    fn pipeline(&mut self, e: &mut Expr, term: &str, mut src: Expr, stages: Vec<(String, Expr)>, args: Vec<Expr>, _h: ()) {
        let acc = self.fresh("__acc");
        let iv = self.fresh("__it");
        let x0 = self.fresh("__e");
        let f0 = args.first().cloned();
        let mut me: Vec<String> = vec![];
        let (init, result): (TokenStream, TokenStream) = match term {
            "any" => (quote!(let mut #acc = false;), quote!(#acc)),
            "all" => (quote!(let mut #acc = true;), quote!(#acc)),
            "min" | "max" => (quote!(let mut #acc = Option::None;), quote!(#acc)),
            "collect" => (quote!(let mut #acc = Vec::new();), quote!(#acc)),
            "count" => (quote!(let mut #acc: usize = 0;), quote!(#acc)),
            "for_each" => (quote!(), quote!(())),
            "find" => (quote!(let mut #acc = Option::None;), quote!(#acc)),
            _ => {
                self.err(format!("iterator operation {term}"));
                return;
            }
        };
        let stages2 = stages.clone();
        // the terminal action needs `self` for apply, so build it first on a hole
        let hole = self.fresh("__h");
        let hx = pe(quote!(#hole));
        let action: Expr = match term {
            "any" => {
                let b = self.apply(f0.as_ref().unwrap(), vec![hx.clone()]);
                pe(quote!(if #b { #acc = true; break; }))
            }
            "all" => {
                let b = self.apply(f0.as_ref().unwrap(), vec![hx.clone()]);
                pe(quote!(if !(#b) { #acc = false; break; }))
            }
            "find" => {
                let b = self.apply(f0.as_ref().unwrap(), vec![pe(quote!(&#hole))]);
                pe(quote!(if #b { #acc = Option::Some(#hole); break; }))
            }
            "for_each" => {
                let b = self.apply(f0.as_ref().unwrap(), vec![hx.clone()]);
                pe(quote!({ #b; }))
            }
            "min" => pe(quote!(#acc = match #acc { Option::None => Option::Some(#hole), Option::Some(__m) => if #hole < __m { Option::Some(#hole) } else { Option::Some(__m) } })),
            "max" => pe(quote!(#acc = match #acc { Option::None => Option::Some(#hole), Option::Some(__m) => if #hole >= __m { Option::Some(#hole) } else { Option::Some(__m) } })),
            "collect" => pe(quote!(#acc.push(#hole))),
            "count" => pe(quote!(#acc += 1)),
            _ => unreachable!(),
        };
        let mut body = self.stages(pe(quote!(#x0)), &stages2, &mut |y| {
            pe(quote!({ let #hole = #y; #action; }))
        });
        self.errs.append(&mut me);
        self.lower(&mut src, None);
        let ph = self.new_loop(term);
        self.loop_var("it", &iv);
        self.loop_var("acc", &acc);
        if term == "any" {
            self.loop_var("hit", &acc);
        }
        self.loop_var("e", &x0);
        self.lower(&mut body, None);
        self.note("R8 iterator chain with closures written as a loop");
        let (ps, pn) = (id(&format!("{}SOME", ph)), id(&format!("{}NONE", ph)));
        *e = pe(quote!({
            #init
            let mut #iv = IntoIterator::into_iter(#src);
            loop { #ph; match #iv.next() { Option::None => { #pn; break; } Option::Some(#x0) => { #ps; #body } } }
            #result
        }));
    }
}

fn m_turbofish_hint(_: ()) {}
fn e_hint() {}

fn rf_is_fn(sig: &Signature, nm: &str, _n: usize) -> bool {
    // is parameter `nm` of a generic type bounded by Fn*?
    let mut ty = None;
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &*t.pat {
                if p.ident == nm {
                    ty = Some(norm(&t.ty.to_token_stream().to_string()));
                }
            }
        }
    }
    let Some(ty) = ty else { return false };
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            if t.ident == ty && norm(&t.bounds.to_token_stream().to_string()).starts_with("Fn") {
                return true;
            }
        }
    }
    false
}

struct ApplyHole<'b, 'a> {
    name: String,
    f: Expr,
    l: &'b mut Lower<'a>,
}
impl<'b, 'a> VisitMut for ApplyHole<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if expr_path(&c.func).as_deref() == Some(&self.name) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let f = self.f.clone();
                *e = self.l.apply(&f, args);
            }
        }
    }
}

fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}

pub fn is_vpanic(e: &Expr) -> bool {
    norm(&e.to_token_stream().to_string()) == "vpanic()"
}

struct FindScope(bool);
impl<'a> syn::visit::Visit<'a> for FindScope {
    fn visit_expr_const(&mut self, c: &'a ExprConst) {
        if has_return(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: c.block.clone() })) {
            self.0 = true;
        }
    }
}
/// `let Some(p) = x.next()` with a plain variable `x`
/// `if c { flag = true; break; }`
fn sets_flag(b: &Block) -> Option<Ident> {
    let [Stmt::Expr(Expr::If(i), _)] = &b.stmts[..] else { return None };
    if i.else_branch.is_some() || i.then_branch.stmts.len() != 2 {
        return None;
    }
    let (Stmt::Expr(Expr::Assign(a), _), Stmt::Expr(Expr::Break(_), _)) = (&i.then_branch.stmts[0], &i.then_branch.stmts[1]) else { return None };
    let Expr::Path(p) = &*a.left else { return None };
    if norm(&a.right.to_token_stream().to_string()) != "true" {
        return None;
    }
    p.path.get_ident().cloned()
}
fn while_next(cond: &Expr) -> Option<(Pat, Ident)> {
    let Expr::Let(l) = cond else { return None };
    let Expr::MethodCall(m) = strip(&l.expr) else { return None };
    if m.method != "next" || !m.args.is_empty() {
        return None;
    }
    let Expr::Path(v) = strip(&m.receiver) else { return None };
    let v = v.path.get_ident()?.clone();
    let Pat::TupleStruct(ts) = &*l.pat else { return None };
    if ts.elems.len() != 1 || ts.path.segments.last().map_or(true, |s| s.ident != "Some") || v == "self" {
        return None;
    }
    match &ts.elems[0] {
        Pat::Rest(_) => None,
        p => Some((p.clone(), v)),
    }
}
fn contains_scope(e: &Expr) -> bool {
    // only a scope in value position counts; blocks whose tail is a scope
    match strip(e) {
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(x, None)) => contains_scope(x),
            _ => false,
        },
        Expr::Const(_) => {
            let mut f = FindScope(false);
            syn::visit::Visit::visit_expr(&mut f, e);
            f.0
        }
        Expr::Match(m) => contains_scope(&m.expr),
        _ => false,
    }
}

fn iter_mut_source(e: &Expr) -> Option<(Expr, bool)> {
    match strip(e) {
        Expr::MethodCall(m) if m.method == "iter_mut" => Some(((*m.receiver).clone(), false)),
        Expr::MethodCall(m) if m.method == "rev" => match strip(&m.receiver) {
            Expr::MethodCall(m2) if m2.method == "iter_mut" => Some(((*m2.receiver).clone(), true)),
            _ => None,
        },
        Expr::Reference(r) if r.mutability.is_some() => Some(((*r.expr).clone(), false)),
        _ => None,
    }
}

struct IterMutRewrite {
    x: String,
    v: Expr,
    ix: Ident,
    bad: bool,
}
impl VisitMut for IterMutRewrite {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (v, ix) = (&self.v, &self.ix);
        if let Expr::Assign(a) = e {
            if let Expr::Unary(u) = &*a.left {
                if matches!(u.op, UnOp::Deref(_)) && expr_path(&u.expr).as_deref() == Some(&self.x) {
                    let mut r = (*a.right).clone();
                    *e = {
                        let r2 = r.clone();
                        pe(quote!(#v.vset(#ix, #r2)))
                    };
                    if let Expr::MethodCall(m) = e {
                        self.visit_expr_mut(&mut r);
                        m.args[1] = r;
                    }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.x) {
                *e = pe(quote!((*(#v).vindex(#ix))));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// split `src.iter().filter_map(f).map(g)` into its source and closure stages
fn unfold_pipeline(l: &mut Lower, e: &Expr) -> (Expr, Vec<(String, Expr)>) {
    let mut cur = strip(e).clone();
    let mut stages: Vec<(String, Expr)> = vec![];
    loop {
        let Expr::MethodCall(m) = &cur else { break };
        let n = m.method.to_string();
        let stage = matches!(n.as_str(), "map" | "filter" | "filter_map" | "cloned" | "copied")
            && l.kind(&m.receiver) == Kind::Iter;
        if !stage {
            break;
        }
        let f = m.args.first().cloned().unwrap_or_else(|| pe(quote!(())));
        stages.insert(0, (n, f));
        cur = strip(&m.receiver).clone();
    }
    // adapters without closures at the front stay adapters
    if stages.iter().all(|(n, _)| n == "cloned" || n == "copied") {
        return (e.clone(), vec![]);
    }
    (cur, stages)
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.lower(e, None);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b, None);
    }
}

/// `|a, b| K(b).cmp(&K(a))` as the sort key `|a| Reverse(K(a))`, `|a, b| K(a).cmp(&K(b))` as `|a| K(a)`
fn comparator_key(m: &ExprMethodCall) -> Option<Expr> {
    let c = as_closure(m.args.first()?)?;
    let ps: Vec<Ident> = c
        .inputs
        .iter()
        .filter_map(|p| match p {
            Pat::Ident(p) if p.subpat.is_none() => Some(p.ident.clone()),
            _ => None,
        })
        .collect();
    if c.inputs.len() != 2 || ps.len() != 2 {
        return None;
    }
    let mut body = strip(&c.body).clone();
    let mut flipped = false;
    loop {
        body = match body {
            Expr::Block(b) if b.block.stmts.len() == 1 => match b.block.stmts.into_iter().next() {
                Some(Stmt::Expr(e, None)) => e,
                _ => return None,
            },
            Expr::MethodCall(m) if m.method == "reverse" && m.args.is_empty() => {
                flipped = !flipped;
                *m.receiver
            }
            e => {
                body = e;
                break;
            }
        }
    }
    let (l, r) = match body {
        Expr::MethodCall(m) if m.method == "cmp" && m.args.len() == 1 => ((*m.receiver).clone(), m.args[0].clone()),
        Expr::Call(k) if k.args.len() == 2 && expr_path(&k.func).map(|p| p.ends_with("cmp")).unwrap_or(false) => (k.args[0].clone(), k.args[1].clone()),
        _ => return None,
    };
    let unref = |e: Expr| match e {
        Expr::Reference(r) if r.mutability.is_none() => *r.expr,
        e => e,
    };
    let (l, r) = (unref(l), unref(r));
    let text = |e: &Expr, from: &Ident, to: &Ident| {
        let mut b: Block = parse_quote!({ #e });
        subst_block(&mut b, &from.to_string(), parse_quote!(#to));
        let out = b.stmts.pop();
        match out {
            Some(Stmt::Expr(e, None)) => Some(e),
            _ => None,
        }
    };
    let x = id("__x");
    let same = |p: &Ident, q: &Ident| -> Option<Expr> {
        // the left key of `p` only, the right key of `q` only, and the same key
        let a = text(&l, p, &x)?;
        let b = text(&r, q, &x)?;
        let (sa, sb) = (a.to_token_stream().to_string(), b.to_token_stream().to_string());
        let lone = text(&a, q, &id("__y"))?.to_token_stream().to_string() == sa && text(&b, p, &id("__y"))?.to_token_stream().to_string() == sb;
        if sa == sb && lone { Some(a) } else { None }
    };
    let (key, descending) = if let Some(k) = same(&ps[0], &ps[1]) { (k, flipped) } else { (same(&ps[1], &ps[0])?, !flipped) };
    Some(match (strip(&key).clone(), descending) {
        // Reverse(Reverse(k)) is only ever the plain key
        (Expr::Call(k), true) if k.args.len() == 1 && expr_path(&k.func).map(|p| p.ends_with("Reverse")).unwrap_or(false) => {
            let k = k.args[0].clone();
            parse_quote!(|__x| #k)
        }
        (_, true) => parse_quote!(|__x| crate::shim::Reverse(#key)),
        (_, false) => parse_quote!(|__x| #key),
    })
}
