//! Emission of the Verus crate.
use crate::annot::{Db, FnSpec};
use crate::lower::{self, Kind, Lower, RegFn, Registry};
use crate::util::{norm, pretty};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Emitter {
    pub db: Db,
    unsupported: BTreeMap<String, String>,
    reg: Registry,
    pub out: String,
    fns: Vec<Value>,
    clauses: Vec<Value>,
    dropped: Vec<Value>,
    pub notes: BTreeSet<String>,
    /// names of crate functions that have no contract
    /// types that are Copy
    copies: BTreeSet<String>,
    uncontracted: BTreeMap<String, Vec<String>>,
    seen: BTreeMap<String, usize>,
    /// methods of trait impls and traits: never treated as helpers
    trait_methods: BTreeSet<String>,
}

fn ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

pub fn type_key(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => norm(&t.to_token_stream().to_string()),
    }
}

fn is_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}

/// module-wide syntactic rewriting of paths and types
struct Rw<'a> {
    module: &'a str,
    assoc: BTreeMap<String, Type>,
    self_ty: Option<Type>,
    paths: &'a [(String, String, String)],
}

const STRIP: &[&[&str]] = &[
    &["std", "rc"],
    &["std", "collections"],
    &["std", "cell"],
    &["std", "vec"],
    &["std", "hash"],
    &["core", "clone"],
    &["core", "hash"],
    &["std", "clone"],
    &["core", "default"],
    &["std", "string"],
    &["std", "option"],
    &["core", "option"],
    &["alloc", "string"],
    &["alloc", "rc"],
];

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        for pre in STRIP {
            if names.len() > pre.len() && names.iter().zip(pre.iter()).all(|(a, b)| a == b) {
                let rest: Vec<PathSegment> = p.segments.iter().skip(pre.len()).cloned().collect();
                p.segments = rest.into_iter().collect();
                p.leading_colon = None;
                break;
            }
        }
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if names.len() >= 3 && (names[0] == "std" || names[0] == "core") && names[1] == "cmp" && matches!(names[2].as_str(), "Reverse" | "PartialEq" | "Eq") {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            p.segments = rest.into_iter().collect();
            p.leading_colon = None;
        }
        if names.len() == 3 && (names[0] == "std" || names[0] == "core") && names[1] == "fmt" {
            match names[2].as_str() {
                "Display" | "Formatter" => {
                    let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
                    p.segments = rest.into_iter().collect();
                    p.leading_colon = None;
                }
                "Result" => *p = parse_quote!(FmtResult),
                _ => {}
            }
        }
        if names.len() == 3 && matches!(names[2].as_str(), "discriminant_value" | "discriminant") && matches!(names[1].as_str(), "intrinsics" | "mem") {
            *p = parse_quote!(discr);
        }
        if names.len() >= 2 && names[names.len() - 2] == "mem" && (names.len() == 2 || names[0] == "std" || names[0] == "core") {
            match names[names.len() - 1].as_str() {
                "replace" => *p = parse_quote!(mem_replace),
                "take" => *p = parse_quote!(mem_take),
                "swap" => *p = parse_quote!(mem_swap),
                _ => {}
            }
        }
        for (m, from, to) in self.paths {
            if (m == self.module || m == "*") && names.join("::") == *from && p.segments.len() > 0 {
                let args = p.segments.last().unwrap().arguments.clone();
                if let Ok(mut np) = parse_str::<Path>(to) {
                    np.segments.last_mut().unwrap().arguments = args;
                    *p = np;
                }
                break;
            }
        }
        if let Some(last) = p.segments.last_mut() {
            if last.ident == "FnMut" {
                last.ident = ident("Fn");
            }
        }
        if let Some(st) = &self.self_ty {
            // `Self::X` in value paths of an extension impl
            if p.segments.len() > 1 && p.segments[0].ident == "Self" {
                if let Type::Path(tp) = st {
                    let mut segs = tp.path.segments.clone();
                    for s in p.segments.iter().skip(1) {
                        segs.push(s.clone());
                    }
                    p.segments = segs;
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // smart pointers to trait objects
        if let Type::Path(p) = t {
            let last = p.path.segments.last().unwrap();
            let n = last.ident.to_string();
            if n == "Rc" || n == "Box" {
                if let PathArguments::AngleBracketed(ab) = &last.arguments {
                    if let Some(GenericArgument::Type(Type::TraitObject(o))) = ab.args.first() {
                        if let Some(nt) = dyn_type(o, self.module) {
                            *t = nt;
                            visit_mut::visit_type_mut(self, t);
                            return;
                        }
                    }
                }
            }
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let a = p.path.segments[1].ident.to_string();
                if let Some(nt) = self.assoc.get(&a) {
                    *t = nt.clone();
                    visit_mut::visit_type_mut(self, t);
                    return;
                }
            }
            if p.qself.is_none() && p.path.is_ident("Self") {
                if let Some(st) = &self.self_ty {
                    *t = st.clone();
                    return;
                }
            }
        }
        if self.module == "parser" {
            if let Type::Slice(s) = t {
                let e = &s.elem;
                *t = parse_quote!(Vec<#e>);
            }
        }
        if let Type::ImplTrait(it) = t {
            it.bounds = it
                .bounds
                .iter()
                .filter(|b| !matches!(b, TypeParamBound::Trait(tb) if tb.path.segments.last().unwrap().ident == "Clone"))
                .cloned()
                .collect();
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_receiver_mut(&mut self, _r: &mut Receiver) {}
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

fn dyn_type(o: &TypeTraitObject, module: &str) -> Option<Type> {
    for b in &o.bounds {
        if let TypeParamBound::Trait(tb) = b {
            let seg = tb.path.segments.last().unwrap();
            let PathArguments::AngleBracketed(ab) = &seg.arguments else { return None };
            let mut lt = None;
            let mut tys = vec![];
            let mut assoc = BTreeMap::new();
            for a in &ab.args {
                match a {
                    GenericArgument::Lifetime(l) => lt = Some(l.clone()),
                    GenericArgument::Type(t) => tys.push(t.clone()),
                    GenericArgument::AssocType(at) => {
                        assoc.insert(at.ident.to_string(), at.ty.clone());
                    }
                    _ => return None,
                }
            }
            for b2 in &o.bounds {
                if let TypeParamBound::Lifetime(l) = b2 {
                    if lt.is_none() {
                        lt = Some(l.clone());
                    }
                }
            }
            return match seg.ident.to_string().as_str() {
                "Parser" => {
                    let (o, e) = (assoc.get("Output")?, assoc.get("Error")?);
                    let i = tys.first()?;
                    Some(parse_quote!(crate::parser::DynParser<#lt, #i, #o, #e>))
                }
                "IncompleteStrategy" => {
                    let (i, c) = (tys.first()?, tys.get(1)?);
                    Some(parse_quote!(crate::recovery::DynStrategy<#lt, #i, #c>))
                }
                "Iterator" => {
                    let i = assoc.get("Item")?;
                    if module == "stream" {
                        Some(parse_quote!(SourceIter<#lt, #i>))
                    } else {
                        Some(parse_quote!(DynIter<#lt, #i>))
                    }
                }
                _ => None,
            };
        }
    }
    None
}

struct SelfToThis;
impl VisitMut for SelfToThis {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") {
            p.segments[0].ident = ident("this");
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// Verus decides the order in which definitions reach the solver from who mentions whom, and does not
/// count that a function of an impl inherits clauses which mention the impl's specification
/// functions: mention them, to no effect, in every function of the impl
fn spec_links(extra: &str, tr: &str) -> String {
    let mut out = String::new();
    let mut rest = extra;
    while let Some(i) = rest.find("spec fn ") {
        rest = &rest[i + 8..];
        let end = rest.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(rest.len());
        let name = rest[..end].to_string();
        rest = &rest[end..];
        if !rest.starts_with('(') {
            continue;
        }
        let mut depth = 0i32;
        let mut parts = vec![String::new()];
        let mut last = ' ';
        for c in rest.chars() {
            match c {
                '(' | '<' | '[' => depth += 1,
                ')' | ']' => depth -= 1,
                '>' if last != '-' => depth -= 1,
                _ => {}
            }
            if depth == 0 {
                break;
            }
            if c == ',' && depth == 1 {
                parts.push(String::new());
            } else if !(c == '(' && depth == 1 && parts.len() == 1 && parts[0].is_empty()) {
                parts.last_mut().unwrap().push(c);
            }
            last = c;
        }
        let tys: Vec<String> = parts
            .iter()
            .map(|p| p.trim())
            .filter(|p| !p.is_empty())
            .map(|p| match p {
                "&self" => "&Self".to_string(),
                "self" => "Self".to_string(),
                p => p.split_once(':').map(|x| x.1.trim().to_string()).unwrap_or_default(),
            })
            .collect();
        let ps: Vec<String> = tys.iter().enumerate().map(|(k, t)| format!("a{k}: {t}")).collect();
        let xs: Vec<String> = (0..tys.len()).map(|k| format!("a{k}")).collect();
        if ps.is_empty() {
            out.push_str(&format!("let _ = <Self as {tr}>::{name}(); "));
        } else {
            out.push_str(&format!("let _ = |{}| <Self as {tr}>::{name}({}); ", ps.join(", "), xs.join(", ")));
        }
    }
    if out.is_empty() { out } else { format!("proof {{ {out}}}\n") }
}

struct FnCtx<'a> {
    module: &'a str,
    key: String,
    self_kind: Kind,
    updaters: BTreeSet<String>,
    /// no-op mentions of the specification functions of the same impl
    links: String,
}

/// fields of generic type bounded by a Fn trait whose first argument is `&mut`
fn updater_fields(self_ty: Option<&Type>, generics: &Generics, structs: &BTreeMap<String, ItemStruct>) -> BTreeSet<String> {
    let mut gen = BTreeSet::new();
    let mut look = |name: String, b: &TypeParamBound| {
        if let TypeParamBound::Trait(t) = b {
            let seg = t.path.segments.last().unwrap();
            if seg.ident.to_string().starts_with("Fn") {
                if let PathArguments::Parenthesized(p) = &seg.arguments {
                    if let Some(Type::Reference(r)) = p.inputs.first() {
                        if r.mutability.is_some() {
                            gen.insert(name.clone());
                        }
                    }
                }
            }
        }
    };
    for p in &generics.params {
        if let GenericParam::Type(t) = p {
            for b in &t.bounds {
                look(t.ident.to_string(), b);
            }
        }
    }
    if let Some(w) = &generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    look(norm(&t.bounded_ty.to_token_stream().to_string()), b);
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    if gen.is_empty() {
        return out;
    }
    if let Some(Type::Path(p)) = self_ty {
        let seg = p.path.segments.last().unwrap();
        if let Some(st) = structs.get(&seg.ident.to_string()) {
            // map struct generics to the impl's arguments
            let mut map = BTreeMap::new();
            if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                let args: Vec<_> = ab.args.iter().filter(|a| matches!(a, GenericArgument::Type(_))).collect();
                let ps: Vec<_> = st.generics.type_params().collect();
                for (g, a) in ps.iter().zip(args) {
                    map.insert(g.ident.to_string(), norm(&a.to_token_stream().to_string()));
                }
            }
            for f in &st.fields {
                let ft = norm(&f.ty.to_token_stream().to_string());
                if let Some(a) = map.get(&ft) {
                    if gen.contains(a) {
                        if let Some(i) = &f.ident {
                            out.insert(i.to_string());
                        }
                    }
                }
            }
        }
    }
    out
}

impl Emitter {
    pub fn new(db: Db, unsupported: Vec<(String, String)>) -> Self {
        Emitter {
            db,
            unsupported: unsupported.into_iter().collect(),
            reg: Registry::default(),
            out: String::new(),
            fns: vec![],
            clauses: vec![],
            dropped: vec![],
            notes: BTreeSet::new(),
            copies: BTreeSet::new(),
            uncontracted: BTreeMap::new(),
            seen: BTreeMap::new(),
            trait_methods: BTreeSet::new(),
        }
    }

    pub fn report(&self) -> Value {
        let missing: Vec<String> = self
            .db
            .fns
            .keys()
            .filter(|k| !self.seen.contains_key(*k))
            .cloned()
            .collect();
        json!({"functions": self.fns, "clauses": self.clauses, "dropped": self.dropped, "rules": self.notes,
               "missing": missing.iter().map(|k| json!({"path": k, "props": self.db.fns[k].props, "sem": self.db.fns[k].sem})).collect::<Vec<_>>(),
               "uncontracted": self.uncontracted})
    }

    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn drop_item(&mut self, what: String, why: &str) {
        self.dropped.push(json!({"item": what, "reason": why}));
    }

    fn register(&mut self, m: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Impl(i) => {
                    if is_attr(&i.attrs, "automatically_derived") {
                        continue;
                    }
                    let ty = type_key(&i.self_ty);
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            if i.trait_.is_some() {
                                self.trait_methods.insert(format!("{m}::{ty}::{}", f.sig.ident));
                            }
                            self.reg.fns.insert(
                                format!("{m}::{ty}::{}", f.sig.ident),
                                RegFn { sig: f.sig.clone(), block: f.block.clone(), module: m.into() },
                            );
                        }
                    }
                }
                Item::Fn(f) => {
                    self.reg.fns.insert(
                        format!("{m}::{}", f.sig.ident),
                        RegFn { sig: f.sig.clone(), block: (*f.block).clone(), module: m.into() },
                    );
                }
                Item::Trait(t) => {
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            self.trait_methods.insert(format!("{m}::{}::{}", t.ident, f.sig.ident));
                            if let Some(b) = &f.default {
                                self.reg.fns.insert(
                                    format!("{m}::{}::{}", t.ident, f.sig.ident),
                                    RegFn { sig: f.sig.clone(), block: b.clone(), module: m.into() },
                                );
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    pub fn run(&mut self, file: File) {
        let mut mods: Vec<(String, Vec<Item>)> = vec![];
        for it in file.items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, items)) = m.content {
                        mods.push((m.ident.to_string(), items));
                    }
                }
                Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
                o => {
                    let s: String = norm(&o.to_token_stream().to_string()).chars().take(80).collect();
                    self.drop_item(format!("crate root: {s}"), "not in a module");
                }
            }
        }
        for (m, items) in &mods {
            self.register(m, items);
        }
        // functions with no contract of their own
        for k in self.reg.fns.keys() {
            if !self.db.fns.contains_key(k) && !self.trait_methods.contains(k) {
                let n = k.rsplit("::").next().unwrap().to_string();
                self.uncontracted.entry(n).or_default().push(k.clone());
            }
        }
        self.out.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_labels, unused_must_use)]\n");
        self.out.push_str("use vstd::prelude::*;\n");
        let raw = self.db.raw.get("crate").cloned().unwrap_or_default();
        self.out.push_str(&raw);
        for (m, items) in mods {
            if self.db.drop.contains_key(&format!("crate::{m}")) {
                let why = self.db.drop[&format!("crate::{m}")].clone();
                self.drop_item(format!("module {m}"), &why);
                continue;
            }
            self.module(&m, items);
        }
        self.out.push_str("fn main() {}\n");
    }

    fn module(&mut self, m: &str, items: Vec<Item>) {
        self.out.push_str(&format!("pub mod {m} {{\nuse vstd::prelude::*;\nuse crate::shim::*;\n"));
        let mut structs: BTreeMap<String, ItemStruct> = BTreeMap::new();
        for it in &items {
            if let Item::Struct(s) = it {
                structs.insert(s.ident.to_string(), s.clone());
            }
        }
        for it in &items {
            if let Item::Impl(i) = it {
                let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if tr.as_deref() == Some("Copy") && i.generics.params.is_empty() {
                    self.copies.insert(format!("{m}::{}", type_key(&i.self_ty)));
                }
            }
        }
        let mut body = vec![];
        for it in items {
            match it {
                Item::Use(u) => {
                    let s = norm(&u.tree.to_token_stream().to_string());
                    if s.starts_with("super") || s.starts_with("crate") || s.starts_with("useself") {
                        self.out.push_str(&format!("use {};\n", u.tree.to_token_stream().to_string().replace(' ', "").replace("as", " as ")));
                    } else {
                        self.drop_item(format!("{m}: use {s}"), "library import, replaced by the shim");
                    }
                }
                Item::Macro(_) => {}
                o => body.push(o),
            }
        }
        let mut bc = vec!["crate::shim::axioms".to_string()];
        bc.extend(self.db.broadcast.get(m).cloned().unwrap_or_default());
        self.out.push_str(&format!("verus! {{\nbroadcast use {{{}}};\n", bc.join(", ")));
        if let Some(r) = self.db.raw.get(m) {
            let r = r.clone();
            self.out.push_str(&r);
        }
        for it in body {
            self.item(m, it, &structs);
        }
        self.out.push_str("}\n}\n");
    }

    fn rw<'x>(&self, m: &'x str, paths: &'x [(String, String, String)]) -> Rw<'x> {
        Rw { module: m, assoc: BTreeMap::new(), self_ty: None, paths }
    }

    fn item(&mut self, m: &str, it: Item, structs: &BTreeMap<String, ItemStruct>) {
        let paths = self.db.paths.clone();
        match it {
            Item::Struct(mut s) => {
                let k = format!("{m}::{}", s.ident);
                self.rw(m, &paths).visit_item_struct_mut(&mut s);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                s.vis = parse_quote!(pub);
                if self.copies.contains(&k) {
                    self.out.push_str("#[derive(::core::clone::Clone, ::core::marker::Copy)]\n");
                }
                for a in self.db.attrs.get(&k).cloned().unwrap_or_default() {
                    self.out.push_str(&format!("{a}\n"));
                }
                for p in s.generics.type_params() {
                    self.out.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
                }
                for fl in self.db.fields.get(&k).cloned().unwrap_or_default() {
                    let fl: Field = {
                        let x: FieldsNamed = parse_str(&format!("{{ pub {fl} }}")).expect("extra field");
                        x.named[0].clone()
                    };
                    if let Fields::Named(n) = &mut s.fields {
                        n.named.push(fl);
                    }
                }
                self.out.push_str(&pretty(s.to_token_stream(), 0));
                self.out.push('\n');
            }
            Item::Enum(mut s) => {
                let k = format!("{m}::{}", s.ident);
                self.rw(m, &paths).visit_item_enum_mut(&mut s);
                for v in s.variants.iter_mut() {
                    for f in v.fields.iter_mut() {
                        f.vis = Visibility::Inherited;
                    }
                }
                s.vis = parse_quote!(pub);
                if self.copies.contains(&k) {
                    self.out.push_str("#[derive(::core::clone::Clone, ::core::marker::Copy)]\n");
                }
                for a in self.db.attrs.get(&k).cloned().unwrap_or_default() {
                    self.out.push_str(&format!("{a}\n"));
                }
                for p in s.generics.type_params() {
                    self.out.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
                }
                self.out.push_str(&pretty(s.to_token_stream(), 0));
                self.out.push('\n');
            }
            Item::Type(mut t) => {
                self.rw(m, &paths).visit_item_type_mut(&mut t);
                self.out.push_str(&pretty(t.to_token_stream(), 0));
                self.out.push('\n');
            }
            Item::Trait(t) => self.trait_(m, t),
            Item::Impl(i) => self.impl_(m, i, structs),
            Item::Fn(f) => {
                let mut f = f;
                let key = format!("{m}::{}", f.sig.ident);
                let upd = BTreeSet::new();
                self.rw(m, &paths).visit_item_fn_mut(&mut f);
                let ctx = FnCtx { module: m, key, self_kind: Kind::Other, updaters: upd, links: String::new() };
                self.function(ctx, "pub ", f.sig, Some(*f.block), true);
            }
            Item::Const(mut c) => {
                self.rw(m, &paths).visit_item_const_mut(&mut c);
                c.vis = parse_quote!(pub);
                self.out.push_str(&pretty(c.to_token_stream(), 0));
                self.out.push('\n');
            }
            o => {
                let s: String = norm(&o.to_token_stream().to_string()).chars().take(80).collect();
                self.drop_item(format!("{m}: {s}"), "item kind not extracted");
            }
        }
    }

    fn trait_(&mut self, m: &str, t: ItemTrait) {
        let paths = self.db.paths.clone();
        let name = t.ident.to_string();
        let ext = self.db.ext.contains_key(&format!("{m}::{name}"));
        let mut t = t;
        self.rw(m, &paths).visit_item_trait_mut(&mut t);
        let g = &t.generics;
        let wc = g.where_clause.clone();
        let mut head = t.clone();
        head.items.clear();
        head.generics.where_clause = None;
        head.vis = parse_quote!(pub);
        let by_value = self.db.imp.get(&format!("{m}::trait {name}")).map(|x| x.0.contains("(self,")).unwrap_or(false);
        let ret_self = by_value || t.items.iter().any(|i| matches!(i, TraitItem::Fn(f) if matches!(&f.sig.output, ReturnType::Type(_, ty) if norm(&ty.to_token_stream().to_string()) == "Self")));
        if ret_self && !head.supertraits.iter().any(|b| norm(&b.to_token_stream().to_string()) == "Sized" || norm(&b.to_token_stream().to_string()) == "Clone") {
            head.supertraits.push(parse_quote!(Sized));
        }
        let hs = pretty(head.to_token_stream(), 0);
        let hs = hs.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
        self.out.push_str(&hs);
        if let Some(w) = &wc {
            self.out.push_str(&format!("\n{}", pretty(w.to_token_stream(), 0)));
        }
        self.out.push_str(" {\n");
        let mut defaults = vec![];
        let mut free: Vec<(Signature, Block)> = vec![];
        let items = t.items.clone();
        let extra = self.db.imp.get(&format!("{m}::trait {name}")).map(|x| x.0.clone()).unwrap_or_default();
        for it in items {
            match it {
                TraitItem::Type(x) => {
                    self.out.push_str(&pretty(x.to_token_stream(), 0));
                    self.out.push('\n');
                }
                TraitItem::Fn(f) => {
                    if f.default.is_some() && ext {
                        defaults.push(f);
                    } else {
                        let key = format!("{m}::{name}::{}", f.sig.ident);
                        let mut f = f;
                        if f.default.is_some() && self.db.fns.contains_key(&format!("{key}__default")) {
                            // the default body, verified on its own: an implementor that overrides it has its own contract
                            free.push((f.sig.clone(), f.default.take().unwrap()));
                        }
                        let ctx = FnCtx { module: m, key, self_kind: Kind::Other, updaters: Default::default(), links: String::new() };
                        self.function(ctx, "", f.sig, f.default, true);
                    }
                }
                o => {
                    let s: String = norm(&o.to_token_stream().to_string()).chars().take(80).collect();
                    self.drop_item(format!("{m}::{name}: {s}"), "trait item kind not extracted");
                }
            }
        }
        self.out.push_str(&extra);
        self.out.push_str("}\n");
        for (mut sig, mut body) in free {
            let (_, gargs, _) = g.split_for_impl();
            let ti = &t.ident;
            let orig = sig.ident.to_string();
            let own = std::mem::take(&mut sig.generics);
            let mut gp = g.params.clone();
            for q in gp.iter_mut() {
                if let GenericParam::Type(tp) = q {
                    tp.eq_token = None;
                    tp.default = None;
                }
            }
            for q in own.params {
                gp.push(q);
            }
            gp.push(parse_quote!(Slf: #ti #gargs));
            let mut preds: Vec<WherePredicate> = wc.iter().flat_map(|w| w.predicates.iter().cloned()).collect();
            preds.extend(own.where_clause.iter().flat_map(|w| w.predicates.iter().cloned()));
            sig.generics = parse_quote!(< #gp >);
            if !preds.is_empty() {
                sig.generics.where_clause = Some(parse_quote!(where #(#preds),*));
            }
            if let Some(FnArg::Receiver(r)) = sig.inputs.first().cloned() {
                let ty: Type = match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => parse_quote!(&mut Slf),
                    (Some(_), None) => parse_quote!(&Slf),
                    _ => parse_quote!(Slf),
                };
                sig.inputs[0] = parse_quote!(this: #ty);
            }
            SelfToThis.visit_block_mut(&mut body);
            sig.ident = ident(&format!("{name}__{orig}__default"));
            let key = format!("{m}::{name}::{orig}__default");
            let ctx = FnCtx { module: m, key, self_kind: Kind::Other, updaters: Default::default(), links: String::new() };
            self.function(ctx, "pub ", sig, Some(body), true);
        }
        if !ext {
            return;
        }
        // extension trait: declarations with contracts
        let en = ident(&format!("{name}Ext"));
        let (params, gargs) = (&g.params, {
            let (_, ty, _) = g.split_for_impl();
            ty.to_token_stream()
        });
        let ti = &t.ident;
        let wpreds: Vec<WherePredicate> = wc
            .as_ref()
            .map(|w| {
                w.predicates
                    .iter()
                    .filter(|p| !norm(&p.to_token_stream().to_string()).starts_with("Self:"))
                    .cloned()
                    .collect()
            })
            .unwrap_or_default();
        let wtext = if wpreds.is_empty() { quote!() } else { quote!(where #(#wpreds),*) };
        self.out.push_str(&format!(
            "{} {{\n",
            pretty(quote!(pub trait #en < #params > : #ti #gargs #wtext), 0)
        ));
        for f in &defaults {
            let key = format!("{m}::{name}::{}", f.sig.ident);
            let ctx = FnCtx { module: m, key, self_kind: Kind::Other, updaters: Default::default(), links: String::new() };
            self.function(ctx, "", f.sig.clone(), None, true);
        }
        self.out.push_str("}\n");
        let mut wp2 = wpreds.clone();
        wp2.push(parse_quote!(__P: #ti #gargs));
        self.out.push_str(&format!(
            "{} {{\n",
            pretty(quote!(impl < #params, __P > #en #gargs for __P where #(#wp2),*), 0)
        ));
        for f in defaults {
            let mut f = f;
            let mut rw = self.rw(m, &paths);
            rw.self_ty = Some(parse_quote!(__P));
            rw.visit_trait_item_fn_mut(&mut f);
            let key = format!("{m}::{name}::{}", f.sig.ident);
            let ctx = FnCtx { module: m, key, self_kind: Kind::Other, updaters: Default::default(), links: String::new() };
            self.function(ctx, "", f.sig, f.default, false);
        }
        self.out.push_str("}\n");
    }

    fn impl_(&mut self, m: &str, i: ItemImpl, structs: &BTreeMap<String, ItemStruct>) {
        let paths = self.db.paths.clone();
        let ty = type_key(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        if is_attr(&i.attrs, "automatically_derived") {
            if tr.as_deref() == Some("Copy") {
                if !self.copies.contains(&format!("{m}::{ty}")) {
                    self.drop_item(format!("{m}: derived Copy for {ty}"), "marker only");
                }
                return;
            }
            let eq = tr.as_deref() == Some("PartialEq") && self.db.imp.contains_key(&format!("{m}::PartialEq for {ty}"));
            if tr.as_deref() != Some("Clone") && !eq {
                self.drop_item(format!("{m}: derived {} for {ty}", tr.unwrap_or_default()), "compiler-derived impl other than Clone and the contracted PartialEq");
                return;
            }
        }
        let hk = match &tr {
            Some(t) => format!("{t} for {ty}"),
            None => ty.clone(),
        };
        if let Some(why) = self.db.drop.get(&format!("{m}::impl {hk}")) {
            let why = why.clone();
            self.drop_item(format!("{m}: impl {hk}"), &why);
            return;
        }
        match tr.as_deref() {
            Some("Debug") => {
                self.drop_item(format!("{m}: impl {hk}"), "formatting");
                return;
            }
            Some("Eq" | "Hash" | "StructuralPartialEq") => {
                self.drop_item(format!("{m}: impl {hk}"), "not used by the crate");
                return;
            }
            Some("PartialEq") if !self.db.imp.contains_key(&format!("{m}::PartialEq for {ty}")) => {
                self.drop_item(format!("{m}: impl {hk}"), "not used by the crate");
                return;
            }
            _ => {}
        }
        let updaters = updater_fields(Some(&i.self_ty), &i.generics, structs);
        let mut i = i;
        let mut assoc = BTreeMap::new();
        for it in &i.items {
            if let ImplItem::Type(t) = it {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        {
            let mut rw = self.rw(m, &paths);
            rw.assoc = assoc;
            rw.visit_item_impl_mut(&mut i);
        }
        let inherent = self.db.inherent.contains_key(&format!("{m}::impl {hk}"));
        // From<crate type> for a library type: a free function
        if tr.as_deref() == Some("From") {
            let (_, p, _) = i.trait_.as_ref().unwrap();
            let seg = p.segments.last().unwrap();
            let from = if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                match ab.args.first() {
                    Some(GenericArgument::Type(t)) => type_key(t),
                    _ => "X".into(),
                }
            } else {
                "X".into()
            };
            let st = (*i.self_ty).clone();
            for it in i.items {
                if let ImplItem::Fn(mut f) = it {
                    let mut rw = self.rw(m, &paths);
                    rw.self_ty = Some(st.clone());
                    rw.visit_impl_item_fn_mut(&mut f);
                    f.sig.ident = ident(&format!("from__{from}"));
                    f.sig.generics = i.generics.clone();
                    let key = format!("{m}::from__{from}");
                    let ctx = FnCtx { module: m, key, self_kind: Kind::Other, updaters: Default::default(), links: String::new() };
                    self.function(ctx, "pub ", f.sig, Some(f.block), true);
                }
            }
            return;
        }
        let exact = match &i.trait_ {
            Some((_, p, _)) => format!("{m}::={}for{}", norm(&p.to_token_stream().to_string()), norm(&i.self_ty.to_token_stream().to_string())),
            None => String::new(),
        };
        let extra = self.db.imp.get(&exact).or_else(|| self.db.imp.get(&format!("{m}::{hk}"))).map(|x| x.0.clone()).unwrap_or_default();
        let mut head = i.clone();
        head.items.clear();
        if inherent {
            head.trait_ = None;
        }
        let wc = head.generics.where_clause.take();
        let hs = pretty(head.to_token_stream(), 0);
        let hs = hs.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
        self.out.push_str(&hs);
        if let Some(w) = &wc {
            self.out.push_str(&format!("\n{}", pretty(w.to_token_stream(), 0)));
        }
        self.out.push_str(" {\n");
        let sk = if m == "parser" && ty == "Result" { Kind::Res } else { Kind::Other };
        let is_trait = tr.is_some() && !inherent;
        let links = match &i.trait_ {
            Some((_, p, _)) if !inherent => spec_links(&extra, &p.to_token_stream().to_string()),
            _ => String::new(),
        };
        let mut first = true;
        for it in i.items {
            match it {
                ImplItem::Type(mut t) => {
                    if !inherent {
                        t.vis = Visibility::Inherited;
                        self.out.push_str(&pretty(t.to_token_stream(), 0));
                        self.out.push('\n');
                    }
                }
                ImplItem::Fn(mut f) => {
                    if first {
                        self.out.push_str(&extra);
                        first = false;
                    }
                    if tr.as_deref() == Some("PartialEq") && f.sig.ident == "eq" {
                        f.sig.ident = ident("veq");
                    }
                    let base = format!("{m}::{ty}::{}", f.sig.ident);
                    let key = base;
                    let ctx = FnCtx { module: m, key, self_kind: sk, updaters: updaters.clone(), links: links.clone() };
                    self.function(ctx, if is_trait { "" } else { "pub " }, f.sig, Some(f.block), true);
                }
                o => {
                    let s: String = norm(&o.to_token_stream().to_string()).chars().take(80).collect();
                    self.drop_item(format!("{m}::{ty}: {s}"), "impl item kind not extracted");
                }
            }
        }
        if first {
            self.out.push_str(&extra);
        }
        self.out.push_str("}\n");
    }

    fn function(&mut self, ctx: FnCtx, vis: &str, mut sig: Signature, body: Option<Block>, with_contract: bool) {
        let n = {
            let e = self.seen.entry(ctx.key.clone()).or_insert(0);
            *e += 1;
            *e
        };
        let path = if n > 1 && with_contract && body.is_some() { format!("{}#{}", ctx.key, n) } else { ctx.key.clone() };
        let spec = self.db.fns.get(&path).or_else(|| self.db.fns.get(&ctx.key)).cloned();
        let has_spec = spec.is_some();
        let mut sp = spec.unwrap_or_default();
        let mut reason: Option<String> = self.unsupported.get(&path).cloned();
        let mut trusted = sp.trusted.clone();
        if let Some(r) = &sp.skip {
            // not emitted at all
            self.fns.push(json!({"path": path, "status": "skipped", "reason": r, "props": sp.props, "sem": sp.sem, "start": 0, "end": 0}));
            return;
        }
        // parameters
        let mut prologue: Vec<Stmt> = vec![];
        let mut body = body;
        for (k, inp) in sig.inputs.iter_mut().enumerate() {
            match inp {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        r.ty = Box::new(parse_quote!(Self));
                        if let Some(b) = &mut body {
                            SelfToThis.visit_block_mut(b);
                        }
                        prologue.push(parse_quote!(let mut this = self;));
                    }
                }
                FnArg::Typed(t) => match &mut *t.pat {
                    Pat::Ident(p) => {
                        if p.mutability.is_some() {
                            p.mutability = None;
                            let i = &p.ident;
                            prologue.push(parse_quote!(let mut #i = #i;));
                        }
                    }
                    Pat::Wild(_) => {
                        let i = ident(&format!("__arg{k}"));
                        *t.pat = parse_quote!(#i);
                    }
                    _ => reason = Some("parameter pattern".into()),
                },
            }
        }
        // the names the contract is written in
        let mut pnames: Vec<String> = vec![];
        {
            let want = sp.params.clone().or_else(|| self.db.params.get(&path).cloned()).unwrap_or_default();
            let mut k = 0;
            let mut ren: Vec<(String, String)> = vec![];
            for inp in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = inp {
                    if let Pat::Ident(p) = &mut *t.pat {
                        let own = p.ident.to_string();
                        pnames.push(own.clone());
                        if let Some(w) = want.get(k) {
                            if *w != own {
                                ren.push((own, w.clone()));
                                p.ident = ident(w);
                            }
                        }
                        k += 1;
                    }
                }
            }
            if !ren.is_empty() {
                let mut clash = false;
                if let Some(b) = &mut body {
                    let mut v = Rename { ren: &ren, clash: false };
                    v.visit_block_mut(b);
                    clash |= v.clash;
                }
                for s in prologue.iter_mut() {
                    let mut v = Rename { ren: &ren, clash: false };
                    v.visit_stmt_mut(s);
                    clash |= v.clash;
                }
                if clash && reason.is_none() {
                    reason = Some("renamed parameter clashes with another name".into());
                }
            }
        }
        // body
        let mut text = String::new();
        let mut nloops = 0;
        let mut notes: Vec<String> = vec![];
        let mut loopsets: BTreeMap<usize, Vec<String>> = Default::default();
        if let Some(mut b) = body.clone() {
            let mut helpers = BTreeMap::new();
            for (name, keys) in &self.uncontracted {
                // helpers: functions nobody wrote a contract for, called by plain name
                let own: Vec<String> = keys.iter().filter(|k| !self.known_uncontracted(k) && **k != ctx.key).cloned().collect();
                if !own.is_empty() {
                    helpers.insert(name.clone(), own);
                }
            }
            let own = ctx.key.split("::").nth(1).unwrap_or("").to_string();
            let mut taken: BTreeSet<String> = Default::default();
            for t in [b.to_token_stream().to_string(), sig.inputs.to_token_stream().to_string()] {
                taken.extend(t.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()));
            }
            let mut lw = Lower {
                reg: &self.reg,
                module: ctx.module.to_string(),
                self_kind: ctx.self_kind,
                errs: vec![],
                notes: Default::default(),
                fresh: 0,
                loops: vec![],
                env: vec![],
                closures: vec![],
                ret: Some(vec![]),
                ret_kind: match &sig.output {
                    ReturnType::Type(_, t) => Lower::type_kind(t),
                    _ => lower::Kind::Other,
                },
                updaters: ctx.updaters.clone(),
                helpers,
                own,
                taken,
                depth: 0,
                nclosures: 0,
                nsnap: 0,
                called: Default::default(),
            };
            for inp in &sig.inputs {
                if let FnArg::Typed(t) = inp {
                    if let Pat::Ident(p) = &*t.pat {
                        lw.env.push((p.ident.to_string(), Lower::type_kind(&t.ty)));
                    }
                }
            }
            // functions inlined from elsewhere bring std paths with them
            // a shape the lowering has no words for is a function it does not take
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lw.block(&mut b, Some(vec![])))).is_err() {
                lw.errs.push("a construct the extraction does not know".into());
            }
            {
                let paths = self.db.paths.clone();
                Rw { module: ctx.module, assoc: Default::default(), self_ty: None, paths: &paths }.visit_block_mut(&mut b);
            }
            if !self.db.lits.is_empty() {
                let own_ty = ctx.key.split("::").nth(1).unwrap_or("").to_string();
                Lits { db: &self.db, own: own_ty, module: ctx.module.to_string(), notes: &mut lw.notes }.visit_block_mut(&mut b);
            }
            let errs = lw.errs.clone();
            notes = lw.notes.iter().cloned().collect();
            // a loop that sets a flag and stops, and `any`, are the same loop
            let loops: Vec<String> = lw
                .loops
                .iter()
                .enumerate()
                .map(|(k, l)| {
                    let want = sp.loops.get(&k);
                    match (l.kind.as_str(), want) {
                        ("for", Some(w)) if w.kind == "any" && l.vars.contains_key("acc") => "any".to_string(),
                        ("any", Some(w)) if w.kind == "for" && w.spec.contains("$hit") => "for".to_string(),
                        _ => l.kind.clone(),
                    }
                })
                .collect();
            let lvars: Vec<BTreeMap<String, String>> = lw.loops.iter().map(|l| l.vars.clone()).collect();
            nloops = loops.len();
            let _ = lower::is_vpanic;
            if !errs.is_empty() && reason.is_none() {
                reason = Some(format!("not lowered: {}", errs.join("; ")));
            }
            if reason.is_none() {
                // loop anchors
                for (k, l) in &sp.loops {
                    match loops.get(*k) {
                        None => reason = Some(format!("lost loop {k} ({})", l.kind)),
                        Some(kk) if matches!((l.kind.as_str(), kk.as_str()), ("while", "loop") | ("loop", "while")) && l.some.is_empty() && l.none.is_empty() => {}
                        Some(kk) if !l.kind.is_empty() && *kk != l.kind => {
                            reason = Some(format!("loop {k} is now a {kk} loop, contract is for a {} loop", l.kind))
                        }
                        _ => {}
                    }
                }
                if nloops > sp.loops.len() && (has_spec || true) && !self.known_loopfree(&path) {
                    if reason.is_none() && nloops > sp.loops.len() {
                        reason = Some(format!("loop without an invariant ({} loops, {} annotated)", nloops, sp.loops.len()));
                    }
                }
            }
            // what every loop assigns: an invariant written for other variables says nothing about it
            let mut sets = LoopSets { own: Default::default() };
            syn::visit::Visit::visit_block(&mut sets, &b);
            loopsets = sets.own;
            if reason.is_none() {
                for (k, set) in &loopsets {
                    if let Some(want) = self.db.loopsets.get(&(path.clone(), *k)) {
                        if let Some(x) = set.iter().find(|x| !want.contains(x)) {
                            reason = Some(format!("loop {k} now assigns {x}, its invariant is about {}", want.join(", ")));
                        }
                    }
                }
            }
            let mut stmts = prologue;
            stmts.extend(b.stmts);
            b.stmts = stmts;
            // self-test: an assertion that has to fail at the start or at the end of every function
            match std::env::var("VP_VACUITY").as_deref().map(|m| if trusted.is_some() { "" } else { m }) {
                Ok("entry") => sp.entry.push_str("\nproof { assert(false); }\n"),
                Ok("exit") => sp.exit.push_str("\nproof { assert(false); }\n"),
                _ => {}
            }
            // R17: Verus loses the final value of a `&mut` parameter on the way out of a match with
            // guards unless the parameter is used again, so use it (a no-op) on every way out
            let mut guards = Guards(false);
            guards.visit_block_mut(&mut b);
            if guards.0 && !has_ref(&sig.output) {
                for inp in &sig.inputs {
                    let p = match inp {
                        FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => "self".to_string(),
                        FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                            (Pat::Ident(p), Type::Reference(r)) if r.mutability.is_some() => p.ident.to_string(),
                            _ => continue,
                        },
                        _ => continue,
                    };
                    sp.exit.push_str(&format!("\ncrate::shim::touch(&mut *{p});\n"));
                    notes.push("match with guards: `&mut` parameters are used once more, by a no-op, on every way out".into());
                }
            }
            if !sp.exit.trim().is_empty() {
                Exits.visit_block_mut(&mut b);
                let rv = ident("__ret");
                match b.stmts.pop() {
                    Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Return(_)) && !matches!(sig.output, ReturnType::Default) => {
                        b.stmts.push(Stmt::Expr(Expr::Verbatim(quote!(let #rv = #e)), Some(Default::default())));
                        b.stmts.push(parse_quote!(__VP_EXIT__;));
                        b.stmts.push(Stmt::Expr(parse_quote!(#rv), None));
                    }
                    Some(Stmt::Expr(e, s)) if matches!(e, Expr::Return(_)) => b.stmts.push(Stmt::Expr(e, s)),
                    x => {
                        if let Some(mut x) = x {
                            if let Stmt::Expr(_, semi) = &mut x {
                                *semi = Some(Default::default());
                            }
                            b.stmts.push(x);
                        }
                        b.stmts.push(parse_quote!(__VP_EXIT__;));
                    }
                }
            }
            text = pretty(b.to_token_stream(), 0);
            text = text.trim().to_string();
            text = fill(text, &sp, &lvars);
            // entry text
            if !sp.entry.trim().is_empty() || !ctx.links.is_empty() {
                let rest = text[1..].to_string();
                text = format!("{{\n{}\n{}{}", sp.entry, ctx.links, rest);
            }
            for (anchor, t) in &sp.at {
                let _ = (anchor, t);
            }
        }
        if !has_spec && body.is_some() && with_contract && !self.known_uncontracted(&path) && trusted.is_none() {
            // a function nobody specified: inlined at its call sites, so no text of its own is needed
            for n in notes {
                self.notes.insert(n);
            }
            let at = self.line();
            self.fns.push(json!({"path": path, "status": "unsupported", "reason": "no contract (inlined where it is called)", "props": sp.props, "sem": sp.sem,
                "start": at, "end": at, "params": pnames, "loops": nloops, "loopsets": loopsets, "contract": false, "clauses": 0, "decl": with_contract}));
            return;
        }
        for n in notes {
            self.notes.insert(n);
        }
        // print
        let mut external = (reason.is_some() || trusted.is_some()) && body.is_some();
        if external && reason.is_some() {
            trusted = None;
        }
        if body.is_none() {
            external = false;
        }
        for a in &sp.attrs {
            if !external || !a.contains("rlimit") {
                self.out.push_str(&format!("{a}\n"));
            }
        }
        if external {
            self.out.push_str("#[verifier::external_body]\n");
        }
        let start = self.line();
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let rn = sp.ret.clone().unwrap_or_else(|| "r".into());
                let ts = pretty(t.to_token_stream(), 0).trim().to_string();
                if ts == "!" {
                    " -> !".to_string()
                } else {
                    format!(" -> ({rn}: {ts})")
                }
            }
        };
        let wc = sig.generics.where_clause.take();
        sig.output = ReturnType::Default;
        let s = pretty(sig.to_token_stream(), 0).trim().to_string();
        self.out.push_str(&format!("{vis}{s}{ret}\n"));
        if let Some(w) = wc {
            if !w.predicates.is_empty() {
                let mut t = pretty(w.to_token_stream(), 1).trim().to_string();
                if !t.ends_with(',') {
                    t.push(',');
                }
                self.out.push_str(&t);
                self.out.push('\n');
            }
        }
        if with_contract {
            for (kw, cls) in [("requires", &sp.requires), ("ensures", &sp.ensures)] {
                if !cls.is_empty() {
                    self.out.push_str(&format!("    {kw}\n"));
                    for c in cls {
                        let a = self.line();
                        self.out.push_str(&format!("        {},\n", c.text));
                        let b = self.line() - 1;
                        self.clauses.push(json!({"fn": path, "kind": kw, "tags": c.tags, "start": a, "end": b, "text": c.text, "file": c.file, "line": c.line}));
                    }
                }
            }
            if let Some(d) = &sp.decreases {
                self.out.push_str(&format!("    decreases {d}\n"));
            }
        }
        let status = if body.is_none() {
            self.out.push_str(";\n");
            "declared"
        } else if external {
            let rn = norm(&ret);
            self.out.push_str(if rn.contains("implFn()->") { "{ || unimplemented!() }\n" } else { "{ unimplemented!() }\n" });
            if reason.is_some() {
                "unsupported"
            } else {
                "trusted"
            }
        } else {
            self.out.push_str(&text);
            self.out.push('\n');
            "verified"
        };
        let end = self.line();
        self.fns.push(json!({"path": path, "status": status, "reason": reason.or(trusted), "props": sp.props, "sem": sp.sem,
            "start": start, "end": end, "params": pnames, "loops": nloops, "loopsets": loopsets, "contract": has_spec, "clauses": sp.ensures.len() + sp.requires.len(),
            "decl": with_contract}));
    }

    fn known_uncontracted(&self, path: &str) -> bool {
        self.db.attrs.get("*::free").map(|v| v.iter().any(|p| path == p || (p.ends_with('*') && path.starts_with(p.trim_end_matches('*'))))).unwrap_or(false)
            || path.ends_with("::clone")
    }
    fn known_loopfree(&self, _path: &str) -> bool {
        false
    }
}

/// fill the loop and closure placeholders with the contract's text
fn fill(mut text: String, sp: &FnSpec, loops: &[BTreeMap<String, String>]) -> String {
    for k in 0..loops.len() {
        let mut l = sp.loops.get(&k).cloned().unwrap_or_default();
        for t in [&mut l.pre, &mut l.spec, &mut l.head, &mut l.some, &mut l.none] {
            for (n, vars) in loops.iter().enumerate() {
                for (role, v) in vars {
                    *t = t.replace(&format!("${role}{n}"), v);
                }
            }
            for (role, v) in &loops[k] {
                *t = t.replace(&format!("${role}"), v);
            }
        }
        let ph = format!("__VP_LOOP_{k}__");
        // loop { PH ;   ->  loop SPEC { HEAD
        loop {
            let Some(pos) = find_ident(&text, &ph) else { break };
            let before = text[..pos].rfind("loop").unwrap();
            let semi = pos + text[pos..].find(';').unwrap() + 1;
            let new = format!("{}{}\nloop\n{}\n{{\n{}", &text[..before], pre_wrap(&l.pre), l.spec, l.head);
            text = format!("{}{}", new, &text[semi..]);
        }
        for (suf, t) in [("SOME", &l.some), ("NONE", &l.none)] {
            let ph = format!("__VP_LOOP_{k}__{suf}");
            while let Some(pos) = find_ident(&text, &ph) {
                let semi = pos + text[pos..].find(';').unwrap() + 1;
                text = format!("{}{}{}", &text[..pos], t, &text[semi..]);
            }
        }
    }
    while let Some(pos) = find_ident(&text, "__VP_EXIT__") {
        let semi = pos + text[pos..].find(';').unwrap() + 1;
        text = format!("{}{}{}", &text[..pos], sp.exit, &text[semi..]);
    }
    while let Some(pos) = text.find("__VP_SORTED_") {
        let semi = pos + text[pos..].find(';').unwrap();
        let k: usize = text[pos + "__VP_SORTED_".len()..semi].trim().trim_end_matches('_').parse().unwrap();
        text = format!("{}{}{}", &text[..pos], sp.sorted.get(&k).cloned().unwrap_or_default(), &text[semi + 1..]);
    }
    while let Some(pos) = text.find("__VP_SNAP_") {
        let semi = pos + text[pos..].find(';').unwrap();
        let rest = text[pos + "__VP_SNAP_".len()..semi].trim().to_string();
        let (k, v) = rest.split_once("__").unwrap();
        text = format!("{}let ghost __s{} = {}@{}", &text[..pos], k, v, &text[semi..]);
    }
    let mut k = 0;
    loop {
        let ph = format!("__VP_CLOSURE_{k}__");
        let Some(pos) = find_ident(&text, &ph) else { break };
        let t = sp.closures.get(&k).cloned().unwrap_or_default();
        text = format!("{}{}{}", &text[..pos], t, &text[pos + ph.len()..]);
        k += 1;
    }
    text
}

fn pre_wrap(s: &str) -> String {
    s.to_string()
}

fn find_ident(text: &str, id: &str) -> Option<usize> {
    let mut from = 0;
    while let Some(p) = text[from..].find(id) {
        let pos = from + p;
        let after = text[pos + id.len()..].chars().next().unwrap_or(' ');
        if !(after.is_alphanumeric() || after == '_') {
            return Some(pos);
        }
        from = pos + id.len();
    }
    None
}

/// the variables and fields declared outside of a loop that its body assigns
struct LoopSets {
    own: BTreeMap<usize, Vec<String>>,
}
impl<'a> syn::visit::Visit<'a> for LoopSets {
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        if let Some(Stmt::Expr(Expr::Path(p), _)) = l.body.stmts.first() {
            let name = p.to_token_stream().to_string();
            if let Some(n) = name.strip_prefix("__VP_LOOP_").and_then(|x| x.trim_end_matches('_').parse().ok()) {
                let mut a = Assigned { set: vec![], declared: vec![] };
                syn::visit::Visit::visit_block(&mut a, &l.body);
                let declared = a.declared;
                let mut set: Vec<String> = a
                    .set
                    .into_iter()
                    .filter(|x| !x.starts_with("__"))
                    .filter(|x| !declared.contains(&x.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()))
                    .collect();
                set.sort();
                set.dedup();
                self.own.insert(n, set);
            }
        }
        syn::visit::visit_expr_loop(self, l);
    }
}
struct Assigned {
    set: Vec<String>,
    declared: Vec<String>,
}
impl Assigned {
    fn add(&mut self, e: &Expr) {
        match e {
            Expr::Paren(p) => self.add(&p.expr),
            Expr::Unary(u) => self.add(&u.expr),
            Expr::Tuple(t) => t.elems.iter().for_each(|x| self.add(x)),
            Expr::Path(_) | Expr::Field(_) => self.set.push(e.to_token_stream().to_string().replace(' ', "")),
            Expr::Index(x) => self.add(&x.expr),
            _ => {}
        }
    }
}
impl<'a> syn::visit::Visit<'a> for Assigned {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.add(&a.left);
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        use BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.add(&b.left);
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.declared.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

/// is there a match arm with a guard?
struct Guards(bool);
impl VisitMut for Guards {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.0 |= a.guard.is_some();
        visit_mut::visit_arm_mut(self, a);
    }
}

fn has_ref(o: &ReturnType) -> bool {
    match o {
        ReturnType::Default => false,
        ReturnType::Type(_, t) => t.to_token_stream().to_string().contains('&'),
    }
}

/// proof text in front of every `return`
struct Exits;
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(x) => parse_quote!({ let __ret = #x; __VP_EXIT__; return __ret }),
                None => parse_quote!({ __VP_EXIT__; return }),
            };
        }
    }
}

/// struct literals of a type with extra ghost fields
struct Lits<'a> {
    db: &'a Db,
    own: String,
    module: String,
    notes: &'a mut BTreeSet<String>,
}

impl<'a> VisitMut for Lits<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Struct(s) = e {
            let mut n = s.path.segments.last().unwrap().ident.to_string();
            if n == "Self" {
                n = self.own.clone();
            }
            let segs = s.path.segments.len();
            let md = if segs > 1 { s.path.segments[segs - 2].ident.to_string() } else { self.module.clone() };
            if let Some(fs) = self.db.lits.get(&format!("{md}::{n}")) {
                if s.rest.is_none() && s.fields.iter().all(|f| matches!(f.member, Member::Named(_))) {
                    let mut lets: Vec<Stmt> = vec![];
                    let mut names: Vec<Ident> = vec![];
                    for f in &s.fields {
                        if let Member::Named(m) = &f.member {
                            let x = ident(&format!("__f_{m}"));
                            let v = &f.expr;
                            lets.push(parse_quote!(let #x = #v;));
                            names.push(m.clone());
                        }
                    }
                    let p = &s.path;
                    let inits: Vec<Ident> = names.iter().map(|m| ident(&format!("__f_{m}"))).collect();
                    let gn: Vec<Ident> = fs.iter().map(|(f, _)| ident(f)).collect();
                    let ge: Vec<Expr> = fs.iter().map(|(_, x)| parse_str(x).expect("%lit expression")).collect();
                    *e = parse_quote!({ #(#lets)* #p { #(#names: #inits,)* #(#gn: #ge),* } });
                    self.notes.insert("struct literal of a type with ghost fields: fields bound in order, ghost fields added".into());
                }
            }
        }
    }
}

/// parameters renamed to the names their contract uses
struct Rename<'a> {
    ren: &'a [(String, String)],
    clash: bool,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.name(&mut p.ident);
        if let Some((_, s)) = &mut p.subpat {
            self.visit_pat_mut(s);
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            let n = f.member.clone();
            if let Member::Named(n) = &n {
                if self.ren.iter().any(|(a, _)| n == a) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        self.visit_pat_mut(&mut f.pat);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let mut i = p.path.segments[0].ident.clone();
            self.name(&mut i);
            p.path.segments[0].ident = i;
        }
    }
}
impl<'a> Rename<'a> {
    fn name(&mut self, i: &mut Ident) {
        let n = i.to_string();
        if let Some((_, b)) = self.ren.iter().find(|(a, _)| *a == n) {
            *i = ident(b);
        } else if self.ren.iter().any(|(_, b)| *b == n) {
            self.clash = true;
        }
    }
}
