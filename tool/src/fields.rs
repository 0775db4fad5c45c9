//! Private fields that only changed their name: the source is renamed back
//! before the contracts, which mention fields by name, are attached. A field
//! counts as renamed when a struct lost one field and gained one of the same
//! type that is mentioned exactly as often in its module as the lost one was.
//! The field is private and renamed all over its module, so no meaning changes.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Uses {
    map: BTreeMap<(String, String), String>,
    count: BTreeMap<(String, String), usize>,
    structs: Vec<(String, String, Vec<(String, String)>)>,
    module: Vec<String>,
}

impl Uses {
    fn hit(&mut self, i: &mut Ident) {
        let k = (self.module.join("::"), i.to_string());
        *self.count.entry(k.clone()).or_default() += 1;
        if let Some(n) = self.map.get(&k) {
            *i = Ident::new(n, i.span());
        }
    }
    fn tokens(&mut self, t: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut out = vec![];
        for (k, x) in v.iter().enumerate() {
            let dot = |j: usize| matches!(v.get(j), Some(TokenTree::Punct(p)) if p.as_char() == '.');
            match x {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.push(TokenTree::Group(n));
                }
                TokenTree::Ident(i) if k > 0 && dot(k - 1) && !(k > 1 && dot(k - 2)) && !matches!(v.get(k + 1), Some(TokenTree::Group(_))) => {
                    let mut i = i.clone();
                    self.hit(&mut i);
                    out.push(TokenTree::Ident(i));
                }
                x => out.push(x.clone()),
            }
        }
        out.into_iter().collect()
    }
}

impl VisitMut for Uses {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        self.module.push(m.ident.to_string());
        visit_mut::visit_item_mod_mut(self, m);
        self.module.pop();
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        if let Fields::Named(f) = &mut s.fields {
            let mut fs = vec![];
            for x in f.named.iter_mut() {
                let i = x.ident.as_mut().unwrap();
                let private = matches!(x.vis, Visibility::Inherited);
                fs.push((i.to_string(), if private { x.ty.to_token_stream().to_string().replace(' ', "") } else { "pub".into() }));
                if let Some(n) = self.map.get(&(self.module.join("::"), i.to_string())) {
                    *i = Ident::new(n, i.span());
                }
            }
            self.structs.push((self.module.join("::"), s.ident.to_string(), fs));
        }
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_expr_field_mut(&mut self, e: &mut ExprField) {
        if let Member::Named(i) = &mut e.member {
            self.hit(i);
        }
        visit_mut::visit_expr_field_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
        if let Member::Named(i) = &mut f.member {
            let old = i.to_string();
            self.hit(i);
            if *i != old {
                f.colon_token = Some(Default::default());
            }
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        visit_mut::visit_field_pat_mut(self, f);
        if let Member::Named(i) = &mut f.member {
            let old = i.to_string();
            self.hit(i);
            if *i != old {
                f.colon_token = Some(Default::default());
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t = std::mem::take(&mut m.tokens);
        m.tokens = self.tokens(t);
    }
}

/// `module \t struct \t field type uses ...` of every struct of the crate
pub fn table(file: &File) -> Vec<String> {
    let mut f = file.clone();
    let mut u = Uses::default();
    u.visit_file_mut(&mut f);
    let mut out = vec![];
    for (m, s, fs) in &u.structs {
        let l: Vec<String> = fs.iter().map(|(n, t)| format!("{n} {t} {}", u.count.get(&(m.clone(), n.clone())).copied().unwrap_or(0))).collect();
        out.push(format!("{m}\t{s}\t{}", l.join("\t")));
    }
    out
}

pub fn rename_back(file: &mut File, base: &str) -> Vec<String> {
    let mut probe = file.clone();
    let mut u = Uses::default();
    u.visit_file_mut(&mut probe);
    type Key = (String, String);
    let mut names: BTreeMap<Key, BTreeMap<String, (String, usize)>> = Default::default();
    for l in base.lines() {
        let mut f = l.split('\t');
        let k = (f.next().unwrap_or("").to_string(), f.next().unwrap_or("").to_string());
        let mut m = BTreeMap::new();
        for x in f {
            let p: Vec<&str> = x.split(' ').collect();
            if p.len() == 3 {
                m.insert(p[0].to_string(), (p[1].to_string(), p[2].parse().unwrap_or(0)));
            }
        }
        names.insert(k, m);
    }
    let mut want: BTreeMap<Key, BTreeSet<String>> = Default::default();
    for (m, s, fs) in &u.structs {
        let Some(b) = names.get(&(m.clone(), s.clone())) else { continue };
        let lost: Vec<_> = b.iter().filter(|(n, _)| !fs.iter().any(|(x, _)| x == *n)).collect();
        let new: Vec<_> = fs.iter().filter(|(n, _)| !b.contains_key(n)).collect();
        if lost.len() != new.len() {
            continue;
        }
        for (n, t) in new {
            let k = (m.clone(), n.clone());
            let c: Vec<_> = lost.iter().filter(|(_, (ot, c))| t != "pub" && ot == t && Some(c) == u.count.get(&k)).collect();
            if c.len() == 1 {
                want.entry(k).or_default().insert(c[0].0.clone());
            }
        }
    }
    let mut map: BTreeMap<Key, String> = Default::default();
    for ((m, n), o) in &want {
        // every struct of the module with a field of the new name has to agree
        let all = u.structs.iter().filter(|(sm, _, fs)| sm == m && fs.iter().any(|(x, _)| x == n)).all(|(_, s, _)| names.get(&(m.clone(), s.clone())).map_or(false, |b| !b.contains_key(n)));
        if let (1, true) = (o.len(), all) {
            let o = o.iter().next().unwrap();
            if want.iter().filter(|((xm, _), x)| xm == m && x.contains(o)).count() == 1 {
                map.insert((m.clone(), n.clone()), o.clone());
            }
        }
    }
    let notes = map.iter().map(|((m, n), o)| format!("field {n} of {m} taken as {o}")).collect();
    if !map.is_empty() {
        let mut r = Uses { map, ..Default::default() };
        r.visit_file_mut(file);
    }
    notes
}
