//! Reference rules of validation and resolution.
use std::collections::HashMap;

use crate::{located::*, model::*};

/// Something that makes a schema invalid: its kind, the locations of the elements at fault, and what is said about it.
#[derive(Clone, Debug, PartialEq)]
pub struct Problem { pub kind: &'static str, pub at: Vec<R>, pub about: Vec<String> }

fn problem(kind: &'static str, at: Vec<R>, about: Vec<String>) -> Problem { Problem { kind, at, about } }

/// Identifiers as derived; the highest one has no successor, so that it occurs again.
fn ids(l: impl Iterator<Item = Option<u32>>) -> Vec<u32> {
    let mut next = 1u32;
    l.map(|i| { let i = i.unwrap_or(next); next = i.saturating_add(1); i }).collect()
}

fn pairs<T: PartialEq>(l: &[T], mut f: impl FnMut(usize, usize)) {
    for j in 1..l.len() { for i in 0..j { if l[i] == l[j] { f(i, j); } } }
}

/// All problems of a schema.
pub fn validate(s: &LSchema) -> Vec<Problem> {
    let mut out = Vec::new();
    scope(&s.defs, &mut out);
    out
}

fn scope(defs: &[LDef], out: &mut Vec<Problem>) {
    let names: Vec<&str> = defs.iter().map(|d| d.def.name()).collect();
    pairs(&names, |i, j| out.push(problem("definition name", vec![defs[i].name, defs[j].name], vec![names[i].into()])));
    for d in defs {
        scope(&d.defs, out);
        let g = d.generic_names();
        pairs(g, |i, j| out.push(problem("generic name", vec![d.generics[i], d.generics[j]], vec![g[i].clone()])));
        for (i, n) in g.iter().enumerate() {
            let mut used = false;
            for t in d.types() { t.visit(&mut |t| if matches!(&t.ty, Ty::Ext { path, name, args } if path.is_empty() && args.is_empty() && name == n) { used = true; }); }
            if !used { out.push(problem("unused generic", vec![d.generics[i]], vec![n.clone()])); }
        }
        for t in d.types() {
            t.visit(&mut |t| if let Ty::Tuple(l) = &t.ty && !(2..=12).contains(&l.len()) {
                out.push(problem("tuple", vec![t.span], vec![match l.len() { 0 => "empty", 1 => "single", _ => "large" }.into()]));
            });
        }
        let v = &d.variants;
        let vi = ids(v.iter().map(|v| v.variant.id));
        pairs(&vi, |i, j| out.push(problem("variant id", vec![v[i].id.unwrap_or(v[i].span), v[j].id.unwrap_or(v[j].span)], vec![vi[i].to_string(), v[j].variant.name.clone(), v[i].variant.name.clone()])));
        let vn: Vec<&str> = v.iter().map(|v| v.variant.name.as_str()).collect();
        pairs(&vn, |i, j| out.push(problem("variant name", vec![v[i].name, v[j].name], vec![vn[i].into()])));
        for f in d.field_lists() {
            let fi = ids(f.iter().map(|f| f.field.id));
            pairs(&fi, |i, j| {
                let at = vec![f[i].id.unwrap_or(f[i].span), f[j].id.unwrap_or(f[j].span)];
                out.push(match (&f[i].field.name, &f[j].field.name) {
                    (Some(a), Some(b)) => problem("field id", at, vec![fi[i].to_string(), b.clone(), a.clone()]),
                    _ => problem("position id", at, vec![fi[i].to_string(), (j + 1).to_string(), (i + 1).to_string()]),
                });
            });
            if f.iter().all(|f| f.name.is_some()) {
                let n: Vec<&str> = f.iter().map(|f| f.field.name.as_deref().unwrap()).collect();
                pairs(&n, |i, j| out.push(problem("field name", vec![f[i].name.unwrap(), f[j].name.unwrap()], vec![n[i].into()])));
            }
        }
    }
}

// ------------------------------------------------------------------ resolution

/// Why a reference leads nowhere, and what is to be said about it.
pub type Reason = (&'static str, Vec<String>);

/// A reference that leads nowhere: in which schema, where, and why.
#[derive(Clone, Debug, PartialEq)]
pub struct Broken { pub schema: usize, pub at: R, pub import: bool, pub reasons: Vec<Reason> }

struct Scope<'a> { path: String, subs: HashMap<&'a str, Scope<'a>>, types: HashMap<&'a str, (&'static str, usize)> }

fn tree(path: String, defs: &[LDef]) -> Scope<'_> {
    let mut s = Scope { path: path.clone(), subs: HashMap::new(), types: HashMap::new() };
    for d in defs {
        match &d.def {
            Def::Module(m) => { s.subs.insert(&m.name, tree(format!("{path}::{}", m.name), &d.defs)); }
            Def::Struct(x) => { s.types.insert(&x.name, ("type", x.generics.len())); }
            Def::Enum(x) => { s.types.insert(&x.name, ("type", x.generics.len())); }
            Def::Alias(x) => { s.types.insert(&x.name, ("alias", 0)); }
            Def::Const(x) => { s.types.insert(&x.name, ("const", 0)); }
            Def::Import(_) => {}
        }
    }
    s
}

fn look(s: &Scope<'_>, path: &[String], name: &str, arity: Option<usize>) -> Result<(), Reason> {
    let mut s = s;
    for p in path { s = s.subs.get(p.as_str()).ok_or_else(|| ("no module", vec![p.clone(), s.path.clone()]))?; }
    match s.types.get(name) {
        None => Err(("no definition", vec![name.to_string(), s.path.clone()])),
        Some(("type", n)) => match arity { Some(a) if a != *n => Err(("generics", vec![n.to_string(), a.to_string()])), _ => Ok(()) },
        Some((kind, _)) => Err(("kind", vec![kind.to_string()])),
    }
}

/// All references of a set of schemas that lead nowhere.
pub fn resolve(schemas: &[(&str, &LSchema)]) -> Vec<Broken> {
    let trees: Vec<Scope<'_>> = schemas.iter().map(|s| tree(s.0.to_string(), &s.1.defs)).collect();
    let mut out = Vec::new();
    for (n, (_, s)) in schemas.iter().enumerate() {
        // name, tree behind it
        let mut modules: Vec<(&str, &Scope<'_>)> = Vec::new();
        let mut types: Vec<(&str, &Scope<'_>)> = Vec::new();
        for d in &s.defs {
            let Def::Import(i) = &d.def else { continue };
            let mut bad = |at: R, why: Reason| out.push(Broken { schema: n, at, import: true, reasons: vec![why] });
            let Some(k) = schemas.iter().position(|s| s.0 == i.segments[0]) else { bad(d.segments[0], ("no schema", vec![i.segments[0].clone()])); continue };
            let mut t = &trees[k];
            let mut fine = true;
            for (seg, at) in i.segments.iter().zip(&d.segments).skip(1) {
                match t.subs.get(seg.as_str()) { Some(s) => t = s, None => { bad(*at, ("no module", vec![seg.clone(), t.path.clone()])); fine = false; break; } }
            }
            if !fine { continue; }
            match &i.element {
                None => modules.push((i.segments.last().unwrap(), t)),
                Some(e) => match look(t, &[], e, None) { Ok(()) => types.push((e, t)), Err(why) => bad(d.element.unwrap(), why) },
            }
        }
        let imports = s.defs.iter().any(|d| matches!(d.def, Def::Import(_)));
        refs(&s.defs, &trees[n], &mut |t, scope| {
            let Ty::Ext { path, name, args } = &t.ty else { unreachable!() };
            let mut reasons = Vec::new();
            match look(scope, path, name, Some(args.len())) { Ok(()) => return, Err(why) => reasons.push(why) }
            if imports {
                match path.first() {
                    Some(first) => match modules.iter().find(|m| m.0 == first) {
                        Some(m) => match look(m.1, &path[1..], name, Some(args.len())) { Ok(()) => return, Err(why) => reasons.push(why) },
                        None => reasons.push(("no import", vec![path.iter().chain([name]).cloned().collect::<Vec<_>>().join("::")])),
                    },
                    None => match types.iter().find(|m| m.0 == name) {
                        Some(m) => match look(m.1, &[], name, Some(args.len())) { Ok(()) => return, Err(why) => reasons.push(why) },
                        None => reasons.push(("no import", vec![path.iter().chain([name]).cloned().collect::<Vec<_>>().join("::")])),
                    },
                }
            }
            out.push(Broken { schema: n, at: t.name, import: false, reasons });
        });
    }
    out
}

fn refs<'a>(defs: &'a [LDef], scope: &Scope<'_>, f: &mut impl FnMut(&'a LTy, &Scope<'_>)) {
    for d in defs {
        if let Def::Module(m) = &d.def { refs(&d.defs, &scope.subs[m.name.as_str()], f); continue; }
        let generics = d.generic_names();
        for l in d.field_lists() {
            for x in l {
                x.ty.visit(&mut |t| if let Ty::Ext { path, name, args } = &t.ty {
                    if path.is_empty() && args.is_empty() && generics.contains(name) { return; }
                    f(t, scope);
                });
            }
        }
    }
}
