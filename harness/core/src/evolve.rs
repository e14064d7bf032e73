//! Schema versions: derive a later version, and say what a value becomes for a reader of another version.
use std::collections::BTreeSet;

use crate::{model::*, rng::Rng, value::*};

/// Types an added field may have.
fn added_ty(r: &mut Rng, tuple: bool) -> Ty {
    let prim = |r: &mut Rng| r.pick(&[Ty::Bool, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::F32, Ty::F64, Ty::Str, Ty::StrRef, Ty::Bytes, Ty::BytesRef, Ty::BoxStr, Ty::BoxBytes]).clone();
    let t = match r.below(10) {
        0 => Ty::Vec(Box::new(prim(r))),
        1 => Ty::Map(Box::new(Ty::Str), Box::new(prim(r))),
        2 => Ty::Set(Box::new(Ty::I64)),
        3 => Ty::Array(Box::new(prim(r)), r.range(1, 5) as u32),
        4 => Ty::NonZero(Box::new(r.pick(&[Ty::U8, Ty::I16, Ty::U128, Ty::I8, Ty::Str, Ty::Bytes]).clone())),
        5 if tuple => Ty::Tuple(vec![prim(r), prim(r)]),
        _ => prim(r),
    };
    if r.chance(1, 2) { Ty::Opt(Box::new(t)) } else { t }
}

/// Whether a field may come and go: fields whose announced class does not match their encoding can't be skipped
/// (a known finding), hence they have to be known to both sides.
fn skippable(ty: &Ty) -> bool {
    let c = if let Ty::Opt(t) = ty { t } else { ty };
    match c {
        Ty::Ext { .. } | Ty::Opt(_) => false,
        Ty::NonZero(t) => !matches!(**t, Ty::Ext { .. }),
        _ => true,
    }
}

fn uses(ty: &Ty, g: &str) -> bool {
    let mut found = false;
    visit_ty(ty, &mut |t| if matches!(t, Ty::Ext { path, name, args } if path.is_empty() && args.is_empty() && name == g) { found = true; });
    found
}

fn generics_ok(lists: &[&Fields], generics: &[String]) -> bool {
    generics.iter().all(|g| lists.iter().any(|f| f.list().iter().any(|x| uses(&x.ty, g))))
}

fn fresh(r: &mut Rng, used: &BTreeSet<u64>) -> u32 {
    loop {
        let id = match r.below(3) { 0 => 1 + r.below(1 << 28) as u64, _ => 1 + r.below(60) as u64 };
        if !used.contains(&id) { return id as u32; }
    }
}

/// Give explicit identifiers, except (by chance) where the rule derives the same one.
fn set_ids(r: &mut Rng, ids: &[u64]) -> Vec<Option<u32>> {
    let mut next = 1;
    ids.iter().map(|id| {
        let same = *id == next;
        next = id + 1;
        if same && r.chance(1, 2) { None } else { Some(*id as u32) }
    }).collect()
}

/// Another number of elements for some of the arrays in a type.
fn resize(r: &mut Rng, ty: &mut Ty, changed: &mut bool) {
    match ty {
        Ty::Array(t, n) => {
            if r.chance(1, 3) {
                let few = matches!(**t, Ty::Ext { .. } | Ty::Vec(_) | Ty::Map(..) | Ty::Set(_) | Ty::Tuple(_) | Ty::Array(..));
                let to = match r.below(4) { 0 if !few => *n + r.range(100, 400) as u32, 1 => *n + r.range(1, 3) as u32, _ => r.range(0, *n as usize) as u32 };
                *changed |= to != *n;
                *n = to;
            }
            resize(r, t, changed);
        }
        Ty::Vec(t) | Ty::Opt(t) => resize(r, t, changed),
        Ty::Map(_, t) => resize(r, t, changed),
        Ty::Tuple(l) => for t in l { resize(r, t, changed); },
        _ => {}
    }
}

fn fields(r: &mut Rng, f: &Fields, tuple: bool, changes: &mut Vec<String>, at: &str) -> Fields {
    if f.is_unit() { return f.clone(); }
    let named = matches!(f, Fields::Named(_));
    let ids = f.ids();
    let reserved: BTreeSet<u64> = ids.iter().copied().collect();
    let mut list: Vec<(Field, u64)> = f.list().iter().cloned().zip(ids).collect();
    for _ in 0..r.below(3) {
        let i = r.below(list.len());
        if list.len() > 1 && skippable(&list[i].0.ty) { changes.push(format!("{at}: field {} removed", list[i].1)); list.remove(i); }
    }
    for n in 0..r.below(3) {
        let used = reserved.iter().chain(list.iter().map(|x| &x.1)).copied().collect();
        let id = fresh(r, &used);
        let ty = added_ty(r, tuple);
        changes.push(format!("{at}: field {id} added: {ty:?}"));
        let i = r.range(0, list.len());
        list.insert(i, (Field { comment: Vec::new(), name: named.then(|| format!("added_{n}_{id}")), ty, id: None }, u64::from(id)));
    }
    for (f, id) in &mut list {
        let mut changed = false;
        resize(r, &mut f.ty, &mut changed);
        if changed { changes.push(format!("{at}: field {id} has arrays of other sizes: {:?}", f.ty)); }
    }
    if named && r.chance(1, 2) {
        let i = r.below(list.len());
        let old = list[i].0.name.clone().unwrap();
        list[i].0.name = Some(format!("{old}_new"));
        changes.push(format!("{at}: field {} renamed", list[i].1));
    }
    if r.chance(1, 2) { r.shuffle(&mut list); changes.push(format!("{at}: fields reordered")); }
    let ids: Vec<u64> = list.iter().map(|x| x.1).collect();
    let list = list.into_iter().zip(set_ids(r, &ids)).map(|((f, _), id)| Field { id, ..f }).collect();
    if named { Fields::Named(list) } else { Fields::Unnamed(list) }
}

/// A related version of the package, and what was changed.
pub fn evolve(r: &mut Rng, pkg: &Package) -> (Package, Vec<String>) {
    let mut out = pkg.clone();
    let mut changes = Vec::new();
    // tuples directly in fields are not accounted for in the size, so only where nothing contains the definition
    let mut referenced = BTreeSet::new();
    for (_, s) in &pkg.schemas {
        visit_defs(&s.defs, &mut Vec::new(), &mut |_, d| {
            let lists: Vec<&Fields> = match d { Def::Struct(s) => vec![&s.fields], Def::Enum(e) => e.variants.iter().map(|v| &v.fields).collect(), _ => return };
            for f in lists { for x in f.list() { visit_ty(&x.ty, &mut |t| if let Ty::Ext { name, .. } = t { referenced.insert(name.clone()); }); } }
        });
    }
    fn walk(r: &mut Rng, defs: &mut [Def], referenced: &BTreeSet<String>, changes: &mut Vec<String>) {
        for d in defs {
            match d {
                Def::Module(m) => walk(r, &mut m.defs, referenced, changes),
                // generic definitions are instantiated, possibly inside collections
                Def::Struct(s) => {
                    let tuple = s.generics.is_empty() && !referenced.contains(&s.name);
                    let mut log = Vec::new();
                    let f = fields(r, &s.fields, tuple, &mut log, &s.name);
                    if generics_ok(&[&f], &s.generics) { s.fields = f; changes.extend(log); }
                }
                Def::Enum(e) => {
                    let tuple = e.generics.is_empty() && !referenced.contains(&e.name);
                    let ids = e.ids();
                    let mut list: Vec<(Variant, u64)> = e.variants.iter().cloned().zip(ids.iter().copied()).collect();
                    let mut log = Vec::new();
                    for (v, _) in &mut list { let at = format!("{}::{}", e.name, v.name); v.fields = fields(r, &v.fields, tuple, &mut log, &at); }
                    for n in 0..r.below(3) {
                        let used = ids.iter().copied().chain(list.iter().map(|x| x.1)).collect();
                        let id = fresh(r, &used);
                        let f = match r.below(3) {
                            0 => Fields::Unit,
                            1 => Fields::Unnamed(vec![Field { comment: Vec::new(), name: None, ty: added_ty(r, false), id: None }]),
                            _ => Fields::Named(vec![Field { comment: Vec::new(), name: Some("x".into()), ty: added_ty(r, false), id: Some(r.range(1, 9) as u32) }]),
                        };
                        log.push(format!("{}: variant {id} added", e.name));
                        let i = r.range(0, list.len());
                        list.insert(i, (Variant { comment: Vec::new(), name: format!("Added{n}N{id}"), fields: f, id: None }, u64::from(id)));
                    }
                    if r.chance(1, 3) { r.shuffle(&mut list); log.push(format!("{}: variants reordered", e.name)); }
                    if r.chance(1, 3) { let i = r.below(list.len()); list[i].0.name.push_str("New"); log.push(format!("{}: variant {} renamed", e.name, list[i].1)); }
                    let fs: Vec<&Fields> = list.iter().map(|x| &x.0.fields).collect();
                    if generics_ok(&fs, &e.generics) {
                        let ids: Vec<u64> = list.iter().map(|x| x.1).collect();
                        e.variants = list.into_iter().zip(set_ids(r, &ids)).map(|((v, _), id)| Variant { id, ..v }).collect();
                        changes.extend(log);
                    }
                }
                _ => {}
            }
        }
    }
    for (_, s) in &mut out.schemas { walk(r, &mut s.defs, &referenced, &mut changes); }
    (out, changes)
}

/// What a reader may report.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rejected { pub missing: Vec<(u32, Option<String>)>, pub variants: Vec<u32>, /** An array lacks elements. */ pub short: bool, pub longer: bool }

impl Rejected {
    pub fn none(&self) -> bool { self.missing.is_empty() && self.variants.is_empty() && !self.short }
}

/// The value as seen by a reader with the definitions of `to`. Problems are collected.
pub fn project(from: &Env, to: &Env, ty: &Ty, v: &Val, bad: &mut Rejected) -> Val {
    match (ty, v) {
        (Ty::Array(_, n), Val::Bytes(b)) => {
            if b.len() < *n as usize { bad.short = true; }
            bad.longer |= b.len() > *n as usize;
            Val::Bytes(b[..b.len().min(*n as usize)].to_vec())
        }
        (Ty::Array(t, n), Val::List(l)) => {
            if l.len() < *n as usize { bad.short = true; }
            bad.longer |= l.len() > *n as usize;
            Val::List(l.iter().take(*n as usize).map(|x| project(from, to, t, x, bad)).collect())
        }
        (Ty::Vec(t), Val::List(l)) => Val::List(l.iter().map(|x| project(from, to, t, x, bad)).collect()),
        (Ty::Tuple(ts), Val::List(l)) => Val::List(ts.iter().zip(l).map(|(t, x)| project(from, to, t, x, bad)).collect()),
        (Ty::Map(k, t), Val::Map(m)) => Val::Map(m.iter().map(|(a, b)| (project(from, to, k, a, bad), project(from, to, t, b, bad))).collect()),
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(project(from, to, t, x, bad)))),
        (Ty::NonZero(t), v) => project(from, to, t, v, bad),
        (Ty::Ext { path, name, args }, Val::Rec(l)) => {
            let (a, b) = (from.get(path, name), to.get(path, name));
            let (RKind::Struct(fa), RKind::Struct(fb)) = (&a.kind, &b.kind) else { panic!() };
            Val::Rec(project_fields(from, to, &inst(fa, a, args), &inst(fb, b, args), l, bad))
        }
        (Ty::Ext { path, name, args }, Val::Var(i, l)) => {
            let (a, b) = (from.get(path, name), to.get(path, name));
            let (RKind::Enum(va), RKind::Enum(vb)) = (&a.kind, &b.kind) else { panic!() };
            let id = va[*i].1;
            match vb.iter().position(|v| v.1 == id) {
                Some(j) => Val::Var(j, project_fields(from, to, &inst(&va[*i].2, a, args), &inst(&vb[j].2, b, args), l, bad)),
                None => { bad.variants.push(id); Val::Bool(false) }
            }
        }
        (_, v) => v.clone(),
    }
}

fn project_fields(from: &Env, to: &Env, fa: &[RField], fb: &[RField], vals: &[Val], bad: &mut Rejected) -> Vec<Val> {
    fb.iter().map(|f| match fa.iter().position(|x| x.id == f.id) {
        Some(i) => project(from, to, &f.ty, &vals[i], bad),
        None if f.opt => Val::Opt(None),
        None => { bad.missing.push((f.id, f.name.clone())); Val::Bool(false) }
    }).collect()
}
