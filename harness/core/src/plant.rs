//! Plants violations of the rules into schemas.
use crate::{model::*, rng::Rng};

/// Every definition, mutable, with the module path it lies in.
pub fn each<'a>(defs: &'a mut [Def], path: &mut Vec<String>, f: &mut impl FnMut(&[String], &mut Def)) {
    for d in defs.iter_mut() {
        f(path, d);
        if let Def::Module(m) = d {
            path.push(m.name.clone());
            each(&mut m.defs, path, f);
            path.pop();
        }
    }
}

/// Every type position that counts for validation.
pub fn each_ty(d: &mut Def, f: &mut impl FnMut(&mut Ty)) {
    match d {
        Def::Struct(s) => if let Some(l) = s.fields.list_mut() { for x in l { f(&mut x.ty); } },
        Def::Enum(e) => for v in &mut e.variants { if let Some(l) = v.fields.list_mut() { for x in l { f(&mut x.ty); } } },
        Def::Alias(a) => f(&mut a.target),
        Def::Const(c) => f(&mut c.ty),
        _ => {}
    }
}

fn lists(d: &mut Def) -> Vec<&mut Fields> {
    match d {
        Def::Struct(s) => vec![&mut s.fields],
        Def::Enum(e) => e.variants.iter_mut().map(|v| &mut v.fields).collect(),
        _ => Vec::new(),
    }
}

/// Descend into a random part of a type.
pub fn deep<'a>(r: &mut Rng, t: &'a mut Ty) -> &'a mut Ty {
    let leaf = match t { Ty::Vec(_) | Ty::Set(_) | Ty::Opt(_) | Ty::NonZero(_) | Ty::Array(..) | Ty::Map(..) => false, Ty::Tuple(l) | Ty::Ext { args: l, .. } => l.is_empty(), _ => true };
    if leaf || r.chance(1, 3) { return t; }
    match t {
        Ty::Vec(x) | Ty::Set(x) | Ty::Opt(x) | Ty::NonZero(x) | Ty::Array(x, _) => deep(r, x),
        Ty::Map(k, v) => if r.chance(1, 2) { deep(r, k) } else { deep(r, v) },
        Ty::Tuple(l) | Ty::Ext { args: l, .. } => { let i = r.below(l.len()); deep(r, &mut l[i]) }
        _ => unreachable!(),
    }
}

/// Change one random definition so that a rule is likely broken (the reference decides); says what was done.
pub fn plant(r: &mut Rng, s: &mut Schema) -> &'static str {
    let mut n = 0;
    each(&mut s.defs, &mut Vec::new(), &mut |_, _| n += 1);
    if n == 0 { return "nothing"; }
    for _ in 0..20 {
        let at = r.below(n);
        let what = r.below(9);
        let mut i = 0;
        let mut done = None;
        if what == 7 {
            // a name twice in one scope
            let mut scopes: Vec<*mut Vec<Def>> = vec![&raw mut s.defs];
            each(&mut s.defs, &mut Vec::new(), &mut |_, d| if let Def::Module(m) = d { scopes.push(&raw mut m.defs); });
            let k = r.below(scopes.len());
            // nothing else refers to the definitions here
            let defs = unsafe { &mut *scopes[k] };
            if defs.len() < 2 { continue; }
            let (a, b) = (r.below(defs.len()), r.below(defs.len()));
            if a == b { continue; }
            let name = defs[a].name().to_string();
            let upper = name.as_bytes()[0].is_ascii_uppercase();
            let constant = matches!(defs[a], Def::Const(_));
            let done = match &mut defs[b] {
                Def::Module(m) if !upper => { m.name = name; true }
                Def::Struct(x) if upper => { x.name = name; true }
                Def::Enum(x) if upper => { x.name = name; true }
                Def::Alias(x) if upper => { x.name = name; true }
                Def::Const(x) if constant || upper && !name.bytes().any(|b| b.is_ascii_lowercase()) => { x.name = name; true }
                Def::Import(x) => {
                    if upper { x.element = Some(name); } else { x.element = None; *x.segments.last_mut().unwrap() = name; }
                    true
                }
                _ => false,
            };
            if done { return "definition name"; }
            continue;
        }
        each(&mut s.defs, &mut Vec::new(), &mut |_, d| {
            if i == at { done = one(r, d, what); }
            i += 1;
        });
        if let Some(d) = done { return d; }
    }
    "nothing"
}

fn one(r: &mut Rng, d: &mut Def, what: usize) -> Option<&'static str> {
    match what {
        0 => {
            let mut l = lists(d);
            if l.is_empty() { return None; }
            let k = r.below(l.len());
            let f = &mut *l[k];
            let ids = f.ids();
            let list = f.list_mut()?;
            if list.len() < 2 { return None; }
            let (a, b) = (r.below(list.len()), r.below(list.len()));
            if a == b { return None; }
            // also lets a derived identifier run into an explicit one
            list[b].id = Some((ids[a] as u32).saturating_sub(r.below(3) as u32));
            Some("field id")
        }
        1 => {
            let Def::Enum(e) = d else { return None };
            if e.variants.len() < 2 { return None; }
            let (a, b) = (r.below(e.variants.len()), r.below(e.variants.len()));
            if a == b { return None; }
            let id = e.ids()[a] as u32;
            e.variants[b].id = Some(id.saturating_sub(r.below(3) as u32));
            Some("variant id")
        }
        2 => {
            let mut l = lists(d);
            if l.is_empty() { return None; }
            let k = r.below(l.len());
            let Fields::Named(list) = &mut *l[k] else { return None };
            if list.len() < 2 { return None; }
            let (a, b) = (r.below(list.len()), r.below(list.len()));
            if a == b { return None; }
            list[b].name = list[a].name.clone();
            Some("field name")
        }
        3 => {
            let Def::Enum(e) = d else { return None };
            if e.variants.len() < 2 { return None; }
            let (a, b) = (r.below(e.variants.len()), r.below(e.variants.len()));
            if a == b { return None; }
            e.variants[b].name = e.variants[a].name.clone();
            Some("variant name")
        }
        4 => {
            let g = match d { Def::Struct(s) => &mut s.generics, Def::Enum(e) => &mut e.generics, Def::Alias(a) => &mut a.generics, _ => return None };
            if g.is_empty() { return None; }
            let x = g[r.below(g.len())].clone();
            let at = r.range(0, g.len());
            g.insert(at, x);
            Some("generic name")
        }
        5 => {
            let g = match d { Def::Struct(s) => &mut s.generics, Def::Enum(e) => &mut e.generics, Def::Alias(a) => &mut a.generics, _ => return None };
            let at = r.range(0, g.len());
            let x = g.first().map_or("Y".to_string(), |g| format!("{g}0"));
            g.insert(at, x);
            Some("unused generic")
        }
        6 => {
            let mut n = 0;
            each_ty(d, &mut |_| n += 1);
            if n == 0 { return None; }
            let k = r.below(n);
            let mut i = 0;
            each_ty(d, &mut |t| {
                if i == k {
                    let t = deep(r, t);
                    let n = *r.pick(&[0, 1, 13, 12, 20, 2]);
                    let old = t.clone();
                    *t = Ty::Tuple((0..n).map(|j| if j == 0 { old.clone() } else { Ty::U8 }).collect());
                }
                i += 1;
            });
            Some("tuple")
        }
        8 => {
            // the parameter becomes the name of another type that only looks like it
            let g = match d { Def::Struct(s) => &s.generics, Def::Enum(e) => &e.generics, Def::Alias(a) => &a.generics, _ => return None };
            if g.is_empty() { return None; }
            let g = g[r.below(g.len())].clone();
            let (path, one) = (r.chance(1, 2), r.chance(1, 4));
            let mut done = false;
            each_ty(d, &mut |t| {
                let mut found = Vec::new();
                collect(t, &mut found);
                for t in found {
                    let Ty::Ext { path: p, name, args } = (unsafe { &mut *t }) else { continue };
                    if *name != g || !p.is_empty() || !args.is_empty() || one && done { continue; }
                    if path { p.push("other".into()); } else { args.push(Ty::U8); }
                    done = true;
                }
            });
            done.then_some("generic in disguise")
        }
        _ => None,
    }
}

/// Change one reference, import or target so that resolution likely fails (the reference decides).
pub fn unlink(r: &mut Rng, p: &mut Package) -> &'static str {
    for _ in 0..30 {
        if r.chance(1, 10) && let Some(d) = constant(r, p) { return d; }
        let k = r.below(p.schemas.len());
        let s = &mut p.schemas[k].1;
        let mut n = 0;
        each(&mut s.defs, &mut Vec::new(), &mut |_, _| n += 1);
        if n == 0 { continue; }
        let at = r.below(n);
        let what = r.below(9);
        let mut i = 0;
        let mut done = None;
        each(&mut s.defs, &mut Vec::new(), &mut |_, d| {
            if i == at {
                done = match (what, &mut *d) {
                    (0 | 1 | 2, Def::Struct(_) | Def::Enum(_)) => {
                        let mut exts: Vec<*mut Ty> = Vec::new();
                        each_ty(d, &mut |t| collect(t, &mut exts));
                        if exts.is_empty() { None } else {
                            let at = r.below(exts.len());
                            let t = unsafe { &mut *exts[at] };
                            let Ty::Ext { path, name, args } = t else { unreachable!() };
                            match r.below(5) {
                                0 => { name.push('Q'); Some("type name") }
                                1 => { args.push(Ty::U8); Some("more arguments") }
                                2 if !args.is_empty() => { args.pop(); Some("fewer arguments") }
                                3 if !path.is_empty() => { let i = r.below(path.len()); if r.chance(1, 2) { path.remove(i); } else { path[i].push('q'); } Some("type path") }
                                _ => { let i = r.range(0, path.len()); path.insert(i, "nowhere".into()); Some("longer type path") }
                            }
                        }
                    }
                    (3, Def::Import(i)) => { let k = r.below(i.segments.len()); i.segments[k].push('q'); Some("import segment") }
                    (4, Def::Import(i)) => match &mut i.element { Some(e) => { e.push('Q'); Some("import element") } None => { i.segments.push("nowhere".into()); Some("longer import") } },
                    (5, Def::Struct(s)) => { s.name.push('Q'); Some("struct renamed") }
                    (5, Def::Enum(s)) => { s.name.push('Q'); Some("enum renamed") }
                    (5, Def::Module(s)) => { s.name.push('q'); Some("module renamed") }
                    (6, Def::Struct(s)) => {
                        let mut target = Ty::U8;
                        for g in &s.generics { target = Ty::Tuple(vec![target, Ty::Ext { path: Vec::new(), name: g.clone(), args: Vec::new() }]); }
                        *d = Def::Alias(Alias { comment: Vec::new(), name: s.name.clone(), generics: s.generics.clone(), target });
                        Some("struct made an alias")
                    }
                    (7, Def::Enum(e)) => { e.generics.push("Extra".into()); e.variants.push(Variant { comment: Vec::new(), name: "UsesExtra".into(), fields: Fields::Unnamed(vec![Field { comment: Vec::new(), name: None, ty: Ty::Ext { path: Vec::new(), name: "Extra".into(), args: Vec::new() }, id: None }]), id: Some(u32::MAX - 20) }); Some("enum made generic") }
                    (8, Def::Import(_)) => { *d = Def::Const(Const { comment: Vec::new(), name: "GONE_IMPORT".into(), ty: Ty::U8, value: Lit::Int(1) }); Some("import removed") }
                    _ => None,
                };
            }
            i += 1;
        });
        if let Some(d) = done { return d; }
    }
    "nothing"
}

/// A definition becomes a constant, under a name that a type may have as well, wherever it is used.
fn constant(r: &mut Rng, p: &mut Package) -> Option<&'static str> {
    let mut names = Vec::new();
    for (_, s) in &mut p.schemas { each(&mut s.defs, &mut Vec::new(), &mut |_, d| if let Def::Struct(_) | Def::Enum(_) = d { names.push(d.name().to_string()); }); }
    if names.is_empty() { return None; }
    let old = r.pick(&names).clone();
    let new = format!("{}X", old.to_ascii_uppercase().replace("_", ""));
    let all = r.chance(1, 3);
    for (_, s) in &mut p.schemas {
        each(&mut s.defs, &mut Vec::new(), &mut |_, d| {
            let mut exts = Vec::new();
            each_ty(d, &mut |t| collect(t, &mut exts));
            for t in exts { if let Ty::Ext { name, .. } = unsafe { &mut *t } && *name == old { *name = new.clone(); } }
            match d {
                Def::Import(i) if i.element.as_ref() == Some(&old) => i.element = Some(new.clone()),
                Def::Struct(x) if x.name == old && !all && x.fields.is_unit() => x.name = new.clone(),
                Def::Struct(Struct { name, .. }) | Def::Enum(Enum { name, .. }) if *name == old => *d = Def::Const(Const { comment: Vec::new(), name: new.clone(), ty: Ty::U8, value: Lit::Int(1) }),
                _ => {}
            }
        });
    }
    Some("made a constant")
}

fn collect(t: &mut Ty, out: &mut Vec<*mut Ty>) {
    if let Ty::Ext { .. } = t { out.push(t); }
    match t {
        Ty::Vec(x) | Ty::Set(x) | Ty::Opt(x) | Ty::NonZero(x) | Ty::Array(x, _) => collect(x, out),
        Ty::Map(k, v) => { collect(k, out); collect(v, out); }
        Ty::Tuple(l) | Ty::Ext { args: l, .. } => for x in l { collect(x, out); },
        _ => {}
    }
}
