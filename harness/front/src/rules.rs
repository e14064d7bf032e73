//! C12, C13, C14, C16: validation, identifiers, resolution and the simplified schema.
use std::ops::Range;

use mabo_compiler::{self as mc, resolve, simplify, validate as va};
use mabo_parser as mp;
use miette::Diagnostic;
use mvcore::{generate::{Cfg, package}, located::{LSchema, locate}, model::*, out::{Report, clip}, plant, refcheck::{self, Problem}, render::render_marked, rng::Rng, watch};
use serde_json::json;

use crate::{Run, conv, guard, simple, syntax::{LAYOUTS, diff, same}};

fn pair(a: &Range<usize>, b: &Range<usize>) -> Vec<(usize, usize)> { vec![(a.start, a.end), (b.start, b.end)] }

/// What the real validation says, in the terms of the reference.
fn reported(e: &va::Error) -> Problem {
    use va::{DuplicateFieldId as F, DuplicateId as I, DuplicateName as N, Error as E, InvalidGenericType as G};
    let p = |kind, at, about| Problem { kind, at, about };
    match e {
        E::DuplicateId(I::EnumVariant(d)) => p("variant id", pair(&d.first, &d.second), vec![d.id.get().to_string(), d.name.clone(), d.other_name.clone()]),
        E::DuplicateId(I::Field(F::Named(d))) => p("field id", pair(&d.first, &d.second), vec![d.id.get().to_string(), d.name.clone(), d.other_name.clone()]),
        E::DuplicateId(I::Field(F::Unnamed(d))) => p("position id", pair(&d.first, &d.second), vec![d.id.get().to_string(), d.position.to_string(), d.other_position.to_string()]),
        E::DuplicateName(N::EnumVariant(d)) => p("variant name", pair(&d.first, &d.second), vec![d.name.clone()]),
        E::DuplicateName(N::Field(d)) => p("field name", pair(&d.first, &d.second), vec![d.name.clone()]),
        E::DuplicateName(N::InModule(d)) => p("definition name", pair(&d.first, &d.second), vec![d.name.clone()]),
        E::InvalidGeneric(G::Duplicate(d)) => p("generic name", pair(&d.first, &d.second), vec![d.name.clone()]),
        E::InvalidGeneric(G::Unused(d)) => p("unused generic", vec![(d.declared.start, d.declared.end)], vec![d.name.clone()]),
        E::TupleSize(d) => p("tuple", vec![(d.declared.start, d.declared.end)], vec![match d.amount { va::InvalidTupleAmount::Empty => "empty", va::InvalidTupleAmount::Single => "single", va::InvalidTupleAmount::TooLarge => "large" }.into()]),
    }
}

fn labels(d: &dyn Diagnostic) -> Vec<(usize, usize)> {
    d.labels().map_or_else(Vec::new, |l| l.map(|l| (l.offset(), l.offset() + l.len())).collect())
}

pub fn run(run: &Run, rep: &mut Report, prop: &str) {
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("rules/{}", run.index), round);
        round += 1;
        match prop {
            "C14" => resolution(rep, &mut r),
            _ => {
                let kind = r.below(4);
                let cfg = if kind == 0 { Cfg { defs: (1, 3), depth: 1, ..Cfg::grammar() } } else { Cfg::accepted() };
                for (_, mut s) in package(&mut r, &cfg).schemas {
                    let mut planted = "nothing";
                    if kind == 1 || kind == 2 { planted = plant::plant(&mut r, &mut s); }
                    if kind == 2 && r.chance(1, 2) { plant::plant(&mut r, &mut s); }
                    let layout = *r.pick(&LAYOUTS);
                    let (text, marks) = render_marked(&s, layout, &mut r);
                    watch::begin(|| text.clone());
                    rep.case(|| json!({"text": text}));
                    let l = locate(&s, &marks);
                    let Ok(parsed) = mp::Schema::parse(&text, None) else { rep.count("schemas that don't parse", 1); continue };
                    rep.eval();
                    rep.case_seen(&text);
                    match prop {
                        "C12" => validation(rep, &l, &parsed, &text, planted),
                        "C13" => identifiers(rep, &s, &l, &parsed, &text),
                        "C16" => simple_form(rep, &s, &parsed, &text),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
}

fn validation(rep: &mut Report, l: &LSchema, parsed: &mp::Schema<'_>, text: &str, planted: &str) {
    let want = refcheck::validate(l);
    let w = || json!({"text": text, "problems": format!("{want:?}"), "planted": planted});
    match guard(|| mc::validate_schema(parsed)) {
        Err(p) => rep.violation("panic", format!("validation panics: {p}"), w()),
        Ok(Ok(())) => {
            rep.count("accepted", 1);
            if let Some(p) = want.first() { rep.violation(&format!("accepted:{}", p.kind), format!("accepted despite {} {:?} at {:?}: {}", p.kind, p.about, p.at, clip(&text[p.at[0].0..], 200)), w()); }
        }
        Ok(Err(e)) => {
            let got = reported(&e);
            rep.count(&format!("rejected: {}", got.kind), 1);
            if want.is_empty() { return rep.violation(&format!("rejected:{}", got.kind), format!("a valid schema is rejected: {} {:?} at {:?}: {}", got.kind, got.about, got.at, clip(text, 400)), w()); }
            if want.contains(&got) {
                // the labels are what the user gets to see
                let l = labels(&e);
                let told = crate::chain(&e);
                if got.kind != "tuple" && let Some(x) = got.about.iter().find(|x| !told.contains(x.as_str())) { rep.violation(&format!("words:{}", got.kind), format!("the message about {} doesn't tell {x}: {told}", got.kind), w()); }
                if told.contains('\u{1b}') { rep.violation("words", format!("colours for no terminal: {told:?}"), w()); }
                if l != got.at { rep.violation(&format!("labels:{}", got.kind), format!("the diagnostic of {} labels {l:?} instead of {:?}", got.kind, got.at), w()); }
                rep.sample_every(499, || json!({"text": clip(text, 300), "reported": format!("{got:?}")}));
                return;
            }
            match want.iter().find(|p| p.kind == got.kind) {
                None => rep.violation(&format!("reason:{}", got.kind), format!("reported {} {:?} at {:?}, but the problems are {want:?}", got.kind, got.about, got.at), w()),
                Some(p) => rep.violation(&format!("place:{}", got.kind), format!("reported {} {:?} at {:?}, but it is {:?} at {:?}", got.kind, got.about, got.at, p.about, p.at), w()),
            }
        }
    }
    rep.count(&format!("problems present: {}", want.len().min(5)), 1);
}

/// Identifiers by the rule, in every component.
fn identifiers(rep: &mut Report, s: &Schema, l: &LSchema, parsed: &mp::Schema<'_>, text: &str) {
    let w = || json!({"text": text});
    let dup = refcheck::validate(l).iter().any(|p| p.kind.ends_with(" id"));
    let only_ids = refcheck::validate(l).iter().all(|p| p.kind.ends_with(" id"));
    match guard(|| mc::validate_schema(parsed)) {
        Err(p) => rep.violation("panic", p, w()),
        Ok(v) => {
            if matches!(v, Err(va::Error::DuplicateId(_))) && !dup { rep.violation("validation", format!("validation sees a duplicate identifier where there is none: {}", clip(text, 300)), w()); }
            if v.is_ok() && dup { rep.violation("validation", format!("validation misses a duplicate identifier: {}", clip(text, 300)), w()); }
            if only_ids && dup { rep.count("schemas with duplicate identifiers", 1); }
        }
    }
    let simple = match guard(|| mc::simplify_schema(parsed)) { Ok(s) => s, Err(p) => return rep.violation("panic", p, w()) };
    ids_of(rep, &s.defs, &simple.definitions, text);
}

fn saturated(ids: Vec<u64>, given: impl Iterator<Item = Option<u32>>) -> Vec<u32> {
    let _ = ids;
    let mut next = 1u32;
    given.map(|i| { let i = i.unwrap_or(next); next = i.saturating_add(1); i }).collect()
}

fn ids_of(rep: &mut Report, want: &[Def], got: &[simplify::Definition<'_>], text: &str) {
    for (w, g) in want.iter().zip(got) {
        match (w, g) {
            (Def::Module(w), simplify::Definition::Module(g)) => ids_of(rep, &w.defs, &g.definitions, text),
            (Def::Struct(w), simplify::Definition::Struct(g)) => field_ids(rep, &w.fields, &g.fields, text),
            (Def::Enum(w), simplify::Definition::Enum(g)) => {
                let want = saturated(Vec::new(), w.variants.iter().map(|v| v.id));
                let got: Vec<u32> = g.variants.iter().map(|v| v.id).collect();
                rep.count("identifiers compared", want.len() as u64);
                if want != got { rep.violation("variant-ids", format!("variants of {} get {got:?} instead of {want:?}", w.name), json!({"text": text})); }
                let next = want.iter().max().map_or(1, |m| m.saturating_add(1));
                let hint = mabo_meta::next_variant_id(&g.variants);
                if hint != next { rep.violation("next-variant-id", format!("the next identifier of {} is said to be {hint}, but {want:?} are taken", w.name), json!({"text": text})); }
                for (w, g) in w.variants.iter().zip(&g.variants) { field_ids(rep, &w.fields, &g.fields, text); }
            }
            _ => {}
        }
    }
}

fn field_ids(rep: &mut Report, w: &Fields, g: &simplify::Fields<'_>, text: &str) {
    let want = saturated(Vec::new(), w.list().iter().map(|f| f.id));
    let got: Vec<u32> = g.fields.iter().map(|f| f.id).collect();
    rep.count("identifiers compared", want.len() as u64);
    if want != got { rep.violation("field-ids", format!("fields {:?} get {got:?} instead of {want:?}", w.list().iter().map(|f| f.id).collect::<Vec<_>>()), json!({"text": text})); }
    let next = (!w.is_unit()).then(|| want.iter().max().map_or(1, |m| m.saturating_add(1)));
    let hint = mabo_meta::next_field_id(g);
    if hint != next { rep.violation("next-field-id", format!("the next identifier is said to be {hint:?}, but {want:?} are taken"), json!({"text": text})); }
    rep.sample_every(499, || json!({"declared": format!("{:?}", w.list().iter().map(|f| f.id).collect::<Vec<_>>()), "derived": got, "next": hint}));
}

fn simple_form(rep: &mut Report, s: &Schema, parsed: &mp::Schema<'_>, text: &str) {
    let simple = match guard(|| mc::simplify_schema(parsed)) { Ok(s) => s, Err(p) => return rep.violation("panic", p, json!({"text": text})) };
    let got = simple::model(&simple);
    let want = simple::expected(s);
    rep.count("definitions compared", want.defs.len() as u64);
    if !same(&want, &got) { rep.violation("content", format!("the compiled schema differs from the source: {}", diff(&format!("{want:?}"), &format!("{got:?}"))), json!({"text": text})); }
    // each element also carries the parsed one that it was made from
    if let Err(e) = simple::sources(&simple) { rep.violation("source", e, json!({"text": text})); }
    rep.sample_every(997, || json!({"text": clip(text, 300), "definitions": got.defs.len()}));
    let _ = conv::lit_value;
}

// ------------------------------------------------------------------ resolution

fn kind(k: &str) -> Vec<String> { vec![match k { "type alias" => "alias", "constant" => "const", k => k }.to_string()] }

fn both(a: Vec<String>, b: Vec<String>) -> Vec<String> { if a == b { a } else { [a, b].concat() } }

/// The stage that failed, why, and what is said about it.
fn reason(e: &resolve::ResolveError) -> (&'static str, &'static str, Vec<String>) {
    use resolve::{ResolveError as E, ResolveImport as I, ResolveLocal as L, ResolveRemote as R};
    let module = |m: &resolve::MissingModule| ("no module", vec![m.name.clone(), m.path.clone()]);
    let definition = |m: &resolve::MissingDefinition| ("no definition", vec![m.name.clone(), m.path.clone()]);
    let (stage, (why, about)) = match e {
        E::Local(e) => ("local", match &**e { L::MissingModule(m) => module(m), L::MissingDefinition(m) => definition(m), L::GenericsCount(g) => ("generics", vec![g.definition.to_string(), g.usage.to_string()]), L::InvalidKind(k) => ("kind", kind(k.kind)) }),
        E::Import(e) => ("import", match &**e { I::MissingSchema(m) => ("no schema", vec![m.name.clone()]), I::MissingModule(m) => module(m), I::MissingDefinition(m) => definition(m), I::InvalidKind(k) => ("kind", both(kind(k.kind), kind(k.declaration[0].kind))) }),
        E::Remote(e) => ("remote", match &**e { R::MissingImport(m) => ("no import", vec![m.ty.clone()]), R::MissingModule(m) => module(m), R::MissingDefinition(m) => definition(m), R::GenericsCount(g) => ("generics", vec![g.declaration[0].amount.to_string(), g.amount.to_string()]), R::InvalidKind(k) => ("kind", both(kind(k.kind), kind(k.declaration[0].kind))) }),
    };
    (stage, why, about)
}

fn resolution(rep: &mut Report, r: &mut Rng) {
    let mut cfg = Cfg::accepted();
    cfg.schemas = (1, 4);
    let mut p = package(r, &cfg);
    let mut done = Vec::new();
    for _ in 0..r.below(3) { done.push(plant::unlink(r, &mut p)); }
    let texts: Vec<_> = p.schemas.iter().map(|(n, s)| { let layout = *r.pick(&LAYOUTS); let (t, m) = render_marked(s, layout, r); (n.clone(), t, locate(s, &m)) }).collect();
    let w = || json!({"schemas": texts.iter().map(|t| json!({"name": t.0, "text": t.1})).collect::<Vec<_>>(), "changes": done});
    watch::begin(|| w().to_string());
    rep.case(w);
    let mut parsed = Vec::new();
    for (n, t, l) in &texts {
        let path = std::path::PathBuf::from(format!("/virtual/{n}.mabo"));
        match mp::Schema::parse(t, Some(&path)) {
            Ok(s) => {
                // resolution is only defined for schemas that obey the other rules
                if !refcheck::validate(l).is_empty() || mc::validate_schema(&s).is_err() { rep.count("not valid by themselves", 1); return; }
                parsed.push((n.as_str(), s));
            }
            Err(_) => { rep.count("schemas that don't parse", 1); return; }
        }
    }
    let want = refcheck::resolve(&texts.iter().map(|t| (t.0.as_str(), &t.2)).collect::<Vec<_>>());
    rep.eval();
    rep.case_seen(&w().to_string());
    rep.count(&format!("schemas: {}", texts.len()), 1);
    rep.count(&format!("broken references: {}", want.len().min(6)), 1);
    let mut order: Vec<usize> = (0..parsed.len()).collect();
    for turn in 0..3 {
        if turn > 0 { r.shuffle(&mut order); }
        let set: Vec<(&str, &mp::Schema<'_>)> = order.iter().map(|i| (parsed[*i].0, &parsed[*i].1)).collect();
        match guard(|| mc::resolve_schemas(&set)) {
            Err(p) => rep.violation("panic", format!("resolution panics: {p}"), w()),
            Ok(Ok(())) => {
                rep.count("resolved", 1);
                if let Some(b) = want.first() {
                    rep.violation(&format!("accepted:{}", b.reasons.iter().map(|r| r.0).collect::<Vec<_>>().join(",")), format!("resolved although `{}` in {} does not: {:?} (schemas in order {order:?})", &texts[b.schema].1[b.at.0..b.at.1], texts[b.schema].0, b.reasons), w());
                    return;
                }
            }
            Ok(Err(e)) => {
                let (stage, why, about) = reason(&e.cause);
                rep.count(&format!("{stage}: {why}"), 1);
                let at = labels(&e);
                let source = e.source_code().and_then(|s| s.read_span(&miette::SourceSpan::from((0, 0)), 0, 0).ok().and_then(|c| c.name().map(str::to_string))).unwrap_or_default();
                if want.is_empty() { rep.violation(&format!("rejected:{stage}:{why}"), format!("everything resolves, yet: {stage} {why} in {source} at {at:?} (schemas in order {order:?}): {:?}", crate::chain(&e)), w()); return; }
                let Some(k) = texts.iter().position(|t| source == format!("/virtual/{}.mabo", t.0)) else { rep.violation("source", format!("the error points at the source {source:?}"), w()); return };
                // with two labels, one is the declaration
                let known = want.iter().any(|b| b.schema == k && at.contains(&b.at) && b.import == (stage == "import") && b.reasons.iter().any(|r| r.0 == why));
                // what it says about it, and in words
                let told = crate::chain(&e);
                let help = e.help().map(|h| h.to_string()).unwrap_or_default();
                let mut parts: Vec<String> = about.iter().filter(|_| !matches!(why, "kind")).cloned().collect();
                if stage != "local" && why == "generics" { parts.remove(0); }
                let exact = want.iter().any(|b| b.schema == k && at.contains(&b.at) && b.import == (stage == "import") && b.reasons.contains(&(why, about.clone())));
                if known && !exact { rep.violation(&format!("about:{stage}:{why}"), format!("reported {stage} {why} {about:?} at {at:?} of {source}, but broken are {want:?}"), w()); return; }
                if let Some(x) = parts.iter().find(|p| !told.contains(p.as_str()) && !help.contains(p.as_str())) { rep.violation(&format!("words:{stage}:{why}"), format!("the message doesn't tell {x}: {told} ({help})"), w()); return; }
                if told.contains('\u{1b}') { rep.violation("words", format!("colours for no terminal: {told:?}"), w()); return; }
                if !known {
                    let here: Vec<_> = at.iter().map(|a| texts[k].1.get(a.0..a.1)).collect();
                    rep.violation(&format!("place:{stage}:{why}"), format!("reported {stage} {why} at {at:?} {here:?} of {source}, but broken are {want:?}"), w());
                    return;
                }
                // what else is shown is the declaration, in the schema that has it
                let name = at.iter().find(|a| want.iter().any(|b| b.schema == k && b.at == **a)).and_then(|a| texts[k].1.get(a.0..a.1)).unwrap_or_default().to_string();
                let mut shown = vec![(k, at.clone())];
                for d in e.related().into_iter().flatten() {
                    let source = d.source_code().and_then(|s| s.read_span(&miette::SourceSpan::from((0, 0)), 0, 0).ok().and_then(|c| c.name().map(str::to_string))).unwrap_or(source.clone());
                    let Some(k) = texts.iter().position(|t| source == format!("/virtual/{}.mabo", t.0)) else { rep.violation("source", format!("the error points at the source {source:?}"), w()); return };
                    shown.push((k, labels(d)));
                }
                let declared = shown.iter().map(|s| s.1.len()).sum::<usize>() - 1;
                rep.count("declarations shown", declared as u64);
                if declared > 0 || matches!(why, "generics" | "kind") {
                    let wrong = shown.iter().flat_map(|(k, l)| l.iter().map(|a| (*k, *a))).find(|(k, a)| texts[*k].1.get(a.0..a.1) != Some(&name));
                    if let Some((k, a)) = wrong { rep.violation(&format!("declaration:{stage}:{why}"), format!("reported {stage} {why} of {name}, which is said to be at {a:?} of {}: {:?}", texts[k].0, texts[k].1.get(a.0..a.1)), w()); return; }
                    if declared != 1 { rep.violation(&format!("declaration:{stage}:{why}"), format!("reported {stage} {why} of {name}, with {declared} declarations"), w()); return; }
                }
                rep.sample_every(199, || json!({"reported": format!("{stage} {why}"), "at": format!("{at:?}"), "in": source, "schemas": texts.len()}));
            }
        }
    }
}
