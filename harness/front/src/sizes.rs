//! C19: reported wire sizes against encodings.
use mabo_compiler::{self as mc, simplify::Definition};
use mabo_parser as mp;
use mvcore::{codec, model::*, out::{Report, clip}, render::ty_text, rng::Rng, value::*, watch};
use serde_json::json;

use crate::{Run, guard, html, simple};

#[derive(Debug, Clone)]
struct Size { label: String, bounds: Option<(u128, Option<u128>)>, inner: Vec<(String, Size)> }

/// Read the report back: "**label** `bounds`" with nested "- name: …" lines.
fn read(text: &str) -> Result<Size, String> {
    let mut lines = text.lines();
    let mut root = size(lines.next().unwrap_or(""))?;
    for l in lines {
        let depth = l.len() - l.trim_start_matches(' ').len();
        let (name, s) = l.trim_start().strip_prefix("- ").and_then(|l| l.split_once(": ")).ok_or_else(|| format!("line {l:?}"))?;
        if depth == 0 || depth % 2 != 0 { return Err(format!("indentation of {l:?}")); }
        let mut at = &mut root;
        for _ in 1..depth / 2 { at = &mut at.inner.last_mut().ok_or_else(|| format!("indentation of {l:?}"))?.1; }
        at.inner.push((name.to_string(), size(s)?));
    }
    Ok(root)
}

fn size(s: &str) -> Result<Size, String> {
    if s == "_unknown_" { return Ok(Size { label: String::new(), bounds: None, inner: Vec::new() }); }
    let bad = || format!("size {s:?}");
    let (label, rest) = s.strip_prefix("**").and_then(|s| s.split_once("** ")).ok_or_else(bad)?;
    let rest = rest.strip_prefix('`').and_then(|s| s.strip_suffix('`')).ok_or_else(bad)?;
    let num = |s: &str| s.parse::<u128>().map_err(|_| bad());
    let bounds = match rest.split_once("..") { None => (num(rest)?, Some(num(rest)?)), Some((a, "")) => (num(a)?, None), Some((a, b)) => (num(a)?, Some(num(b)?)) };
    Ok(Size { label: label.to_string(), bounds: Some(bounds), inner: Vec::new() })
}

fn vlen(n: u128) -> u128 { codec::varint(n).len() as u128 }

/// The exact bounds of the encodings of a type without schema defined parts.
fn exact(ty: &Ty) -> Option<(u128, Option<u128>)> {
    Some(match ty {
        Ty::Bool | Ty::U8 | Ty::I8 => (1, Some(1)),
        Ty::U16 | Ty::I16 => (1, Some(3)),
        Ty::U32 | Ty::I32 => (1, Some(5)),
        Ty::U64 | Ty::I64 => (1, Some(10)),
        Ty::U128 | Ty::I128 => (1, Some(19)),
        Ty::F32 => (4, Some(4)),
        Ty::F64 => (8, Some(8)),
        Ty::Str | Ty::StrRef | Ty::Bytes | Ty::BytesRef | Ty::BoxStr | Ty::BoxBytes | Ty::Vec(_) | Ty::Map(..) | Ty::Set(_) => (1, None),
        Ty::Opt(t) => (1, exact(t)?.1.map(|n| n.saturating_add(1))),
        Ty::NonZero(t) => {
            let one = |n: u128| n.saturating_add(vlen(n));
            match &**t {
                Ty::Str | Ty::StrRef | Ty::Bytes | Ty::BytesRef | Ty::BoxStr | Ty::BoxBytes => (2, None),
                Ty::Vec(t) | Ty::Set(t) => (one(exact(t)?.0), None),
                Ty::Map(k, t) => (one(exact(k)?.0.saturating_add(exact(t)?.0)), None),
                t => exact(t)?,
            }
        }
        Ty::Tuple(l) => l.iter().try_fold((0u128, Some(0u128)), |(a, b), t| { let (c, d) = exact(t)?; Some((a.saturating_add(c), b.zip(d).map(|(b, d)| b.saturating_add(d)))) })?,
        Ty::Array(t, n) => {
            let (a, b) = exact(t)?;
            let full = |x: u128| { let body = x.saturating_mul(u128::from(*n)); body.saturating_add(vlen(body)) };
            (full(a), if *n == 0 { Some(1) } else { b.map(full) })
        }
        Ty::Ext { .. } => return None,
    })
}

/// Every bound in the report holds for the value, at every level.
fn holds(env: &Env, s: &Size, ty: &Ty, v: &Val, seen: &mut u64) -> Result<(), String> {
    let e = codec::encode(env, ty, v);
    within(s, e.len() as u128, &ty_text(ty), seen)?;
    let sub = |k: &str| s.inner.iter().find(|x| x.0 == k).map(|x| &x.1);
    let body = |l: usize| { let mut n = l as u128; for k in 1..20u128 { if l as u128 >= k && vlen(l as u128 - k) == k { n = l as u128 - k; break; } } n };
    let length = |seen: &mut u64| if let Some(s) = sub("length") { within(s, vlen(body(e.len())), "the length", seen) } else { Ok(()) };
    match (ty, v) {
        (Ty::Vec(t) | Ty::Set(t) | Ty::Array(t, _), Val::List(l) | Val::Set(l)) => {
            length(seen)?;
            if let Some(s) = sub("element") { for x in l.iter().take(50) { holds(env, s, t, x, seen)?; } }
        }
        (Ty::Map(k, t), Val::Map(m)) => {
            length(seen)?;
            for (a, b) in m.iter().take(50) {
                if let Some(s) = sub("key") { holds(env, s, k, a, seen)?; }
                if let Some(s) = sub("value") { holds(env, s, t, b, seen)?; }
            }
        }
        (Ty::Opt(t), Val::Opt(Some(x))) => if let Some(s) = sub("value") { holds(env, s, t, x, seen)?; },
        (Ty::NonZero(t), x) => if let Some(s) = sub("value") { holds(env, s, t, x, seen)?; },
        (Ty::Tuple(ts), Val::List(l)) => for (i, (t, x)) in ts.iter().zip(l).enumerate() { if let Some(s) = sub(&i.to_string()) { holds(env, s, t, x, seen)?; } },
        _ => {}
    }
    Ok(())
}

fn within(s: &Size, n: u128, what: &str, seen: &mut u64) -> Result<(), String> {
    *seen += 1;
    match s.bounds {
        Some((min, max)) if n < min || max.is_some_and(|m| n > m) => Err(format!("{what}: an encoding of {n} bytes outside of {min}..{}", max.map_or(String::new(), |m| m.to_string()))),
        _ => Ok(()),
    }
}

const LEAVES: &[Ty] = &[Ty::Bool, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::F32, Ty::F64, Ty::Str, Ty::StrRef, Ty::Bytes, Ty::BytesRef, Ty::BoxStr, Ty::BoxBytes];

fn rand_ty(r: &mut Rng, depth: usize) -> Ty {
    let b = |r: &mut Rng| Box::new(rand_ty(r, depth - 1));
    if depth == 0 || r.chance(1, 4) {
        return if r.chance(1, 10) { Ty::Ext { path: Vec::new(), name: r.pick(&["Unit", "Rec"]).to_string(), args: Vec::new() } } else { r.pick(LEAVES).clone() };
    }
    match r.below(8) {
        0 => Ty::Vec(b(r)),
        1 => Ty::Set(b(r)),
        2 => Ty::Map(b(r), b(r)),
        3 => Ty::Opt(b(r)),
        4 => Ty::NonZero(Box::new(match r.below(6) { 0 => Ty::Vec(b(r)), 1 => Ty::Set(b(r)), 2 => Ty::Map(b(r), b(r)), 3 => Ty::Str, 4 => Ty::Bytes, _ => LEAVES[r.range(1, 10)].clone() })),
        5 => Ty::Tuple((0..r.range(2, 5)).map(|_| rand_ty(r, depth - 1)).collect()),
        _ => Ty::Array(b(r), match r.below(12) { 0 => 0, 1 => 1, 2..=5 => r.range(2, 12) as u32, 6 => *r.pick(&[127u32, 128, 129, 42, 43]), 7 => *r.pick(&[16383u32, 16384, 5461]), 8 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 28]), _ => r.range(1, 300) as u32 }),
    }
}

/// A value that encodes to as few or as many bytes as the type allows, as far as it is bounded.
fn extreme(env: &Env, ty: &Ty, big: bool) -> Val {
    let e = |t: &Ty| extreme(env, t, big);
    match ty {
        Ty::Bool => Val::Bool(big),
        Ty::U8 => Val::U(if big { 255 } else { 0 }), Ty::U16 => Val::U(if big { u16::MAX.into() } else { 0 }), Ty::U32 => Val::U(if big { u32::MAX.into() } else { 0 }),
        Ty::U64 => Val::U(if big { u64::MAX.into() } else { 0 }), Ty::U128 => Val::U(if big { u128::MAX } else { 0 }),
        Ty::I8 => Val::I(if big { i8::MIN.into() } else { 0 }), Ty::I16 => Val::I(if big { i16::MIN.into() } else { 0 }), Ty::I32 => Val::I(if big { i32::MIN.into() } else { 0 }),
        Ty::I64 => Val::I(if big { i64::MIN.into() } else { 0 }), Ty::I128 => Val::I(if big { i128::MIN } else { 0 }),
        Ty::F32 => Val::F32(if big { u32::MAX } else { 0 }), Ty::F64 => Val::F64(if big { u64::MAX } else { 0 }),
        Ty::Str | Ty::StrRef | Ty::BoxStr => Val::Str(if big { "x".repeat(130) } else { String::new() }),
        Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => Val::Bytes(vec![7; if big { 130 } else { 0 }]),
        Ty::Vec(t) => Val::List(if big { vec![e(t); 3] } else { Vec::new() }),
        Ty::Set(t) => Val::Set(if big { vec![e(t)] } else { Vec::new() }),
        Ty::Map(k, t) => Val::Map(if big { vec![(e(k), e(t))] } else { Vec::new() }),
        Ty::Opt(t) => Val::Opt(big.then(|| Box::new(e(t)))),
        Ty::NonZero(t) if !big => match &**t {
            Ty::Str => Val::Str("x".into()), Ty::Bytes => Val::Bytes(vec![1]), Ty::Vec(t) => Val::List(vec![e(t)]), Ty::Set(t) => Val::Set(vec![e(t)]), Ty::Map(k, t) => Val::Map(vec![(e(k), e(t))]),
            Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128 => Val::I(1), _ => Val::U(1),
        },
        Ty::NonZero(t) => e(t),
        Ty::Tuple(l) => Val::List(l.iter().map(e).collect()),
        Ty::Array(_, 0) => Val::List(Vec::new()),
        Ty::Array(t, n) => Val::List(vec![e(t); *n as usize]),
        Ty::Ext { path, name, args } => {
            let d = env.get(path, name);
            let RKind::Struct(f) = &d.kind else { panic!() };
            Val::Rec(inst(f, d, args).iter().map(|x| e(&x.ty)).collect())
        }
    }
}

pub fn run(run: &Run, rep: &mut Report) {
    let mut env = Env::default();
    let field = |id, ty, opt| RField { name: Some(format!("f{id}")), ty, id, opt, param: false };
    env.defs.insert("::Unit".into(), RDef { generics: Vec::new(), kind: RKind::Struct(RFields { kind: 0, fields: Vec::new() }) });
    env.defs.insert("::Rec".into(), RDef { generics: Vec::new(), kind: RKind::Struct(RFields { kind: 1, fields: vec![field(1, Ty::U32, false), field(2, Ty::Opt(Box::new(Ty::Str)), true)] }) });
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("sizes/{}", run.index), round);
        let depth = if r.chance(1, 6) { 0 } else { r.range(2, 4) };
        let ty = if (round as usize) < LEAVES.len() { LEAVES[round as usize].clone() } else { rand_ty(&mut r, depth) };
        round += 1;
        let text = format!("struct Unit\nstruct Rec {{\n    a: u32 @1,\n    b: option<string> @2,\n}}\nstruct Sample {{\n    value: {0} @1,\n}}\nenum Choice {{\n    Some {{\n        value: {0} @1,\n    }} @1,\n}}\n", ty_text(&ty));
        watch::begin(|| text.clone());
        rep.case(|| json!({"text": text}));
        if let Err((sig, e)) = one(rep, &env, &mut r, &ty, &text) { rep.violation(sig, format!("{}: {e}", clip(&ty_text(&ty), 300)), json!({"text": text})); }
    }
}

fn one(rep: &mut Report, env: &Env, r: &mut Rng, ty: &Ty, text: &str) -> Result<(), (&'static str, String)> {
    let parsed = match mp::Schema::parse(text, None) { Ok(s) => s, Err(_) => { rep.count("types that don't parse", 1); return Ok(()) } };
    if mc::validate_schema(&parsed).is_err() { rep.count("types that are invalid", 1); return Ok(()); }
    let simple = mc::simplify_schema(&parsed);
    let Some(Definition::Struct(s)) = simple.definitions.iter().find(|d| matches!(d, Definition::Struct(s) if s.name == "Sample")) else { return Ok(()) };
    let Some(f) = s.fields.fields.first() else { return Ok(()) };
    if simple::ty(&f.ty) != *ty { return Ok(()); }
    rep.eval();
    rep.case_seen(text);
    let shown = guard(|| mabo_meta::wire_size(&f.ty).map(|s| { let mut b = String::new(); s.print(&mut b, 0); b })).map_err(|p| ("panic", p))?;
    let Some(shown) = shown else {
        rep.count("types of unknown size", 1);
        return Ok(());
    };
    // what cannot be read back makes no claim that could be judged: the form of the report is not part of the property, but losing it silently is not acceptable either
    let size = read(&shown).map_err(|e| ("form", format!("unreadable report, {e} in {shown:?}")))?;
    rep.count("reports", 1);
    if let (Some((lo, hi)), Some((min, max))) = (exact(ty), size.bounds) {
        if min > lo { return Err(("bounds", format!("reported at least {min} bytes, while there are values of {lo}"))); }
        if let Some(max) = max {
            // larger values than the address space cannot exist
            if max < usize::MAX as u128 && hi.is_none_or(|h| h > max) { return Err(("bounds", format!("reported at most {max} bytes, while there are values of {hi:?}"))); }
        }
        if matches!(ty, Ty::Bool | Ty::U8 | Ty::I8 | Ty::U16 | Ty::I16 | Ty::U32 | Ty::I32 | Ty::U64 | Ty::I64 | Ty::U128 | Ty::I128 | Ty::F32 | Ty::F64) && min != lo { return Err(("bounds", format!("reported at least {min} bytes, which no value has: the smallest is {lo}"))); }
        rep.count("exact bounds compared", 1);
    }
    let mut seen = 0;
    let heavy = weight(env, ty);
    if heavy < 20_000 {
        // few elements of heavy types
        let most = (100_000 / heavy.max(1)).clamp(1, 300) as usize;
        let mut vals = vec![extreme(env, ty, false), extreme(env, ty, true)];
        for _ in 0..8 { let mut budget = (*r.pick(&[3, 30, 300])).min(most); vals.push(rand_val(r, env, ty, &mut budget)); }
        for v in &vals {
            holds(env, &size, ty, v, &mut seen).map_err(|e| ("bounds", format!("{e}; reported {shown:?}")))?;
            rep.count("values encoded", 1);
            if *v == vals[0] && exact(ty).is_some_and(|x| x.0 != codec::encode(env, ty, v).len() as u128) { rep.count("minimum not met by the reference", 1); }
        }
        if exact(ty).is_some_and(|x| x.1.is_some_and(|m| m != codec::encode(env, ty, &vals[1]).len() as u128)) { rep.count("maximum not met by the reference", 1); }
    }
    rep.count("bounds checked", seen);
    // the documentation shows the same report
    if r.chance(1, 8) {
        let file = std::path::PathBuf::from("/virtual/s.mabo");
        let Ok(parsed) = mp::Schema::parse(text, Some(&file)) else { return Ok(()) };
        let simple = mc::simplify_schema(&parsed);
        if let Ok(Ok(o)) = guard(|| mabo_doc::render_schema(&mabo_doc::Opts {}, &simple)) {
            for file in ["struct.Sample.html", "enum.Choice.html"] {
            let page = o.modules.iter().find(|m| m.file.ends_with(file)).ok_or(("documentation", "no page".to_string()))?;
            let n = html::parse(&page.content).map_err(|e| ("documentation", e))?;
            let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            let want = squeeze(&shown.lines().map(|l| l.trim_start().strip_prefix("- ").unwrap_or(l).replace("**", "").replace('`', "").replace("_unknown_", "unknown") + "\n").collect::<String>());
            if !squeeze(&n.text()).contains(&want) { return Err(("documentation", format!("the page shows {:?} instead of {want:?}", clip(&squeeze(&n.text()), 500)))); }
            rep.count("reports found in documentation", 1);
            }
        }
    }
    rep.sample_every(3001, || json!({"type": clip(&ty_text(ty), 200), "report": shown, "bounds checked": seen}));
    let _ = &size.label;
    Ok(())
}
