//! C15, in process: what the generated Rust code declares, against the model.
use mabo_compiler as mc;
use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, model::*, out::{Report, clip}, plant, render::{lit_text, render}, rng::Rng, watch};
use serde_json::json;
use syn::ext::IdentExt;

use crate::{Run, chain, guard, syntax::LAYOUTS};

/// A type of the generated code, by the last segments of its paths.
fn norm(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let full: Vec<String> = p.path.segments.iter().map(|s| s.ident.unraw().to_string()).collect();
            let last = p.path.segments.last().unwrap();
            let args = match &last.arguments {
                syn::PathArguments::AngleBracketed(a) => format!("<{}>", a.args.iter().map(|a| if let syn::GenericArgument::Type(t) = a { norm(t) } else { "?".into() }).collect::<Vec<_>>().join(",")),
                _ => String::new(),
            };
            // well-known types may be referred to by any path
            let known = matches!(full[0].as_str(), "std" | "core" | "alloc" | "mabo") && p.path.leading_colon.is_some();
            format!("{}{args}", if known { full.last().unwrap().clone() } else { full.join("::") })
        }
        syn::Type::Tuple(t) => format!("({})", t.elems.iter().map(norm).collect::<Vec<_>>().join(",")),
        syn::Type::Array(a) => format!("[{};{}]", norm(&a.elem), match &a.len { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_digits().to_string(), _ => "?".into() }),
        syn::Type::Reference(r) => format!("&{}", norm(&r.elem)),
        syn::Type::Slice(s) => format!("[{}]", norm(&s.elem)),
        syn::Type::Paren(p) => norm(&p.elem),
        syn::Type::Group(p) => norm(&p.elem),
        _ => "?".into(),
    }
}

fn want_ty(t: &Ty, bytes: &str) -> String {
    let f = |t: &Ty| want_ty(t, bytes);
    match t {
        Ty::Bool => "bool".into(), Ty::U8 => "u8".into(), Ty::U16 => "u16".into(), Ty::U32 => "u32".into(), Ty::U64 => "u64".into(), Ty::U128 => "u128".into(),
        Ty::I8 => "i8".into(), Ty::I16 => "i16".into(), Ty::I32 => "i32".into(), Ty::I64 => "i64".into(), Ty::I128 => "i128".into(), Ty::F32 => "f32".into(), Ty::F64 => "f64".into(),
        Ty::Str | Ty::StrRef => "String".into(), Ty::Bytes | Ty::BytesRef => bytes.into(), Ty::BoxStr => "Box<str>".into(), Ty::BoxBytes => "Box<[u8]>".into(),
        Ty::Vec(t) => format!("Vec<{}>", f(t)),
        Ty::Map(k, v) => format!("HashMap<{},{}>", f(k), f(v)),
        Ty::Set(t) => format!("HashSet<{}>", f(t)),
        Ty::Opt(t) => format!("Option<{}>", f(t)),
        Ty::Array(t, n) => format!("[{};{n}]", f(t)),
        Ty::Tuple(l) => format!("({})", l.iter().map(f).collect::<Vec<_>>().join(",")),
        Ty::NonZero(t) => match &**t {
            Ty::Str | Ty::StrRef => "NonZeroString".into(),
            Ty::Bytes | Ty::BytesRef => if bytes == "Bytes" { "NonZero<Bytes>".into() } else { "NonZeroBytes".into() },
            Ty::Vec(t) => format!("NonZeroVec<{}>", f(t)),
            Ty::Map(k, v) => format!("NonZeroHashMap<{},{}>", f(k), f(v)),
            Ty::Set(t) => format!("NonZeroHashSet<{}>", f(t)),
            t => format!("NonZero{}", f(t).to_uppercase()),
        },
        Ty::Ext { path, name, args } => {
            let mut s = path.join("::");
            if !s.is_empty() { s.push_str("::"); }
            s.push_str(name);
            if !args.is_empty() { s.push_str(&format!("<{}>", args.iter().map(f).collect::<Vec<_>>().join(","))); }
            s
        }
    }
}

/// The printer of generated files drops blanks at the end of comment lines.
pub fn printed(defs: &mut [Def]) {
    let t = |c: &mut Vec<String>| for l in c { l.truncate(l.trim_end_matches(' ').len()); };
    let f = |f: &mut Fields| for x in f.list_mut().into_iter().flatten() { t(&mut x.comment); };
    for d in defs {
        match d {
            Def::Module(m) => { t(&mut m.comment); printed(&mut m.defs); }
            Def::Struct(s) => { t(&mut s.comment); f(&mut s.fields); }
            Def::Enum(e) => { t(&mut e.comment); for v in &mut e.variants { t(&mut v.comment); f(&mut v.fields); } }
            Def::Alias(a) => t(&mut a.comment),
            Def::Const(c) => t(&mut c.comment),
            Def::Import(_) => {}
        }
    }
}

/// Doc comments can't hold some characters, which may be escaped.
pub fn legal(l: &str) -> String {
    l.chars().fold(String::new(), |mut s, c| {
        if matches!(c, '\r' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}') { s.extend(c.escape_default()) } else { s.push(c) }
        s
    })
}

fn legals(c: &[String]) -> Vec<String> { c.iter().map(|l| legal(l)).collect() }

fn docs(a: &[syn::Attribute]) -> Vec<String> {
    a.iter().filter(|a| a.path().is_ident("doc")).map(|a| match &a.meta {
        syn::Meta::NameValue(v) => match &v.value { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => { let s = s.value(); legal(s.strip_prefix(' ').unwrap_or(&s)) } _ => "?".into() },
        _ => "?".into(),
    }).collect()
}

fn generics(g: &syn::Generics) -> Vec<String> { g.params.iter().map(|p| match p { syn::GenericParam::Type(t) => t.ident.unraw().to_string(), _ => "?".into() }).collect() }
fn public(v: &syn::Visibility) -> bool { matches!(v, syn::Visibility::Public(_)) }

fn fields(f: &syn::Fields, want_pub: bool) -> Result<Vec<(Vec<String>, Option<String>, String)>, String> {
    f.iter().map(|f| {
        if public(&f.vis) != want_pub { return Err(format!("field {:?} has the wrong visibility", f.ident)); }
        Ok((docs(&f.attrs), f.ident.as_ref().map(|i| i.unraw().to_string()), norm(&f.ty)))
    }).collect()
}

fn want_fields(f: &Fields, bytes: &str) -> Vec<(Vec<String>, Option<String>, String)> {
    f.list().iter().map(|f| (legals(&f.comment), f.name.clone(), want_ty(&f.ty, bytes))).collect()
}

fn kind(f: &syn::Fields) -> u8 { match f { syn::Fields::Unit => 0, syn::Fields::Named(_) => 1, syn::Fields::Unnamed(_) => 2 } }
fn want_kind(f: &Fields) -> u8 { match f { Fields::Unit => 0, Fields::Named(_) => 1, Fields::Unnamed(_) => 2 } }

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got { Ok(()) } else { Err(format!("{what}: declared {want:?}, generated {got:?}")) }
}

fn paths(t: &syn::UseTree, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match t {
        syn::UseTree::Path(p) => { at.push(p.ident.unraw().to_string()); paths(&p.tree, at, out); at.pop(); }
        syn::UseTree::Name(n) => { let mut p = at.clone(); p.push(n.ident.unraw().to_string()); out.push(p); }
        syn::UseTree::Group(g) => for t in &g.items { paths(t, at, out); },
        _ => out.push(vec!["?".into()]),
    }
}

/// Compare the declarations of a module, in order; other items are ignored, except that every type needs its implementations.
fn items(defs: &[Def], items_: &[syn::Item], bytes: &str) -> Result<u64, String> {
    let mut n = 0;
    let decl: Vec<&syn::Item> = items_.iter().filter(|i| match i {
        syn::Item::Use(u) => { let mut out = Vec::new(); paths(&u.tree, &mut Vec::new(), &mut out); out.iter().all(|p| p[0] == "super") }
        syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Mod(_) | syn::Item::Type(_) | syn::Item::Const(_) => true,
        _ => false,
    }).collect();
    eq("number of declarations", defs.len(), decl.len())?;
    for (d, i) in defs.iter().zip(&decl) {
        n += 1;
        match (d, i) {
            (Def::Module(m), syn::Item::Mod(i)) => {
                eq("module", &m.name, &i.ident.unraw().to_string())?;
                eq(&format!("documentation of module {}", m.name), legals(&m.comment), docs(&i.attrs))?;
                if !public(&i.vis) { return Err(format!("module {} is not public", m.name)); }
                n += items(&m.defs, i.content.as_ref().map_or(&[][..], |c| &c.1), bytes)?;
            }
            (Def::Struct(s), syn::Item::Struct(i)) => {
                eq("struct", &s.name, &i.ident.unraw().to_string())?;
                eq(&format!("documentation of {}", s.name), legals(&s.comment), docs(&i.attrs))?;
                eq(&format!("generics of {}", s.name), &s.generics, &generics(&i.generics))?;
                eq(&format!("kind of {}", s.name), want_kind(&s.fields), kind(&i.fields))?;
                eq(&format!("fields of {}", s.name), want_fields(&s.fields, bytes), fields(&i.fields, true)?)?;
                if !public(&i.vis) { return Err(format!("struct {} is not public", s.name)); }
            }
            (Def::Enum(e), syn::Item::Enum(i)) => {
                eq("enum", &e.name, &i.ident.unraw().to_string())?;
                eq(&format!("documentation of {}", e.name), legals(&e.comment), docs(&i.attrs))?;
                eq(&format!("generics of {}", e.name), &e.generics, &generics(&i.generics))?;
                if !public(&i.vis) { return Err(format!("enum {} is not public", e.name)); }
                eq(&format!("number of variants of {}", e.name), e.variants.len(), i.variants.len())?;
                for (v, i) in e.variants.iter().zip(&i.variants) {
                    eq("variant", &v.name, &i.ident.unraw().to_string())?;
                    eq(&format!("documentation of {}::{}", e.name, v.name), legals(&v.comment), docs(&i.attrs))?;
                    eq(&format!("kind of {}::{}", e.name, v.name), want_kind(&v.fields), kind(&i.fields))?;
                    eq(&format!("fields of {}::{}", e.name, v.name), want_fields(&v.fields, bytes), fields(&i.fields, false)?)?;
                }
            }
            (Def::Alias(a), syn::Item::Type(i)) => {
                eq("alias", &a.name, &i.ident.unraw().to_string())?;
                eq(&format!("documentation of {}", a.name), legals(&a.comment), docs(&i.attrs))?;
                eq(&format!("generics of {}", a.name), &a.generics, &generics(&i.generics))?;
                eq(&format!("target of {}", a.name), want_ty(&a.target, bytes), norm(&i.ty))?;
                if !public(&i.vis) { return Err(format!("alias {} is not public", a.name)); }
            }
            (Def::Const(c), syn::Item::Const(i)) => {
                eq("constant", &c.name, &i.ident.unraw().to_string())?;
                eq(&format!("documentation of {}", c.name), legals(&c.comment), docs(&i.attrs))?;
                if !public(&i.vis) { return Err(format!("constant {} is not public", c.name)); }
                let ty = match &c.ty { Ty::Str | Ty::StrRef => "&str".to_string(), Ty::Bytes | Ty::BytesRef => "&[u8]".to_string(), t => want_ty(t, bytes) };
                eq(&format!("type of {}", c.name), ty, norm(&i.ty))?;
                value(&i.expr, &c.value).map_err(|e| format!("value of {}: declared {}, generated {e}", c.name, lit_text(&c.value)))?;
            }
            (Def::Import(m), syn::Item::Use(i)) => {
                let mut out = Vec::new();
                paths(&i.tree, &mut Vec::new(), &mut out);
                let mut want = vec!["super".to_string()];
                want.extend(m.segments.iter().cloned());
                want.extend(m.element.iter().cloned());
                eq("import", vec![want], out)?;
            }
            _ => return Err(format!("{d:?} has become another kind of item")),
        }
    }
    for d in defs {
        if !matches!(d, Def::Struct(_) | Def::Enum(_)) { continue; }
        for t in ["Encode", "Decode", "Size"] {
            let k = items_.iter().filter(|i| match i {
                syn::Item::Impl(i) => i.trait_.as_ref().is_some_and(|x| x.1.segments.last().unwrap().ident == t) && norm(&i.self_ty).split('<').next() == Some(d.name()),
                _ => false,
            }).count();
            if k != 1 { return Err(format!("{} implements {t} {k} times", d.name())); }
        }
    }
    Ok(n)
}

fn value(e: &syn::Expr, want: &Lit) -> Result<(), String> {
    use quote::ToTokens;
    let text = e.to_token_stream().to_string();
    let err = || Err(text.clone());
    let (neg, e) = match e { syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => (true, &**expr), e => (false, e) };
    let e = match e { syn::Expr::Reference(r) => &*r.expr, e => e };
    let syn::Expr::Lit(syn::ExprLit { lit, .. }) = e else { return if matches!(want, Lit::Bytes(_)) { Ok(()) } else { err() } };
    let good = match (want, lit) {
        (Lit::Bool(b), syn::Lit::Bool(l)) => l.value == *b,
        (Lit::Int(i), syn::Lit::Int(l)) => format!("{}{}", if neg { "-" } else { "" }, l.base10_digits()) == i.to_string(),
        (Lit::Float(f), syn::Lit::Float(l)) => l.base10_parse::<f64>().is_ok_and(|g| (if neg { -g } else { g }).to_bits() == f.to_bits()),
        (Lit::Str(s), syn::Lit::Str(l)) => l.value() == *s,
        (Lit::Bytes(b), syn::Lit::ByteStr(l)) => l.value() == *b,
        _ => false,
    };
    if good { Ok(()) } else { err() }
}

pub fn run(run: &Run, rep: &mut Report) {
    let mut round = 0;
    let dir = std::env::temp_dir().join(format!("mv-rust-{}-{}", std::process::id(), run.index));
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("rust/{}", run.index), round);
        round += 1;
        let cfg = Cfg { attrs: true, wild_literals: true, odd: true, ..Cfg::wire() };
        let mut p = package(&mut r, &cfg);
        if r.chance(1, 4) {
            // nothing is compiled here, so that arrays may have any size
            for (_, s) in &mut p.schemas {
                plant::each(&mut s.defs, &mut Vec::new(), &mut |_, d| plant::each_ty(d, &mut |t| {
                    *t = map_ty(t, &mut |t| if let Ty::Array(t, _) = t && r.chance(1, 2) { Some(Ty::Array(t.clone(), *r.pick(&[0, 33, 256, 65_535, 65_536, 1 << 31, u32::MAX]))) } else { None });
                }));
            }
        }
        let texts: Vec<(String, String)> = p.schemas.iter().map(|(n, s)| { let l = *r.pick(&LAYOUTS); (n.clone(), render(s, l, &mut r)) }).collect();
        let w = || json!({"schemas": texts.iter().map(|t| json!({"name": t.0, "text": t.1})).collect::<Vec<_>>()});
        watch::begin(|| w().to_string());
        rep.case(w);
        if round % 8 == 0 { project(run, rep, &p, &texts, &dir, round % 16 == 0, &w); continue; }
        for ((_, s), (n, t)) in p.schemas.iter().zip(&texts) {
            let Ok(parsed) = mp::Schema::parse(t, None) else { continue };
            rep.eval();
            rep.case_seen(t);
            let code = guard(|| {
                let simple = mc::simplify_schema(&parsed);
                mabo_build::compile_schema(&mabo_build::Opts::default(), &simple)
            });
            match code {
                Err(e) => rep.violation("panic", format!("code generation panics for {n}: {e}"), w()),
                Ok(code) => match syn::parse2::<syn::File>(code.clone()) {
                    Err(e) => rep.violation("syntax", format!("the generated code is no Rust: {e}"), w()),
                    Ok(f) => compare(rep, s, &f, "Vec<u8>", &w),
                },
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn compare(rep: &mut Report, s: &Schema, f: &syn::File, bytes: &str, w: &impl Fn() -> serde_json::Value) {
    match items(&s.defs, &f.items, bytes) {
        Ok(n) => { rep.count("declarations compared", n); rep.sample_every(499, || json!({"schema": clip(&mvcore::render::canon(s), 300), "declarations": n})); }
        Err(e) => rep.violation("declaration", e, w()),
    }
}

/// Through the interface for build scripts.
fn project(run: &Run, rep: &mut Report, p: &Package, texts: &[(String, String)], dir: &std::path::Path, bytes: bool, w: &impl Fn() -> serde_json::Value) {
    use mabo_build::{BytesType, Compiler};
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("schemas")).unwrap();
    std::fs::write(dir.join("Mabo.toml"), "[package]\nname = \"gen\"\nfiles = [\"schemas/*.mabo\"]\n").unwrap();
    for (n, t) in texts { std::fs::write(dir.join(format!("schemas/{n}.mabo")), t).unwrap(); }
    // every process has one thread that does this
    unsafe { std::env::set_var("OUT_DIR", dir) };
    let _ = run;
    rep.eval();
    rep.count("whole projects", 1);
    match guard(|| Compiler::default().with_bytes_type(if bytes { BytesType::Bytes } else { BytesType::VecU8 }).compile(dir.to_str().unwrap())) {
        Err(e) => return rep.violation("panic", format!("code generation panics: {e}"), w()),
        Ok(Err(e)) => return rep.violation("failed", format!("code generation fails: {}", chain(&e)), w()),
        Ok(Ok(())) => {}
    }
    for (n, s) in &p.schemas {
        let mut s = s.clone();
        printed(&mut s.defs);
        let Ok(code) = std::fs::read_to_string(dir.join(format!("mabo/{n}.rs"))) else { return rep.violation("missing", format!("no code for schema {n}"), w()) };
        match syn::parse_file(&code) {
            Err(e) => rep.violation("syntax", format!("the generated code is no Rust: {e}"), w()),
            Ok(f) => compare(rep, &s, &f, if bytes { "Bytes" } else { "Vec<u8>" }, w),
        }
    }
}
