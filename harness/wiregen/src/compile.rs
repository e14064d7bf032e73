//! Crates that are compiled but not run: random packages, and assertions about the types that their code declares.
use std::{fmt::Write as _, fs, path::Path};

use mabo_build::BytesType;
use mvcore::{generate::{Cfg, mono_cost, package, rust_name, rust_path}, model::*, render::Layout, rng::Rng, value::*};
use serde_json::{Value, json};

use crate::{generate, rust_ty};

const HEAD: &str = r"#![allow(warnings)]
trait All: mabo::Encode + mabo::Decode + mabo::buf::Size + Clone + std::fmt::Debug + PartialEq {}
impl<T: mabo::Encode + mabo::Decode + mabo::buf::Size + Clone + std::fmt::Debug + PartialEq> All for T {}
fn all<T: All>() {}
fn same<T>(_: T) {}
const fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
";

pub fn run(out: &Path, seed: u64, n: usize, label: &str, skip: &[usize]) {
    let src = out.join("src");
    fs::create_dir_all(&src).unwrap();
    let mut main = String::from(HEAD);
    let mut problems: Vec<Value> = Vec::new();
    let (mut packages, mut definitions, mut checks, mut rejected) = (0, 0, 0, 0);
    for i in 0..n {
        if skip.contains(&i) { continue; }
        let mut r = Rng::new(seed, &format!("compile/{label}"), i as u64);
        let mut cfg = Cfg::compiled();
        if i % 4 == 3 { cfg.defs = (6, 12); cfg.schemas = (1, 1); cfg.depth = 1; }
        let (p, env) = loop {
            let p = package(&mut r, &cfg);
            let env = Env::build(&p);
            let all: Vec<Ty> = env.order.iter().map(|k| {
                let mut path: Vec<String> = k.split("::").map(str::to_string).collect();
                let name = path.pop().unwrap();
                Ty::Ext { path, name, args: env.defs[k].generics.iter().map(|_| Ty::U8).collect() }
            }).collect();
            if mono_cost(&env, &all, 5000) < 5000 && all.iter().all(|t| weight(&env, t) < 1_000_000) { break (p, env); }
            rejected += 1;
        };
        let bytes = i % 3 == 1;
        let layout = *r.pick(&[Layout::Canon, Layout::Min, Layout::Wild]);
        let m = format!("p{i}a");
        match generate(&out.join(format!("proj/{i}a")), &p, layout, if bytes { BytesType::Bytes } else { BytesType::VecU8 }, &mut r) {
            Ok(code) => fs::write(src.join(format!("{m}.rs")), code).unwrap(),
            Err(e) => {
                problems.push(json!({"package": i, "version": 0, "error": e, "schemas": p.schemas.iter().map(|(n, s)| json!({"name": n, "text": mvcore::render::canon(s)})).collect::<Vec<_>>()}));
                continue;
            }
        }
        writeln!(main, "mod {m}; // {m}").unwrap();
        packages += 1;
        definitions += env.order.len();
        checks += asserts(&mut main, &m, &p, &env, if bytes { "bytes::Bytes" } else { "Vec<u8>" });
    }
    writeln!(main, "fn main() {{}}").unwrap();
    fs::write(src.join("main.rs"), main).unwrap();
    fs::write(out.join("Cargo.toml"), format!("[package]\nname = \"gen-{label}\"\nversion = \"0.0.0\"\nedition = \"2024\"\n\n[dependencies]\nmabo = {{ path = \"/repo/crates/mabo\" }}\nbytes = \"1\"\n")).unwrap();
    fs::write(out.join("gen.json"), json!({"problems": problems, "stats": {"packages": packages, "definitions": definitions, "types": checks, "rejected for their size": rejected}}).to_string()).unwrap();
}

fn asserts(out: &mut String, m: &str, p: &Package, env: &Env, bytes: &str) -> usize {
    let mut n = 0;
    for (name, schema) in &p.schemas {
        let scope = Scope::new(name, schema);
        let mut path = vec![name.clone()];
        visit_defs(&schema.defs, &mut path, &mut |at, d| {
            n += 1;
            let full = format!("{m}::{}::{}", rust_path(at), d.name());
            let list = |g: &[String]| if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
            // generic parameters keep an empty path
            let ty = |t: &Ty| rust_ty(t, m, bytes).replace(&format!("{m}::::"), "");
            let fields = |f: &RFields| -> (String, String) {
                let bind = f.fields.iter().enumerate().map(|(i, f)| match &f.name { Some(n) => format!("{}: x{i}", rust_name(n)), None => format!("x{i}") }).collect::<Vec<_>>().join(", ");
                let uses = f.fields.iter().enumerate().map(|(i, f)| format!("same::<{}>(x{i}); ", ty(&f.ty))).collect::<String>();
                (match f.kind { 0 => String::new(), 1 => format!(" {{ {bind} }}"), _ => format!("({bind})") }, uses)
            };
            match d {
                Def::Struct(_) | Def::Enum(_) => {
                    let def = env.get(at, d.name());
                    let g = list(&def.generics);
                    let body = match &def.kind {
                        RKind::Struct(f) => { let (bind, uses) = fields(f); format!("let {full}{bind} = x; {uses}") }
                        RKind::Enum(v) => format!("match x {{ {} }}", v.iter().map(|v| { let (bind, uses) = fields(&v.2); format!("{full}::{}{bind} => {{ {uses}}} ", v.0) }).collect::<String>()),
                    };
                    writeln!(out, "const _: () = {{ fn f{g}(x: {full}{g}) {{ {body} }} }}; // {m}").unwrap();
                    let args = if def.generics.is_empty() { String::new() } else { format!("<{}>", def.generics.iter().map(|_| "u8").collect::<Vec<_>>().join(", ")) };
                    writeln!(out, "const _: fn() = || all::<{full}{args}>(); // {m}").unwrap();
                }
                Def::Alias(a) => {
                    let g = list(&a.generics);
                    writeln!(out, "const _: () = {{ fn f{g}(x: {full}{g}) -> {} {{ x }} }}; // {m}", ty(&scope.resolve(at, &a.generics, &a.target))).unwrap();
                }
                Def::Const(c) => {
                    let (t, cond) = match (&c.ty, &c.value) {
                        (Ty::F32, Lit::Float(f)) => ("f32".to_string(), format!("{full}.to_bits() == {}", (*f as f32).to_bits())),
                        (Ty::F64, Lit::Float(f)) => ("f64".to_string(), format!("{full}.to_bits() == {}", f.to_bits())),
                        (_, Lit::Bool(b)) => ("bool".to_string(), format!("{full} == {b}")),
                        (t, Lit::Int(v)) => (ty(t), format!("{full} == {v}")),
                        (_, Lit::Str(s)) => ("&'static str".to_string(), format!("eq({full}.as_bytes(), &{:?})", s.as_bytes())),
                        (_, Lit::Bytes(b)) => ("&'static [u8]".to_string(), format!("eq({full}, &{b:?})")),
                        (t, v) => panic!("constant {t:?} {v:?}"),
                    };
                    writeln!(out, "const _: () = {{ const C: {t} = {full}; assert!({cond}); }}; // {m}").unwrap();
                }
                _ => {}
            }
        });
    }
    n
}

/// Accepted schemas whose code is known not to compile: name, and the files.
const PROBES: &[(&str, &[(&str, &str)])] = &[
    ("field-named-type", &[("one", "struct A {\n    type: u8 @1,\n}\n")]),
    ("field-named-gen", &[("one", "struct A {\n    gen: u8 @1,\n    type: option<u8> @2,\n}\nenum B {\n    C {\n        await: u8 @1,\n    } @1,\n}\n")]),
    ("field-named-self", &[("one", "struct A {\n    self: u8 @1,\n}\n")]),
    ("module-named-super", &[("one", "mod super {\n    struct A {\n        a: u8 @1,\n    }\n}\n")]),
    ("schema-named-match", &[("match", "mod as {\n    struct A {\n        a: u8 @1,\n    }\n}\n"), ("one", "use match::as;\nuse match::as::A;\nstruct B {\n    a: A @1,\n    b: as::A @2,\n}\n")]),
    ("field-named-id", &[("one", "struct A {\n    id: u8 @1,\n}\n")]),
    ("field-named-r", &[("one", "struct A {\n    r: u8 @1,\n    x: u8 @2,\n}\n")]),
    ("field-named-w", &[("one", "struct A {\n    w: u8 @1,\n}\n")]),
    ("module-named-match", &[("one", "mod match {\n    struct A {\n        a: u8 @1,\n    }\n}\n")]),
    ("definition-named-Self", &[("one", "struct Self {\n    a: u8 @1,\n}\n")]),
    ("definition-named-Option", &[("one", "struct Option {\n    a: option<u8> @1,\n}\n")]),
    ("definition-named-String", &[("one", "struct String {\n    a: string @1,\n}\n")]),
    ("definition-named-Vec", &[("one", "struct Vec {\n    a: vec<u8> @1,\n}\n")]),
    ("definition-named-Box", &[("one", "struct Box {\n    a: box<string> @1,\n}\n")]),
    ("definition-named-Ok", &[("one", "struct Ok(u8 @1)\n")]),
    ("definition-named-Default", &[("one", "struct Default {\n    a: u8 @1,\n}\n")]),
    ("definition-named-Debug", &[("one", "struct Debug<T> {\n    a: T @1,\n}\n")]),
    ("recursive-struct", &[("one", "struct A {\n    a: option<A> @1,\n}\n")]),
    ("recursive-vec", &[("one", "struct A {\n    a: vec<A> @1,\n}\n")]),
    ("non-zero-of-bool", &[("one", "struct A {\n    a: non_zero<bool> @1,\n}\n")]),
    ("non-zero-of-option", &[("one", "struct A {\n    a: non_zero<option<u8>> @1,\n}\n")]),
    ("non-zero-of-tuple", &[("one", "struct A {\n    a: non_zero<(u8, u8)> @1,\n}\n")]),
    ("non-zero-of-array", &[("one", "struct A {\n    a: non_zero<[u8; 2]> @1,\n}\n")]),
    ("non-zero-of-struct", &[("one", "struct B {\n    b: u8 @1,\n}\nstruct A {\n    a: non_zero<B> @1,\n}\n")]),
    ("non-zero-of-generic", &[("one", "struct A<T> {\n    a: non_zero<T> @1,\n}\n")]),
    ("const-of-vec", &[("one", "const A: vec<u8> = 1;\n")]),
    ("const-with-other-literal", &[("one", "const A: u8 = \"x\";\n")]),
    ("const-out-of-range", &[("one", "const A: u8 = 300;\n")]),
    ("float-key", &[("one", "struct A {\n    a: hash_map<f64, u8> @1,\n}\n")]),
    ("struct-key", &[("one", "struct B {\n    b: u8 @1,\n}\nstruct A {\n    a: hash_set<B> @1,\n}\n")]),
    ("generic-key", &[("one", "struct A<T> {\n    a: hash_set<T> @1,\n}\n")]),
    ("tuple-as-generic-argument", &[("one", "struct G<T> {\n    g: T @1,\n}\nstruct A {\n    a: G<(u8, u8)> @1,\n}\n")]),
    ("non-zero-as-generic-argument", &[("one", "struct G<T> {\n    g: T @1,\n}\nstruct A {\n    a: G<non_zero<u8>> @1,\n}\n")]),
    ("alias-without-target", &[("one", "type A = Missing;\n")]),
    ("import-in-module", &[("one", "mod m {\n    use two::B;\n\n    struct A {\n        a: B @1,\n    }\n}\n\nuse two::B;\n"), ("two", "struct B {\n    b: u8 @1,\n}\n")]),
    ("import-in-module-of-nothing", &[("one", "mod m {\n    use nowhere::B;\n}\n")]),
    ("import-used-in-module", &[("one", "use two::B;\n\nmod m {\n    struct A {\n        a: B @1,\n    }\n}\n"), ("two", "struct B {\n    b: u8 @1,\n}\n")]),
    ("same-stem", &[("one/x", "struct A {\n    a: u8 @1,\n}\n"), ("two/x", "struct B {\n    b: u8 @1,\n}\n")]),
    // only with the other representation of bytes
    ("bytes-as-generic-argument", &[("one", "struct G<T> {\n    g: T @1,\n}\nstruct A {\n    a: G<bytes> @1,\n}\n")]),
    // compiles: shows that the probes would notice
    ("fine", &[("one", "struct A {\n    a: u8 @1,\n}\n")]),
];

pub fn probes(out: &Path) {
    let bin = out.join("src/bin");
    fs::create_dir_all(&bin).unwrap();
    let mut results = serde_json::Map::new();
    for (name, files) in PROBES {
        let dir = out.join("proj").join(name);
        fs::create_dir_all(dir.join("schemas")).unwrap();
        fs::write(dir.join("Mabo.toml"), "[package]\nname = \"probe\"\nfiles = [\"schemas/**/*.mabo\"]\n").unwrap();
        for (n, text) in *files {
            let f = dir.join(format!("schemas/{n}.mabo"));
            fs::create_dir_all(f.parent().unwrap()).unwrap();
            fs::write(f, text).unwrap();
        }
        unsafe { std::env::set_var("OUT_DIR", &dir) };
        let d = dir.to_str().unwrap().to_string();
        let bytes = if name.starts_with("bytes") { BytesType::Bytes } else { BytesType::VecU8 };
        let what = match std::panic::catch_unwind(|| mabo_build::Compiler::default().with_bytes_type(bytes).compile(&d)) {
            Ok(Ok(())) => "generated".to_string(),
            Ok(Err(e)) => format!("rejected: {e:?}"),
            Err(p) => format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        if what == "generated" {
            let mut code = String::from("#![allow(warnings)]\n");
            let mut made: Vec<_> = fs::read_dir(dir.join("mabo")).unwrap().map(|e| e.unwrap().path()).collect();
            made.sort();
            for f in &made { writeln!(code, "pub mod {} {{\n{}\n}}", rust_name(f.file_stem().unwrap().to_str().unwrap()), fs::read_to_string(f).unwrap()).unwrap(); }
            if *name == "same-stem" { code.push_str("use x::{A, B};\n"); }
            code.push_str("fn main() {}\n");
            fs::write(bin.join(format!("{}.rs", name.to_lowercase())), code).unwrap();
        }
        results.insert(name.to_string(), json!({"what": what, "files": files.iter().map(|f| json!({"name": f.0, "text": f.1})).collect::<Vec<_>>()}));
    }
    fs::write(out.join("Cargo.toml"), "[package]\nname = \"gen-probes\"\nversion = \"0.0.0\"\nedition = \"2024\"\n\n[dependencies]\nmabo = { path = \"/repo/crates/mabo\" }\nbytes = \"1\"\n[workspace]\n").unwrap();
    fs::write(out.join("gen.json"), Value::Object(results).to_string()).unwrap();
}
