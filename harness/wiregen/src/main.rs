//! Writes a crate with Rust code that the real generator made from random schemas, plus the glue to drive it.
mod compile;
mod probe;

use std::{fmt::Write as _, fs, path::{Path, PathBuf}};

use mabo_build::{BytesType, Compiler};
use mvcore::{
    evolve::evolve,
    generate::{Cfg, closed_types, mono_cost, package, rust_name, rust_path},
    model::*,
    render::{Layout, render, ty_text},
    rng::Rng,
    value::*,
};
use serde_json::{Value, json};

/// JSON of plain characters only, as Rust doesn't allow some others in literals.
fn raw(json: String) -> String {
    json.chars().fold(String::new(), |mut s, c| {
        if c.is_ascii() { s.push(c) } else { for u in c.encode_utf16(&mut [0; 2]) { write!(s, "\\u{u:04x}").unwrap() } }
        s
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or_else(|| panic!("{k} is missing"));
    let out = PathBuf::from(get("--out"));
    if args.iter().any(|a| a == "--compile-probes") {
        std::panic::set_hook(Box::new(|_| {}));
        return compile::probes(&out);
    }
    let seed: u64 = get("--seed").parse().unwrap();
    let n: usize = get("--packages").parse().unwrap();
    let label = get("--label");
    let probes = get("--probes") == "yes";
    let skip: Vec<usize> = get("--skip").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    if args.iter().any(|a| a == "--compile") { return compile::run(&out, seed, n, &label, &skip); }
    let src = out.join("src");
    fs::create_dir_all(&src).unwrap();
    let mut main = String::from("#![allow(warnings)]\n#[global_allocator]\nstatic ALLOC: mvrt::alloc::Track = mvrt::alloc::Track;\n");
    let mut pkgs = String::new();
    let mut entries = String::new();
    let mut problems: Vec<Value> = Vec::new();
    let mut stats = json!({"packages": 0, "definitions": 0, "types": 0});
    let mut index = 0;
    // the last one holds the probes for known findings
    for i in 0..n + usize::from(probes) {
        if skip.contains(&i) { continue; }
        let mut r = Rng::new(seed, &format!("wire/{label}"), i as u64);
        let mut cfg = Cfg::wire();
        if i % 4 == 3 { cfg.defs = (4, 8); cfg.schemas = (1, 1); cfg.depth = 1; }
        let (a, b, changes) = if i == n { let (a, b) = probe::packages(); (a, b, Vec::new()) } else {
            loop {
                let a = package(&mut r, &cfg);
                let (b, changes) = evolve(&mut r, &a);
                let env = Env::build(&a);
                // every type with small arguments
                let all: Vec<Ty> = env.order.iter().map(|k| {
                    let mut path: Vec<String> = k.split("::").map(str::to_string).collect();
                    let name = path.pop().unwrap();
                    Ty::Ext { path, name, args: env.defs[k].generics.iter().map(|_| Ty::U8).collect() }
                }).collect();
                let cost = mono_cost(&env, &all, 3000);
                if cost < 3000 { break (a, b, changes); }
                stats["rejected for their size"] = json!(stats["rejected for their size"].as_u64().unwrap_or(0) + 1);
            }
        };
        let bytes = if i % 3 == 1 { BytesType::Bytes } else { BytesType::VecU8 };
        let bytes_ty = if i % 3 == 1 { "bytes::Bytes" } else { "Vec<u8>" };
        let envs = [Env::build(&a), Env::build(&b)];
        let types: Vec<(Ty, &str)> = if i == n { probe::types() } else { closed_types(&mut r, &cfg, &[&envs[0], &envs[1]], 5).into_iter().map(|t| (t, "")).collect() };
        stats["cost"] = json!(stats["cost"].as_u64().unwrap_or(0) as usize + mono_cost(&envs[0], &types.iter().map(|t| t.0.clone()).collect::<Vec<_>>(), usize::MAX));
        let mut mods = [String::new(), String::new()];
        let mut fine = true;
        for (v, p) in [&a, &b].into_iter().enumerate() {
            let layout = *r.pick(&[Layout::Canon, Layout::Min, Layout::Wild]);
            match generate(&out.join(format!("proj/{i}{}", ["a", "b"][v])), p, layout, bytes, &mut r) {
                Ok(m) => mods[v] = m,
                Err(e) => {
                    problems.push(json!({"package": i, "version": v, "error": e, "schemas": p.schemas.iter().map(|(n, s)| json!({"name": n, "text": mvcore::render::canon(s)})).collect::<Vec<_>>()}));
                    fine = false;
                    break;
                }
            }
        }
        if !fine { continue; }
        for (v, p) in [&a, &b].into_iter().enumerate() {
            let m = format!("p{i}{}", ["a", "b"][v]);
            fs::write(src.join(format!("{m}.rs")), &mods[v]).unwrap();
            writeln!(main, "mod {m};").unwrap();
            glue(&mut main, &m, p);
            for (k, (t, probe)) in types.iter().enumerate() {
                let json = raw(serde_json::to_string(t).unwrap());
                writeln!(entries, "    mvrt::entry!({index}, {v}, \"p{i}:{k} {}\", r####\"{json}\"####, \"{probe}\", {}),", ty_text(t).replace('"', ""), rust_ty(t, &m, bytes_ty)).unwrap();
            }
        }
        if i < n { stats["packages"] = json!(stats["packages"].as_u64().unwrap() + 1);
        stats["definitions"] = json!(stats["definitions"].as_u64().unwrap() + 2 * envs[0].order.len() as u64);
        stats["types"] = json!(stats["types"].as_u64().unwrap() + 2 * types.len() as u64); }
        writeln!(pkgs, "    mvrt::Pkg {{ versions: [r####\"{}\"####, r####\"{}\"####], changes: r####\"{}\"#### }},", raw(serde_json::to_string(&a).unwrap()), raw(serde_json::to_string(&b).unwrap()), changes.join("; ")).unwrap();
        index += 1;
    }
    write!(main, "fn main() {{\n  mvrt::main(&[\n{pkgs}  ], vec![\n{entries}  ]);\n}}\n").unwrap();
    fs::write(src.join("main.rs"), main).unwrap();
    fs::write(out.join("Cargo.toml"), format!("[package]\nname = \"gen-{label}\"\nversion = \"0.0.0\"\nedition = \"2024\"\n\n[dependencies]\nmabo = {{ path = \"/repo/crates/mabo\" }}\nmvrt = {{ path = \"{}\" }}\nbytes = \"1\"\n", Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("rt").display())).unwrap();
    fs::write(out.join("gen.json"), json!({"problems": problems, "stats": stats}).to_string()).unwrap();
}

/// Run the real generator on a package, and put its modules together.
fn generate(dir: &Path, p: &Package, layout: Layout, bytes: BytesType, r: &mut Rng) -> Result<String, String> {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir.join("schemas")).unwrap();
    fs::write(dir.join("Mabo.toml"), "[package]\nname = \"wire\"\nfiles = [\"schemas/*.mabo\"]\n").unwrap();
    for (n, s) in &p.schemas { fs::write(dir.join(format!("schemas/{n}.mabo")), render(s, layout, r)).unwrap(); }
    // single threaded
    unsafe { std::env::set_var("OUT_DIR", dir) };
    let d = dir.to_str().unwrap().to_string();
    match std::panic::catch_unwind(|| Compiler::default().with_bytes_type(bytes).compile(&d)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("{e:?}")),
        Err(p) => return Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
    let mut out = String::new();
    for (n, _) in &p.schemas {
        let code = fs::read_to_string(dir.join(format!("mabo/{n}.rs"))).map_err(|e| format!("no output for schema {n}: {e}"))?;
        writeln!(out, "pub mod {} {{\n{code}\n}}", rust_name(n)).unwrap();
    }
    Ok(out)
}

fn rust_ty(t: &Ty, m: &str, bytes: &str) -> String {
    let f = |t: &Ty| rust_ty(t, m, bytes);
    match t {
        Ty::Bool => "bool".into(), Ty::U8 => "u8".into(), Ty::U16 => "u16".into(), Ty::U32 => "u32".into(), Ty::U64 => "u64".into(), Ty::U128 => "u128".into(),
        Ty::I8 => "i8".into(), Ty::I16 => "i16".into(), Ty::I32 => "i32".into(), Ty::I64 => "i64".into(), Ty::I128 => "i128".into(), Ty::F32 => "f32".into(), Ty::F64 => "f64".into(),
        Ty::Str | Ty::StrRef => "String".into(), Ty::Bytes | Ty::BytesRef => bytes.into(), Ty::BoxStr => "Box<str>".into(), Ty::BoxBytes => "Box<[u8]>".into(),
        Ty::Vec(t) => format!("Vec<{}>", f(t)),
        Ty::Map(k, v) => format!("std::collections::HashMap<{}, {}>", f(k), f(v)),
        Ty::Set(t) => format!("std::collections::HashSet<{}>", f(t)),
        Ty::Opt(t) => format!("Option<{}>", f(t)),
        Ty::Array(t, n) => format!("[{}; {n}]", f(t)),
        Ty::Tuple(ts) => format!("({},)", ts.iter().map(f).collect::<Vec<_>>().join(", ")),
        Ty::NonZero(t) if matches!(**t, Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 | Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128) => format!("std::num::NonZero<{}>", f(t)),
        Ty::NonZero(t) => format!("mabo::NonZero<{}>", f(t)),
        Ty::Ext { path, name, args } => {
            let a = if args.is_empty() { String::new() } else { format!("<{}>", args.iter().map(f).collect::<Vec<_>>().join(", ")) };
            format!("{m}::{}::{name}{a}", rust_path(path))
        }
    }
}

fn glue(out: &mut String, m: &str, p: &Package) {
    for (n, s) in &p.schemas {
        let mut path = vec![n.clone()];
        visit_defs(&s.defs, &mut path, &mut |at, d| {
            let full = |name: &str| format!("{m}::{}::{name}", rust_path(at));
            match d {
                Def::Struct(s) => {
                    let t = full(&s.name);
                    let (from, to) = match &s.fields {
                        Fields::Unit => (t.clone(), "vec![]".to_string()),
                        Fields::Named(f) => (
                            format!("{t} {{ {} }}", f.iter().enumerate().map(|(i, f)| format!("{}: Dyn::from_val(&l[{i}])", rust_name(f.name.as_ref().unwrap()))).collect::<Vec<_>>().join(", ")),
                            format!("vec![{}]", f.iter().map(|f| format!("self.{}.to_val()", rust_name(f.name.as_ref().unwrap()))).collect::<Vec<_>>().join(", ")),
                        ),
                        Fields::Unnamed(f) => (
                            format!("{t}({})", (0..f.len()).map(|i| format!("Dyn::from_val(&l[{i}])")).collect::<Vec<_>>().join(", ")),
                            format!("vec![{}]", (0..f.len()).map(|i| format!("self.{i}.to_val()")).collect::<Vec<_>>().join(", ")),
                        ),
                    };
                    imp(out, &t, &s.generics, &format!("if let mvrt::V::Rec(l) = v {{ {from} }} else {{ panic!(\"{{v:?}}\") }}"), &format!("mvrt::V::Rec({to})"));
                }
                Def::Enum(e) => {
                    let t = full(&e.name);
                    let mut from = String::new();
                    let mut to = String::new();
                    for (i, v) in e.variants.iter().enumerate() {
                        let (build, bind, vals) = match &v.fields {
                            Fields::Unit => (String::new(), String::new(), String::new()),
                            Fields::Named(f) => (
                                format!(" {{ {} }}", f.iter().enumerate().map(|(i, f)| format!("{}: Dyn::from_val(&l[{i}])", rust_name(f.name.as_ref().unwrap()))).collect::<Vec<_>>().join(", ")),
                                format!(" {{ {} }}", f.iter().enumerate().map(|(i, f)| format!("{}: x{i}", rust_name(f.name.as_ref().unwrap()))).collect::<Vec<_>>().join(", ")),
                                (0..f.len()).map(|i| format!("x{i}.to_val()")).collect::<Vec<_>>().join(", "),
                            ),
                            Fields::Unnamed(f) => (
                                format!("({})", (0..f.len()).map(|i| format!("Dyn::from_val(&l[{i}])")).collect::<Vec<_>>().join(", ")),
                                format!("({})", (0..f.len()).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", ")),
                                (0..f.len()).map(|i| format!("x{i}.to_val()")).collect::<Vec<_>>().join(", "),
                            ),
                        };
                        write!(from, "mvrt::V::Var({i}, l) => {t}::{}{build}, ", v.name).unwrap();
                        write!(to, "{t}::{}{bind} => mvrt::V::Var({i}, vec![{vals}]), ", v.name).unwrap();
                    }
                    imp(out, &t, &e.generics, &format!("match v {{ {from} v => panic!(\"{{v:?}}\") }}"), &format!("match self {{ {to} }}"));
                }
                _ => {}
            }
        });
    }
}

fn imp(out: &mut String, t: &str, generics: &[String], from: &str, to: &str) {
    let g = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
    let w = if generics.is_empty() { String::new() } else { format!("<{}>", generics.iter().map(|g| format!("{g}: mvrt::Dyn + std::fmt::Debug")).collect::<Vec<_>>().join(", ")) };
    // names of the schema must not shadow anything used here
    writeln!(out, "const _: () = {{ use mvrt::Dyn;\nimpl{w} Dyn for {t}{g} {{\n fn from_val(v: &mvrt::V) -> Self {{ {from} }}\n fn to_val(&self) -> mvrt::V {{ {to} }}\n}}\n}};").unwrap();
}
