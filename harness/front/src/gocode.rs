//! C17: the generated Go code, parsed by the Go parser, against the model.
use std::{io::{BufRead, BufReader, Write}, process::{Child, Command, Stdio}};

use mabo_compiler as mc;
use mabo_go::{Opts, Output};
use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, model::*, out::{Report, clip}, render::{canon, render}, rng::Rng, watch};
use serde_json::{Value, json};

use crate::{Run, guard, syntax::LAYOUTS};

/// The Go program that parses and describes Go files.
struct Inspect { child: Child }

impl Inspect {
    fn new() -> Self {
        let exe = std::env::var_os("MV_GOINSPECT").expect("MV_GOINSPECT");
        Self { child: Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("goinspect") }
    }
    fn describe(&mut self, src: &str) -> Value {
        let mut line = serde_json::to_vec(src).unwrap();
        line.push(b'\n');
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&line).unwrap();
        i.flush().unwrap();
        // one byte at a time would be slow, and nothing follows the line
        let mut s = String::new();
        BufReader::with_capacity(1 << 16, self.child.stdout.as_mut().unwrap()).read_line(&mut s).unwrap();
        serde_json::from_str(&s).unwrap_or_else(|e| panic!("goinspect: {e}: {s}"))
    }
}

impl Drop for Inspect {
    fn drop(&mut self) { drop(self.child.stdin.take()); let _ = self.child.wait(); }
}

/// Names are compared without regard to case conventions.
fn norm(s: &str) -> String { s.chars().filter(|c| *c != '_').flat_map(char::to_lowercase).collect() }

/// A name in the generated code, in which underscores only separate enums from variants.
fn low(s: &str) -> String { s.to_lowercase() }

fn go_ty(t: &Ty) -> String {
    match t {
        Ty::Bool => "bool".into(), Ty::U8 => "uint8".into(), Ty::U16 => "uint16".into(), Ty::U32 => "uint32".into(), Ty::U64 => "uint64".into(),
        Ty::U128 | Ty::I128 => "*big.int".into(),
        Ty::I8 => "int8".into(), Ty::I16 => "int16".into(), Ty::I32 => "int32".into(), Ty::I64 => "int64".into(), Ty::F32 => "float32".into(), Ty::F64 => "float64".into(),
        Ty::Str | Ty::StrRef | Ty::BoxStr => "string".into(), Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => "[]byte".into(),
        Ty::Vec(t) => format!("[]{}", go_ty(t)),
        Ty::Map(k, v) => format!("map[{}]{}", go_ty(k), go_ty(v)),
        Ty::Set(t) => format!("map[{}]struct{{}}", go_ty(t)),
        Ty::Opt(t) => format!("*{}", go_ty(t)),
        Ty::Array(t, n) => format!("[{n}]{}", go_ty(t)),
        Ty::Tuple(l) => format!("mabo.tuple{}{}", l.len(), list(l)),
        Ty::NonZero(t) => match &**t {
            Ty::Str | Ty::StrRef => "mabo.nonzerostring".into(),
            Ty::Bytes | Ty::BytesRef => "mabo.nonzerobytes".into(),
            Ty::Vec(t) => format!("mabo.nonzerovec[{}]", go_ty(t)),
            Ty::Map(k, v) => format!("mabo.nonzerohashmap[{},{}]", go_ty(k), go_ty(v)),
            Ty::Set(t) => format!("mabo.nonzerohashset[{}]", go_ty(t)),
            t => format!("mabo.nonzero{}", prim(t).to_lowercase()),
        },
        Ty::Ext { path, name, args } => {
            let mut s = path.last().map_or(String::new(), |p| norm(p) + ".");
            s.push_str(&norm(name));
            if !args.is_empty() { s.push_str(&list(args)); }
            s
        }
    }
}

fn list(l: &[Ty]) -> String { format!("[{}]", l.iter().map(go_ty).collect::<Vec<_>>().join(",")) }
fn generics(l: &[String]) -> String { if l.is_empty() { String::new() } else { format!("[{}]", l.iter().map(|g| norm(g)).collect::<Vec<_>>().join(",")) } }

fn prim(t: &Ty) -> &'static str {
    match t {
        Ty::Bool => "Bool", Ty::U8 => "U8", Ty::U16 => "U16", Ty::U32 => "U32", Ty::U64 => "U64", Ty::U128 => "U128",
        Ty::I8 => "I8", Ty::I16 => "I16", Ty::I32 => "I32", Ty::I64 => "I64", Ty::I128 => "I128", Ty::F32 => "F32", Ty::F64 => "F64",
        Ty::Str | Ty::StrRef | Ty::BoxStr => "String", Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => "Bytes",
        _ => unreachable!(),
    }
}

/// The runtime functions that a value of the type goes through.
fn calls(verb: &str, t: &Ty, out: &mut Vec<String>) {
    let mut one = |name: String, types: &[&Ty]| {
        let args = if types.is_empty() { String::new() } else { format!("[{}]", types.iter().map(|t| go_ty(t)).collect::<Vec<_>>().join(",")) };
        out.push(format!("{}{args}", norm(&format!("{verb}{name}"))));
        for t in types { calls(verb, t, out); }
    };
    match t {
        Ty::Vec(t) => one("Vec".into(), &[t]),
        Ty::Map(k, v) => one("HashMap".into(), &[k, v]),
        Ty::Set(t) => one("HashSet".into(), &[t]),
        Ty::Opt(t) => one("Option".into(), &[t]),
        Ty::Array(t, n) => one(format!("Array{n}"), &[t]),
        Ty::Tuple(l) => for t in l { calls(verb, t, out); },
        Ty::NonZero(t) if verb == "Decode" => match &**t {
            Ty::Vec(t) => one("NonZeroVec".into(), &[t]),
            Ty::Map(k, v) => one("NonZeroHashMap".into(), &[k, v]),
            Ty::Set(t) => one("NonZeroHashSet".into(), &[t]),
            t => one(format!("NonZero{}", prim(t)), &[]),
        },
        Ty::NonZero(t) => calls(verb, t, out),
        Ty::Ext { .. } => out.push(format!(".{}", norm(verb))),
        t => one(prim(t).into(), &[]),
    }
}

fn s(v: &Value) -> &str { v.as_str().unwrap_or("?") }
fn strs(v: &Value) -> Vec<String> { v.as_array().into_iter().flatten().map(|v| s(v).to_string()).collect() }
fn norms(v: &Value) -> Vec<String> { v.as_array().into_iter().flatten().map(|v| norm(s(v))).collect() }
/// Go source can't hold some characters, which may be escaped, and its parser drops carriage returns.
fn docs(c: &[String]) -> Vec<String> { c.iter().map(|l| legal(&format!("// {l}"))).collect() }
fn legal(l: &str) -> String { l.replace('\r', "").replace('\0', "\\u{0}").replace('\u{feff}', "\\u{feff}") }

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got { Ok(()) } else { Err(format!("{what}: {got:?} instead of {want:?}")) }
}

fn used(f: &Fields, gens: &[String]) -> Vec<String> {
    gens.iter().filter(|g| {
        let mut found = false;
        for x in f.list() { visit_ty(&x.ty, &mut |t| if matches!(t, Ty::Ext { path, name, args } if path.is_empty() && args.is_empty() && name == *g) { found = true; }); }
        found
    }).cloned().collect()
}

fn field_name(i: usize, f: &Field) -> String { f.name.as_deref().map_or(format!("n{i}"), norm) }

struct File<'a> { v: &'a Value, types: std::slice::Iter<'a, Value>, values: std::slice::Iter<'a, Value>, funcs: Vec<&'a Value>, asserts: Vec<String>, seen: u64 }

impl<'a> File<'a> {
    fn func(&mut self, recv: &str, name: &str) -> Result<&'a Value, String> {
        let i = self.funcs.iter().position(|f| low(s(&f["recv"])) == recv && low(s(&f["name"])) == low(name)).ok_or_else(|| format!("there is no function {name} of {recv:?}"))?;
        Ok(self.funcs.remove(i))
    }
    fn assert(&mut self, what: String) -> Result<(), String> {
        let i = self.asserts.iter().position(|a| *a == what).ok_or_else(|| format!("missing {what}, there are {:?}", self.asserts))?;
        self.asserts.remove(i);
        Ok(())
    }
    fn ty(&mut self, name: &str, doc: &[String], params: &[String], kind: &str) -> Result<&'a Value, String> {
        let t = self.types.next().ok_or_else(|| format!("there is no type {name}"))?;
        let at = |w: &str| format!("{w} of {name}");
        eq(&at("name"), name.to_string(), low(s(&t["name"])))?;
        if !s(&t["name"]).starts_with(|c: char| c.is_ascii_uppercase()) { return Err(at("unexported name")); }
        eq(&at("type parameters"), params.iter().map(|p| norm(p)).collect(), norms(&t["params"]))?;
        eq(&at("documentation"), docs(doc), strs(&t["doc"]))?;
        eq(&at("kind"), kind, s(&t["kind"]))?;
        // a parameter is spelled alike wherever it is used
        for p in strs(&t["params"]) {
            for i in strs(&t["idents"]) { if norm(&i) == norm(&p) && i != p { return Err(at(&format!("{i} stands for the type parameter {p}"))); } }
        }
        self.seen += 1;
        Ok(t)
    }
    /// A struct type with its constructor and its three methods.
    fn record(&mut self, name: &str, doc: &[String], params: &[String], f: &Fields) -> Result<(), String> {
        let t = self.ty(name, doc, params, "struct")?;
        let at = |w: &str| format!("{w} of {name}");
        let want: Vec<_> = f.list().iter().enumerate().map(|(i, f)| (field_name(i, f), go_ty(&f.ty), docs(&f.comment))).collect();
        let got: Vec<_> = t["fields"].as_array().unwrap().iter().map(|f| (norm(s(&f["name"])), norm(s(&f["type"])), strs(&f["doc"]))).collect();
        eq(&at("fields"), &want, &got)?;
        let mut names = std::collections::HashSet::new();
        for f in t["fields"].as_array().unwrap() { if !names.insert(s(&f["name"]).to_string()) { return Err(format!("twice: field {} of {name}", s(&f["name"]))); } }
        for f in t["fields"].as_array().unwrap() { if !s(&f["name"]).starts_with(|c: char| c.is_ascii_uppercase()) { return Err(at("unexported field")); } }

        let me = format!("{name}{}", generics(params));
        let new = self.func("", &format!("New{name}"))?;
        eq(&at("type parameters of the constructor"), params.iter().map(|p| norm(p)).collect(), norms(&new["typeparams"]))?;
        eq(&at("parameters of the constructor"), want.iter().map(|f| (f.0.clone(), f.1.clone())).collect(), pairs(&new["params"]))?;
        eq(&at("result of the constructor"), vec![me.clone()], strs(&new["results"]).iter().map(|s| low(s)).collect())?;
        eq(&at("fields set by the constructor"), want.iter().map(|f| (f.0.clone(), f.0.clone())).collect(), pairs(&new["built"]))?;

        let ids: Vec<String> = saturated(f).iter().map(u32::to_string).collect();
        for verb in ["Encode", "Decode", "Size"] {
            self.assert(format!("buf.{}=(*{me})(nil)", norm(verb)))?;
            let m = self.func(&format!("*{me}"), verb)?;
            let w = format!("{verb} of {name}");
            let sig = match verb { "Encode" => (vec![("w", "[]byte")], vec!["[]byte"]), "Decode" => (vec![("r", "[]byte")], vec!["[]byte", "error"]), _ => (vec![], vec!["int"]) };
            eq(&format!("parameter types of {w}"), sig.0.iter().map(|p| p.1.to_string()).collect::<Vec<_>>(), pairs(&m["params"]).into_iter().map(|p| p.1).collect())?;
            eq(&format!("results of {w}"), sig.1.iter().map(|p| p.to_string()).collect(), norms(&m["results"]))?;
            let want: Vec<_> = f.list().iter().enumerate().map(|(i, f)| {
                let mut c = Vec::new();
                let opt = verb != "Decode" && matches!(f.ty, Ty::Opt(_));
                calls(verb, if let (true, Ty::Opt(t)) = (opt, &f.ty) { t } else { &f.ty }, &mut c);
                (ids[i].clone(), field_name(i, f), opt, if verb == "Decode" { format!("found{}", field_name(i, f)) } else { String::new() }, c)
            }).collect();
            let got: Vec<_> = m["steps"].as_array().unwrap().iter().map(|x| (s(&x["id"]).to_string(), norm(s(&x["field"])), x["option"] == true, norm(s(&x["found"])), norms(&x["calls"]))).collect();
            eq(&format!("fields in {w} (identifier, field, optional, flag, runtime functions)"), want, got)?;
            eq(&format!("end markers in {w}"), u64::from(verb == "Decode" || !f.is_unit()), m["ends"].as_u64().unwrap())?;
            if verb == "Decode" {
                let want: Vec<_> = f.list().iter().enumerate().map(|(i, f)| (ids[i].clone(), f.name.clone().unwrap_or_default(), format!("!found{}", field_name(i, f)))).collect();
                let got: Vec<_> = m["missing"].as_array().unwrap().iter().map(|x| (s(&x["id"]).to_string(), s(&x["field"]).to_string(), norm(s(&x["found"])))).collect();
                eq(&format!("missing fields reported by {w}"), want, got)?;
            }
        }
        Ok(())
    }
    fn value(&mut self, c: &Const) -> Result<(), String> {
        let v = self.values.next().ok_or_else(|| format!("there is no constant {}", c.name))?;
        let at = |w: &str| format!("{w} of {}", c.name);
        eq(&at("name"), norm(&c.name), norm(s(&v["name"])))?;
        eq(&at("documentation"), docs(&c.comment), strs(&v["doc"]))?;
        eq(&at("type"), go_ty(&c.ty), norm(s(&v["type"])))?;
        eq(&at("error in the value"), "", s(&v["error"]))?;
        if v["kind"] == "big" { return Err(at("a plain number cannot be assigned to *big.Int, value")); }
        match &c.value {
            Lit::Bool(b) => eq(&at("value"), ("bool", b.to_string()), (s(&v["kind"]), s(&v["value"]).into())),
            Lit::Int(i) => eq(&at("value"), ("int", i.to_string()), (s(&v["kind"]), s(&v["value"]).into())),
            Lit::Str(x) => eq(&at("value"), ("string", x.as_str()), (s(&v["kind"]), s(&v["value"]))),
            Lit::Bytes(b) => eq(&at("value"), ("bytes", b.iter().map(|b| i64::from(*b)).collect()), (s(&v["kind"]), v["bytes"].as_array().unwrap().iter().map(|b| b.as_i64().unwrap()).collect::<Vec<_>>())),
            Lit::Float(f) => {
                let want = if c.ty == Ty::F32 { f64::from(*f as f32) } else { *f };
                let got: f64 = s(&v["value"]).parse().unwrap_or(f64::NAN);
                eq(&at("value"), ("float", want), (s(&v["kind"]), got))
            }
        }
    }
}

fn pairs(v: &Value) -> Vec<(String, String)> { v.as_array().into_iter().flatten().map(|p| (norm(s(&p[0])), norm(s(&p[1])))).collect() }

fn saturated(f: &Fields) -> Vec<u32> {
    let mut next = 1u32;
    f.list().iter().map(|f| { let i = f.id.unwrap_or(next); next = i.saturating_add(1); i }).collect()
}

fn module(go: &mut Inspect, name: &str, comment: &[String], defs: &[Def], out: &Output<'_>, seen: &mut u64) -> Result<(), String> {
    let v = go.describe(&out.content);
    let err = s(&v["error"]);
    if !err.is_empty() {
        let line: usize = err.split(':').nth(1).and_then(|l| l.parse().ok()).unwrap_or(1);
        return Err(format!("syntax: {err}: {}", out.content.lines().nth(line.saturating_sub(1)).unwrap_or("")));
    }
    eq("module", name, out.name)?;
    eq("package", norm(name), norm(s(&v["package"])))?;
    eq("documentation of the package", docs(comment), strs(&v["doc"]))?;
    let imports: Vec<_> = v["imports"].as_array().unwrap().iter().map(|p| s(&p[0]).to_string()).collect();
    for i in ["mabo", "buf"] { if !imports.iter().any(|x| x == i) { return Err(format!("no import of {i}")); } }
    let mut f = File {
        types: v["types"].as_array().unwrap().iter(), values: v["values"].as_array().unwrap().iter(), funcs: v["funcs"].as_array().unwrap().iter().collect(),
        asserts: strs(&v["asserts"]).iter().map(|a| low(a)).collect(), v: &v, seen: 0,
    };
    let mut modules = out.modules.iter();
    for d in defs {
        match d {
            Def::Import(_) => {}
            Def::Module(m) => module(go, &m.name, &m.comment, &m.defs, modules.next().ok_or_else(|| format!("there is no module {}", m.name))?, seen)?,
            Def::Struct(x) => f.record(&norm(&x.name), &x.comment, &x.generics, &x.fields)?,
            Def::Enum(e) => {
                let i = f.ty(&format!("{}variant", norm(&e.name)), &[], &[], "interface")?;
                eq("methods of the interface", vec!["sealed".to_string()], strs(&i["methods"]))?;
                let t = f.ty(&norm(&e.name), &e.comment, &[], "other")?;
                eq(&format!("type of {}", e.name), norm(&format!("{}Variant", e.name)), norm(s(&t["text"])))?;
                for x in &e.variants {
                    let name = format!("{}_{}", norm(&e.name), norm(&x.name));
                    let params = used(&x.fields, &e.generics);
                    f.record(&name, &x.comment, &params, &x.fields)?;
                    f.func(&format!("{name}{}", generics(&params)), "sealed")?;
                }
            }
            Def::Alias(a) => {
                let t = f.ty(&norm(&a.name), &a.comment, &a.generics, "other")?;
                eq(&format!("type of {}", a.name), go_ty(&a.target), norm(s(&t["text"])))?;
            }
            Def::Const(c) => f.value(c)?,
        }
    }
    let rest = (f.types.len(), f.values.len(), f.funcs.len(), f.asserts.len(), modules.len());
    if rest != (0, 0, 0, 0, 0) { return Err(format!("more types, values, functions, assertions or modules than definitions: {rest:?}")); }
    let mut names: Vec<&str> = ["types", "values"].iter().flat_map(|k| f.v[k].as_array().unwrap()).chain(v["funcs"].as_array().unwrap().iter().filter(|f| s(&f["recv"]).is_empty())).map(|t| s(&t["name"])).collect();
    names.sort_unstable();
    if let Some(w) = names.windows(2).find(|w| w[0] == w[1]) { return Err(format!("twice: {} is declared twice", w[0])); }
    *seen += f.seen + f.v["values"].as_array().unwrap().len() as u64;
    Ok(())
}

fn one(go: &mut Inspect, rep: &mut Report, pkg: &str, s: &Schema, text: &str, probe: Option<&str>) {
    let w = || json!({"text": text, "package": pkg});
    let sig = |k: &str| probe.map_or(k.to_string(), |p| format!("probe:{p}"));
    let Ok(parsed) = mp::Schema::parse(text, None) else { rep.count("schemas that don't parse", 1); return };
    rep.eval();
    rep.case_seen(text);
    if probe.is_some() && mc::validate_schema(&parsed).is_err() { return; }
    let simple = mc::simplify_schema(&parsed);
    let opts = Opts { package: pkg };
    let out = match guard(|| mabo_go::render_schema(&opts, &simple)) {
        Err(p) => return rep.violation(&sig("panic"), format!("Go generation panics: {p}"), w()),
        Ok(o) => o,
    };
    let mut seen = 0;
    match module(go, pkg, &[], &s.defs, &out, &mut seen) {
        Ok(()) => {
            rep.count("declarations compared", seen);
            rep.sample_every(499, || json!({"schema": clip(&canon(s), 300), "declarations": seen}));
        }
        Err(e) => {
            let k = if e.starts_with("syntax: ") { "syntax" } else if e.starts_with("twice: ") { "twice" } else { "declaration" };
            rep.violation(&sig(k), e, w());
        }
    }
}

const PROBES: &[(&str, &str)] = &[
    ("array-empty", "struct A(\n    [u8; 0],\n)\n"),
    ("array-large", "struct A(\n    [u8; 33],\n)\n"),
    ("big-constant", "const A: u128 = 5;\n"),
    ("same-field", "struct A {\n    a_b: u8,\n    a__b: u8,\n}\n"),
    ("string-escape", "const A: string = \"\\u{7f}\";\n"),
    ("receiver-package", "mod v {\n    struct B\n}\n\nstruct A {\n    a: vec<v::B>,\n}\n"),
    ("same-constructor", "struct A {\n    a: u8,\n}\n\nstruct NewA {\n    a: u8,\n}\n"),
    ("same-variant-interface", "struct AVariant {\n    a: u8,\n}\n\nenum A {\n    B,\n}\n"),
];

pub fn run(run: &Run, rep: &mut Report) {
    let mut go = Inspect::new();
    if run.index == 0 {
        for (name, text) in PROBES {
            let Ok(m) = mvcore::lenient::parse(text) else { panic!("probe {name}") };
            one(&mut go, rep, "probe", &m.0, text, Some(name));
        }
    }
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("go/{}", run.index), round);
        round += 1;
        let cfg = Cfg { go: true, odd: true, ..Cfg::accepted() };
        for (name, s) in package(&mut r, &cfg).schemas {
            let layout = *r.pick(&LAYOUTS);
            let text = render(&s, layout, &mut r);
            watch::begin(|| text.clone());
            rep.case(|| json!({"text": text}));
            one(&mut go, rep, &name, &s, &text, None);
        }
    }
}
