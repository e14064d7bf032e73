//! C25: the same inputs give the same outputs, on every run and in every company.
use std::{collections::BTreeMap, fs, path::{Path, PathBuf}, process::{Command, Stdio}};

use mabo_compiler as mc;
use mabo_parser as mp;
use miette::Diagnostic;
use mvcore::{generate::{Cfg, package}, model::Package, out::{Report, clip, hash}, plant, render::render_marked, rng::Rng, watch};
use serde_json::{Value, json};

use crate::{Run, chain, guard, syntax::LAYOUTS, texts};

type Set = Vec<(String, String)>;
type Outputs = BTreeMap<String, String>;

/// Schemas by name, some with broken rules, references or syntax.
fn input(seed: u64, index: u64, round: u64) -> Set {
    let mut r = Rng::new(seed, &format!("same/{index}"), round);
    let r = &mut r;
    let cfg = match r.below(8) { 0 => Cfg { defs: (1, 3), depth: 1, ..Cfg::grammar() }, 1 => Cfg { defs: (8, 20), schemas: (1, 2), ..Cfg::accepted() }, _ => Cfg { schemas: (1, 4), ..Cfg::accepted() } };
    let mut p: Package = package(r, &cfg);
    let kind = r.below(8);
    // several problems at once, so that there is a choice what to report
    if kind < 2 { for _ in 0..r.range(1, 4) { let k = r.below(p.schemas.len()); plant::plant(r, &mut p.schemas[k].1); } }
    if kind == 2 || kind == 3 { for _ in 0..r.range(1, 3) { plant::unlink(r, &mut p); } }
    p.schemas.iter().map(|(n, s)| {
        let layout = *r.pick(&LAYOUTS);
        let t = render_marked(s, layout, r).0;
        (n.clone(), if kind == 4 && r.chance(1, 2) { texts::mutate(r, &t, &t) } else { t })
    }).collect()
}

fn trouble(e: &dyn Diagnostic, text: String) -> String {
    let labels: Vec<String> = e.labels().map_or_else(Vec::new, |l| l.map(|l| format!("{}+{} {:?}", l.offset(), l.len(), l.label())).collect());
    let source = e.source_code().and_then(|s| s.read_span(&miette::SourceSpan::from((0, 0)), 0, 0).ok().and_then(|c| c.name().map(str::to_string)));
    format!("error: {text} {labels:?} {:?} {:?} {source:?}", e.code().map(|c| c.to_string()), e.help().map(|c| c.to_string()))
}

fn pages(o: &mabo_doc::Output<'_>, out: &mut String) {
    out.push_str(&format!("== {} {:?} {}\n{}\n", o.name, o.path, o.file, o.content));
    for m in &o.modules { pages(m, out); }
}

fn files(o: &mabo_go::Output<'_>, out: &mut String) {
    out.push_str(&format!("== {}\n{}\n", o.name, o.content));
    for m in &o.modules { files(m, out); }
}

/// Everything that is made of a set of schemas, in the order given.
fn outputs(set: &[&(String, String)]) -> Outputs {
    let mut out = Outputs::new();
    let mut valid = Vec::new();
    for (n, t) in set.iter().map(|s| (&s.0, &s.1)) {
        let path = PathBuf::from(format!("/virtual/{n}.mabo"));
        let s = match guard(|| mp::Schema::parse(t, Some(&path))) {
            Err(p) => { out.insert(format!("{n} parsed"), format!("panic: {p}")); continue }
            Ok(Err(e)) => { out.insert(format!("{n} parsed"), trouble(&e, chain(&e))); continue }
            Ok(Ok(s)) => s,
        };
        out.insert(format!("{n} parsed"), format!("{s:?}"));
        out.insert(format!("{n} formatted"), s.to_string());
        match guard(|| mc::validate_schema(&s)) {
            Err(p) => { out.insert(format!("{n} validated"), format!("panic: {p}")); }
            Ok(Err(e)) => { out.insert(format!("{n} validated"), trouble(&e, chain(&e))); }
            Ok(Ok(())) => { out.insert(format!("{n} validated"), "fine".into()); valid.push((n.as_str(), s)); }
        }
    }
    // the references of a set with invalid members are not looked at
    if valid.len() == set.len() {
        let l: Vec<(&str, &mp::Schema<'_>)> = valid.iter().map(|v| (v.0, &v.1)).collect();
        out.insert("resolved".into(), match guard(|| mc::resolve_schemas(&l)) { Err(p) => format!("panic: {p}"), Ok(Err(e)) => trouble(&e, chain(&e)), Ok(Ok(())) => "fine".into() });
    }
    for (n, s) in &valid {
        let Ok(simple) = guard(|| mc::simplify_schema(s)) else { out.insert(format!("{n} simplified"), "panic".into()); continue };
        out.insert(format!("{n} in Rust"), guard(|| mabo_build::compile_schema(&mabo_build::Opts::default(), &simple).to_string()).unwrap_or_else(|p| format!("panic: {p}")));
        out.insert(format!("{n} in Go"), guard(|| { let mut t = String::new(); files(&mabo_go::render_schema(&mabo_go::Opts { package: "demo" }, &simple), &mut t); t }).unwrap_or_else(|p| format!("panic: {p}")));
        out.insert(format!("{n} documented"), guard(|| { let mut t = String::new(); let o = mabo_doc::Opts {}; match mabo_doc::render_schema(&o, &simple) { Ok(o) => pages(&o, &mut t), Err(e) => t = format!("error: {e}") } t }).unwrap_or_else(|p| format!("panic: {p}")));
        out.insert(format!("{n} measured"), guard(|| measures(&simple.definitions)).unwrap_or_else(|p| format!("panic: {p}")));
    }
    out
}

/// What the editor shows about sizes and next identifiers.
fn measures(l: &[mc::simplify::Definition<'_>]) -> String {
    use mc::simplify::{Definition as D, Fields};
    let mut out = String::new();
    let fields = |f: &Fields<'_>, out: &mut String| {
        out.push_str(&format!("{:?} ", mabo_meta::next_field_id(f)));
        for x in &*f.fields { let mut t = String::new(); if let Some(w) = mabo_meta::wire_size(&x.ty) { w.print(&mut t, 0); } out.push_str(&t); }
    };
    for d in l {
        match d {
            D::Module(m) => out.push_str(&measures(&m.definitions)),
            D::Struct(s) => fields(&s.fields, &mut out),
            D::Enum(e) => { out.push_str(&mabo_meta::next_variant_id(&e.variants).to_string()); for v in &e.variants { fields(&v.fields, &mut out); } }
            _ => {}
        }
    }
    out
}

/// The first difference, for people.
fn differ(a: &Outputs, b: &Outputs) -> Option<(String, String)> {
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        if x == y { continue; }
        let (x, y) = (x.map_or("", String::as_str), y.map_or("", String::as_str));
        let n = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| { let mut i = n.saturating_sub(60).min(s.len()); while !s.is_char_boundary(i) { i -= 1; } clip(&s[i..], 200) };
        return Some((k.clone(), format!("{:?} and {:?}", cut(x), cut(y))));
    }
    None
}

fn what_of(key: &str) -> String { if let Some(k) = key.strip_prefix("the ") { return k.split(' ').next().unwrap().into(); } key.rsplit_once(' ').map_or(key, |k| k.1).to_string() }

/// Digests of the first rounds, last one first, written by a process of its own.
fn digests(run: &Run, to: &str) {
    let only: Option<u64> = std::env::var("MV_ONLY").ok().map(|v| v.parse().unwrap());
    let mut all = serde_json::Map::new();
    for round in (0..run.rounds).rev() {
        if only.is_some_and(|o| o != round) { continue; }
        let set = input(run.seed, run.index, round);
        watch::begin(|| json!(set).to_string());
        let o = outputs(&set.iter().collect::<Vec<_>>());
        all.insert(round.to_string(), if only.is_some() { json!(o) } else { json!(o.iter().map(|(k, v)| (k.clone(), hash(v))).collect::<BTreeMap<_, _>>()) });
    }
    fs::write(to, json!(all).to_string()).unwrap();
}

pub fn run(run: &Run, rep: &mut Report) {
    if let Ok(to) = std::env::var("MV_DIGESTS") { digests(run, &to); std::process::exit(0); }
    let mut round = 0;
    let mut seen: Vec<BTreeMap<String, u64>> = Vec::new();
    let shm = PathBuf::from("/dev/shm");
    let base = if fs::create_dir_all(shm.join(format!("mv-{}", std::process::id()))).is_ok() { shm } else { std::env::temp_dir() }.join(format!("mv-{}", std::process::id()));
    fs::create_dir_all(&base).unwrap();
    while run.more(round) {
        let set = input(run.seed, run.index, round);
        let mut r = Rng::new(run.seed, &format!("same/{}/order", run.index), round);
        let n = round;
        round += 1;
        let w = || json!({"schemas": set.iter().map(|t| json!({"name": t.0, "text": t.1})).collect::<Vec<_>>()});
        watch::begin(|| w().to_string());
        rep.case(w);
        rep.eval();
        rep.case_seen(&set);
        rep.count(&format!("sets of {}", set.len()), 1);
        let all: Vec<&(String, String)> = set.iter().collect();
        let first = outputs(&all);
        rep.count("outputs", first.len() as u64);
        for (k, v) in &first { if v.starts_with("error: ") { rep.count(&format!("errors {}", what_of(k)), 1); } }
        seen.push(first.iter().map(|(k, v)| (k.clone(), hash(v))).collect());
        let fail = |rep: &mut Report, how: &str, d: (String, String)| rep.violation(&format!("{how}:{}", what_of(&d.0)), format!("`{}` differs {how}: {}", d.0, d.1), w());
        // again, after something else
        if n > 0 { let o = input(run.seed, run.index, r.below(n as usize) as u64); outputs(&o.iter().collect::<Vec<_>>()); }
        if let Some(d) = differ(&first, &outputs(&all)) { fail(rep, "in a second run", d); continue; }
        // in another order: everything but which of the broken references is named
        if set.len() > 1 {
            let mut order = all.clone();
            r.shuffle(&mut order);
            let mut other = outputs(&order);
            let mut this = first.clone();
            for o in [&mut this, &mut other] { if let Some(x) = o.get_mut("resolved") && x.starts_with("error") { *x = "error".into(); } }
            if let Some(d) = differ(&this, &other) { fail(rep, "in another order", d); continue; }
            rep.count("other orders", 1);
            // alone
            let one = r.below(set.len());
            let mut alone = outputs(&all[one..=one]);
            alone.remove("resolved");
            let mut this = first.clone();
            this.retain(|k, _| alone.contains_key(k) || k.starts_with(&format!("{} ", set[one].0)));
            if let Some(d) = differ(&this, &alone) { fail(rep, "without the other schemas", d); continue; }
            rep.count("alone", 1);
        }
        // at the same time in several threads
        if n % 6 == 0 {
            let others: Vec<Set> = (0..3).map(|_| input(run.seed, run.index, r.below(round as usize) as u64)).collect();
            let results: Vec<Outputs> = std::thread::scope(|s| {
                let hs: Vec<_> = others.iter().map(|o| { let all = &all; std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || { outputs(&o.iter().collect::<Vec<_>>()); outputs(all) }).unwrap() }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            rep.count("threads", 3);
            if let Some(d) = results.iter().find_map(|o| differ(&first, o)) { fail(rep, "in another thread", d); continue; }
        }
        if n % 10 == 3 && let Some((how, d)) = trees(rep, &mut r, &set, &base) { fail(rep, how, d); }
        rep.sample_every(397, || json!({"schemas": set.len(), "outputs": first.keys().collect::<Vec<_>>()}));
    }
    fs::remove_dir_all(&base).unwrap();
    // in processes of their own, in the opposite order and in other surroundings
    for k in 0..2 {
        let to = format!("{}.digests", std::env::var("MV_OUT").unwrap());
        let child = |only: Option<u64>| {
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.env("MV_DIGESTS", &to).env("MV_ROUNDS", seen.len().to_string()).env("MV_SECS", "100000").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            if k == 0 { c.current_dir("/").env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent").env("NO_COLOR", "1"); } else { c.current_dir("/usr").env("LC_ALL", "C").env("USER", "someone").env("COLUMNS", "20").env("NO_COLOR", "1"); }
            if let Some(o) = only { c.env("MV_ONLY", o.to_string()); }
            let _ = fs::remove_file(&to);
            if !c.status().unwrap().success() { panic!("a process for comparison failed"); }
            serde_json::from_str::<Value>(&fs::read_to_string(&to).unwrap()).unwrap()
        };
        let theirs = child(None);
        let _ = fs::remove_file(&to);
        for (n, mine) in seen.iter().enumerate() {
            rep.count("rounds compared with another process", 1);
            let other: BTreeMap<String, u64> = serde_json::from_value(theirs[n.to_string()].clone()).unwrap();
            if *mine == other { continue; }
            let key = mine.keys().chain(other.keys()).find(|k| mine.get(*k) != other.get(*k)).unwrap().clone();
            let set = input(run.seed, run.index, n as u64);
            let full: Outputs = serde_json::from_value(child(Some(n as u64))[n.to_string()].clone()).unwrap();
            let _ = fs::remove_file(&to);
            let d = differ(&outputs(&set.iter().collect::<Vec<_>>()), &full).unwrap_or((key.clone(), "(equal when repeated)".into()));
            rep.violation(&format!("in another process:{}", what_of(&key)), format!("`{key}` differs in another process: {}", d.1), json!({"schemas": set}));
            break;
        }
    }
}

/// The content of a directory.
fn read(at: &Path, base: &Path, out: &mut Outputs, prefix: &str) {
    let Ok(l) = fs::read_dir(at) else { return };
    for e in l.flatten() {
        let p = e.path();
        if p.is_dir() { read(&p, base, out, prefix); } else { out.insert(format!("{prefix} {}", p.strip_prefix(base).unwrap().display()), String::from_utf8_lossy(&fs::read(&p).unwrap()).into_owned()); }
    }
}

/// The tools on one and the same project, whose files came into being in different orders.
fn trees(rep: &mut Report, r: &mut Rng, set: &Set, base: &Path) -> Option<(&'static str, (String, String))> {
    let dir = base.join("project");
    let mut list: Vec<(String, String)> = set.iter().map(|(n, t)| (format!("{}{n}.mabo", r.pick(&["", "a/", "b/", "b/c/"])), t.clone())).collect();
    // more files, some of them wrong
    for i in 0..r.below(5) { list.push((format!("{}more{i}.mabo", r.pick(&["", "a/", "z/"])), r.pick(&["struct A(u8 @1)\n", "struct\n", "enum E { A @1, A @2 }\n", "use nothing::X;\n", "type T<A> = u8;\n"]).to_string())); }
    let mut all: Vec<Outputs> = Vec::new();
    for turn in 0..3 {
        let _ = fs::remove_dir_all(base.join("project"));
        let _ = fs::remove_dir_all(base.join("out"));
        match turn { 0 => list.sort(), 1 => list.reverse(), _ => r.shuffle(&mut list) }
        fs::create_dir_all(&dir).unwrap();
        fs::write(dir.join("Mabo.toml"), "[package]\nname = \"demo\"\nfiles = [\"**/*.mabo\"]\n").unwrap();
        for (n, t) in &list { let p = dir.join(n); fs::create_dir_all(p.parent().unwrap()).unwrap(); fs::write(p, t).unwrap(); }
        let mut o = Outputs::new();
        // every process has one thread that does this
        unsafe { std::env::set_var("OUT_DIR", base.join("out/rust")) };
        o.insert("the Rust build".into(), match guard(|| mabo_build::Compiler::default().compile(dir.to_str().unwrap())) { Err(p) => format!("panic: {p}"), Ok(Err(e)) => format!("{e:?} {e}"), Ok(Ok(())) => "fine".into() });
        for (name, exe, args) in [("check", "MV_CLI", vec!["check"]), ("doc", "MV_CLI", vec!["doc", "../out/doc"]), ("fmt", "MV_CLI", vec!["fmt"]), ("go", "MV_GO", vec!["--no-fmt", "--out-dir", "../out/go"])] {
            let p = Command::new(std::env::var(exe).unwrap()).args(args).current_dir(&dir).stdin(Stdio::null()).env("HOME", base).env("NO_COLOR", "1").output().unwrap();
            // the message of a panic has the number of the thread
            if p.status.code() == Some(101) { o.insert(format!("the report of {name}"), "panic".into()); continue; }
            o.insert(format!("the report of {name}"), format!("{:?}\n{}\n{}", p.status.code(), String::from_utf8_lossy(&p.stdout), String::from_utf8_lossy(&p.stderr)));
        }
        read(&base.join("out"), base, &mut o, "the file");
        read(&dir, base, &mut o, "the schema");
        all.push(o);
    }
    let names: Vec<String> = match mabo_project::load(&dir) { Ok(p) => p.files.iter().map(|p| p.display().to_string()).collect(), Err(_) => vec![] };
    rep.count("projects built from scratch three times", 1);
    rep.count("files of projects compared", all[0].len() as u64 + names.len() as u64);
    all[1..].iter().find_map(|o| differ(&all[0], o)).map(|d| ("for an equal project", d))
}
