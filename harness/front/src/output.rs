//! C26: whole projects through the build script interface and the Go tool, by what is in the output directory.
use std::{collections::{BTreeMap, BTreeSet}, fs, io::Write, path::{Path, PathBuf}, process::{Command, Stdio}};

use mabo_build::{BytesType, Compiler};
use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, lenient, located::{LSchema, locate}, model::Schema, out::{Report, clip}, plant, refcheck, render::{Layout, render, render_marked}, rng::Rng, watch};
use serde_json::json;

use crate::{Run, chain, cli::{Entry, normal, selected, snapshot}, guard, rust, syntax::LAYOUTS, texts};

#[derive(Clone, Debug, PartialEq)]
enum Kind { Valid, Rules, Syntax, Unreadable }

struct F { name: String, kind: Kind, text: String, model: Schema, located: Option<LSchema> }

const DIRS: &[&str] = &["", "schemas/", "schemas/", "schemas/inner/", "other/", "é x/", "deep/er/and/deeper/"];
const PATTERNS: &[&str] = &["*.mabo", "**/*.mabo", "schemas/*.mabo", "schemas/**/*.mabo", "other/*.mabo", "[a-m]*.mabo", "deep/**/*.mabo", "nothing/*.mabo", "é x/*.mabo"];

pub fn run(run: &Run, rep: &mut Report) {
    let base = std::env::temp_dir().join(format!("mv-output-{}", std::process::id()));
    fs::create_dir_all(&base).unwrap();
    if run.index == 0 { probes(rep, &base); }
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("output/{}", run.index), round);
        let root = base.join(format!("t{round}"));
        let go = round % 5 >= 3;
        round += 1;
        fs::create_dir(&root).unwrap();
        case(rep, &mut r, go, &root);
        std::env::set_current_dir("/").unwrap();
        fs::remove_dir_all(&root).unwrap();
    }
    fs::remove_dir_all(&base).unwrap();
}

fn tool() -> Command {
    let mut c = Command::new(std::env::var_os("MV_GO").expect("MV_GO"));
    c.stdin(Stdio::null());
    c
}

/// What is known to go wrong.
fn probes(rep: &mut Report, base: &Path) {
    let root = base.join("probe");
    fs::create_dir(&root).unwrap();
    fs::write(root.join("Mabo.toml"), "[package]\nname = \"demo\"\nfiles = [\"*.mabo\"]\n").unwrap();
    fs::write(root.join("one.mabo"), "struct First\n").unwrap();
    fs::write(root.join("two.mabo"), "struct Second\n").unwrap();
    let o = tool().arg("--no-fmt").arg("--project-dir").arg(&root).arg("--out-dir").arg(root.join("out")).output().unwrap();
    let all: String = snapshot(&root.join("out")).into_values().map(|e| match e { Entry::File { bytes, .. } => String::from_utf8_lossy(&bytes).into_owned(), _ => String::new() }).collect();
    rep.eval();
    if o.status.success() && !(all.contains("type First") && all.contains("type Second")) {
        rep.violation("probe:go-second-schema", "mabo-go succeeds for a project of one.mabo (struct First) and two.mabo (struct Second), but the output lacks one of them", json!({"project": "one.mabo: struct First; two.mabo: struct Second", "output": all}));
    }
    fs::remove_dir_all(&root).unwrap();
}

/// The text without colours, blanks and the frames of diagnostics.
fn squeeze(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            match it.next() {
                Some('[') => for c in it.by_ref() { if c.is_ascii_alphabetic() { break; } },
                // a link: up to its end
                Some(']') => while let Some(c) = it.next() { if c == '\u{7}' { break; } if c == '\u{1b}' { it.next(); break; } },
                _ => {}
            }
        } else if !c.is_whitespace() && c != '│' { out.push(c); }
    }
    out
}

fn gofmt(s: &str) -> Option<String> {
    let mut c = Command::new("gofmt").arg("-s").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut i = c.stdin.take().unwrap();
    let s = s.to_string();
    let t = std::thread::spawn(move || { let _ = i.write_all(s.as_bytes()); });
    let o = c.wait_with_output().ok()?;
    let _ = t.join();
    if o.status.success() { String::from_utf8(o.stdout).ok() } else { None }
}

/// Rust code as it is printed, which is the same again when printed once more.
fn printed(f: &syn::File) -> String {
    let s = prettyplease::unparse(f);
    match syn::parse_file(&s) { Ok(f) => prettyplease::unparse(&f), Err(_) => s }
}

fn flatten(o: &mabo_go::Output<'_>, at: &Path, out: &mut BTreeMap<PathBuf, String>) {
    let at = at.join(o.name);
    out.insert(at.join(format!("{}.go", o.name)), o.content.clone());
    for m in &o.modules { flatten(m, &at, out); }
}

fn case(rep: &mut Report, r: &mut Rng, go: bool, root: &Path) {
    let home = root.join(if r.chance(1, 3) { "sub dir" } else { "project" });
    fs::create_dir(&home).unwrap();
    let trouble = *r.pick(&["", "", "", "references", "rules", "syntax", "unreadable", "same name", "project file", "no project", "blocked", "no output"]);
    let mut cfg = if go { Cfg { go: true, odd: true, ..Cfg::accepted() } } else { Cfg { attrs: true, wild_literals: true, odd: true, ..Cfg::wire() } };
    cfg.schemas = if go && r.chance(2, 3) { (1, 1) } else { (1, 4) };
    let mut p = package(r, &cfg);
    if trouble == "references" { plant::unlink(r, &mut p); }
    if r.chance(1, 6) && !go { p.schemas.push(("zero".into(), Schema { comment: Vec::new(), defs: Vec::new() })); }
    if trouble == "same name" && let Some((n, s)) = p.schemas.last().cloned() {
        let s = if r.chance(1, 2) { s } else { package(r, &cfg).schemas.remove(0).1 };
        p.schemas.push((n, s));
    }
    // names that have more than one part
    if r.chance(1, 5) {
        let n = r.pick(&p.schemas).0.clone();
        let n = match r.below(3) { 0 => format!("{n}.v2"), 1 => format!("{n} 2"), _ => format!("{n}.rs") };
        if !go { p.schemas.push((n, package(r, &cfg).schemas.remove(0).1)); rep.count("schemas with parts in their name", 1); }
    }
    let mut files: BTreeMap<String, F> = BTreeMap::new();
    for (name, mut s) in p.schemas {
        let planted = trouble == "rules" && r.chance(1, 2);
        if planted { plant::plant(r, &mut s); }
        let (mut text, marks) = render_marked(&s, *r.pick(&LAYOUTS), r);
        let mut located = Some(locate(&s, &marks));
        let mut kind = if refcheck::validate(located.as_ref().unwrap()).is_empty() { Kind::Valid } else { Kind::Rules };
        if kind == Kind::Rules && !matches!(guard(|| mp::Schema::parse(&text, None).is_ok()), Ok(true)) { kind = Kind::Syntax; }
        // accepted, but may be what is known to make the generators fail (see C15)
        if planted && kind == Kind::Valid { continue; }
        if trouble == "syntax" && r.chance(1, 2) {
            text = texts::mutate(r, &text.clone(), &text);
            if !matches!(lenient::parse(&text), Err(lenient::Fail::At(_))) { continue; }
            (kind, located) = (Kind::Syntax, None);
        }
        let rel = format!("{}{name}.mabo", r.pick(DIRS));
        files.insert(rel, F { name, kind, text, model: s, located });
    }
    if trouble == "unreadable" {
        let rel = format!("{}broken.mabo", r.pick(DIRS));
        files.insert(rel, F { name: "broken".into(), kind: Kind::Unreadable, text: String::new(), model: Schema { comment: Vec::new(), defs: Vec::new() }, located: None });
    }
    let write = |rel: &str, bytes: &[u8]| {
        let f = home.join(rel);
        fs::create_dir_all(f.parent().unwrap()).unwrap();
        fs::write(f, bytes).unwrap();
    };
    let put = |files: &BTreeMap<String, F>| for (rel, f) in files { if f.kind == Kind::Unreadable { write(rel, b"struct A // \xff\xfe\n"); } else { write(rel, f.text.as_bytes()); } };
    let patterns: Vec<String> = if r.chance(1, 2) { vec!["**/*.mabo".into()] } else {
        (0..r.range(1, 3)).map(|_| if !files.is_empty() && r.chance(1, 3) { let l: Vec<_> = files.keys().collect(); r.pick(&l).to_string() } else { r.pick(PATTERNS).to_string() }).collect()
    };
    let mut chosen: BTreeSet<String> = BTreeSet::new();
    for rel in files.keys() {
        match selected(&patterns, rel) { Some(true) => { chosen.insert(rel.clone()); } Some(false) => {} None => return rep.count("left open by the patterns", 1) }
    }
    let pkg = *r.pick(&["demo", "sample", "some_pkg", "x1"]);
    let mut odd = false;
    match trouble {
        "project file" => { odd = true; write("Mabo.toml", r.pick(&["", "[package]\nname = 1", "files = []", "[package]\nname = \"x\"\nfiles = [\"[\"]", "[package"]).as_bytes()) }
        "no project" => odd = true,
        _ => write("Mabo.toml", format!("[package]\nname = \"{pkg}\"\nfiles = {}\n", serde_json::to_string(&patterns).unwrap()).as_bytes()),
    }
    // the run before, of other schemas under the same names
    let bytes = r.chance(1, 3);
    let out_rel = *r.pick(&["out", "sub/dir/out", "é out"]);
    let at_home = r.chance(1, 4);
    let out = if go && at_home { home.clone() } else { root.join(out_rel) };
    let fmt = go && r.chance(1, 2);
    let relative = r.chance(1, 3);
    let mut args: Vec<String> = Vec::new();
    let go_cmd = |args: &mut Vec<String>| {
        let mut c = tool();
        if fmt {} else { args.push("--no-fmt".into()); }
        if at_home { c.current_dir(&home); } else {
            c.current_dir(root);
            args.extend(["--project-dir".into(), if relative { home.file_name().unwrap().to_str().unwrap().into() } else { home.display().to_string() }]);
            args.extend([r"--out-dir".into(), if relative { out_rel.into() } else { out.display().to_string() }]);
        }
        c.args(&*args);
        c
    };
    // one thread per process does this
    unsafe { std::env::set_var("OUT_DIR", &out) };
    std::env::set_current_dir(if relative { root } else { Path::new("/") }).unwrap();
    let manifest = if relative { format!("{}{}", if r.chance(1, 2) { "./" } else { "" }, home.file_name().unwrap().to_str().unwrap()) } else { format!("{}{}", home.display(), if r.chance(1, 4) { "/" } else { "" }) };
    let compiler = || Compiler::default().with_bytes_type(if bytes { BytesType::Bytes } else { BytesType::VecU8 });
    let gen_dir = if go { out.clone() } else { out.join("mabo") };
    let mut stale = false;
    if !odd && !matches!(trouble, "blocked" | "no output") && r.chance(1, 2) {
        // those of the same schemas then get another content of the same length
        let own = r.chance(1, 2);
        let olds: Vec<(String, String)> = files.iter().map(|(rel, f)| (rel.clone(), if own { f.text.clone() } else { let s = package(r, &cfg).schemas.remove(0).1; render(&s, Layout::Canon, r) })).collect();
        let mut seen = BTreeSet::new();
        for (rel, text) in &olds { if seen.insert(files[rel].name.clone()) { write(rel, text.as_bytes()); } }
        if go { let _ = go_cmd(&mut Vec::new()).output(); } else { let _ = guard(|| compiler().compile(&manifest)); }
        stale = gen_dir.exists();
        if own {
            for (n, e) in snapshot(root) {
                if let Entry::File { mut bytes, .. } = e && root.join(&n).starts_with(&gen_dir) && (n.ends_with(".rs") || n.ends_with(".go")) {
                    let at: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i].is_ascii_alphanumeric()).collect();
                    if at.is_empty() { continue; }
                    let i = *r.pick(&at);
                    bytes[i] = if bytes[i] == b'x' { b'y' } else { b'x' };
                    fs::write(root.join(&n), bytes).unwrap();
                    rep.count("output of the same length from before", 1);
                }
            }
        } else if r.chance(1, 2) {
            // broken by other means
            for (n, e) in snapshot(root) { if let Entry::File { .. } = e && root.join(&n).starts_with(&gen_dir) && (n.ends_with(".rs") || n.ends_with(".go") && !fmt) { fs::write(root.join(&n), "left over ".repeat(r.below(400))).unwrap(); } }
        }
        if r.chance(1, 2) {
            // older or newer than the schemas
            let now = std::time::SystemTime::now();
            let then = if r.chance(1, 2) { now + std::time::Duration::from_secs(86400) } else { now - std::time::Duration::from_secs(86400 * 400) };
            for (n, e) in snapshot(root) { if let Entry::File { .. } = e && root.join(&n).starts_with(&gen_dir) { let _ = fs::File::options().write(true).open(root.join(&n)).and_then(|f| f.set_modified(then)); } }
        }
        for (rel, _) in &olds { let _ = fs::remove_file(home.join(rel)); }
        rep.count("output of an earlier run", u64::from(stale));
    }
    put(&files);
    if r.chance(1, 3) && trouble != "blocked" {
        for n in ["keep.txt", "mabo/keep.rs", "mabo/other/keep.rs"] { fs::create_dir_all(out.join(n).parent().unwrap()).unwrap(); fs::write(out.join(n), "kept").unwrap(); }
    }
    let mut blocked = false;
    if trouble == "blocked" {
        let names: Vec<&F> = chosen.iter().map(|c| &files[c]).collect();
        fs::create_dir_all(out.parent().unwrap()).unwrap();
        if !go || !at_home {
            match r.below(3) {
                0 => { fs::write(&out, "a file").unwrap(); blocked = true; }
                1 if !go => { fs::create_dir_all(&out).unwrap(); fs::write(&gen_dir, "a file").unwrap(); blocked = true; }
                _ if !names.is_empty() => { let n = r.pick(&names).name.clone(); fs::create_dir_all(if go { gen_dir.join(pkg).join(format!("{pkg}.go")) } else { gen_dir.join(format!("{n}.rs")) }).unwrap(); blocked = true; }
                _ => {}
            }
        }
    }
    let no_out = trouble == "no output" && !go;
    if no_out { unsafe { std::env::remove_var("OUT_DIR") } }

    // ------------------------------------------------------------ what is expected
    let mut faulty: Vec<&String> = chosen.iter().filter(|c| files[*c].kind != Kind::Valid).collect();
    let mut names: BTreeMap<&str, usize> = BTreeMap::new();
    for c in &chosen { *names.entry(&files[c].name).or_default() += 1; }
    let mut why = if odd { "the project file" } else if blocked { "the output directory" } else if no_out { "no OUT_DIR" } else if !faulty.is_empty() { "a schema" } else { "" };
    if why.is_empty() && !go && names.values().any(|n| *n > 1) {
        why = "two schemas of one name";
        faulty = chosen.iter().filter(|c| names[files[*c].name.as_str()] > 1).collect();
    }
    // which of two schemas of one name an import means is open
    if why.is_empty() && names.values().any(|n| *n > 1) { return rep.count("left open by equal names", 1); }
    if why.is_empty() {
        let set: Vec<(&str, &LSchema)> = chosen.iter().map(|c| (files[c].name.as_str(), files[c].located.as_ref().unwrap())).collect();
        let broken = refcheck::resolve(&set);
        if !broken.is_empty() {
            why = "a reference";
            faulty.clear();
        }
    }
    let before = snapshot(root);
    let what = if go { args.clear(); let _ = go_cmd(&mut args); format!("mabo-go {}", args.join(" ")) } else { format!("Compiler::compile({manifest:?}), OUT_DIR={}", out.display()) };
    let w = || json!({"run": what, "trouble": trouble, "to fail for": why, "files": files.iter().map(|(n, f)| json!({"name": n, "kind": format!("{:?}", f.kind), "text": f.text, "selected": chosen.contains(n)})).collect::<Vec<_>>(), "patterns": patterns, "earlier output": stale});
    watch::begin(|| w().to_string());
    rep.case(w);
    let (ok, err) = if go {
        let o = go_cmd(&mut Vec::new()).output().unwrap();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        match o.status.code() {
            Some(0) => (true, err),
            Some(1) => (false, err),
            c => return rep.violation("crash", format!("{what}: ends with {c:?}: {}", clip(&err, 500)), w()),
        }
    } else {
        match guard(|| compiler().compile(&manifest).map_err(|e| { let _ = chain(&e); format!("{e:?}") })) {
            Err(p) => return rep.violation("panic", format!("{what} panics: {p}"), w()),
            Ok(Ok(())) => (true, String::new()),
            Ok(Err(e)) => (false, e),
        }
    };
    let after = snapshot(root);
    rep.eval();
    rep.case_seen(&w().to_string().replace(&root.display().to_string(), ""));
    rep.count(&format!("{} {}", if go { "Go" } else { "Rust" }, if why.is_empty() { "to succeed".into() } else { format!("to fail for {why}") }), 1);
    rep.count("schemas of a project", chosen.len() as u64);
    if ok != why.is_empty() {
        return rep.violation(if ok { "success" } else { "failure" }, format!("{what}: {}, {}", if ok { "succeeds".into() } else { format!("fails: {}", clip(&err, 600)) }, if ok { format!("despite {why}: {faulty:?}") } else { "but everything is fine".into() }), w());
    }
    // ------------------------------------------------------------ what may have changed
    let changed: Vec<&String> = before.keys().chain(after.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| match (before.get(*k), after.get(*k)) {
        (Some(Entry::File { bytes: a, mode: m, .. }), Some(Entry::File { bytes: b, mode: n, .. })) => a != b || m != n,
        // new directories come with the output
        (None, Some(Entry::Dir)) => !(root.join(k).starts_with(&gen_dir) || gen_dir.starts_with(root.join(k))),
        (a, b) => a != b,
    }).collect();
    if !ok {
        if err.trim().is_empty() { return rep.violation("silent", format!("{what}: fails without a word"), w()); }
        let told = squeeze(&err);
        let about = |c: &&String| { let n: String = Path::new(c.as_str()).file_name().unwrap().to_str().unwrap().chars().filter(|c| !c.is_whitespace()).collect(); told.contains(&n) };
        if !go && matches!(why, "a schema" | "two schemas of one name") && !faulty.iter().any(|c| about(c)) && !chosen.iter().any(|c| names[files[c].name.as_str()] > 1 && about(&c)) {
            return rep.violation("unnamed", format!("{what}: {faulty:?} at fault, but the error is {}", clip(&err, 600)), w());
        }
        if !go && why == "a reference" && !chosen.iter().any(|c| about(&c)) {
            return rep.violation("unnamed", format!("{what}: a broken reference, but the error names no file: {}", clip(&err, 600)), w());
        }
        // a schema at fault keeps everything from being written
        if why != "the output directory" && let Some(c) = changed.first() { return rep.violation("touched", format!("{what}: fails for {why}, but has changed {c}"), w()); }
        if let Some(c) = changed.iter().find(|c| !root.join(c.as_str()).starts_with(&gen_dir)) { return rep.violation("touched", format!("{what}: has changed {c}"), w()); }
        return;
    }
    let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
    if go {
        if chosen.len() > 1 {
            // see the probe
            if let Some(c) = changed.iter().find(|c| !root.join(c.as_str()).starts_with(&gen_dir)) { rep.violation("touched", format!("{what}: has changed {c}"), w()); }
            return rep.count("Go projects of several schemas", 1);
        }
        for c in &chosen {
            let made = guard(|| {
                let s = mp::Schema::parse(&files[c].text, None).ok()?;
                let s = mabo_compiler::simplify_schema(&s);
                let mut m = BTreeMap::new();
                flatten(&mabo_go::render_schema(&mabo_go::Opts { package: pkg }, &s), &out, &mut m);
                Some(m)
            });
            let Ok(Some(m)) = made else { return rep.count("schemas that don't render", 1) };
            want.extend(m);
        }
        if fmt {
            for t in want.values_mut() { match gofmt(t) { Some(f) => *t = f, None => return rep.count("code that gofmt rejects", 1) } }
        }
    } else {
        for c in &chosen { want.insert(gen_dir.join(format!("{}.rs", files[c].name)), String::new()); }
    }
    rep.count("files generated", want.len() as u64);
    for (p, t) in &want {
        let rel = p.strip_prefix(root).unwrap();
        let Some(Entry::File { bytes: got, .. }) = after.get(&normal(rel).display().to_string()) else { return rep.violation("missing", format!("{what}: there is no {}", rel.display()), w()) };
        let Ok(got) = std::str::from_utf8(got) else { return rep.violation("content", format!("{what}: {} is no text", rel.display()), w()) };
        if go {
            if got != t { return rep.violation("content", format!("{what}: {} is not the code of its schema: {}", rel.display(), difference(t, got)), w()); }
            continue;
        }
        let f = files.iter().find(|(c, f)| chosen.contains(*c) && p.file_stem().unwrap() == f.name.as_str()).unwrap().1;
        let file = match syn::parse_file(got) { Ok(f) => f, Err(e) => return rep.violation("content", format!("{what}: {} is no Rust: {e}", rel.display()), w()) };
        let mut m = f.model.clone();
        rust::printed(&mut m.defs);
        rust::compare(rep, &m, &file, if bytes { "Bytes" } else { "Vec<u8>" }, &w);
        if !bytes {
            let lib = guard(|| mp::Schema::parse(&f.text, None).ok().and_then(|s| syn::parse2::<syn::File>(mabo_build::compile_schema(&mabo_build::Opts::default(), &mabo_compiler::simplify_schema(&s))).ok()));
            let Ok(Some(lib)) = lib else { return rep.count("schemas that don't generate", 1) };
            let (a, b) = (printed(&lib), printed(&file));
            if a != b { return rep.violation("content", format!("{what}: {} is not the code of its schema: {}", rel.display(), difference(&a, &b)), w()); }
            rep.count("Rust files equal to their schema's code", 1);
        }
    }
    let only_formatted = |c: &str| go && fmt && root.join(c).starts_with(&out) && c.ends_with(".go") && match (before.get(c), after.get(c)) {
        (Some(Entry::File { bytes: a, .. }), Some(Entry::File { bytes: b, .. })) => std::str::from_utf8(a).ok().and_then(gofmt).is_some_and(|f| f.as_bytes() == b),
        _ => false,
    };
    // mabo-go formats the whole directory, so what lies there from before too
    if let Some(c) = changed.iter().find(|c| !want.contains_key(&root.join(c.as_str())) && !only_formatted(c)) { return rep.violation("touched", format!("{what}: has changed {c}, which is the code of no schema"), w()); }
    rep.sample_every(97, || json!({"run": what.replace(&root.display().to_string(), "DIR"), "selected": chosen.len(), "generated": want.len()}));
}

fn difference(a: &str, b: &str) -> String {
    let mut n = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
    while !a.is_char_boundary(n) || !b.is_char_boundary(n) { n -= 1; }
    format!("{:?} instead of {:?}", clip(&b[n..], 120), clip(&a[n..], 120))
}
