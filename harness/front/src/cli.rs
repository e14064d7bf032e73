//! C21: the command line tool on directory trees, by its exit status and the file system before and after.
use std::{collections::{BTreeMap, BTreeSet}, fs, os::unix::fs::{MetadataExt, PermissionsExt, symlink}, path::{Path, PathBuf}, process::{Command, Stdio}};

use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, lenient, located::locate, out::{Report, clip}, plant, refcheck, render::{render_marked, Layout}, rng::Rng, watch};
use serde_json::json;

use crate::{Run, guard, proj::glob, syntax::LAYOUTS, texts};

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// accepted by every rule that looks at a single schema
    Valid,
    /// parses, but breaks a rule
    Rules,
    Syntax,
    Unreadable,
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Entry { Dir, Link(PathBuf), File { bytes: Vec<u8>, mode: u32, time: (i64, i64) } }

pub fn snapshot(root: &Path) -> BTreeMap<String, Entry> {
    fn walk(root: &Path, at: &str, out: &mut BTreeMap<String, Entry>) {
        for e in fs::read_dir(root.join(at)).unwrap() {
            let n = e.unwrap().file_name().into_string().unwrap();
            let p = if at.is_empty() { n } else { format!("{at}/{n}") };
            let full = root.join(&p);
            let m = fs::symlink_metadata(&full).unwrap();
            if m.is_symlink() { out.insert(p, Entry::Link(fs::read_link(&full).unwrap())); }
            else if m.is_dir() { out.insert(p.clone(), Entry::Dir); walk(root, &p, out); }
            else { out.insert(p, Entry::File { bytes: fs::read(&full).unwrap(), mode: m.mode(), time: (m.mtime(), m.mtime_nsec()) }); }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, "", &mut out);
    out
}

const DIRS: &[&str] = &["", "", "schemas/", "schemas/inner/", "other/", "é x/", "dir.mabo/", "deep/er/and/deeper/"];
const PATTERNS: &[&str] = &["*.mabo", "**/*.mabo", "schemas/*.mabo", "schemas/**/*.mabo", "other/*", "*", "**/*", "*/*.mabo", "?*.mabo", "nothing/*.mabo", "[a-m]*.mabo", "**/[!a-m]*.mabo", "deep/**/*.mabo", "dir.mabo/*.mabo", "é x/*.mabo"];

/// Whether the tool may and must process a file; None where its patterns leave it open.
pub fn selected(patterns: &[String], rel: &str) -> Option<bool> {
    let mut open = false;
    for p in patterns { match glob(p, rel) { Some(true) => return Some(true), None => open = true, Some(false) => {} } }
    if open { None } else { Some(false) }
}

fn flatten(o: &mabo_doc::Output<'_>, at: &Path, out: &mut BTreeMap<PathBuf, String>) {
    out.insert(at.join(&o.file), o.content.clone());
    for m in &o.modules { flatten(m, &at.join(o.name), out); }
}

pub fn run(run: &Run, rep: &mut Report) {
    let exe = PathBuf::from(std::env::var("MV_CLI").expect("MV_CLI"));
    let base = std::env::temp_dir().join(format!("mv-cli-{}", std::process::id()));
    fs::create_dir_all(&base).unwrap();
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("cli/{}", run.index), round);
        let root = base.join(format!("t{round}"));
        round += 1;
        fs::create_dir(&root).unwrap();
        case(rep, &mut r, &exe, &root);
        fs::remove_dir_all(&root).unwrap();
    }
    fs::remove_dir_all(&base).unwrap();
}

struct F { kind: Kind, text: String }

fn case(rep: &mut Report, r: &mut Rng, exe: &Path, root: &Path) {
    let home = if r.chance(1, 3) { "sub dir/" } else { "" };
    let mut files: BTreeMap<String, F> = BTreeMap::new();
    let mut parts = Vec::new();
    let trouble = r.below(5);
    let mut cfg = Cfg { odd: true, ..Cfg::accepted() };
    cfg.schemas = (1, 4);
    let mut p = package(r, &cfg);
    if trouble == 1 { plant::unlink(r, &mut p); }
    if r.chance(1, 6) {
        // files that have nothing to say
        p.schemas.push(("zero".into(), mvcore::model::Schema { comment: Vec::new(), defs: Vec::new() }));
    }
    // in another directory
    if r.chance(1, 6) { let n = r.pick(&p.schemas).0.clone(); p.schemas.push((n, package(r, &cfg).schemas.remove(0).1)); }
    // names that differ in nothing but the case of a letter, or have a dot or blank inside, are different names
    if r.chance(1, 5) {
        let n = r.pick(&p.schemas).0.clone();
        let mut l: Vec<char> = n.chars().collect();
        let k = r.below(l.len());
        l[k] = if l[k].is_uppercase() { l[k].to_ascii_lowercase() } else { l[k].to_ascii_uppercase() };
        let other: String = l.into_iter().collect();
        let other = match r.below(3) { 0 => format!("{n}.v2"), 1 => format!("{n} 2"), _ => other };
        if p.schemas.iter().all(|s| s.0 != other) { p.schemas.push((other, package(r, &cfg).schemas.remove(0).1)); rep.count("names alike", 1); }
    }
    for (n, mut s) in p.schemas {
        if trouble == 2 && r.chance(1, 2) { plant::plant(r, &mut s); }
        let layout = *r.pick(&LAYOUTS);
        let (mut text, marks) = render_marked(&s, layout, r);
        let mut l = Some(locate(&s, &marks));
        let mut kind = if refcheck::validate(l.as_ref().unwrap()).is_empty() { Kind::Valid } else { Kind::Rules };
        // the grammar has no empty tuples
        if kind == Kind::Rules && !matches!(guard(|| mp::Schema::parse(&text, None).is_ok()), Ok(true)) { kind = Kind::Syntax; }
        if trouble == 3 && r.chance(1, 2) || trouble == 4 && r.chance(1, 5) {
            let other = text.clone();
            text = texts::mutate(r, &text, &other);
            if matches!(lenient::parse(&text), Err(lenient::Fail::At(_))) { kind = Kind::Syntax; l = None; } else { continue; }
        }
        // a text that formats to itself
        if kind == Kind::Valid && r.chance(1, 3) && let Ok(Ok(Ok(f))) = guard(|| mp::Schema::parse(&text, None).map(|s| guard(|| s.to_string()))) && let Ok((m, marks)) = lenient::parse(&f) {
            text = f;
            l = Some(locate(&m, &marks));
            // or would, but for some space
            if r.chance(1, 2) {
                let near = match r.below(7) {
                    0 | 1 => text.replace('\n', "\r\n"),
                    2 => text.trim_end().to_owned(),
                    3 => format!("{text}\n"),
                    4 => format!("{text} "),
                    5 => text.replacen("    ", "\t", 1 + r.below(3)),
                    _ => text.replacen('\n', " \n", 1),
                };
                if let Ok((m, marks)) = lenient::parse(&near) && matches!(guard(|| mp::Schema::parse(&near, None).is_ok()), Ok(true)) {
                    rep.count("texts off by some space", 1);
                    l = Some(locate(&m, &marks));
                    text = near;
                }
            }
        }
        let rel = format!("{}{n}.mabo", r.pick(DIRS));
        if files.contains_key(&rel) { continue; }
        parts.push((rel.clone(), n, l));
        files.insert(rel, F { kind, text });
    }
    let write = |rel: &str, bytes: &[u8]| {
        let f = root.join(format!("{home}{rel}"));
        fs::create_dir_all(f.parent().unwrap()).unwrap();
        fs::write(f, bytes).unwrap();
    };
    fs::create_dir_all(root.join(home)).unwrap();
    // some schemas are links to a file outside of the project
    let mut links: BTreeMap<String, String> = BTreeMap::new();
    for (i, (rel, f)) in files.iter().enumerate() {
        if r.chance(1, 12) {
            let target = format!("store/file {i}");
            fs::create_dir_all(root.join("store")).unwrap();
            fs::write(root.join(&target), f.text.as_bytes()).unwrap();
            let link = root.join(format!("{home}{rel}"));
            fs::create_dir_all(link.parent().unwrap()).unwrap();
            symlink(root.join(&target), link).unwrap();
            links.insert(rel.clone(), target);
            rep.count("linked schemas", 1);
        } else { write(rel, f.text.as_bytes()); }
        if r.chance(1, 3) { fs::set_permissions(root.join(format!("{home}{rel}")), fs::Permissions::from_mode(*r.pick(&[0o600, 0o640, 0o664, 0o755, 0o700]))).unwrap(); }
    }
    let mut other: Vec<String> = Vec::new();
    let spare = package(r, &cfg).schemas.remove(0).1;
    let (sample, marks) = render_marked(&spare, Layout::Wild, r);
    for _ in 0..r.below(4) {
        let rel = format!("{}{}", r.pick(DIRS), r.pick(&["notes.txt", "README.md", "schema.mabo.bak", "mabo", "UPPER.MABO", "x.mab", "Cargo.toml"]));
        write(&rel, if r.chance(1, 2) { sample.as_bytes() } else { b"\xff\xfe \0 anything" });
        other.push(rel);
    }
    if trouble == 4 && r.chance(1, 2) {
        let rel = format!("{}broken.mabo", r.pick(DIRS));
        let mut b = sample.clone().into_bytes();
        b.extend_from_slice(b"// \xff\xfe\n");
        write(&rel, &b);
        files.insert(rel, F { kind: Kind::Unreadable, text: String::new() });
    }
    if r.chance(1, 4) { fs::create_dir_all(root.join(format!("{home}{}folder.mabo", r.pick(DIRS)))).unwrap(); }
    if r.chance(1, 4) {
        // outside of the project
        fs::create_dir_all(root.join("elsewhere")).unwrap();
        fs::write(root.join("elsewhere/outside.mabo"), &sample).unwrap();
        if home.is_empty() {
            parts.push(("elsewhere/outside.mabo".into(), "outside".into(), Some(locate(&spare, &marks))));
            files.insert("elsewhere/outside.mabo".into(), F { kind: Kind::Valid, text: sample.clone() });
        }
    }
    let in_home = |p: &str| links.get(p).cloned().unwrap_or_else(|| format!("{home}{p}"));

    // ------------------------------------------------------------ the invocation
    let what = r.below(8);
    let (name, fmt, doc) = match what { 0..=2 => (*r.pick(&["check", "c"]), false, false), 3..=5 => (*r.pick(&["fmt", "f", "format"]), true, false), _ => (*r.pick(&["doc", "d", "document"]), false, true) };
    let loose = !doc && r.chance(1, 2);
    let mut patterns: Vec<String> = (0..r.range(1, 3)).map(|_| match r.below(4) {
        0 if !files.is_empty() => { let l: Vec<_> = files.keys().collect(); r.pick(&l).to_string() }
        _ => r.pick(PATTERNS).to_string(),
    }).collect();
    if r.chance(1, 3) { patterns = vec!["**/*.mabo".into()]; }
    let mut cmd = Command::new(exe);
    cmd.arg(name).stdin(Stdio::null()).env("HOME", root);
    if r.chance(1, 2) { cmd.env("NO_COLOR", "1"); } else { cmd.env_remove("NO_COLOR"); }
    let mut odd = "";
    let outs = ["out", "docs/api", "schemas/out", "../outside docs"];
    let out_rel = r.pick(&outs[..if home.is_empty() { 3 } else { 4 }]).to_string();
    if !loose {
        let mut toml = format!("[package]\nname = \"demo\"\nfiles = {}\n", serde_json::to_string(&patterns).unwrap());
        if r.chance(1, 15) { odd = "project file"; toml = r.pick(&["", "[package]\nname = 1", "files = []", "[package]\nname = \"x\"\nfiles = [\"[\"]"]).to_string(); }
        if r.chance(1, 20) { odd = "no project"; } else { write("Mabo.toml", toml.as_bytes()); }
        if r.chance(1, 2) { cmd.current_dir(root.join(home)); }
        else if r.chance(1, 2) { cmd.current_dir(root).arg("--project-dir").arg(if home.is_empty() { "." } else { home }); }
        else { cmd.current_dir("/").arg("--project-dir").arg(root.join(home)); }
    } else {
        // relative to the directory, or with the directory in front
        if r.chance(1, 2) { cmd.current_dir(root.join(home)).args(&patterns); }
        else { cmd.current_dir("/").args(patterns.iter().map(|p| format!("{}/{home}{p}", root.display()))); }
        if r.chance(1, 20) { odd = "pattern"; cmd.arg(r.pick(&["a**b", "[", "***"])); }
        else if r.chance(1, 20) { odd = "arguments"; cmd.arg("--project-dir").arg("."); }
        if r.chance(1, 3) {
            if r.chance(1, 2) { symlink("nowhere", root.join(in_home("dangling.mabo"))).unwrap(); files.insert("dangling.mabo".into(), F { kind: Kind::Unreadable, text: String::new() }); }
        }
    }
    let out_dir = root.join(home).join(&out_rel);
    let mut blocked = false;
    if doc {
        if r.chance(1, 12) { blocked = true; fs::create_dir_all(out_dir.parent().unwrap()).unwrap(); fs::write(&out_dir, "a file").unwrap(); }
        else if r.chance(1, 4) { fs::create_dir_all(out_dir.join("keep")).unwrap(); fs::write(out_dir.join("keep/me.html"), "kept").unwrap(); }
        cmd.arg(if cmd.get_current_dir() == Some(&root.join(home)) && r.chance(1, 2) { PathBuf::from(&out_rel) } else { out_dir.clone() });
    }
    // a project doesn't have directories and dangling links as files; the ones of a pattern that match nothing are skipped
    let mut chosen = BTreeSet::new();
    for (rel, f) in &files {
        if !loose && rel == "dangling.mabo" { continue; }
        let _ = f;
        match selected(&patterns, rel) { Some(true) => { chosen.insert(rel.clone()); } Some(false) => {} None => return rep.count("left open by the patterns", 1) }
    }
    // pages of an earlier run of other schemas: of the same length, longer or shorter
    if doc && !blocked && odd.is_empty() && r.chance(1, 2) {
        let _ = cmd.output().unwrap();
        let old: Vec<String> = snapshot(root).into_iter().filter(|(n, e)| n.ends_with(".html") && matches!(e, Entry::File { .. }) && root.join(n).starts_with(normal(&out_dir)) && !n.ends_with("keep/me.html")).map(|e| e.0).collect();
        for n in old {
            let f = root.join(&n);
            let mut b = fs::read(&f).unwrap();
            match r.below(6) {
                0 => {}
                1 => { let k = r.below(b.len() + 1); b.truncate(k); }
                2 => b.extend_from_slice(b"<p>left over</p>"),
                3 => b.clear(),
                _ => for _ in 0..4 { let k = r.below(b.len().max(1)); if let Some(c) = b.get_mut(k) { *c = b'#'; } },
            }
            fs::write(f, b).unwrap();
            rep.count("pages of an earlier run", 1);
        }
    }
    let before = snapshot(root);
    let args: Vec<String> = cmd.get_args().map(|a| a.to_string_lossy().into_owned()).collect();
    let w = || json!({"command": args, "directory": cmd.get_current_dir().map(|d| d.display().to_string()), "files": files.iter().map(|(n, f)| json!({"name": n, "kind": format!("{:?}", f.kind), "text": f.text, "processed": chosen.contains(n)})).collect::<Vec<_>>(), "others": other, "patterns": patterns, "links": links, "odd": odd});
    watch::begin(|| w().to_string());
    let witness = w();
    rep.case(|| witness.clone());
    let o = cmd.output().unwrap();
    let after = snapshot(root);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let code = o.status.code();
    rep.eval();
    rep.case_seen(&witness.to_string().replace(&root.display().to_string(), ""));
    rep.count(&format!("{} {}", if fmt { "fmt" } else if doc { "doc" } else { "check" }, if loose { "patterns" } else { "project" }), 1);
    rep.count("files processed", chosen.len() as u64);
    let cmdline = format!("mabo {}", args.join(" "));
    let Some(code) = code else { return rep.violation("crash", format!("{cmdline}: ended by a signal: {}", clip(&err, 400)), witness) };
    if code == 101 || err.contains("panicked at") { return rep.violation("panic", format!("{cmdline}: {}", clip(&err, 500)), witness); }

    let coloured = |s: &str| s.contains('\u{1b}');
    if !files.values().any(|f| coloured(&f.text)) && (coloured(&err) || o.stdout.contains(&0x1b)) { rep.violation("colours", format!("{cmdline}: terminal codes for no terminal: {:?} {:?}", clip(&err, 400), clip(&String::from_utf8_lossy(&o.stdout), 400)), witness.clone()); }

    // ------------------------------------------------------------ what may have changed
    let changed: Vec<&String> = before.keys().chain(after.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| match (before.get(*k), after.get(*k)) {
        // a rewritten file only differs if its content does, except for commands that don't write
        (Some(Entry::File { bytes: a, mode: m, time: t }), Some(Entry::File { bytes: b, mode: n, time: u })) => a != b || m != n || (!fmt && !doc && t != u),
        (a, b) => a != b,
    }).collect();
    if !odd.is_empty() {
        rep.count(&format!("wrong {odd}"), 1);
        if !changed.is_empty() { rep.violation("touched", format!("{cmdline}: fails on the {odd}, but changed {changed:?}"), witness.clone()); }
        if code == 0 { rep.violation("exit", format!("{cmdline}: succeeds despite the wrong {odd}"), witness); }
        return;
    }
    for (n, a) in &before {
        if let (Entry::File { mode: a, .. }, Some(Entry::File { mode: b, .. })) = (a, after.get(n)) && a != b { return rep.violation("permissions", format!("{cmdline}: the permissions of {n} change from {a:o} to {b:o}"), witness); }
        if let (Entry::Link(_), Some(b)) = (a, after.get(n)) && *b != *a { return rep.violation("link", format!("{cmdline}: {n} was a link"), witness); }
    }
    let mut good = true;
    // pages of the first schema of a name only
    let again: BTreeSet<&String> = if doc {
        let mut l: Vec<&String> = chosen.iter().collect();
        l.sort_by_key(|c| Path::new(c.as_str()));
        let mut names = BTreeSet::new();
        l.into_iter().filter(|c| !names.insert(Path::new(c.as_str()).file_stem())).collect()
    } else { BTreeSet::new() };
    rep.count("schemas with the name of another", again.len() as u64);
    let failing: Vec<&String> = chosen.iter().filter(|c| again.contains(c) || match files[*c].kind { Kind::Valid => false, Kind::Rules => !fmt && !doc, _ => true }).collect();
    if !failing.is_empty() { good = false; }
    if fmt {
        for rel in files.keys() {
            let f = &files[rel];
            if f.kind == Kind::Unreadable { continue; }
            let want = if chosen.contains(rel) && matches!(f.kind, Kind::Valid | Kind::Rules) {
                match guard(|| mp::Schema::parse(&f.text, None).map(|s| s.to_string())) { Ok(Ok(t)) => t, _ => return rep.count("schemas that don't parse", 1) }
            } else { f.text.clone() };
            rep.count(if want == f.text { "files to leave alone" } else { "files to rewrite" }, 1);
            match after.get(&in_home(rel)) {
                Some(Entry::File { bytes, .. }) if *bytes == want.as_bytes() => {}
                Some(Entry::File { bytes, .. }) => { rep.violation(if want == f.text { "touched" } else if *bytes == f.text.as_bytes() { "not-formatted" } else { "format" }, format!("{cmdline}: {rel} ({:?}, {}processed) now is {:?} instead of {:?}", f.kind, if chosen.contains(rel) { "" } else { "not " }, clip(&String::from_utf8_lossy(bytes), 200), clip(&want, 200)), witness); return; }
                _ => { rep.violation("gone", format!("{cmdline}: {rel} is gone"), witness); return; }
            }
        }
        for c in changed { if !files.keys().any(|f| in_home(f) == *c && chosen.contains(f)) { rep.violation("touched", format!("{cmdline}: changed {c}"), witness); return; } }
    } else if doc {
        let out = out_dir.strip_prefix(root).unwrap();
        let out = normal(out);
        let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
        let mut open: Vec<PathBuf> = Vec::new();
        for c in &chosen {
            let stem = Path::new(c).file_stem().unwrap();
            if again.contains(c) { continue; }
            match files[c].kind {
                Kind::Valid => {
                    let path = Path::new(c);
                    let done = guard(|| {
                        let s = mp::Schema::parse(&files[c].text, Some(path)).ok()?;
                        let s = mabo_compiler::simplify_schema(&s);
                        let d = mabo_doc::render_schema(&mabo_doc::Opts {}, &s).ok()?;
                        let mut m = BTreeMap::new();
                        flatten(&d, &out.join(d.name), &mut m);
                        Some(m)
                    });
                    match done { Ok(Some(m)) => want.extend(m), _ => return rep.count("schemas that don't render", 1) }
                }
                Kind::Rules => open.push(out.join(stem)),
                _ => {}
            }
        }
        if blocked { want.clear(); open.clear(); if !chosen.is_empty() { good = false; } }
        rep.count("pages written", want.len() as u64);
        for (p, t) in &want {
            match after.get(&p.display().to_string()) {
                Some(Entry::File { bytes, .. }) if bytes == t.as_bytes() => {}
                Some(Entry::File { .. }) => { rep.violation("page", format!("{cmdline}: the page {} has another content", p.display()), witness); return; }
                _ => { rep.violation("no-page", format!("{cmdline}: the page {} is missing; {}", p.display(), clip(&err, 300)), witness); return; }
            }
        }
        for c in changed {
            let p = Path::new(c);
            let dir = matches!(after.get(c), Some(Entry::Dir)) && !before.contains_key(c);
            if want.contains_key(p) || open.iter().any(|o| p.starts_with(o)) || dir && (p.starts_with(&out) || out.starts_with(p)) && !blocked { continue; }
            rep.violation("touched", format!("{cmdline}: changed {c}, which is no page of a processed schema"), witness);
            return;
        }
        // pages of one schema link to each other
    } else {
        if let Some(c) = changed.first() { rep.violation("touched", format!("{cmdline}: a check changed {c}"), witness); return; }
        // which one an import means is open
        let names: BTreeSet<_> = chosen.iter().map(|c| Path::new(c).file_stem()).collect();
        if good && names.len() < chosen.len() { return rep.count("left open by equal names", 1); }
        if good {
            let set: Vec<(&str, &mvcore::located::LSchema)> = parts.iter().filter(|p| chosen.contains(&p.0)).map(|p| (p.1.as_str(), p.2.as_ref().unwrap())).collect();
            let broken = refcheck::resolve(&set);
            if !broken.is_empty() { rep.count("broken references", 1); good = false; }
        }
    }
    rep.count(if good { "to succeed" } else { "to fail" }, 1);
    if (code == 0) != good { rep.violation(if good { "exit-failure" } else { "exit-success" }, format!("{cmdline}: exits with {code}, but {}; failing files: {failing:?}; {}", if good { "everything is fine" } else { "something is wrong" }, clip(&err, 600)), witness); return; }
    // every failing file is reported, and no other
    let squeezed: String = err.chars().filter(|c| !c.is_whitespace() && *c != '│').collect();
    for rel in &chosen {
        // reports are wrapped at blanks
        let squeeze = |f: &str| Path::new(f).file_name().unwrap().to_str().unwrap().replace(char::is_whitespace, "");
        let name = squeeze(rel);
        if files.keys().filter(|f| squeeze(f) == name).count() > 1 { continue; }
        let told = squeezed.contains(&format!("/{name}")) || squeezed.contains(&format!("\"{name}")) || squeezed.contains(&format!("[{name}"));
        let fails = failing.contains(&rel);
        if fails && !told && !blocked { rep.violation("unreported", format!("{cmdline}: nothing is said about {rel}, which is {:?}: {}", files[rel].kind, clip(&err, 500)), witness); return; }
        if !fails && told && !failing.is_empty() && !blocked { rep.violation("reported", format!("{cmdline}: {rel} is fine, but: {}", clip(&err, 500)), witness); return; }
        if fails { rep.count("failing files reported", 1); }
    }
    rep.sample_every(97, || json!({"command": cmdline.replace(&root.display().to_string(), "DIR"), "processed": chosen.len(), "failing": failing.len(), "exit": code}));
}

pub fn normal(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() { match c { std::path::Component::ParentDir => { out.pop(); } std::path::Component::CurDir => {} c => out.push(c) } }
    out
}
