//! C20: loading and discovering projects against a reference walk and a reference glob matcher.
use std::{collections::{BTreeMap, BTreeSet}, fs, path::{Path, PathBuf}};

use mvcore::{out::{Report, clip}, rng::Rng, watch};
use serde_json::json;

use crate::{Run, chain, guard};

/// Glob matcher, on bytes: `?`, `*`, `**` as whole components, classes, alternatives, escapes.
fn matches(p: &[char], s: &[char], sep: bool) -> bool {
    let Some(&c) = p.first() else { return s.is_empty() };
    match c {
        '*' if p.get(1) == Some(&'*') => {
            let rest = &p[2..];
            if rest.is_empty() { return !s.is_empty(); }
            // "**/": any number of whole components
            let rest = &rest[1..];
            let mut at = 0;
            loop {
                if matches(rest, &s[at..], sep) { return true; }
                match s[at..].iter().position(|c| *c == '/') { Some(i) => at += i + 1, None => return false }
            }
        }
        '*' => (0..=s.iter().position(|c| *c == '/').unwrap_or(s.len())).any(|n| matches(&p[1..], &s[n..], sep)),
        '?' => s.first().is_some_and(|c| *c != '/') && matches(&p[1..], &s[1..], sep),
        '[' => {
            let (neg, mut i) = if p[1] == '!' { (true, 2) } else { (false, 1) };
            let Some(&x) = s.first() else { return false };
            let (mut hit, start) = (false, i);
            while p[i] != ']' || i == start {
                if p[i + 1] == '-' && p[i + 2] != ']' { hit |= (p[i]..=p[i + 2]).contains(&x); i += 3; } else { hit |= p[i] == x; i += 1; }
            }
            hit != neg && (sep || x != '/') && matches(&p[i + 1..], &s[1..], sep)
        }
        '{' => {
            let (mut depth, mut i, mut from) = (0, 1, 1);
            let mut alts = Vec::new();
            loop {
                match p[i] {
                    '\\' => i += 1,
                    '{' => depth += 1,
                    ',' if depth == 0 => { alts.push(&p[from..i]); from = i + 1; }
                    '}' if depth == 0 => { alts.push(&p[from..i]); break; }
                    '}' => depth -= 1,
                    _ => {}
                }
                i += 1;
            }
            alts.into_iter().any(|a| { let mut q = a.to_vec(); q.extend_from_slice(&p[i + 1..]); matches(&q, s, sep) })
        }
        '\\' => s.first() == p.get(1) && matches(&p[2..], &s[1..], sep),
        c => s.first() == Some(&c) && matches(&p[1..], &s[1..], sep),
    }
}

/// Whether a pattern matches; None where it depends on whether a negated class matches a separator.
pub fn glob(p: &str, s: &str) -> Option<bool> {
    // wildcards stand for a byte: see the probe for the known finding
    let bytes = |s: &str| s.bytes().map(char::from).collect::<Vec<_>>();
    let (p, s) = (bytes(p), bytes(s));
    let hit = matches(&p, &s, false);
    (hit == matches(&p, &s, true)).then_some(hit)
}

const DIRS: &[&str] = &["schemas", "src", "a", "b", "nested", "deep.mabo", "x y", "é", ".hidden", "target", "ab"];
const FILES: &[&str] = &["one.mabo", "two.mabo", "a.mabo", "b.mabo", "ab.mabo", "a1.mabo", "readme.md", "mabo", ".mabo", ".secret.mabo", "upper.MABO", "x.mabo.bak", "we[1]rd.mabo", "with space.mabo", "é.mabo", "{x}.mabo", "back\\slash.mabo", "st*r.mabo", "q?.mabo", "x.mab", "amabo", "a.b.mabo", "a-b.mabo", "!.mabo", "[z].mabo"];

struct Tree { files: BTreeSet<String>, dirs: BTreeSet<String>, links: BTreeMap<String, PathBuf>, ignores: BTreeMap<String, Vec<String>>, git: bool }

fn grow(r: &mut Rng, at: &str, depth: usize, t: &mut Tree) {
    for _ in 0..r.below(7) { t.files.insert(format!("{at}{}", r.pick(FILES))); }
    if depth > 0 {
        for _ in 0..r.below(4) {
            let d = format!("{at}{}", r.pick(DIRS));
            if t.dirs.insert(d.clone()) { grow(r, &format!("{d}/"), depth - 1, t); }
        }
    }
    if r.chance(1, 8) {
        let lines = (0..r.range(1, 3)).map(|_| match r.below(4) { 0 => format!("{}/", r.pick(&["a", "b", "src", "nested", "schemas"])), 1 => format!("/{}", r.pick(&["a.mabo", "one.mabo", "schemas", "nested"])), 2 => "# comment".to_string(), _ => r.pick(&["a.mabo", "two.mabo", "b", "nested"]).to_string() }).collect();
        t.ignores.insert(at.to_string(), lines);
    }
}

/// Whether the walk passes over an entry.
fn skipped(t: &Tree, path: &str, dir: bool) -> bool {
    let name = path.rsplit('/').next().unwrap();
    if name.starts_with('.') { return true; }
    t.ignores.iter().any(|(at, lines)| path.strip_prefix(at.as_str()).is_some_and(|rel| lines.iter().any(|l| {
        if l.starts_with('#') { return false; }
        if let Some(l) = l.strip_prefix('/') { rel == l } else if let Some(l) = l.strip_suffix('/') { dir && name == l } else { name == l }
    })))
}

/// Everything visible below a directory, as paths relative to the tree, following links.
fn visible(t: &Tree, root: &Path, at: &str, follow: bool, out: &mut Vec<String>) {
    let mut names: Vec<String> = fs::read_dir(root.join(at)).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    for n in names {
        let p = format!("{at}{n}");
        let full = root.join(&p);
        let meta = if follow { fs::metadata(&full) } else { fs::symlink_metadata(&full) }.unwrap();
        if skipped(t, &p, meta.is_dir()) { continue; }
        if meta.is_dir() { visible(t, root, &format!("{p}/"), follow, out); } else if meta.is_file() { out.push(p); }
    }
}

fn pattern(r: &mut Rng, t: &Tree) -> String {
    if r.chance(1, 3) || t.files.is_empty() {
        return r.pick(&["*.mabo", "**/*.mabo", "**", "*", "schemas/*.mabo", "schemas/**/*.mabo", "{a,b}/*.mabo", "{a,b,}*.mabo", "src/**", "**/nested/*", "[a-b]*.mabo", "[!a]*.mabo", "?.mabo", "**/a.mabo", "*/*.mabo", "a/**/b.mabo", "", "nothing", "**/*", "**/{one,two}.mabo", "é.mabo", "deep.mabo", "**/deep.mabo", "{schemas,src}/{a,b}/*", "?/*", "**/ab.mabo"]).to_string();
    }
    // a wildcarded path of the tree
    let l: Vec<&String> = t.files.iter().collect();
    let comps: Vec<String> = r.pick(&l).split('/').map(String::from).collect();
    let mut out: Vec<String> = Vec::new();
    for (i, c) in comps.iter().enumerate() {
        let last = i + 1 == comps.len();
        if !last && r.chance(1, 4) { if out.last().is_none_or(|l| l != "**") { out.push("**".into()); } continue; }
        let mut s = String::new();
        for ch in c.chars() {
            match r.below(14) {
                0 => s.push('?'),
                1 => if !s.ends_with('*') { s.push('*') },
                2 if ch.is_ascii_lowercase() => s.push_str(&format!("[{}-{}]", (ch as u8 - u8::from(ch != 'a')) as char, ch)),
                3 if ch.is_ascii_lowercase() => s.push_str(&format!("[!{}]", if r.chance(1, 2) { 'q' } else { ch })),
                4 if ch.is_ascii_alphanumeric() => s.push_str(&format!("{{{ch},zz,}}")),
                _ => {
                    if "*?[]{}\\!,".contains(ch) { s.push('\\'); }
                    s.push(ch);
                }
            }
        }
        out.push(s);
    }
    if r.chance(1, 10) { out.insert(0, "**".into()); }
    out.dedup_by(|a, b| a == "**" && b == "**");
    out.join("/")
}

fn toml_str(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 3) && !s.contains('\'') && !s.chars().any(char::is_control) { return format!("'{s}'"); }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if c.is_control() || r.chance(1, 20) => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o + "\""
}

struct Meta { name: String, description: Option<String>, license: Option<&'static str>, files: Vec<String> }

const LICENSES: &[&str] = &["MIT", "MIT OR Apache-2.0", "(MIT AND Apache-2.0) OR MPL-2.0", "Apache-2.0 WITH LLVM-exception", "0BSD"];

fn meta(r: &mut Rng, t: &Tree) -> Meta {
    Meta {
        name: r.pick(&["pkg", "sample-package", "é", "with \"quotes\"", "", "a\\b"]).to_string(),
        description: r.chance(1, 2).then(|| r.pick(&["some text", "lines\nof text", "", "tab\there é 漢"]).to_string()),
        license: r.chance(1, 2).then(|| *r.pick(LICENSES)),
        files: (0..r.below(4)).map(|_| pattern(r, t)).collect(),
    }
}

fn text(r: &mut Rng, m: &Meta) -> String {
    let files: Vec<String> = m.files.iter().map(|f| toml_str(r, f)).collect();
    let mut l = vec![format!("name = {}", toml_str(r, &m.name)), if r.chance(1, 2) { format!("files = [{}]", files.join(", ")) } else { format!("files = [\n{}]", files.iter().map(|f| format!("  {f}, # entry\n")).collect::<String>()) }];
    if let Some(d) = &m.description { l.push(format!("description = {}", toml_str(r, d))); }
    if let Some(d) = &m.license { l.push(format!("license = \"{d}\"")); }
    if r.chance(1, 6) { l.push("unknown = 1".into()); }
    r.shuffle(&mut l);
    format!("{}[package]\n{}\n{}", if r.chance(1, 4) { "# project\n\n" } else { "" }, l.join("\n"), if r.chance(1, 6) { "\n[other]\nx = 1\n" } else { "" })
}

const BROKEN: &[&str] = &[
    "", "[package]", "[package]\nname = \"a\"", "[package]\nfiles = []", "[package]\nname = 1\nfiles = []", "[package]\nname = \"a\"\nfiles = \"x\"", "[package]\nname = \"a\"\nfiles = [1]",
    "name = \"a\"\nfiles = []", "[package\nname = \"a\"\nfiles = []", "[package]\nname = \"a\"\nfiles = []\nname = \"b\"", "[package]\nname = \"a\"\nfiles = []\nlicense = \"No Such License\"", "[package]\nname = \"a\"\nfiles = []\nlicense = \"MIT OR\"",
    "[package]\nname = \"a\"\nfiles = []\nlicense = 5", "[package]\nname = \"a\"\nfiles = []\ndescription = []", "[package]\nname = \"a\"\nfiles = [\"[\"]", "[package]\nname = \"a\"\nfiles = [\"a\", \"{b\"]", "[package]\nname = \"a\"\nfiles = [\"x[z-a]\"]",
    "[package]\nname = \"a\"\nfiles = [\"a\"", "[[package]]\nname = \"a\"\nfiles = []", "\u{0}", "package = 1", "[package]\nname = \"a\"\nfiles = [\"a}\"]", "[package]\nname = \"\\q\"\nfiles = []",
];

fn same(p: &mabo_project::Project, m: &Meta, dir: &Path, file: &Path, (want, may): &(BTreeSet<PathBuf>, BTreeSet<PathBuf>)) -> Result<(), (&'static str, String)> {
    let pkg = &p.project_file.package;
    if pkg.name != m.name || pkg.description != m.description || pkg.license.as_ref().map(|l| l.to_string()).as_deref() != m.license || pkg.files != m.files { return Err(("metadata", format!("{pkg:?} instead of {:?} {:?} {:?} {:?}", m.name, m.description, m.license, m.files))); }
    if p.project_path != file { return Err(("metadata", format!("the project file is {:?} instead of {file:?}", p.project_path))); }
    let got: BTreeSet<PathBuf> = p.files.iter().cloned().collect();
    if got.len() != p.files.len() { return Err(("twice", format!("a file is listed twice: {:?}", p.files))); }
    if let Some(f) = p.files.iter().find(|f| !f.is_absolute()) { return Err(("relative", format!("{f:?} isn't absolute"))); }
    let got: BTreeSet<PathBuf> = got.difference(may).cloned().collect();
    if got != *want {
        let miss: Vec<_> = want.difference(&got).map(|p| p.strip_prefix(dir).unwrap()).collect();
        let extra: Vec<_> = got.difference(want).map(|p| p.strip_prefix(dir).unwrap_or(p)).collect();
        return Err(("files", format!("patterns {:?} miss {miss:?} and yield {extra:?} in excess", m.files)));
    }
    Ok(())
}

/// The files that a project has to consist of, and those that it may.
fn want(t: &Tree, root: &Path, at: &str, m: &Meta) -> (BTreeSet<PathBuf>, BTreeSet<PathBuf>) {
    let mut all = Vec::new();
    visible(t, root, at, true, &mut all);
    let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
    for f in all.iter().filter(|f| f.rsplit('/').next().unwrap().rsplit_once('.').is_some_and(|x| x.1 == "mabo" && !x.0.is_empty())) {
        let hits: Vec<_> = m.files.iter().map(|p| glob(p, &f[at.len()..])).collect();
        if hits.contains(&Some(true)) { must.insert(root.join(f)); } else if hits.contains(&None) { may.insert(root.join(f)); }
    }
    (must, may)
}

pub fn run(run: &Run, rep: &mut Report) {
    let base = std::env::temp_dir().join(format!("mabo-verif-{}-{}", std::process::id(), run.index));
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("proj/{}", run.index), round);
        round += 1;
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(&base).unwrap();
        let root = base.join(r.pick(&["p", "pro ject", "p[1]", "é"]));
        watch::begin(|| format!("round {round}"));
        if round == 1 && run.index == 0 { probe(rep, &root); continue; }
        if let Err((sig, e, w)) = one(rep, &mut r, &root) { rep.violation(sig, e, w); }
    }
    let _ = fs::remove_dir_all(&base);
}

fn one(rep: &mut Report, r: &mut Rng, root: &Path) -> Result<(), (&'static str, String, serde_json::Value)> {
    let mut t = Tree { files: BTreeSet::new(), dirs: BTreeSet::new(), links: BTreeMap::new(), ignores: BTreeMap::new(), git: r.chance(1, 3) };
    grow(r, "", r.clone().range(1, 4), &mut t);
    // deep below and many in one place
    if r.chance(1, 8) {
        let mut at = String::new();
        for _ in 0..r.range(5, 40) {
            at.push_str(r.pick(DIRS));
            t.dirs.insert(at.clone());
            at.push('/');
            if r.chance(1, 6) { t.files.insert(format!("{at}{}", r.pick(FILES))); }
        }
        t.files.insert(format!("{at}{}", r.pick(FILES)));
    }
    if r.chance(1, 20) { for i in 0..r.range(50, 400) { t.files.insert(format!("m{i}.mabo")); } }
    let clash: Vec<String> = t.files.intersection(&t.dirs).cloned().collect();
    for c in clash { t.files.remove(&c); }
    fs::create_dir_all(root).unwrap();
    if t.git { fs::create_dir(root.join(".git")).unwrap(); }
    for d in &t.dirs { fs::create_dir_all(root.join(d)).unwrap(); }
    for f in &t.files {
        fs::write(root.join(f), "struct A\n").unwrap();
        // the size of a file doesn't matter (most of these bytes take no room)
        if r.chance(1, 20) { fs::OpenOptions::new().write(true).open(root.join(f)).unwrap().set_len(*r.pick(&[0, 1, 1 << 16, (1 << 20) + 1, 1 << 24, 5 << 30])).unwrap(); }
    }
    for (at, l) in &t.ignores { fs::write(root.join(format!("{at}{}", if t.git && r.chance(1, 2) { ".gitignore" } else { ".ignore" })), l.join("\n") + "\n").unwrap(); }
    // links to a file or a directory outside of the tree
    if r.chance(1, 3) {
        let out = root.parent().unwrap().join("outside");
        fs::create_dir_all(out.join("sub")).unwrap();
        fs::write(out.join("linked.mabo"), "").unwrap();
        fs::write(out.join("sub/inner.mabo"), "").unwrap();
        for (n, to) in [("link.mabo", "linked.mabo"), ("linkdir", "sub"), ("dirlink.mabo", "sub")] {
            if r.chance(1, 2) { std::os::unix::fs::symlink(out.join(to), root.join(n)).unwrap(); t.links.insert(n.into(), out.join(to)); }
        }
    }
    // project files: at the root and in some directories
    let mut projects: Vec<(String, Meta, String)> = Vec::new();
    let mut places: Vec<String> = std::iter::once(String::new()).chain(t.dirs.iter().filter(|d| !d.split('/').any(|c| c == "Mabo.toml")).map(|d| format!("{d}/"))).collect();
    r.shuffle(&mut places[1..]);
    for at in places.iter().take(1 + r.below(4)) {
        // patterns are relative to the project
        let sub = Tree { files: t.files.iter().filter_map(|f| f.strip_prefix(at.as_str()).map(String::from)).collect(), dirs: BTreeSet::new(), links: BTreeMap::new(), ignores: BTreeMap::new(), git: false };
        let m = meta(r, &sub);
        let text = text(r, &m);
        fs::write(root.join(at).join("Mabo.toml"), &text).unwrap();
        projects.push((at.clone(), m, text));
    }
    if r.chance(1, 6) && let Some(d) = places.get(projects.len()) { fs::create_dir_all(root.join(d).join("Mabo.toml")).unwrap(); }
    for (i, n) in [("xMabo.toml"), ("mabo.toml"), ("Mabo.toml.bak"), ("Mabo_toml")].iter().enumerate() { if r.chance(1, 6) { let d = &places[i % places.len()]; fs::write(root.join(d).join(n), "broken").unwrap(); } }
    let wit = |at: &str, p: &str| json!({"tree": t.files.iter().collect::<Vec<_>>(), "dirs": t.dirs.iter().collect::<Vec<_>>(), "links": t.links.keys().collect::<Vec<_>>(), "ignores": t.ignores, "git": t.git, "project": at, "file": p});
    rep.case(|| wit("", &projects[0].2));
    // load each one
    for (at, m, text) in &projects {
        let dir = root.join(at.trim_end_matches('/'));
        let dir = if at.is_empty() { root.to_path_buf() } else { dir };
        let want = want(&t, root, at, m);
        // ways to name the directory
        let (given, rel) = match r.below(8) { 0 => (PathBuf::from(format!("{}/", dir.display())), false), 1 => (dir.strip_prefix("/").unwrap().to_path_buf(), true), _ => (dir.clone(), false) };
        rep.eval();
        rep.case_seen(&(text, &t.files, &t.ignores));
        let got = guard(|| mabo_project::load(&given)).map_err(|p| ("panic", format!("loading panics: {p}"), wit(at, text)))?;
        let p = got.map_err(|e| ("load", format!("loading fails: {}", chain(&e)), wit(at, text)))?;
        if rel { rep.count("relative base", 1); }
        same(&p, m, &dir, &dir.join("Mabo.toml"), &want).map_err(|(s, e)| (s, format!("{}{e}", if rel { "relative base: " } else { "" }), wit(at, text)))?;
        rep.count("projects loaded", 1);
        rep.count("files selected", want.0.len() as u64);
        rep.sample_every(2003, || json!({"patterns": m.files, "files": want.0.iter().map(|p| p.strip_prefix(root).unwrap().display().to_string()).collect::<Vec<_>>(), "of": t.files.len()}));
    }
    // links to nowhere, and back up: an error, or the same files as without
    if r.chance(1, 10) {
        let (at, m, text) = r.pick(&projects);
        let link = root.join(at).join("zlink.mabo");
        std::os::unix::fs::symlink(if r.chance(1, 2) { Path::new("nowhere") } else { Path::new(".") }, &link).unwrap();
        let dir = if at.is_empty() { root.to_path_buf() } else { root.join(at.trim_end_matches('/')) };
        let mut with = None;
        match guard(|| mabo_project::load(&dir)).map_err(|p| ("panic", format!("loading with a broken link panics: {p}"), wit(at, text)))? { Ok(p) => with = Some(p), Err(e) => if chain(&e).is_empty() { return Err(("link", "an error without message".into(), wit(at, text))); } }
        fs::remove_file(&link).unwrap();
        rep.count("projects with links to nowhere or in circles", 1);
        if let Some(p) = with { same(&p, m, &dir, &dir.join("Mabo.toml"), &want(&t, root, at, m)).map_err(|(s, e)| (s, format!("with a broken link: {e}"), wit(at, text)))?; }
    }
    // discover them all
    let mut found = Vec::new();
    visible(&t, root, "", false, &mut found);
    let hold: BTreeSet<String> = found.iter().filter(|f| *f == "Mabo.toml" || f.ends_with("/Mabo.toml")).map(|f| f[..f.len() - 9].to_string()).collect();
    rep.eval();
    let got = guard(|| mabo_project::discover(root)).map_err(|p| ("panic", format!("discovery panics: {p}"), wit("", "")))?.map_err(|e| ("discover", format!("discovery fails: {}", chain(&e)), wit("", "")))?;
    let names: Vec<String> = got.iter().map(|p| { let d = p.project_path.parent().unwrap().strip_prefix(root).unwrap().display().to_string(); if d.is_empty() { d } else { d + "/" } }).collect();
    let set: BTreeSet<String> = names.iter().cloned().collect();
    if set.len() != names.len() || set != hold { return Err(("discover", format!("discovered {names:?} instead of {hold:?}"), wit("", ""))); }
    rep.count("projects discovered", names.len() as u64);
    for (at, p) in names.iter().zip(&got) {
        let (_, m, text) = projects.iter().find(|x| x.0 == *at).unwrap();
        let dir = if at.is_empty() { root.to_path_buf() } else { root.join(at.trim_end_matches('/')) };
        same(p, m, &dir, &dir.join("Mabo.toml"), &want(&t, root, at, m)).map_err(|(s, e)| (s, format!("discovered: {e}"), wit(at, text)))?;
    }
    // break one
    let (at, m, text) = r.pick(&projects);
    let file = root.join(at).join("Mabo.toml");
    let what = if r.chance(1, 6) { fs::remove_file(&file).unwrap(); "missing".to_string() } else if r.chance(1, 6) { fs::write(&file, b"[package]\nname = \"\xff\"\nfiles = []\n").unwrap(); "not UTF-8".to_string() } else {
        let b = if r.chance(1, 4) { text[..text.find("name").unwrap() + r.below(6)].to_string() } else { r.pick(BROKEN).to_string() };
        fs::write(&file, &b).unwrap();
        b
    };
    let _ = m;
    rep.eval();
    rep.case_seen(&what);
    let dir = root.join(at.trim_end_matches('/'));
    match guard(|| mabo_project::load(&dir)) {
        Err(p) => return Err(("panic", format!("loading panics: {p}"), wit(at, &what))),
        Ok(Ok(p)) => return Err(("accepted", format!("a broken project file is accepted as {:?}: {}", p.project_file, clip(&what, 300)), wit(at, &what))),
        Ok(Err(e)) => { if chain(&e).is_empty() { return Err(("accepted", "an error without message".into(), wit(at, &what))); } rep.count("broken project files reported", 1); }
    }
    if hold.contains(at) && what != "missing" {
        rep.eval();
        if guard(|| mabo_project::discover(root)).map_err(|p| ("panic", format!("discovery panics: {p}"), wit(at, &what)))?.is_ok() { return Err(("accepted", format!("discovery does not report a broken project file: {}", clip(&what, 300)), wit(at, &what))); }
        rep.count("broken project files reported by discovery", 1);
    }
    Ok(())
}

/// Known finding: wildcards stand for one byte instead of one character.
fn probe(rep: &mut Report, root: &Path) {
    fs::create_dir_all(root).unwrap();
    fs::write(root.join("é.mabo"), "").unwrap();
    fs::write(root.join("Mabo.toml"), "[package]\nname = \"a\"\nfiles = [\"?.mabo\"]\n").unwrap();
    rep.eval();
    match mabo_project::load(root) {
        Ok(p) if p.files.len() == 1 => {}
        o => rep.violation("probe:wildcard-multibyte", format!("the pattern \"?.mabo\" does not select the file é.mabo: {:?}", o.map(|p| p.files).map_err(|e| chain(&e))), json!({"pattern": "?.mabo", "file": "é.mabo"})),
    }
}
