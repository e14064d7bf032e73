//! C22, C23, C24: the language server, driven over its protocol.
use std::{collections::{BTreeMap, HashMap}, fs, path::{Path, PathBuf}, time::{Duration, Instant}};

use mabo_compiler as mc;
use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, lenient, located::*, model::*, out::{Report, clip}, plant, refcheck, render::{Mark, render_marked}, rng::Rng, watch};
use serde_json::{Value, json};

use crate::{Run, guard, lspc::*, syntax::LAYOUTS, texts};

pub fn run(run: &Run, rep: &mut Report, prop: &str) {
    let exe = PathBuf::from(std::env::var("MV_LSP").expect("MV_LSP"));
    let home = std::env::temp_dir().join(format!("mv-lsp-{}", std::process::id()));
    fs::create_dir_all(&home).unwrap();
    let mut round = 0;
    let mut fresh = HashMap::new();
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("{prop}/{}", run.index), round);
        round += 1;
        match prop {
            "C22" => {
                if round % 40 == 0 { fresh.clear(); }
                if round == 1 && run.index == 0 { probe(rep, &exe, &home); continue; }
                histories(rep, &mut r, &exe, &home, &mut fresh, round);
            }
            "C23" => protocol(rep, &mut r, &exe, &home),
            _ => features(rep, &mut r, &exe, &home),
        }
        if round % 20 == 0 { let _ = fs::remove_file(home.join("cache/mabo-lsp/lsp.log")); }
    }
    drop(fresh);
    fs::remove_dir_all(&home).unwrap();
}

/// A dead or silent server is a violation of whatever was to be observed.
fn gone(rep: &mut Report, s: &Server, g: &Gone, what: &str, w: Value) {
    let (sig, t) = match g {
        Gone::Exited(c) => ("server-exit", format!("the server ended ({c:?}): {}", s.words())),
        Gone::Silent => ("server-silent", format!("no answer within {PATIENCE} s")),
        Gone::Error(e) => ("server-error", format!("the answer is an error: {e}")),
    };
    rep.violation(sig, format!("{what}: {t}"), w);
}

fn offered(r: &mut Rng) -> (Vec<&'static str>, Enc) {
    match r.below(7) {
        0 => (vec![], Enc::Utf16),
        1 => (vec!["utf-16"], Enc::Utf16),
        2 => (vec!["utf-8", "utf-16"], Enc::Utf8),
        3 => (vec!["utf-32", "utf-8", "utf-16"], Enc::Utf32),
        4 => (vec!["utf-7", "utf-8"], Enc::Utf8),
        5 => (vec!["utf-32"], Enc::Utf32),
        _ => (vec!["utf-16", "utf-8"], Enc::Utf16),
    }
}

/// A text for an editor: a valid schema, one that breaks a rule, or anything.
fn text(r: &mut Rng) -> String {
    let cfg = Cfg { schemas: (1, 2), defs: (1, 4), depth: 1, ..Cfg::accepted() };
    let mut s = package(r, &cfg).schemas.pop().unwrap().1;
    spice(r, &mut s.defs);
    let kind = r.below(6);
    if kind == 0 { plant::plant(r, &mut s); }
    let layout = *r.pick(&LAYOUTS);
    let t = render_marked(&s, layout, r).0;
    tame(match kind { 1 => texts::mutate(r, &t, &t), 2 if r.chance(1, 3) => texts::noise(r), _ => t })
}

/// Comments with characters of every width.
fn spice(r: &mut Rng, defs: &mut [Def]) {
    let line = |r: &mut Rng, c: &mut Vec<String>| for l in c { if r.chance(1, 3) { l.push_str(r.pick(&["é", "漢字 x", "😀", "a😀b漢é", "e\u{301}", "\u{2028}x"])); } };
    for d in defs {
        match d {
            Def::Module(m) => { line(r, &mut m.comment); spice(r, &mut m.defs); }
            Def::Struct(s) => { line(r, &mut s.comment); if let Some(l) = s.fields.list_mut() { for f in l { line(r, &mut f.comment); } } }
            Def::Enum(e) => for v in &mut e.variants { line(r, &mut v.comment); if let Some(l) = v.fields.list_mut() { for f in l { line(r, &mut f.comment); } } },
            Def::Alias(a) => line(r, &mut a.comment),
            Def::Const(c) => line(r, &mut c.comment),
            Def::Import(_) => {}
        }
    }
}

/// Without carriage returns of their own: see the probe for the known finding.
fn tame(t: String) -> String {
    let mut out = String::with_capacity(t.len());
    let mut i = t.chars().peekable();
    while let Some(c) = i.next() { if c != '\r' || i.peek() == Some(&'\n') { out.push(c); } }
    out
}

// ------------------------------------------------------------------ C22

struct Doc { uri: String, text: String, version: i64, open: bool, due: usize }

/// The same text but for one character, which takes as many bytes as before: what a look at the length alone can't tell.
fn retouch(r: &mut Rng, t: &str) -> String {
    let at: Vec<(usize, char)> = t.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).collect();
    if at.is_empty() { return text(r); }
    let (i, c) = *r.pick(&at);
    let mut t = t.to_owned();
    let n = *r.pick(&['a', 'B', '0', '7', ' ', '}', 'z']);
    t.replace_range(i..i + c.len_utf8(), &n.to_string());
    tame(t)
}

/// Line and column, where a position past the end of a line or the text may be meant by its end.
fn spot(r: &mut Rng, t: &str, at: usize, e: Enc) -> Value {
    let (mut l, mut c) = pos(t, at, e);
    if at == t.len() && r.chance(1, 4) { l += r.range(1, 3); c = r.below(4); }
    else if (at == t.len() || t[at..].starts_with('\n') || t[at..].starts_with("\r\n")) && r.chance(1, 4) { c += *r.pick(&[1, 2, 1000, 0x7fff_0000]); }
    json!({"line": l, "character": c})
}

fn place(r: &mut Rng, t: &str) -> usize {
    let mut i = match r.below(6) { 0 => 0, 1 => t.len(), _ => r.range(0, t.len()) };
    while !t.is_char_boundary(i) { i -= 1; }
    // the middle of a line ending is no position
    if i > 0 && t[..i].ends_with('\r') && t[i..].starts_with('\n') { i -= 1; }
    i
}

const BITS: &[&str] = &["", "", "\n", "\r\n", " ", "é", "😀", "漢字", "/// comment 😀\n", "struct Added {\n    a: u8 @1,\n}\n", "enum E { A @1, B(u32 @1) @2 }", "u8", "@1", "}", "{", "x", "\n\n\n", "const X: string = \"😀\";\n", "// ", "\t", "const C: u8 = 1;\r\n", "mod m {\r\n}\r\n", "\"", "<", ">", "😀\n😀"];

fn histories(rep: &mut Report, r: &mut Rng, exe: &Path, home: &Path, fresh: &mut HashMap<&'static str, Server>, round: u64) {
    let (offers, enc) = offered(r);
    let mut log: Vec<Value> = vec![json!({"offered": offers})];
    watch::begin(String::new);
    let mut s = match Server::start(exe, home, &offers, json!({})) { Ok(s) => s, Err(g) => { let s = Server::spawn(exe, home); return gone(rep, &s, &g, "starting", json!(log)) } };
    if s.enc != enc { return rep.violation("encoding", format!("offered {offers:?}, the server chose {}", s.enc.name()), json!(log)); }
    rep.count(&format!("sessions in {}", enc.name()), 1);
    if !fresh.contains_key(enc.name()) {
        match Server::start(exe, home, &[enc.name()], json!({})) { Ok(f) => { fresh.insert(enc.name(), f); } Err(_) => return rep.violation("server-exit", "the server doesn't start", json!(log)) }
    }
    let mut docs: Vec<Doc> = (0..r.range(1, 3)).map(|i| Doc { uri: format!("file:///w/{}{i}.mabo", r.pick(&["a", "dir/b", "with%20space", "%C3%A9"])), text: String::new(), version: 0, open: false, due: 0 }).collect();
    for step in 0..r.range(4, 25) {
        let k = r.below(docs.len());
        if step > 0 && r.chance(1, 14) {
            // one message may name several files, open ones, closed ones and unknown ones
            let mut files: Vec<String> = docs.iter().map(|d| d.uri.clone()).filter(|_| r.chance(2, 3)).collect();
            if r.chance(1, 3) { files.insert(r.range(0, files.len()), "file:///w/elsewhere.mabo".into()); }
            if files.is_empty() { files.push(docs[k].uri.clone()); }
            log.push(json!({"delete": files}));
            s.notify("workspace/didDeleteFiles", json!({"files": files.iter().map(|f| json!({"uri": f})).collect::<Vec<_>>()}));
            rep.count(if files.len() > 1 { "deletions of several files" } else { "deletions of one file" }, 1);
            if !docs[k].open { continue; }
        }
        let d = &mut docs[k];
        d.version += 1;
        let mut what = "open";
        if !d.open {
            if d.text.is_empty() || r.chance(1, 3) { d.text = text(r); }
            else if r.chance(1, 2) { d.text = retouch(r, &d.text); rep.count("reopened with another character", 1); }
            log.push(json!({"open": d.uri, "text": d.text}));
            s.open(&d.uri, &d.text);
            d.open = true;
            d.due += 1;
        } else if r.chance(1, 8) {
            log.push(json!({"close": d.uri}));
            s.notify("textDocument/didClose", json!({"textDocument": {"uri": d.uri}}));
            d.open = false;
            rep.count("closes", 1);
            continue;
        } else {
            what = "change";
            let mut changes = Vec::new();
            for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3, 5]) {
                if r.chance(1, 8) {
                    d.text = text(r);
                    changes.push(json!({"text": d.text}));
                    rep.count("full replacements", 1);
                    continue;
                }
                let a = place(r, &d.text);
                let b = if r.chance(1, 2) { a } else { let mut b = (a + *r.pick(&[1, 2, 5, 30, 300])).min(d.text.len()); while !d.text.is_char_boundary(b) { b += 1; } if d.text[..b].ends_with('\r') { b += 1; } b.min(d.text.len()) };
                let other;
                let new = if r.chance(1, 8) { other = text(r); other.as_str() } else { r.pick(BITS) };
                let mut t = d.text.clone();
                t.replace_range(a..b, new);
                if tame(t.clone()) != t || t.len() > 60_000 { continue; }
                let (from, to) = if a == b { let p = spot(r, &d.text, a, enc); (p.clone(), p) } else { (spot(r, &d.text, a, enc), spot(r, &d.text, b, enc)) };
                let mut c = json!({"range": {"start": from, "end": to}, "text": new});
                if r.chance(1, 5) { c["rangeLength"] = json!(Enc::Utf16.units(&d.text[a..b])); }
                changes.push(c);
                d.text = t;
                rep.count("incremental changes", 1);
            }
            if changes.is_empty() { continue; }
            log.push(json!({"change": d.uri, "changes": changes}));
            s.notify("textDocument/didChange", json!({"textDocument": {"uri": d.uri, "version": d.version}, "contentChanges": changes}));
            d.due += 1;
            // an editor doesn't wait between the strokes
            if r.chance(1, 5) { rep.count("changes without a look", 1); continue; }
        }
        let due = d.due;
        rep.eval();
        rep.case_seen(&(&d.text, enc.name()));
        rep.count(&format!("views after {what}"), 1);
        let (uri, text) = (d.uri.clone(), d.text.clone());
        let w = || json!({"history": log, "text": text, "encoding": enc.name(), "document": uri});
        watch::begin(|| w().to_string());
        rep.case(w);
        // positions to hover over
        let at: Vec<Value> = (0..3).map(|_| { let a = place(r, &text); let (l, c) = pos(&text, a, enc); json!({"line": l, "character": c}) }).collect();
        let mine = match view(&mut s, &uri, &at) { Ok(v) => v, Err(g) => return gone(rep, &s, &g, "after this history", w()) };
        let n = s.published.get(&uri).map_or(0, Vec::len);
        if n != due { return rep.violation("published", format!("{n} publications after {due} opens and changes of the document, the last one: {what}"), w()); }
        let f = fresh.get_mut(enc.name()).unwrap();
        let other = format!("file:///fresh/{round}-{step}.mabo");
        f.open(&other, &text);
        let theirs = match view(f, &other, &at) { Ok(v) => v, Err(g) => { gone(rep, f, &g, "the text opened afresh", w()); fresh.clear(); return } };
        f.notify("textDocument/didClose", json!({"textDocument": {"uri": other}}));
        f.notify("workspace/didDeleteFiles", json!({"files": [{"uri": other}]}));
        f.published.remove(&other);
        f.seen.clear();
        s.seen.clear();
        let theirs: Value = serde_json::from_str(&theirs.to_string().replace(&other, &uri)).unwrap();
        if mine != theirs {
            let k = ["diagnostics", "symbols", "tokens", "hover"].into_iter().find(|k| mine[k] != theirs[k]).unwrap();
            return rep.violation(k, format!("after this history the {k} are {}, but {} for the same text opened afresh", clip(&mine[k].to_string(), 500), clip(&theirs[k].to_string(), 500)), w());
        }
        // and what they have to be
        if let Some(x) = verdict(&text, &mine["diagnostics"], enc, &uri) { return rep.violation("verdict", x, w()); }
        rep.count(if mine["diagnostics"] == json!([]) { "without diagnostics" } else { "with diagnostics" }, 1);
        rep.sample_every(997, || json!({"steps": log.len(), "encoding": enc.name(), "text": clip(&text, 200), "diagnostics": mine["diagnostics"]}));
    }
    match s.stop() { Ok(Some(c)) if c.success() => {} Ok(c) => rep.violation("exit", format!("the server ended with {c:?}"), json!(log)), Err(g) => gone(rep, &s, &g, "shutdown", json!(log)) }
}

/// The protocol knows a third line ending.
fn probe(rep: &mut Report, exe: &Path, home: &Path) {
    let mut s = match Server::start(exe, home, &[], json!({})) { Ok(s) => s, Err(g) => { let s = Server::spawn(exe, home); return gone(rep, &s, &g, "starting", Value::Null) } };
    s.open("file:///cr.mabo", "mod a {\rstruct A\n}\n");
    match s.request("textDocument/documentSymbol", json!({"textDocument": {"uri": "file:///cr.mabo"}})) {
        Ok(v) if v[0]["children"][0]["selectionRange"]["start"] == json!({"line": 1, "character": 7}) => rep.count("probes fine", 1),
        Ok(v) => rep.violation("probe:lone-cr", format!("with a carriage return as line ending, the struct on the second line is at {}", v[0]["children"][0]["selectionRange"]), json!({"text": "mod a {\rstruct A\n}\n"})),
        Err(g) => gone(rep, &s, &g, "symbols", Value::Null),
    }
}

/// Everything the server says about a document.
fn view(s: &mut Server, uri: &str, at: &[Value]) -> Result<Value, Gone> {
    let d = json!({"textDocument": {"uri": uri}});
    let symbols = s.request("textDocument/documentSymbol", d.clone())?;
    let tokens = s.request("textDocument/semanticTokens/full", d)?;
    let mut hover = Vec::new();
    for p in at { hover.push(s.request("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": p}))?); }
    Ok(json!({"diagnostics": s.latest(uri), "symbols": symbols, "tokens": tokens, "hover": hover}))
}

/// The diagnostics a text must have, as far as the references say.
fn verdict(t: &str, got: &Value, e: Enc, uri: &str) -> Option<String> {
    let Some(got) = got.as_array() else { return Some("no diagnostics were published".into()) };
    if got.len() > 1 { return Some(format!("{} diagnostics", got.len())); }
    for d in got { if let Err(x) = inside(t, &d["range"], e) { return Some(format!("a diagnostic lies outside the document: {x}: {d}")); } }
    for d in got {
        let Some(m) = d["message"].as_str().filter(|m| !m.trim().is_empty()) else { return Some(format!("a diagnostic without message: {d}")) };
        if m.contains('\u{1b}') && !t.contains('\u{1b}') { return Some(format!("a diagnostic with terminal codes: {d}")); }
        if !d["severity"].is_null() && d["severity"] != 1 { return Some(format!("a diagnostic that is no error: {d}")); }
    }
    match lenient::parse(t) {
        Err(lenient::Fail::At(_)) => { let Some(d) = got.first() else { return Some("no diagnostic for a text that is no schema".into()) }; misplaced(t, d, e) }
        Err(lenient::Fail::Deep) => got.first().and_then(|d| misplaced(t, d, e)),
        Ok((m, marks)) => {
            let l = locate(&m, &marks);
            let p = refcheck::validate(&l);
            if !matches!(guard(|| mp::Schema::parse(t, None).is_ok()), Ok(true)) { return None; }
            if p.is_empty() { return got.first().map(|d| format!("a valid schema gets {d}")); }
            let Some(d) = got.first() else { return Some(format!("no diagnostic despite {:?}", p[0])) };
            // the last location is the one at fault, an earlier one is related
            let fits = p.iter().any(|p| {
                let last = range(t, *p.at.last().unwrap(), e);
                let related = &d["relatedInformation"];
                let told = p.kind == "tuple" || p.about.iter().all(|a| d["message"].as_str().is_some_and(|m| m.contains(a.as_str())));
                d["range"] == last && told && if p.at.len() == 2 { related[0]["location"] == json!({"uri": uri, "range": range(t, p.at[0], e)}) && related.as_array().is_some_and(|r| r.len() == 1) } else { related.is_null() }
            });
            (!fits).then(|| format!("the diagnostic {d} is at none of the places of {p:?}"))
        }
    }
}

/// A diagnostic for a text that the parser rejects has to be where the parser locates its innermost cause.
fn misplaced(t: &str, d: &Value, e: Enc) -> Option<String> {
    let err = guard(|| mp::Schema::parse(t, None).err()).ok()??;
    fn walk(d: &dyn miette::Diagnostic, at: &mut Option<usize>) {
        if let Some(n) = d.to_string().strip_prefix("Parser error at offset ") { *at = n.parse().ok().or(*at); }
        if let Some(l) = d.labels() { for l in l { *at = Some(l.offset()); } }
        if let Some(r) = d.related() { for r in r { walk(r, at); } }
        if let Some(s) = d.diagnostic_source() { walk(s, at); }
    }
    let mut at = None;
    walk(&err, &mut at);
    let at = at.filter(|a| *a <= t.len())?;
    let want = range(t, (at, at), e)["start"].clone();
    (d["range"]["start"] != want).then(|| format!("the diagnostic {d} starts elsewhere than the error of the parser, at {want}"))
}

fn inside(t: &str, r: &Value, e: Enc) -> Result<(usize, usize), String> {
    let p = |v: &Value| offset(t, v["line"].as_u64().unwrap_or(u64::MAX >> 1) as usize, v["character"].as_u64().unwrap_or(u64::MAX >> 1) as usize, e);
    let (a, b) = (p(&r["start"])?, p(&r["end"])?);
    if a > b { return Err(format!("{r} is reversed")); }
    Ok((a, b))
}

// ------------------------------------------------------------------ C24

type Tok = (usize, usize, &'static str);

/// Tokens that names, types, identifiers, comments and literals have to get.
fn tokens(l: &LSchema, t: &str) -> Vec<Tok> {
    let mut out = Vec::new();
    defs(&l.defs, t, &mut out);
    out.sort_unstable();
    out
}

fn put(out: &mut Vec<Tok>, r: R, k: &'static str) { out.push((r.0, r.1, k)); }

fn ty_tokens(y: &LTy, out: &mut Vec<Tok>) {
    match &y.ty {
        Ty::Ext { .. } => {
            for p in &y.path { put(out, *p, "namespace"); }
            put(out, y.name, "type");
        }
        Ty::Tuple(_) | Ty::Array(..) => {}
        Ty::Vec(_) | Ty::Set(_) | Ty::Opt(_) | Ty::NonZero(_) | Ty::Map(..) => put(out, y.name, "builtinType"),
        _ => put(out, y.span, "builtinType"),
    }
    for k in &y.kids { ty_tokens(k, out); }
}

fn field_tokens(l: &[LField], out: &mut Vec<Tok>) {
    for f in l {
        for c in &f.comments { put(out, *c, "comment"); }
        if let Some(n) = f.name { put(out, n, "property"); }
        ty_tokens(&f.ty, out);
        if let Some(i) = f.id { put(out, i, "identifier"); }
    }
}

fn defs(l: &[LDef], t: &str, out: &mut Vec<Tok>) {
    for d in l {
        if !matches!(d.def, Def::Import(_)) { for c in &d.comments { put(out, *c, "comment"); } }
        put(out, d.kw, "keyword");
        for g in &d.generics { put(out, *g, "typeParameter"); }
        match &d.def {
            Def::Module(_) => { put(out, d.name, "namespace"); defs(&d.defs, t, out); }
            Def::Struct(_) => { put(out, d.name, "struct"); field_tokens(&d.fields, out); }
            Def::Enum(_) => {
                put(out, d.name, "enum");
                for v in &d.variants {
                    for c in &v.comments { put(out, *c, "comment"); }
                    put(out, v.name, "enumMember");
                    field_tokens(&v.fields, out);
                    if let Some(i) = v.id { put(out, i, "identifier"); }
                }
            }
            Def::Alias(_) => { put(out, d.name, "typeAlias"); ty_tokens(d.ty.as_ref().unwrap(), out); }
            Def::Const(c) => {
                put(out, d.name, "variable");
                ty_tokens(d.ty.as_ref().unwrap(), out);
                match c.value { Lit::Bool(_) => put(out, d.lit.unwrap(), "boolean"), Lit::Int(_) | Lit::Float(_) => put(out, d.lit.unwrap(), "number"), _ => {} }
            }
            Def::Import(_) => {
                for s in &d.segments { put(out, *s, "namespace"); }
                if let Some(e) = d.element { put(out, e, "type"); }
            }
        }
    }
}

const PUNCT: &[(&str, &[&str])] = &[("comma", &[","]), ("colon", &[":"]), ("semicolon", &[";"]), ("pound", &["#"]), ("doubleColon", &["::"]), ("equal", &["="]), ("brace", &["{", "}"]), ("bracket", &["[", "]"]), ("parenthesis", &["(", ")"]), ("angle", &["<", ">"])];

fn check_tokens(t: &str, l: &LSchema, marks: &[Mark], legend: &Value, got: &Value, e: Enc) -> Result<usize, String> {
    let data: Vec<usize> = got["data"].as_array().ok_or("no tokens")?.iter().map(|v| v.as_u64().unwrap() as usize).collect();
    let (mut line, mut col) = (0, 0);
    let mut found = Vec::new();
    let mut last = 0;
    for d in data.chunks(5) {
        line += d[0];
        col = if d[0] == 0 { col + d[1] } else { d[1] };
        let a = offset(t, line, col, e).map_err(|x| format!("a token starts outside the document: {x}"))?;
        let b = offset(t, line, col + d[2], e).map_err(|x| format!("a token ends outside its line: {x}"))?;
        if a < last { return Err(format!("the token at {line}:{col} overlaps the one before")); }
        last = b;
        let kind = legend["tokenTypes"][d[3]].as_str().ok_or_else(|| format!("unknown token type {}", d[3]))?;
        let known = legend["tokenModifiers"].as_array().map_or(0, Vec::len);
        if d[4] >> known != 0 { return Err(format!("unknown token modifiers {:b}", d[4])); }
        let mods: Vec<&str> = (0..known).filter(|i| d[4] >> i & 1 == 1).map(|i| legend["tokenModifiers"][i].as_str().unwrap()).collect();
        found.push((a, b, kind.to_string(), mods));
    }
    let want = tokens(l, t);
    let names: Vec<(usize, usize, String)> = found.iter().filter(|f| !PUNCT.iter().any(|p| p.0 == f.2)).map(|f| (f.0, f.1, f.2.clone())).collect();
    for (i, w) in want.iter().enumerate() {
        match names.get(i) {
            Some(n) if (n.0, n.1, n.2.as_str()) == *w => {}
            n => return Err(format!("{:?} should be a {} token at {}..{}, but next is {n:?} {:?}", &t[w.0..w.1], w.2, w.0, w.1, n.map(|n| &t[n.0..n.1]))),
        }
    }
    if let Some(n) = names.get(want.len()) { return Err(format!("a {} token that should not be: {:?}", n.2, &t[n.0..n.1])); }
    for (a, b, k, mods) in &found {
        if let Some(p) = PUNCT.iter().find(|p| p.0 == k) {
            if !p.1.contains(&&t[*a..*b]) { return Err(format!("a {k} token on {:?}", &t[*a..*b])); }
            if !marks.iter().any(|m| matches!(m.0, "punct" | "open" | "close") && (m.1, m.2) == (*a, *b)) { return Err(format!("a {k} token at {a}, where there is no such element")); }
        }
        // what is declared here says so
        let declared = names_declared(l).contains(&(*a, *b));
        if declared != mods.contains(&"declaration") { return Err(format!("the {k} token on {:?} has the modifiers {mods:?}", &t[*a..*b])); }
        if (k == "comment") != mods.contains(&"documentation") { return Err(format!("the {k} token on {:?} has the modifiers {mods:?}", &t[*a..*b])); }
    }
    Ok(found.len())
}

fn names_declared(l: &LSchema) -> Vec<R> {
    fn fields(f: &[LField], out: &mut Vec<R>) { out.extend(f.iter().filter_map(|f| f.name)); }
    fn go(l: &[LDef], out: &mut Vec<R>) {
        for d in l {
            if matches!(d.def, Def::Import(_)) { continue; }
            out.push(d.name);
            out.extend(&d.generics);
            fields(&d.fields, out);
            for v in &d.variants { out.push(v.name); fields(&v.fields, out); }
            go(&d.defs, out);
        }
    }
    let mut out = Vec::new();
    go(&l.defs, &mut out);
    out
}

fn symbol(t: &str, e: Enc, name: &str, kind: usize, at: R, kids: Vec<Value>) -> Value {
    json!({"name": name, "kind": kind, "selectionRange": range(t, at, e), "children": kids})
}

fn field_symbols(l: &[LField], t: &str, e: Enc) -> Vec<Value> {
    l.iter().enumerate().map(|(i, f)| match (&f.field.name, f.name) { (Some(n), Some(at)) => symbol(t, e, n, 7, at, vec![]), _ => symbol(t, e, &i.to_string(), 7, f.span, vec![]) }).collect()
}

fn symbols(l: &[LDef], t: &str, e: Enc) -> Vec<Value> {
    l.iter().map(|d| match &d.def {
        Def::Module(m) => symbol(t, e, &m.name, 2, d.name, symbols(&d.defs, t, e)),
        Def::Struct(s) => symbol(t, e, &s.name, 23, d.name, field_symbols(&d.fields, t, e)),
        Def::Enum(x) => symbol(t, e, &x.name, 10, d.name, d.variants.iter().map(|v| symbol(t, e, &v.variant.name, 22, v.name, field_symbols(&v.fields, t, e))).collect()),
        Def::Alias(a) => symbol(t, e, &a.name, 13, d.name, vec![]),
        Def::Const(c) => symbol(t, e, &c.name, 14, d.name, vec![]),
        Def::Import(i) => {
            let mut n = i.segments.join("::");
            let mut at = (d.segments[0].0, d.segments.last().unwrap().1);
            if let (Some(x), Some(r)) = (&i.element, d.element) { n.push_str("::"); n.push_str(x); at.1 = r.1; }
            symbol(t, e, &n, 1, at, vec![])
        }
    }).collect()
}

/// What the server sends, reduced to what is compared; ranges have to enclose the name and the children.
fn plain(t: &str, e: Enc, v: &Value) -> Result<Value, String> {
    let mut out = Vec::new();
    for s in v.as_array().map_or(&[][..], |v| v) {
        let (a, b) = inside(t, &s["range"], e)?;
        let (c, d) = inside(t, &s["selectionRange"], e)?;
        if c < a || d > b { return Err(format!("the name of the symbol {} is outside its range", s["name"])); }
        out.push(json!({"name": s["name"], "kind": s["kind"], "selectionRange": s["selectionRange"], "children": plain(t, e, &s["children"])?}));
    }
    Ok(json!(out))
}

/// What can be hovered: the location of its name, and the lines to be told.
struct Spot { at: R, what: String, comment: Vec<String>, next: Option<u32>, size: bool }

fn next_id(ids: impl Iterator<Item = Option<u32>>) -> u32 {
    let (mut next, mut max) = (1u32, None);
    for i in ids { let i = i.unwrap_or(next); next = i.saturating_add(1); max = max.max(Some(i)); }
    max.map_or(1, |m| m.saturating_add(1))
}

fn spots(l: &[LDef], out: &mut Vec<Spot>) {
    fn fields(l: &[LField], out: &mut Vec<Spot>) {
        for f in l { if let Some(at) = f.name { out.push(Spot { at, what: format!("field {:?}", f.field.name), comment: f.field.comment.clone(), next: None, size: true }); } }
    }
    let next = |f: &Fields| (!f.is_unit()).then(|| next_id(f.list().iter().map(|f| f.id)));
    for d in l {
        let (comment, n) = match &d.def {
            Def::Module(m) => (&m.comment, None),
            Def::Struct(s) => (&s.comment, next(&s.fields)),
            Def::Enum(e) => (&e.comment, Some(next_id(e.variants.iter().map(|v| v.id)))),
            Def::Alias(a) => (&a.comment, None),
            Def::Const(c) => (&c.comment, None),
            Def::Import(_) => continue,
        };
        out.push(Spot { at: d.name, what: format!("definition {}", d.def.name()), comment: comment.clone(), next: n, size: false });
        fields(&d.fields, out);
        for v in &d.variants {
            out.push(Spot { at: v.name, what: format!("variant {}", v.variant.name), comment: v.variant.comment.clone(), next: next(&v.variant.fields), size: false });
            fields(&v.fields, out);
        }
        spots(&d.defs, out);
    }
}

fn features(rep: &mut Report, r: &mut Rng, exe: &Path, home: &Path) {
    let (offers, enc) = offered(r);
    let mut on = (true, true);
    let mut s = Server::spawn(exe, home);
    if r.chance(1, 2) { on = (r.chance(1, 2), r.chance(1, 2)); s.settings = json!({"hover": {"showNextId": on.0, "showWireSize": on.1}}); } else if r.chance(1, 2) { s.settings = Value::Null; }
    let caps = json!({"general": if offers.is_empty() { json!({}) } else { json!({"positionEncodings": offers}) }, "workspace": settings_client()});
    let init = match s.initialize(json!({"capabilities": caps})) { Ok(i) => i, Err(g) => return gone(rep, &s, &g, "initialize", json!(null)) };
    if s.enc != enc { return rep.violation("encoding", format!("offered {offers:?}, the server chose {}", s.enc.name()), json!({"offered": offers})); }
    let legend = init["capabilities"]["semanticTokensProvider"]["legend"].clone();
    for n in 0..12 {
        if r.chance(1, 6) {
            on = (r.chance(1, 2), r.chance(1, 2));
            s.settings = json!({"hover": {"showNextId": on.0, "showWireSize": on.1}});
            s.notify("workspace/didChangeConfiguration", json!({"settings": null}));
        }
        let mut m = package(r, &Cfg { schemas: (1, 3), ..Cfg::accepted() }).schemas.pop().unwrap().1;
        spice(r, &mut m.defs);
        let bad = r.chance(1, 8) && plant::plant(r, &mut m) != "nothing";
        let layout = *r.pick(&LAYOUTS);
        let (text, marks) = render_marked(&m, layout, r);
        let l = locate(&m, &marks);
        let uri = format!("file:///f/{n}.mabo");
        let w = || json!({"text": text, "encoding": enc.name(), "settings": s_settings(on)});
        watch::begin(|| w().to_string());
        rep.case(w);
        s.open(&uri, &text);
        let d = json!({"textDocument": {"uri": uri}});
        let got = match s.request("textDocument/documentSymbol", d.clone()) { Ok(v) => v, Err(g) => return gone(rep, &s, &g, "symbols", w()) };
        rep.eval();
        rep.case_seen(&(&text, enc.name()));
        if let Some(x) = verdict(&text, s.latest(&uri).unwrap_or(&Value::Null), enc, &uri) { return rep.violation("diagnostics", x, w()); }
        if bad || !refcheck::validate(&l).is_empty() { rep.count("diagnostics of broken rules", 1); continue; }
        if !matches!(guard(|| mp::Schema::parse(&text, None).is_ok_and(|s| mc::validate_schema(&s).is_ok())), Ok(true)) { rep.count("not valid", 1); continue; }
        rep.count(&format!("documents in {}", enc.name()), 1);
        let want = json!(symbols(&l.defs, &text, enc));
        match plain(&text, enc, &got) {
            Err(x) => return rep.violation("symbol-range", x, w()),
            Ok(got) => if got != want { return rep.violation("symbols", format!("the symbols are {} instead of {}", clip(&got.to_string(), 700), clip(&want.to_string(), 700)), w()); }
        }
        rep.count("symbols compared", got.to_string().matches("\"selectionRange\"").count() as u64);
        let got = match s.request("textDocument/semanticTokens/full", d.clone()) { Ok(v) => v, Err(g) => return gone(rep, &s, &g, "tokens", w()) };
        match guard(|| check_tokens(&text, &l, &marks, &legend, &got, enc)) { Ok(Ok(n)) => rep.count("tokens compared", n as u64), Ok(Err(x)) => return rep.violation("tokens", x, w()), Err(p) => return rep.violation("tokens", format!("malformed tokens: {p}"), w()) }
        // hover: every name at one of its characters, and some other places
        let mut list = Vec::new();
        spots(&l.defs, &mut list);
        let mut at: Vec<(usize, Option<&Spot>)> = Vec::new();
        for x in &list { if r.chance(1, 2) { at.push((r.range(x.at.0, x.at.1 - 1), Some(x))); } if r.chance(1, 6) { at.push((x.at.0, Some(x))); at.push((x.at.1 - 1, Some(x))); } }
        for _ in 0..6 { let p = place(r, &text); at.push((p, list.iter().find(|x| (x.at.0..x.at.1).contains(&p)))); }
        for x in list.iter().take(3) { if x.at.1 < text.len() { at.push((x.at.1, list.iter().find(|y| y.at.0 == x.at.1))); } }
        for (p, x) in at {
            let (line, c) = pos(&text, p, enc);
            let got = match s.request("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": c}})) { Ok(v) => v, Err(g) => return gone(rep, &s, &g, "hover", w()) };
            let Some(x) = x else {
                if !got.is_null() { return rep.violation("hover-nowhere", format!("at {line}:{c} is no name, yet: {got}"), w()); }
                rep.count("hovers over nothing", 1);
                continue;
            };
            rep.count("hovers over names", 1);
            let mut want: String = x.comment.iter().map(|l| format!("{l}\n")).collect();
            if on.0 && let Some(n) = x.next { want.push_str(&format!("- next ID: `{n}`\n")); }
            let good = |got: &Value| {
                let tail = got["contents"]["value"].as_str().unwrap_or("").strip_prefix(want.as_str());
                got["range"] == range(&text, x.at, enc) && match tail { Some("") => !(x.size && on.1), Some(t) => x.size && on.1 && t.starts_with("### Wire size\n\n") && t.len() > 16, None => false }
            };
            if !good(&got) {
                // the server waits two seconds for its settings, which may be too short on a busy machine
                s.notify("workspace/didChangeConfiguration", json!({"settings": null}));
                let again = match s.request("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": c}})) { Ok(v) => v, Err(g) => return gone(rep, &s, &g, "hover", w()) };
                if good(&again) { rep.count("settings that came late", 1); continue; } return rep.violation("hover", format!("hovering {} at {line}:{c} gives {got}, expected range {} and {want:?}{}", x.what, range(&text, x.at, enc), if x.size && on.1 { " and a wire size" } else { "" }), w()); }
        }
        rep.sample_every(199, || json!({"encoding": enc.name(), "symbols": clip(&want.to_string(), 300), "hovered": list.len()}));
    }
    match s.stop() { Ok(Some(c)) if c.success() => {} Ok(c) => rep.violation("exit", format!("the server ended with {c:?}"), Value::Null), Err(g) => gone(rep, &s, &g, "shutdown", Value::Null) }
}

fn s_settings(on: (bool, bool)) -> Value { json!({"showNextId": on.0, "showWireSize": on.1}) }

// ------------------------------------------------------------------ C23


#[derive(Debug, Clone, PartialEq)]
enum Expect { Ok, Any, Error, Code(i64), Symbols(usize), Tokens(bool), Null }

/// What is known of a document: its definitions, or that it has none to show.
#[derive(Clone)]
struct Known { text: Option<String>, published: (usize, usize) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Replies { AtOnce, After(usize), Error, Shape, Stranger, Never }

fn hostile(r: &mut Rng) -> String {
    let n = *r.pick(&[70, 300, 3000, 40_000]);
    match r.below(9) {
        0 => format!("struct A {{ a: {}u8{} @1 }}", "vec<".repeat(n), ">".repeat(n)),
        1 => format!("{}{}", "mod a {\n".repeat(n), "}\n".repeat(n)),
        2 => "\0".repeat(n),
        3 => format!("/// {}\nstruct A\n", "😀".repeat(n)),
        4 => format!("struct A {{ a: {}", "(".repeat(n)),
        5 => "\r\n".repeat(n),
        6 => format!("#[{}]\nstruct A\n", "a(".repeat(n)),
        7 => (0..n.min(3000)).map(|i| format!("struct A{i} {{ a: u8 @1 }}\n")).collect(),
        _ => texts::noise(r),
    }
}

/// Top-level symbols and whether tokens exist, or nothing if the text is no schema the server accepts.
fn shown(t: &str) -> Option<(usize, bool)> {
    guard(|| mp::Schema::parse(t, None).ok().filter(|s| mc::validate_schema(s).is_ok()).map(|s| (s.definitions.len(), !s.definitions.is_empty()))).ok().flatten()
}

fn folders(r: &mut Rng, home: &Path) -> Value {
    let mut list = Vec::new();
    for i in 0..r.range(1, 3) {
        let d = home.join(format!("folder{i}"));
        let _ = fs::remove_dir_all(&d);
        let uri = format!("file://{}", d.display());
        match r.below(6) {
            0 => list.push(json!({"uri": format!("{uri}/nowhere"), "name": "n"})),
            1 => list.push(json!({"uri": "untitled:x", "name": "u"})),
            k => {
                fs::create_dir_all(d.join("schemas")).unwrap();
                fs::write(d.join("Mabo.toml"), if k == 2 { "[package\nname=".to_string() } else { "[package]\nname = \"p\"\nfiles = [\"schemas/*.mabo\"]\n".to_string() }).unwrap();
                for j in 0..r.range(0, 3) { let t = match r.below(3) { 0 => hostile(r).into_bytes(), 1 => vec![0xff, 0xfe, b's'], _ => text(r).into_bytes() }; fs::write(d.join(format!("schemas/s{j} x.mabo")), t).unwrap(); }
                list.push(json!({"uri": uri, "name": "p"}));
            }
        }
    }
    json!(list)
}

fn protocol(rep: &mut Report, r: &mut Rng, exe: &Path, home: &Path) {
    let over_tcp = r.chance(1, 4);
    let mut s = if over_tcp { match Server::spawn_tcp(exe, home) { Ok(s) => s, Err(e) => return rep.violation("server-exit", e, json!({"socket": true})) } } else { Server::spawn(exe, home) };
    rep.count(if over_tcp { "sessions over a socket" } else { "sessions over stdio" }, 1);
    rep.eval();
    let (offers, _) = offered(r);
    let policy = match r.below(24) { 0 => Replies::Never, 1..=6 => Replies::After(r.range(1, 12)), 7 | 8 => Replies::Error, 9 | 10 => Replies::Shape, 11..=13 => Replies::Stranger, _ => Replies::AtOnce };
    rep.count(&format!("replies {}", match policy { Replies::After(_) => "delayed", Replies::AtOnce => "at once", Replies::Error => "with errors", Replies::Shape => "of the wrong shape", Replies::Stranger => "after strangers", Replies::Never => "never" }), 1);
    s.obedient = false;
    let mut log: Vec<Value> = vec![json!({"policy": format!("{policy:?}"), "socket": over_tcp})];
    let mut due: Vec<(Value, Expect)> = Vec::new();
    let mut n = 0;
    let header = |r: &mut Rng| if r.chance(1, 8) { "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n" } else { "" };
    watch::begin(String::new);
    macro_rules! fail { ($sig:expr, $($t:tt)*) => {{ let t = format!($($t)*); return rep.violation($sig, t, json!(log)) }} }
    macro_rules! put { ($v:expr) => {{ let v = $v; let t = v.to_string(); log.push(if t.len() > 3000 { json!(clip(&t, 3000)) } else { v.clone() }); let h = header(r); s.send_raw(h, &v); }} }
    let mut new_id = |r: &mut Rng| { n += 1; match r.below(5) { 0 => json!(format!("id-{n}")), 1 => json!(format!("é{n}")), 2 => json!(-n), _ => json!(n) } };
    macro_rules! ask { ($m:expr, $p:expr, $e:expr) => {{ let id = new_id(r); let mut v = json!({"jsonrpc": "2.0", "id": id, "method": $m}); if let Some(p) = $p { v["params"] = p; } due.push((id, $e)); put!(v); }} }
    // before the handshake
    for _ in 0..r.below(4) {
        match r.below(4) {
            0 => ask!("textDocument/hover", Some(json!({})), Expect::Code(-32002)),
            1 => ask!("shutdown", None::<Value>, Expect::Code(-32002)),
            2 => put!(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": "file:///early.mabo", "languageId": "mabo", "version": 1, "text": "struct A\n"}}})),
            _ => { let p = r.pick(&[json!({}), json!([]), json!({"capabilities": 5}), json!({"capabilities": {"general": {"positionEncodings": "utf-8"}}}), json!({"capabilities": {}, "workspaceFolders": [{"uri": "file:///x"}]})]).clone(); ask!("initialize", Some(p), Expect::Code(-32602)) }
        }
    }
    let mut p = json!({"processId": std::process::id(), "capabilities": {}});
    if !offers.is_empty() { p["capabilities"]["general"] = json!({"positionEncodings": offers}); }
    let settings = r.chance(2, 3);
    if settings { p["capabilities"]["workspace"] = settings_client(); }
    if r.chance(1, 3) { p["workspaceFolders"] = folders(r, home); rep.count("sessions with workspace folders", 1); }
    // some clients don't wait for the answer to be polite
    ask!("initialize", Some(p), Expect::Ok);
    let init = due.last().unwrap().0.clone();
    if r.chance(1, 2) { while !s.seen.iter().any(|v| v["id"] == due.last().unwrap().0 && v.get("method").is_none()) { match s.receive(Duration::from_secs(PATIENCE)) { Ok(Some(_)) => {} Ok(None) => fail!("server-silent", "no answer to initialize"), Err(g) => return gone(rep, &s, &g, "initialize", json!(log)) } } }
    put!(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));

    let mut docs: BTreeMap<String, Known> = BTreeMap::new();
    let names = ["file:///a.mabo", "file:///b%20c.mabo", "untitled:Untitled-1"];
    let mut waiting = 0;
    let steps = r.range(5, 60);
    for _ in 0..steps {
        let uri = *r.pick(&names);
        let known = docs.get(uri).cloned();
        let doc = json!({"uri": uri});
        match r.below(20) {
            0..=2 => {
                let t = if r.chance(1, 3) { hostile(r) } else { text(r) };
                let old = known.map_or((0, 0), |k| k.published);
                docs.insert(uri.into(), Known { text: Some(t.clone()), published: (old.0 + 1, old.1 + 1) });
                put!(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": t}}}));
                rep.count("opens", 1);
            }
            3 | 4 => {
                // a full text
                let t = if r.chance(1, 4) { hostile(r) } else { text(r) };
                let old = known.map_or((0, 0), |k| k.published);
                docs.insert(uri.into(), Known { text: Some(t.clone()), published: (old.0 + 1, old.1 + 1) });
                put!(json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": t}]}}));
                rep.count("changes", 1);
            }
            5 | 6 => {
                // any edit at all: reversed, outside, inside of characters, of unknown documents
                let num = |r: &mut Rng| *r.pick(&[0u32, 0, 1, 2, 3, 7, 40, 1000, 0x7fff_ffff, u32::MAX]);
                let mut list = Vec::new();
                for _ in 0..r.range(0, 3) { list.push(json!({"range": {"start": {"line": num(r), "character": num(r)}, "end": {"line": num(r), "character": num(r)}}, "text": r.pick(BITS)})); }
                let old = known.map_or((0, 0), |k| k.published);
                if old.1 > 0 { docs.insert(uri.into(), Known { text: None, published: (old.0, old.1 + 1) }); }
                put!(json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": 2}, "contentChanges": list}}));
                rep.count("hostile changes", 1);
            }
            7 => { put!(json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": doc}})); if let Some(k) = docs.get_mut(uri) { k.text = None; } }
            8 => put!(json!({"jsonrpc": "2.0", "method": r.pick(&["$/cancelRequest", "$/setTrace", "textDocument/didSave", "foo/bar", ""]), "params": {"id": 1, "value": "off"}})),
            9 => { let m = *r.pick(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "workspace/didDeleteFiles"]); let p = r.pick(&[Value::Null, json!([]), json!({}), json!({"textDocument": 5}), json!({"textDocument": {"uri": "a b"}}), json!({"textDocument": {"uri": uri, "version": "x"}, "contentChanges": 3}), json!({"files": "all"})]).clone(); put!(json!({"jsonrpc": "2.0", "method": m, "params": p})); rep.count("malformed notifications", 1); }
            10 => put!(json!({"jsonrpc": "2.0", "id": r.pick(&[json!(900), json!("x"), json!(1), json!(2)]), "result": null})),
            11 => { if policy != Replies::Never || r.chance(1, 3) { put!(json!({"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration", "params": {"settings": {}}})); rep.count("configuration changes", 1); } }
            12 => { let m = *r.pick(&["textDocument/completion", "workspace/symbol", "textDocument/semanticTokens/range", "textDocument/documentSymbols", "", "$/x", "foo"]); ask!(m, Some(json!({"textDocument": doc})), Expect::Code(-32601)) }
            13 => {
                let m = *r.pick(&["textDocument/hover", "textDocument/documentSymbol", "textDocument/semanticTokens/full"]);
                let p = r.pick(&[None, Some(json!([])), Some(json!({})), Some(json!({"textDocument": {}})), Some(json!({"textDocument": {"uri": 4}, "position": {"line": 0, "character": 0}})), Some(json!({"textDocument": {"uri": "no uri\n"}, "position": {"line": 0, "character": 0}}))]).clone();
                ask!(m, p, Expect::Code(-32602));
                if m == "textDocument/hover" { ask!(m, Some(r.pick(&[json!({"textDocument": doc, "position": {"line": -1, "character": 0}}), json!({"textDocument": doc}), json!({"textDocument": doc, "position": {"line": 4294967296u64, "character": 0}})]).clone()), Expect::Code(-32602)); }
            }
            14 => ask!("initialize", Some(json!({"capabilities": {}})), Expect::Error),
            15 => { let num = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 3, 7, 9, 40, 1000, u32::MAX]); let e = if known.is_none() { Expect::Null } else { Expect::Any }; ask!("textDocument/hover", Some(json!({"textDocument": doc, "position": {"line": num(r), "character": num(r)}})), e) }
            k => {
                let t = match &known { None => Some(Some((0, false))), Some(Known { text: None, .. }) => None, Some(Known { text: Some(t), .. }) => Some(shown(t).or(Some((0, false)))) };
                let t = t.flatten();
                if k < 18 { ask!("textDocument/documentSymbol", Some(json!({"textDocument": doc})), t.map_or(Expect::Any, |t| Expect::Symbols(t.0))); }
                else { ask!("textDocument/semanticTokens/full", Some(json!({"textDocument": doc})), t.map_or(Expect::Any, |t| Expect::Tokens(t.1))); }
            }
        }
        // what the server sent meanwhile
        while let Ok(Some(_)) = s.receive(Duration::ZERO) {}
        if !s.asked.is_empty() { waiting += 1; }
        if let Replies::After(k) = policy && waiting <= k { continue; }
        waiting = 0;
        for q in s.asked.drain(..).collect::<Vec<_>>() { answer(r, &mut s, policy, &q, &mut log); }
    }
    // the end
    let end = r.below(6);
    let stopped = match end { 0 | 1 | 2 => true, 3 => r.chance(1, 2), _ => false };
    if stopped {
        ask!("shutdown", None::<Value>, Expect::Ok);
        for _ in 0..r.below(4) {
            match r.below(3) { 0 => ask!("shutdown", None::<Value>, Expect::Code(-32600)), 1 => ask!("textDocument/hover", Some(json!({})), Expect::Code(-32600)), _ => put!(json!({"jsonrpc": "2.0", "method": "foo/bar"})) }
        }
    }
    // everything has to be answered, once
    let limit = Instant::now() + Duration::from_secs(PATIENCE);
    let policy = if let Replies::After(_) = policy { Replies::AtOnce } else { policy };
    loop {
        for q in s.asked.drain(..).collect::<Vec<_>>() { answer(r, &mut s, policy, &q, &mut log); }
        let answered = |id: &Value, s: &Server| s.seen.iter().any(|v| v["id"] == *id && v.get("method").is_none());
        let missing = due.iter().filter(|d| !answered(&d.0, &s)).count();
        let late = docs.iter().filter(|(u, k)| s.published.get(*u).map_or(0, Vec::len) < k.published.0).count();
        if missing == 0 && late == 0 && (due.len() > 1 || s.seen.len() > 3) { break; }
        if Instant::now() > limit { let (id, e) = due.iter().find(|d| !answered(&d.0, &s)).cloned().unwrap_or((Value::Null, Expect::Any)); fail!("unanswered", "{missing} of {} requests without an answer, first {id} (expecting {e:?}); {late} documents without their diagnostics", due.len()); }
        match s.receive(Duration::from_millis(if missing == 0 && late == 0 { 30 } else { 500 })) { Ok(None) if missing == 0 && late == 0 => break, Ok(_) => {} Err(g) => return gone(rep, &s, &g, "while requests were open", json!(log)) }
    }
    let fate = if stopped { "shutdown" } else { "no shutdown" };
    // a request after all of it shows that nothing more comes for the earlier ones
    if !stopped { s.obedient = true; for q in s.asked.drain(..).collect::<Vec<_>>() { let a = s.reply(&q); s.send(&a); } if let Err(g) = s.request("textDocument/documentSymbol", json!({"textDocument": {"uri": "file:///nothing"}})) { return gone(rep, &s, &g, "a last request", json!(log)); } }
    // what is announced is served, and the other way round
    let caps = s.seen.iter().find(|v| v["id"] == init && v.get("method").is_none()).map_or(Value::Null, |v| v["result"]["capabilities"].clone());
    if let Some(x) = unannounced(&caps) { fail!("capabilities", "the server doesn't announce {x}: {caps}"); }
    if settings && !s.seen.iter().any(|v| v["method"] == "client/registerCapability" && v["params"]["registrations"].as_array().is_some_and(|l| l.iter().any(|x| x["method"] == "workspace/didChangeConfiguration" && x["id"].is_string()))) { fail!("capabilities", "the server doesn't register for changed settings"); }
    if !stopped {
        let doc = json!({"textDocument": {"uri": names[0]}, "position": {"line": 0, "character": 0}, "range": range("struct A\n", (0, 8), s.enc), "context": {"diagnostics": []}, "query": "", "previousResultId": "", "newName": "b", "options": {"tabSize": 4, "insertSpaces": true}, "ch": "\n"});
        for m in announced(&caps) {
            match s.request(m, doc.clone()) { Ok(_) => rep.count("announced requests served", 1), Err(g) => return gone(rep, &s, &g, &format!("the announced request {m}"), json!(log)) }
        }
    }
    for (id, e) in &due {
        let l: Vec<&Value> = s.seen.iter().filter(|v| v["id"] == *id && v.get("method").is_none()).collect();
        if l.len() != 1 { fail!("answers", "{} answers to the request {id}", l.len()); }
        let v = l[0];
        let code = v["error"]["code"].as_i64();
        let has = v.get("result").is_some();
        let good = match e {
            Expect::Ok => code.is_none() && has,
            Expect::Any => has != code.is_some(),
            Expect::Error => code.is_some(),
            Expect::Code(c) => code == Some(*c),
            Expect::Symbols(n) => v["result"].as_array().is_some_and(|l| l.len() == *n),
            Expect::Tokens(some) => v["result"]["data"].as_array().is_some_and(|l| l.is_empty() != *some),
            Expect::Null => has && v["result"].is_null() && code.is_none(),
        };
        if !good { fail!("answer", "the request {id} should be answered by {e:?}, but got {}", clip(&v.to_string(), 300)); }
        rep.count(&format!("answered by {}", match e { Expect::Code(c) => format!("{c}"), Expect::Symbols(0) => "no symbols".into(), Expect::Symbols(_) => "symbols".into(), Expect::Tokens(_) => "tokens".into(), e => format!("{e:?}") }), 1);
    }
    if let Some(v) = s.seen.iter().find(|v| v.get("broken").is_some()) { fail!("malformed", "the server sent {v}"); }
    let known = |id: &Value| due.iter().any(|d| d.0 == *id) || id.as_i64().is_some_and(|i| i > 1_000_000 && i <= s.issued() && !stopped);
    if let Some(v) = s.seen.iter().find(|v| v.get("method").is_none() && !known(&v["id"])) { fail!("answers", "an answer to nothing: {v}"); }
    for (u, k) in &docs {
        let l = s.published.get(u).map_or(&[][..], |l| l);
        if l.len() < k.published.0 || l.len() > k.published.1 { fail!("published", "{} publications for {u} instead of {:?}", l.len(), k.published); }
        rep.count("publications", l.len() as u64);
        if let (Some(t), Some(d)) = (&k.text, l.last()) && let Some(x) = verdict(t, d, s.enc, u) { fail!("verdict", "the last diagnostics of {u}: {x}"); }
    }
    if let Some(u) = s.published.keys().find(|u| !docs.contains_key(*u)) { fail!("published", "diagnostics for {u}, which was never opened"); }
    rep.case_seen(&(log.len(), due.len(), fate, log.last().map(Value::to_string)));
    // and the process has to end
    let clean = if end % 2 == 0 || stopped && r.chance(1, 2) { s.notify("exit", Value::Null); true } else { s.close_input(); false };
    rep.count(&format!("ends by {} after {fate}", if clean { "exit" } else { "closing the connection" }), 1);
    let Some(c) = s.exited(PATIENCE) else { fail!("lingers", "the server doesn't end after {fate} and {}", if clean { "exit" } else { "the end of its input" }) };
    if clean && c.code() != Some(i32::from(!stopped)) { fail!("status", "after {fate} and exit, the server ends with {c}"); }
    if c.code().is_none() || s.words().contains("panicked at") { fail!("crash", "the server crashed: {c}, {}", s.words()); }
    rep.sample_every(97, || json!({"steps": steps, "requests": due.len(), "messages": s.seen.len(), "end": fate}));
}

fn settings_client() -> Value { json!({"configuration": true, "didChangeConfiguration": {"dynamicRegistration": true}}) }

fn on(v: &Value) -> bool { !v.is_null() && v != false }

/// A feature that the server has, but that no client would use, because it is not told.
fn unannounced(c: &Value) -> Option<&'static str> {
    let sync = &c["textDocumentSync"];
    let kind = if sync.is_object() { if sync["openClose"] != true { return Some("that documents are opened and closed"); } &sync["change"] } else { sync };
    if *kind != 2 { return Some("incremental changes"); }
    for (k, what) in [("hoverProvider", "hovers"), ("documentSymbolProvider", "symbols")] { if !on(&c[k]) { return Some(what); } }
    let t = &c["semanticTokensProvider"];
    if !on(&t["full"]) || !t["legend"]["tokenTypes"].as_array().is_some_and(|l| !l.is_empty()) { return Some("tokens"); }
    let del = &c["workspace"]["fileOperations"]["didDelete"]["filters"];
    if !del.as_array().is_some_and(|l| l.iter().any(|f| (f["scheme"].is_null() || f["scheme"] == "file") && f["pattern"]["glob"].as_str().is_some_and(|g| ["**/*.mabo", "**/*", "**"].contains(&g)) && f["pattern"]["matches"] != "folder")) { return Some("deletions of schema files"); }
    None
}

/// The requests that clients may send after such an announcement.
fn announced(c: &Value) -> Vec<&'static str> {
    let t = &c["semanticTokensProvider"];
    let mut out: Vec<&'static str> = [
        ("hoverProvider", "textDocument/hover"), ("documentSymbolProvider", "textDocument/documentSymbol"), ("completionProvider", "textDocument/completion"), ("definitionProvider", "textDocument/definition"),
        ("declarationProvider", "textDocument/declaration"), ("typeDefinitionProvider", "textDocument/typeDefinition"), ("implementationProvider", "textDocument/implementation"), ("referencesProvider", "textDocument/references"),
        ("documentHighlightProvider", "textDocument/documentHighlight"), ("codeActionProvider", "textDocument/codeAction"), ("codeLensProvider", "textDocument/codeLens"), ("documentLinkProvider", "textDocument/documentLink"),
        ("documentFormattingProvider", "textDocument/formatting"), ("documentRangeFormattingProvider", "textDocument/rangeFormatting"), ("renameProvider", "textDocument/rename"), ("foldingRangeProvider", "textDocument/foldingRange"),
        ("selectionRangeProvider", "textDocument/selectionRange"), ("signatureHelpProvider", "textDocument/signatureHelp"), ("workspaceSymbolProvider", "workspace/symbol"), ("inlayHintProvider", "textDocument/inlayHint"), ("diagnosticProvider", "textDocument/diagnostic"),
    ].into_iter().filter(|x| on(&c[x.0])).map(|x| x.1).collect();
    if on(&t["range"]) { out.push("textDocument/semanticTokens/range"); }
    if on(&t["full"]) { out.push("textDocument/semanticTokens/full"); }
    if on(&t["full"]["delta"]) { out.push("textDocument/semanticTokens/full/delta"); }
    out
}

fn answer(r: &mut Rng, s: &mut Server, policy: Replies, q: &Value, log: &mut Vec<Value>) {
    let mut v = s.reply(q);
    match policy {
        Replies::Never => return,
        Replies::Error => v = json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32603, "message": "no"}}),
        Replies::Shape => v["result"] = r.pick(&[json!([]), json!([{}, {}]), json!("x"), json!([5]), json!([{"hover": {"showNextId": 1}}]), json!({"hover": null}), json!([[[]]])]).clone(),
        Replies::Stranger => { let x = json!({"jsonrpc": "2.0", "id": r.pick(&[json!(77), json!("s"), json!(-1)]), "result": [{"hover": 1}]}); log.push(x.clone()); s.send(&x); }
        _ => {}
    }
    log.push(v.clone());
    s.send(&v);
}
