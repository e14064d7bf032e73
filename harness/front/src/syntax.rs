//! C09, C10, C11: parser and formatter.
use mabo_parser as mp;
use miette::Diagnostic;
use mvcore::{generate::{Cfg, package}, lenient::{self, Fail}, model::*, out::{Report, clip}, render::{Layout, Mark, render_marked}, rng::Rng, watch};
use serde_json::json;

use crate::{Run, conv, guard, texts};

pub const LAYOUTS: [Layout; 4] = [Layout::Canon, Layout::Min, Layout::Wild, Layout::WildCrlf];

/// Equal up to the sign of zero.
pub fn same(a: &Schema, b: &Schema) -> bool { a == b && format!("{a:?}") == format!("{b:?}") }

pub fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
    let from = |s: &str| { let mut i = n.saturating_sub(60).min(s.len()); while !s.is_char_boundary(i) { i -= 1; } clip(&s[i..], 200) };
    format!("`{}` instead of `{}`", from(b), from(a))
}

pub fn mark_diff(text: &str, want: &[Mark], got: &[Mark]) -> Option<String> {
    let show = |m: Option<&Mark>| m.map_or("nothing".to_string(), |m| format!("{} {}..{} {:?}", m.0, m.1, m.2, text.get(m.1..m.2)));
    (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).map(|i| format!("the tree locates {} where the text has {}", show(got.get(i)), show(want.get(i))))
}

fn labels(d: &dyn Diagnostic, f: &mut impl FnMut(usize, usize)) {
    if let Some(l) = d.labels() { for l in l { f(l.offset(), l.len()); } }
    if let Some(r) = d.related() { for r in r { labels(r, f); } }
    if let Some(s) = d.diagnostic_source() { labels(s, f); }
}

fn render_error(e: impl Diagnostic + Send + Sync + 'static) -> String { format!("{:?}", miette::Report::new(e)) }

pub fn run(run: &Run, rep: &mut Report, prop: &str) {
    if prop == "C09" { nests(run, rep); foreign(run, rep); }
    if prop == "C11" { probes(rep, run); }
    let mut round = 0;
    let mut last = String::new();
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("syntax/{}", run.index), round);
        round += 1;
        let cfg = Cfg { odd: true, ..if r.chance(1, 2) { Cfg::grammar() } else { Cfg::accepted() } };
        for (_, s) in package(&mut r, &cfg).schemas {
            for layout in LAYOUTS {
                let (text, marks) = render_marked(&s, layout, &mut r);
                written(rep, prop, &s, &text, &marks, layout);
                if prop == "C11" { continue; }
                let n = if layout == Layout::Canon { 12 } else { 4 };
                for _ in 0..n { let m = texts::mutate(&mut r, &text, &last); any(rep, prop, &m, "mutation"); }
                last = text;
            }
        }
        if prop != "C11" {
            for _ in 0..20 { let t = texts::soup(&mut r); any(rep, prop, &t, "soup"); }
            for _ in 0..10 { let t = texts::noise(&mut r); any(rep, prop, &t, "noise"); }
            let t = texts::nest(r.pick(texts::NESTS), 24);
            for _ in 0..3 { let m = texts::mutate(&mut r, &t, &last); any(rep, prop, &m, "mutation"); }
        }
    }
}

/// A text that was written from a model.
fn written(rep: &mut Report, prop: &str, s: &Schema, text: &str, marks: &[Mark], layout: Layout) {
    watch::begin(|| text.to_string());
    rep.case(|| json!({"text": text}));
    rep.eval();
    rep.case_seen(text);
    rep.count(&format!("schemas in {layout:?} layout"), 1);
    let w = || json!({"text": text});
    // the reader is checked against the writer as well
    match lenient::parse(text) {
        Ok((m, l)) if same(s, &m) => if let Some(d) = mark_diff(text, marks, &l) { panic!("harness: {d}\n{text}") },
        x => panic!("harness: {x:?}\n{s:?}\n{text}"),
    }
    let parsed = match guard(|| mp::Schema::parse(text, None)) {
        Err(p) => return rep.violation("parser-panic", format!("parsing panics: {p}"), w()),
        Ok(Err(e)) => { return rep.violation("rejected", format!("a well-formed schema is rejected: {e}: {}", clip(text, 400)), w()); }
        Ok(Ok(p)) => p,
    };
    let (got, got_marks) = conv::schema(&parsed);
    if !same(s, &got) { return rep.violation("content", format!("the tree differs from the text: {}", diff(&format!("{s:?}"), &format!("{got:?}"))), w()); }
    if prop != "C11" {
        rep.count("locations compared", marks.len() as u64);
        if let Some(d) = mark_diff(text, marks, &got_marks) { rep.violation("location", d, w()); }
        rep.sample_every(997, || json!({"text": clip(text, 400), "locations": marks.len()}));
    } else {
        format_twice(rep, s, &parsed, text);
    }
}

fn format_twice(rep: &mut Report, s: &Schema, parsed: &mp::Schema<'_>, text: &str) {
    let w = |t: &str| json!({"text": text, "formatted": t});
    let one = match guard(|| parsed.to_string()) { Ok(t) => t, Err(p) => return rep.violation("format-panic", format!("formatting panics: {p}"), w("")) };
    rep.count("bytes formatted", one.len() as u64);
    let again = match guard(|| mp::Schema::parse(&one, None)) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return rep.violation("format-invalid", format!("formatted text is rejected: {e}: {}", clip(&one, 600)), w(&one)),
        Err(p) => return rep.violation("parser-panic", p, w(&one)),
    };
    let m = conv::model(&again);
    if !same(s, &m) { return rep.violation("format-content", format!("formatting changes the content: {}", diff(&format!("{s:?}"), &format!("{m:?}"))), w(&one)); }
    let two = again.to_string();
    if one != two { rep.violation("format-unstable", format!("formatting formatted text changes it: {}", diff(&one, &two)), w(&one)); }
    rep.sample_every(997, || json!({"text": clip(text, 300), "formatted": clip(&one, 300)}));
}

/// Any text at all.
fn any(rep: &mut Report, prop: &str, text: &str, kind: &str) {
    watch::begin(|| text.to_string());
    rep.case(|| json!({"text": text}));
    rep.eval();
    rep.case_seen(text);
    let w = || json!({"text": text});
    match guard(|| mp::Schema::parse(text, None)) {
        Err(p) => rep.violation("parser-panic", format!("parsing panics: {p}: {}", clip(text, 300)), w()),
        Ok(Ok(s)) => {
            rep.count(&format!("{kind}: accepted"), 1);
            let (got, marks) = conv::schema(&s);
            match lenient::parse(text) {
                Err(Fail::Deep) => rep.count("too deep for the reference", 1),
                Err(Fail::At(n)) => rep.violation("accepted", format!("text that is no schema (from byte {n}) is accepted: {}", clip(text, 500)), w()),
                Ok((want, want_marks)) => {
                    if !same(&want, &got) { rep.violation("content", format!("the tree differs from the text: {}", diff(&format!("{want:?}"), &format!("{got:?}"))), w()); }
                    else if prop == "C10" { if let Some(d) = mark_diff(text, &want_marks, &marks) { rep.violation("location", d, w()); } }
                }
            }
        }
        Ok(Err(e)) => {
            rep.count(&format!("{kind}: rejected"), 1);
            if prop != "C09" { return; }
            let mut bad = None;
            let mut n = 0;
            labels(&e, &mut |offset, len| { n += 1; if offset + len > text.len() { bad = Some((offset, len)); } });
            rep.count("labels checked", n);
            if let Some((o, l)) = bad { rep.violation("label-outside", format!("a label at {o}+{l} lies outside the text of {} bytes: {}", text.len(), clip(text, 300)), w()); }
            match guard(|| render_error(e)) {
                Ok(t) if !t.is_empty() && !t.contains("OutOfBounds") => rep.count("diagnostics rendered", 1),
                Ok(t) => rep.violation("render", format!("the error can't be rendered: {t:?}"), w()),
                Err(p) => rep.violation("render-panic", format!("rendering the error panics: {p}"), w()),
            }
        }
    }
}

/// Long and deep texts, within reason.
fn nests(run: &Run, rep: &mut Report) {
    for (i, kind) in texts::NESTS.iter().enumerate() {
        if i as u64 % 8 != run.index % 8 { continue; }
        for n in [1, 3, 10, 30, 60, 120, 1000] {
            if n > 120 && !matches!(*kind, "string" | "comments" | "fields" | "variants" | "imports") { continue; }
            let t = texts::nest(kind, n);
            rep.count("nested and long texts", 1);
            any(rep, "C10", &t, kind);
            any(rep, "C09", &t, kind);
            let mut cut = t.len() / 2; while !t.is_char_boundary(cut) { cut -= 1; }
            any(rep, "C09", &t[..cut], kind);
        }
    }
    // far deeper than any stack; in a process of its own
    if run.index != 0 { return; }
    for kind in texts::NESTS {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).env("MV_DEEP", kind).output().unwrap();
        rep.eval();
        rep.count("absurdly deep texts", 1);
        if !out.status.success() { rep.violation(&format!("deep:{kind}"), format!("parsing `{kind}` nested 200000 times ends the process: {}", out.status), json!({"kind": kind, "stderr": clip(&String::from_utf8_lossy(&out.stderr), 300)})); }
    }
}

pub fn deep(kind: &str) {
    let t = texts::nest(kind, 200_000);
    if let Err(e) = mp::Schema::parse(&t, None) { std::hint::black_box(e.to_string()); }
    // taking the tree apart is recursive, too, but not part of parsing
    std::process::exit(0);
}

/// Bytes that are not UTF-8.
fn foreign(run: &Run, rep: &mut Report) {
    let mut r = Rng::new(run.seed, "foreign", run.index);
    for _ in 0..200 {
        let mut b = texts::soup(&mut r).into_bytes();
        for _ in 0..r.range(0, 3) { let i = r.range(0, b.len()); b.insert(i, r.range(128, 255) as u8); }
        rep.eval();
        let valid = std::str::from_utf8(&b).is_ok();
        match guard(|| mp::from_slice(&b, None).map(|_| ()).map_err(|e| format!("{e:?}"))) {
            Err(p) => rep.violation("parser-panic", p, json!({"bytes": mvcore::out::hex(&b)})),
            Ok(Ok(())) if !valid => rep.violation("accepted", "bytes that are not UTF-8 are accepted", json!({"bytes": mvcore::out::hex(&b)})),
            _ => {}
        }
    }
}

/// What a text says but its tree has no place for.
fn probes(rep: &mut Report, run: &Run) {
    if run.index != 0 { return; }
    for (name, text, needle) in [
        ("import-comment", "/// about\nuse a::B;\n", "/// about"),
        ("module-attribute", "#[x]\nmod a {\n}\n", "#[x]"),
        ("alias-attribute", "#[x]\ntype A = u8;\n", "#[x]"),
        ("const-attribute", "#[x]\nconst A: u8 = 1;\n", "#[x]"),
        ("import-attribute", "#[x]\nuse a::B;\n", "#[x]"),
    ] {
        rep.eval();
        let Ok(s) = mp::Schema::parse(text, None) else { continue };
        if !s.to_string().contains(needle) { rep.violation(&format!("probe:{name}"), format!("formatting {text:?} drops {needle:?}"), json!({"text": text})); }
    }
}
