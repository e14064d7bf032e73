//! C18: the generated documentation against the model.
use std::collections::{BTreeMap, BTreeSet};

use mabo_compiler as mc;
use mabo_doc::Output;
use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, model::*, out::{Report, clip}, render::{canon, render, ty_text}, rng::Rng, watch};
use serde_json::json;

use crate::{Run, guard, html::{self, Node}, simple, syntax::LAYOUTS};

/// Comment lines that contain markup or mean something in Markdown; `$` becomes a word to look for.
const LINES: &[&str] = &[
    "$", "$", "$", "plain words $ and more", "", "<script>alert(1)</script> $", "<b>$</b>", "<img src=x onerror=alert(1)> $", "</div></main> $", "</pre>$", "<!-- $", "--> $", "\"><i>$</i>",
    "[l](javascript:alert(1)) $", "[$](https://example.com/?a=1&b=2)", "![$](x.png)", "<a href=\"x\" onclick=\"y\">$</a>", "&lt;b&gt; & $ &amp;", "*$* **$** _x_ ~~$~~", "`$` ``<x>``", "# $", "- $", "1. $", "> $", "- [ ] $", "| $ | b |",
    "    $", "{{ $ }} {% raw %}", "<style>$</style>", "<title>$", "<plaintext>", "<svg/onload=alert(1)>$", "http://example.com/<b> $", "<http://example.com/$>", "a < b > c & d $", "é漢😀 $", "\\<b> \\$", "^$^ '\"`",
];

/// Lines that are a comment by themselves, and the element that Markdown makes of them.
const MARKED: &[(&str, &str)] = &[
    ("*$*", "em"), ("a **$** b", "strong"), ("`$`", "code"), ("# $", "h1"), ("### $", "h3"), ("- $", "li"), ("* $", "ul"), ("1. $", "ol"), ("> $", "blockquote"),
    ("see [$](https://example.com/)", "a"), ("![$](https://example.com/x.png)", "img"), ("_$_ and __more__", "em"), ("```$", "pre"), ("plain $", "p"), ("<https://example.com/$>", "a"), ("~~$~~", "del"), ("- [x] $", "input"), ("see https://example.com/$ there", "a"),
];

/// Comments of several lines, and the element that Markdown makes of them.
const BLOCKS: &[(&[&str], &str)] = &[
    (&["| a | b |", "|---|---|", "| $ | c |"], "td"), (&["| $ | b |", "| :- | -: |", "| c | $ |"], "th"), (&["```", "let $ = 1;", "```"], "pre"), (&["- $", "- $"], "li"), (&["- a", "  - $"], "ul"),
    (&["> $", "> *more*"], "em"), (&["$", "==="], "h1"), (&["$", "---"], "h2"), (&["a $  ", "b"], "br"), (&["1. a", "2. $", "3. b"], "ol"), (&["~~~rust", "$ < 2", "~~~"], "pre"),
];

struct Words { n: usize }

impl Words {
    fn lines(&mut self, r: &mut Rng, c: &mut Vec<String>) {
        if c.is_empty() && !r.chance(1, 3) { return; }
        if r.chance(1, 4) { self.n += 1; *c = vec![r.pick(MARKED).0.replace('$', &format!("w{}w", self.n))]; return; }
        if r.chance(1, 8) { *c = r.pick(BLOCKS).0.iter().map(|l| { self.n += 1; l.replace('$', &format!("w{}w", self.n)) }).collect(); return; }
        *c = (0..r.range(1, 5)).map(|_| {
            let mut s = String::new();
            for p in r.pick(LINES).split_inclusive('$') {
                if let Some(p) = p.strip_suffix('$') { self.n += 1; s.push_str(&format!("{p}w{}w", self.n)); } else { s.push_str(p); }
            }
            s
        }).collect();
    }
    fn fields(&mut self, r: &mut Rng, f: &mut Fields) { if let Fields::Named(l) = f { for f in l { self.lines(r, &mut f.comment); } } }
    fn defs(&mut self, r: &mut Rng, defs: &mut [Def]) {
        for d in defs {
            match d {
                Def::Module(m) => { self.lines(r, &mut m.comment); self.defs(r, &mut m.defs); }
                Def::Struct(s) => { self.lines(r, &mut s.comment); self.fields(r, &mut s.fields); }
                Def::Enum(e) => {
                    self.lines(r, &mut e.comment);
                    for v in &mut e.variants { self.lines(r, &mut v.comment); self.fields(r, &mut v.fields); }
                }
                Def::Alias(a) => self.lines(r, &mut a.comment),
                Def::Const(c) => self.lines(r, &mut c.comment),
                Def::Import(_) => {}
            }
        }
    }
}

fn words(c: &[String]) -> Vec<String> {
    let mut out = Vec::new();
    for l in c {
        let b = l.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'w' {
                let n = b[i + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
                if n > 0 && b.get(i + 1 + n) == Some(&b'w') { out.push(l[i..i + n + 2].to_string()); i += n + 1; }
            }
            i += 1;
        }
    }
    out
}

fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

/// Whether the words of a comment appear in an element.
fn shows(n: &Node, c: &[String], what: &str) -> Result<(), String> {
    let mut t = n.text();
    // an image shows its description as an attribute, and a code block may have a language
    for i in n.find(|n| n.tag == "img") { t.push_str(i.attr("alt").unwrap_or("")); }
    for i in n.find(|n| n.tag == "code") { t.push_str(i.attr("class").unwrap_or("")); }
    let want = words(c);
    let found = words(&[t.clone()]);
    if let Some(w) = found.iter().find(|w| !want.contains(w)) { return Err(format!("comment: {what} shows {w}, which is not of its comment {c:?}")); }
    if c.len() == 1 && let Some((line, tag)) = MARKED.iter().find(|m| want.len() == 1 && m.0.replace('$', &want[0]) == c[0]) && n.find(|n| n.tag == *tag).is_empty() {
        return Err(format!("markdown: {what} shows {line:?} without <{tag}>: {:?}", clip(t.trim(), 200)));
    }
    let bare: Vec<String> = c.iter().map(|l| { let w = words(&[l.clone()]); match w.first() { Some(w) => l.replace(w.as_str(), "$"), None => l.clone() } }).collect();
    if let Some((_, tag)) = BLOCKS.iter().find(|b| b.0.len() == bare.len() && b.0.iter().zip(&bare).all(|(a, b)| a.trim_end() == b.trim_end())) && (*tag != "br" || c[0].ends_with("  ")) && n.find(|n| n.tag == *tag).is_empty() {
        return Err(format!("markdown: {what} shows {c:?} without <{tag}>: {:?}", clip(t.trim(), 200)));
    }
    for w in words(c) { if !t.contains(&w) { return Err(format!("comment: {what} does not show {w} of its comment {c:?}, but {:?}", clip(t.trim(), 200))); } }
    Ok(())
}

const TEMPLATE: &[&str] = &["html", "head", "meta", "link", "title", "body", "nav", "main", "div", "h2", "h3", "h4", "table", "tr", "td", "a", "p", "ul", "li", "code", "pre", "span", ""];
const MARKDOWN: &[&str] = &["p", "em", "strong", "code", "pre", "a", "ul", "ol", "li", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "table", "thead", "tbody", "tr", "th", "td", "del", "sup", "br", "hr", "img", "input"];
const ATTRS: &[&str] = &["lang", "charset", "name", "content", "rel", "href", "class", "src", "alt", "title", "start", "type", "checked", "disabled", "align"];

/// Nothing but the elements of the templates, and those of Markdown where comments are.
fn clean(n: &Node, inside: bool) -> Result<(), String> {
    if !(if inside { MARKDOWN } else { TEMPLATE }).contains(&n.tag.as_str()) { return Err(format!("markup: <{}> stems from the schema", n.tag)); }
    for (k, v) in &n.attrs {
        if !ATTRS.contains(&k.as_str()) { return Err(format!("markup: attribute {k} of <{}> stems from the schema", n.tag)); }
        if matches!(k.as_str(), "href" | "src") && v.trim_start().to_lowercase().starts_with("javascript:") { return Err(format!("markup: script in {k}")); }
    }
    let inside = inside || n.class("markdown") || n.tag == "td" && !n.class("pr-8");
    for k in n.nodes() { clean(k, inside)?; }
    Ok(())
}

fn generics(g: &[String]) -> String { if g.is_empty() { String::new() } else { format!("<{}>", g.join(",")) } }
fn field(f: &Field) -> String { format!("{}:{}@{}", f.name.as_deref().unwrap(), squeeze(&ty_text(&f.ty)), f.id.unwrap()) }
fn fields(f: &Fields) -> String {
    match f {
        Fields::Named(l) => format!("{{{}}}", l.iter().map(|f| field(f) + ",").collect::<String>()),
        Fields::Unnamed(l) => format!("({})", l.iter().map(|f| format!("{}@{}", squeeze(&ty_text(&f.ty)), f.id.unwrap())).collect::<Vec<_>>().join(",")),
        Fields::Unit => String::new(),
    }
}

fn kids<'a>(n: &'a Node, f: impl Fn(&Node) -> bool + 'a) -> impl Iterator<Item = &'a Node> { n.nodes().filter(move |n| f(n)) }

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got { Ok(()) } else { Err(format!("content: {what}: {got:?} instead of {want:?}")) }
}

struct Site<'a> { pages: BTreeMap<String, &'a str>, want: BTreeSet<String>, links: u64, shown: u64 }

fn collect<'a>(o: &'a Output<'_>, dir: &str, pages: &mut BTreeMap<String, &'a str>) -> Result<(), String> {
    let at = format!("{dir}{}", o.file);
    if pages.insert(at.clone(), &o.content).is_some() { return Err(format!("pages: {at} is produced twice")); }
    for m in &o.modules { collect(m, &format!("{dir}{}/", o.name), pages)?; }
    Ok(())
}

/// Where a relative link leads to.
fn target(page: &str, href: &str) -> String {
    let mut at: Vec<&str> = page.split('/').collect();
    at.pop();
    for s in href.split('/') { match s { "." => {}, ".." => { if at.pop().is_none() { return String::new(); } } s => at.push(s) } }
    at.join("/")
}

impl<'a> Site<'a> {
    fn page(&mut self, path: &[String], file: &str, title: &str, heading: &str) -> Result<Node, String> {
        let at = format!("{}/{file}", path.join("/"));
        self.want.insert(at.clone());
        let text = self.pages.get(&at).ok_or_else(|| format!("pages: there is no page {at}, but {:?}", self.pages.keys()))?;
        let n = html::parse(text).map_err(|e| format!("markup: {at}: {e}"))?;
        clean(&n, false).map_err(|e| format!("{e} ({at})"))?;
        let one = |t: &str| -> Result<&Node, String> { let l = n.find(|n| n.tag == t); if l.len() == 1 { Ok(l[0]) } else { Err(format!("markup: {} <{t}> in {at}", l.len())) } };
        eq("title", format!("{title} - Mabo"), one("title")?.text().trim().to_string())?;
        let main = one("main")?;
        // the heading with links to the modules around
        let h = kids(main, |n| n.class("section")).next().and_then(|s| kids(s, |n| n.tag == "h2").next()).ok_or("markup: no heading")?;
        eq("heading", squeeze(heading), squeeze(&h.text()))?;
        for (i, a) in h.find(|n| n.tag == "a").iter().enumerate() { eq("link in the heading", format!("{}/index.html", path[..=i].join("/")), target(&at, a.attr("href").unwrap_or("")))?; }
        for a in n.find(|n| n.tag == "a") {
            let href = a.attr("href").unwrap_or("");
            if a.attrs.is_empty() || href.contains("//") || href.is_empty() || href.contains("javascript") { continue; }
            let to = target(&at, href);
            if !self.pages.contains_key(&to) { return Err(format!("link: {at} links to {href}, which is no page")); }
            self.links += 1;
        }
        self.shown += 1;
        html::parse(text)
    }

    /// An index lists what is in a module.
    fn index(&mut self, n: &Node, path: &[String], defs: &[Def]) -> Result<(), String> {
        let at = format!("{}/index.html", path.join("/"));
        for (head, kind) in [("Modules", "module"), ("Structs", "struct"), ("Enums", "enum"), ("Aliases", "alias"), ("Constants", "const")] {
            let s = n.find(|n| n.class("section") && kids(n, |h| h.tag == "h3" && h.text() == head).count() == 1);
            let [s] = s[..] else { return Err(format!("content: no section {head} in {at}")) };
            let want: Vec<(&str, &[String], String)> = defs.iter().filter_map(|d| match (d, kind) {
                (Def::Module(x), "module") => Some((x.name.as_str(), &x.comment[..], format!("{}/index.html", x.name))),
                (Def::Struct(x), "struct") => Some((x.name.as_str(), &x.comment[..], format!("struct.{}.html", x.name))),
                (Def::Enum(x), "enum") => Some((x.name.as_str(), &x.comment[..], format!("enum.{}.html", x.name))),
                (Def::Alias(x), "alias") => Some((x.name.as_str(), &x.comment[..], format!("alias.{}.html", x.name))),
                (Def::Const(x), "const") => Some((x.name.as_str(), &x.comment[..], format!("constant.{}.html", x.name))),
                _ => None,
            }).collect();
            let table = kids(s, |n| n.tag == "table").next().ok_or_else(|| format!("markup: no table in {at}"))?;
            let rows: Vec<&Node> = kids(table, |n| n.tag == "tr").collect();
            eq(&format!("number of {head} in {at}"), want.len(), rows.len())?;
            for ((name, comment, href), row) in want.iter().zip(rows) {
                let cells: Vec<&Node> = row.nodes().collect();
                let a = cells.first().and_then(|c| c.nodes().next()).ok_or("markup: no link")?;
                eq("entry", (name.to_string(), target(&at, href)), (a.text(), target(&at, a.attr("href").unwrap_or(""))))?;
                let first: Vec<String> = comment.iter().take_while(|l| !l.trim().is_empty()).cloned().collect();
                shows(cells.get(1).ok_or("markup: no cell")?, &first, &format!("{name} in {at}"))?;
            }
        }
        Ok(())
    }

    fn comment(&self, n: &Node, c: &[String], name: &str) -> Result<(), String> {
        let s = n.find(|n| n.class("section"));
        let m = kids(s[0], |n| n.class("markdown")).next().ok_or("markup: no comment")?;
        shows(m, c, name)
    }

    fn fields(&self, list: &Node, f: &Fields, name: &str) -> Result<(), String> {
        let items: Vec<&Node> = kids(list, |n| n.tag == "li").collect();
        eq(&format!("number of fields of {name}"), f.list().len(), items.len())?;
        for (f, li) in f.list().iter().zip(items) {
            let code = kids(li, |n| n.tag == "code").next().ok_or("markup: no code")?;
            eq(&format!("field of {name}"), field(f), squeeze(&code.text()))?;
            let m = kids(li, |n| n.class("markdown")).next().ok_or("markup: no comment")?;
            shows(m, &f.comment, &format!("{} of {name}", f.name.as_deref().unwrap()))?;
        }
        Ok(())
    }

    fn defs(&mut self, path: &[String], defs: &[Def]) -> Result<(), String> {
        let crumbs: String = path.iter().map(|p| format!("{p}::")).collect();
        let pre = |n: &Node| n.find(|n| n.class("item-definition")).first().map(|n| squeeze(&n.text())).unwrap_or_default();
        for d in defs {
            match d {
                Def::Import(_) => {}
                Def::Module(m) => {
                    let mut p = path.to_vec();
                    p.push(m.name.clone());
                    let n = self.page(&p, "index.html", &m.name, &format!("Module{crumbs}{}", m.name))?;
                    self.comment(&n, &m.comment, &m.name)?;
                    self.index(&n, &p, &m.defs)?;
                    self.defs(&p, &m.defs)?;
                }
                Def::Struct(s) => {
                    let n = self.page(path, &format!("struct.{}.html", s.name), &s.name, &format!("Struct{crumbs}{}", s.name))?;
                    self.comment(&n, &s.comment, &s.name)?;
                    eq("definition", format!("struct{}{}{}", s.name, generics(&s.generics), fields(&s.fields)), pre(&n))?;
                    let list = n.find(|n| n.tag == "div" && n.class("section") && kids(n, |h| h.tag == "h3" && h.text() == "Fields").count() == 1);
                    let ul = list.first().and_then(|s| kids(s, |n| n.tag == "ul").next()).ok_or("markup: no fields")?;
                    self.fields(ul, &s.fields, &s.name)?;
                    let next = n.find(|n| n.tag == "code" && n.class("font-bold")).first().map(|n| n.text());
                    let want = (!s.fields.is_unit()).then(|| s.fields.list().iter().map(|f| f.id.unwrap()).max().map_or(1, |m| m.saturating_add(1)).to_string());
                    eq(&format!("next identifier of {}", s.name), want, next)?;
                }
                Def::Enum(e) => {
                    let n = self.page(path, &format!("enum.{}.html", e.name), &e.name, &format!("Enum{crumbs}{}", e.name))?;
                    self.comment(&n, &e.comment, &e.name)?;
                    let all: String = e.variants.iter().map(|v| format!("{}{}@{},", v.name, fields(&v.fields), v.id.unwrap())).collect();
                    eq("definition", format!("enum{}{}{{{all}}}", e.name, generics(&e.generics)), pre(&n))?;
                    let items = n.find(|n| n.tag == "li" && n.class("field-definition"));
                    eq(&format!("number of variants of {}", e.name), e.variants.len(), items.len())?;
                    for (v, li) in e.variants.iter().zip(items) {
                        let code = kids(li, |n| n.tag == "code").next().ok_or("markup: no code")?;
                        eq(&format!("variant of {}", e.name), format!("{}@{}", v.name, v.id.unwrap()), squeeze(&code.text()))?;
                        shows(kids(li, |n| n.class("markdown")).next().ok_or("markup: no comment")?, &v.comment, &format!("{} of {}", v.name, e.name))?;
                        let ul = kids(li, |n| n.tag == "div" && !n.class("markdown")).next().and_then(|d| kids(d, |n| n.tag == "ul").next());
                        eq(&format!("fields of {}", v.name), !v.fields.is_unit(), ul.is_some())?;
                        if let Some(ul) = ul { self.fields(ul, &v.fields, &v.name)?; }
                    }
                }
                Def::Alias(a) => {
                    let n = self.page(path, &format!("alias.{}.html", a.name), &a.name, &format!("Alias{crumbs}{}", a.name))?;
                    self.comment(&n, &a.comment, &a.name)?;
                    eq("definition", format!("type{}{}={};", a.name, generics(&a.generics), squeeze(&ty_text(&a.target))), pre(&n))?;
                }
                Def::Const(c) => {
                    let n = self.page(path, &format!("constant.{}.html", c.name), &c.name, &format!("Constant{crumbs}{}", c.name))?;
                    self.comment(&n, &c.comment, &c.name)?;
                    let p = n.find(|n| n.class("item-definition")).first().map(|n| n.text()).unwrap_or_default();
                    let head = format!("const {}: {} = ", c.name, ty_text(&c.ty));
                    let value = p.strip_prefix(&head).and_then(|p| p.strip_suffix(';')).ok_or_else(|| format!("content: {p} does not declare {head}"))?;
                    let good = match &c.value {
                        Lit::Bool(b) => value == b.to_string(),
                        Lit::Int(i) => value == i.to_string(),
                        Lit::Float(f) => value.parse::<f64>().is_ok_and(|g| g == *f),
                        Lit::Str(s) => value == format!("{s:?}") || value == mvcore::render::lit_text(&c.value),
                        Lit::Bytes(b) => squeeze(value) == squeeze(&format!("{b:?}")),
                    };
                    if !good { return Err(format!("content: the value of {} is shown as {value} instead of {:?}", c.name, c.value)); }
                }
            }
        }
        Ok(())
    }
}

pub fn run(run: &Run, rep: &mut Report) {
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("doc/{}", run.index), round);
        round += 1;
        let cfg = Cfg { odd: true, ..if r.chance(1, 4) { Cfg { defs: (1, 3), depth: 3, ..Cfg::grammar() } } else { Cfg { depth: 3, ..Cfg::accepted() } } };
        for (_, mut s) in package(&mut r, &cfg).schemas {
            let mut w = Words { n: 0 };
            w.lines(&mut r, &mut s.comment);
            w.defs(&mut r, &mut s.defs);
            let layout = *r.pick(&LAYOUTS);
            let text = render(&s, layout, &mut r);
            let name = *r.pick(&["schema", "a&b", "x<y>z", "sp ace", "é", "dots.in.name", "\"q\"", "index"]);
            watch::begin(|| text.clone());
            rep.case(|| json!({"text": text}));
            one(rep, name, &s, &text);
        }
    }
}

fn one(rep: &mut Report, name: &str, s: &Schema, text: &str) {
    let w = || json!({"text": text, "name": name});
    let file = std::path::PathBuf::from(format!("/virtual/{name}.mabo"));
    let Ok(parsed) = mp::Schema::parse(text, Some(&file)) else { rep.count("schemas that don't parse", 1); return };
    if mc::validate_schema(&parsed).is_err() { rep.count("schemas that are invalid", 1); return }
    rep.eval();
    rep.case_seen(text);
    let simple = mc::simplify_schema(&parsed);
    let out = match guard(|| mabo_doc::render_schema(&mabo_doc::Opts {}, &simple)) {
        Err(p) => return rep.violation("panic", format!("documentation panics: {p}"), w()),
        Ok(Err(e)) => return rep.violation("failed", format!("documentation fails: {e}"), w()),
        Ok(Ok(o)) => o,
    };
    let want = simple::expected(s);
    let mut site = Site { pages: BTreeMap::new(), want: BTreeSet::new(), links: 0, shown: 0 };
    let res = (|| {
        collect(&out, "", &mut site.pages)?;
        let root = vec![name.to_string()];
        let n = site.page(&root, "index.html", name, &format!("Schema{name}"))?;
        site.comment(&n, &want.comment, name)?;
        site.index(&n, &root, &want.defs)?;
        site.defs(&root, &want.defs)?;
        let extra: Vec<&String> = site.pages.keys().filter(|k| !site.want.contains(*k)).collect();
        if !extra.is_empty() { return Err(format!("pages: unexpected {extra:?}")); }
        Ok(())
    })();
    rep.count("pages compared", site.shown);
    rep.count("links followed", site.links);
    match res {
        Ok(()) => rep.sample_every(499, || json!({"schema": clip(&canon(s), 300), "pages": site.shown, "links": site.links})),
        Err(e) => { let k = e.split(':').next().unwrap_or("").to_string(); rep.violation(&k, e, w()); }
    }
}
