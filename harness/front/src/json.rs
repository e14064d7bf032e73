//! C27: the JSON form of compiled schemas and the JSON Schema that describes it.
use mabo_compiler::{self as mc, simplify as si};
use mabo_parser as mp;
use mvcore::{generate::{Cfg, package}, model::*, out::{Report, clip}, render::render_marked, rng::Rng, watch};
use serde_json::json;

use crate::{Run, guard, simple, syntax::{LAYOUTS, diff, same}};

// ------------------------------------------------------------------ strict reader

#[derive(Clone, Debug, PartialEq)]
enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None } }
    fn kind(&self) -> &'static str {
        match self { J::Null => "null", J::Bool(_) => "boolean", J::Num(_) => "number", J::Str(_) => "string", J::Arr(_) => "array", J::Obj(_) => "object" }
    }
}

struct Reader<'a> { s: &'a [u8], i: usize }

fn read(text: &str) -> Result<J, String> {
    let mut r = Reader { s: text.as_bytes(), i: 0 };
    let v = r.value(0)?;
    r.blank();
    if r.i < r.s.len() { return Err(format!("something follows the value at {}", r.i)); }
    Ok(v)
}

impl Reader<'_> {
    fn at(&self) -> u8 { self.s.get(self.i).copied().unwrap_or(0) }
    fn blank(&mut self) { while matches!(self.at(), b' ' | b'\t' | b'\r' | b'\n') { self.i += 1; } }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Ok(v) } else { Err(format!("no value at {}", self.i)) }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.at() == c && self.i < self.s.len() { self.i += 1; Ok(()) } else { Err(format!("no `{}` at {}", c as char, self.i)) }
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 2000 { return Err("nested too deeply".into()); }
        self.blank();
        match self.at() {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut l = Vec::new();
                self.blank();
                if self.at() == b']' { self.i += 1; return Ok(J::Arr(l)); }
                loop {
                    l.push(self.value(depth + 1)?);
                    self.blank();
                    if self.at() == b',' { self.i += 1; } else { self.expect(b']')?; return Ok(J::Arr(l)); }
                }
            }
            b'{' => {
                self.i += 1;
                let mut m: Vec<(String, J)> = Vec::new();
                self.blank();
                if self.at() == b'}' { self.i += 1; return Ok(J::Obj(m)); }
                loop {
                    self.blank();
                    let k = self.string()?;
                    if m.iter().any(|x| x.0 == k) { return Err(format!("`{k}` occurs twice in one object")); }
                    self.blank();
                    self.expect(b':')?;
                    let v = self.value(depth + 1)?;
                    m.push((k, v));
                    self.blank();
                    if self.at() == b',' { self.i += 1; } else { self.expect(b'}')?; return Ok(J::Obj(m)); }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => Err(format!("no value at {}", self.i)),
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let n = self.i;
        while self.at().is_ascii_digit() { self.i += 1; }
        if self.i == n { Err(format!("no digit at {n}")) } else { Ok(()) }
    }
    fn number(&mut self) -> Result<J, String> {
        let n = self.i;
        if self.at() == b'-' { self.i += 1; }
        let zero = self.at() == b'0';
        let d = self.i;
        self.digits()?;
        if zero && self.i > d + 1 { return Err(format!("leading zero at {d}")); }
        if self.at() == b'.' { self.i += 1; self.digits()?; }
        if matches!(self.at(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.at(), b'+' | b'-') { self.i += 1; }
            self.digits()?;
        }
        Ok(J::Num(String::from_utf8(self.s[n..self.i].to_vec()).unwrap()))
    }
    fn string(&mut self) -> Result<String, String> {
        self.expect(b'"')?;
        let mut out = Vec::new();
        loop {
            if self.i >= self.s.len() { return Err("unfinished string".into()); }
            let c = self.at();
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let c = self.at();
                    self.i += 1;
                    let ch = match c {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let mut u = self.hex()?;
                            if (0xd800..0xdc00).contains(&u) {
                                self.expect(b'\\')?;
                                self.expect(b'u')?;
                                let v = self.hex()?;
                                if !(0xdc00..0xe000).contains(&v) { return Err("lone surrogate".into()); }
                                u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
                            }
                            char::from_u32(u).ok_or("lone surrogate")?
                        }
                        _ => return Err(format!("no such escape at {}", self.i)),
                    };
                    out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                0..=0x1f => return Err(format!("control character {c} in a string")),
                _ => out.push(c),
            }
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let t = self.s.get(self.i..self.i + 4).and_then(|t| std::str::from_utf8(t).ok()).filter(|t| t.bytes().all(|b| b.is_ascii_hexdigit())).ok_or("no four digits")?;
        self.i += 4;
        Ok(u32::from_str_radix(t, 16).unwrap())
    }
}

// ------------------------------------------------------------------ JSON Schema

fn integer(t: &str) -> bool { !t.contains(['.', 'e', 'E']) || t.parse::<f64>().is_ok_and(|f| f.fract() == 0.0) }

fn number(v: &J) -> Option<f64> { match v { J::Num(t) => t.parse().ok(), _ => None } }

/// Whether a value has the described form, and nothing that the description does not mention.
fn conforms(root: &J, schema: &J, v: &J, at: &str) -> Result<(), String> {
    let J::Obj(words) = schema else { return if *schema == J::Bool(true) { Ok(()) } else { Err(format!("{at}: nothing allowed here")) } };
    let fail = |what: String| Err(format!("{at}: {what}"));
    let num = |x: &J| number(x).unwrap_or(f64::NAN);
    let len = |x: &J| num(x) as usize;
    for (word, x) in words {
        match (word.as_str(), x) {
            ("$schema" | "title" | "description" | "$defs" | "definitions" | "$id" | "$comment" | "default" | "examples" | "deprecated" | "readOnly" | "writeOnly", _) => {}
            ("$ref", J::Str(r)) => conforms(root, resolve(root, r)?, v, at)?,
            ("type", t) => {
                let names: Vec<&str> = match t { J::Str(s) => vec![s], J::Arr(l) => l.iter().filter_map(|x| if let J::Str(s) = x { Some(s.as_str()) } else { None }).collect(), _ => vec![] };
                let ok = names.iter().any(|n| *n == v.kind() || *n == "integer" && matches!(v, J::Num(t) if integer(t)));
                if !ok { return fail(format!("{} where {names:?} is described", v.kind())); }
            }
            ("const", c) => if c != v { return fail(format!("{v:?} where {c:?} is described")); },
            ("enum", J::Arr(l)) => if !l.contains(v) { return fail(format!("{v:?} is none of {l:?}")); },
            ("format", J::Str(f)) => {
                if let J::Num(t) = v {
                    let ok = match f.as_str() {
                        "uint8" => t.parse::<u8>().is_ok(), "uint16" => t.parse::<u16>().is_ok(), "uint32" => t.parse::<u32>().is_ok(), "uint64" | "uint" => t.parse::<u64>().is_ok(), "uint128" => t.parse::<u128>().is_ok(),
                        "int8" => t.parse::<i8>().is_ok(), "int16" => t.parse::<i16>().is_ok(), "int32" => t.parse::<i32>().is_ok(), "int64" | "int" => t.parse::<i64>().is_ok(), "int128" => t.parse::<i128>().is_ok(),
                        "float" => t.parse::<f64>().is_ok_and(|f| f.abs() <= f64::from(f32::MAX)), "double" => t.parse::<f64>().is_ok_and(f64::is_finite),
                        _ => true,
                    };
                    if !ok { return fail(format!("{t} is no {f}")); }
                }
            }
            ("minimum", m) => if number(v).is_some_and(|n| n < num(m)) { return fail(format!("{v:?} is below the minimum")); },
            ("maximum", m) => if number(v).is_some_and(|n| n > num(m)) { return fail(format!("{v:?} is above the maximum")); },
            ("minItems", n) => if matches!(v, J::Arr(l) if l.len() < len(n)) { return fail("too few items".into()); },
            ("maxItems", n) => if matches!(v, J::Arr(l) if l.len() > len(n)) { return fail("too many items".into()); },
            ("minLength", n) => if matches!(v, J::Str(s) if s.chars().count() < len(n)) { return fail("too short".into()); },
            ("maxLength", n) => if matches!(v, J::Str(s) if s.chars().count() > len(n)) { return fail("too long".into()); },
            ("uniqueItems", J::Bool(true)) => if matches!(v, J::Arr(l) if (1..l.len()).any(|i| l[..i].contains(&l[i]))) { return fail("equal items".into()); },
            ("prefixItems", J::Arr(s)) => if let J::Arr(l) = v { for (i, (s, v)) in s.iter().zip(l).enumerate() { conforms(root, s, v, &format!("{at}/{i}"))?; } },
            ("items", s) => if let J::Arr(l) = v {
                let skip = match schema.get("prefixItems") { Some(J::Arr(p)) => p.len(), _ => 0 };
                for (i, v) in l.iter().enumerate().skip(skip) { conforms(root, s, v, &format!("{at}/{i}"))?; }
            },
            ("properties", J::Obj(p)) => if let J::Obj(m) = v {
                for (k, v) in m {
                    match p.iter().find(|x| x.0 == *k) {
                        Some((_, s)) => conforms(root, s, v, &format!("{at}/{k}"))?,
                        None => return fail(format!("`{k}` is not described")),
                    }
                }
            },
            ("required", J::Arr(l)) => if let J::Obj(m) = v {
                for k in l { if let J::Str(k) = k && !m.iter().any(|x| x.0 == *k) { return fail(format!("`{k}` is required but missing")); } }
            },
            ("additionalProperties", J::Bool(_)) => if let (J::Obj(m), None) = (v, schema.get("properties")) { if !m.is_empty() { return fail("members without a description".into()); } },
            ("oneOf" | "anyOf" | "allOf", J::Arr(l)) => {
                let errors: Vec<String> = l.iter().filter_map(|s| conforms(root, s, v, at).err()).collect();
                let ok = match word.as_str() { "oneOf" => errors.len() + 1 == l.len(), "anyOf" => errors.len() < l.len(), _ => errors.is_empty() };
                if !ok {
                    let deep = errors.iter().max_by_key(|e| e.find(": ")).cloned().unwrap_or_default();
                    return fail(format!("fits {} of {} alternatives of {word}; {}", l.len() - errors.len(), l.len(), clip(&deep, 300)));
                }
            }
            _ => panic!("the keyword `{word}` is not implemented here"),
        }
    }
    // a description that says nothing about objects describes no member
    if let J::Obj(m) = v && !m.is_empty() && !["properties", "$ref", "oneOf", "anyOf", "allOf"].iter().any(|k| schema.get(k).is_some()) { return fail("members without a description".into()); }
    Ok(())
}

fn resolve<'a>(root: &'a J, r: &str) -> Result<&'a J, String> {
    let mut at = root;
    let path = r.strip_prefix('#').ok_or_else(|| format!("reference `{r}` to elsewhere"))?;
    for p in path.split('/').skip(1) { at = at.get(&p.replace("~1", "/").replace("~0", "~")).ok_or_else(|| format!("reference `{r}` to nowhere"))?; }
    Ok(at)
}

/// Every reference leads somewhere.
fn sound(root: &J, v: &J, used: &mut Vec<String>) -> Result<(), String> {
    match v {
        J::Obj(m) => for (k, x) in m {
            if let ("$ref", J::Str(r)) = (k.as_str(), x) { resolve(root, r)?; used.push(r.clone()); }
            sound(root, x, used)?;
        },
        J::Arr(l) => for x in l { sound(root, x, used)?; },
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------ back to the model

type R<T> = Result<T, String>;

fn arr(v: &J) -> R<&[J]> { match v { J::Arr(l) => Ok(l), _ => Err(format!("{} instead of a list", v.kind())) } }
fn text(v: &J) -> R<String> { match v { J::Str(s) => Ok(s.clone()), _ => Err(format!("{} instead of a string", v.kind())) } }
fn texts(v: &J) -> R<Vec<String>> { arr(v)?.iter().map(text).collect() }
fn field<'a>(v: &'a J, k: &str) -> R<&'a J> { v.get(k).ok_or_else(|| format!("no `{k}`")) }
fn num<T: std::str::FromStr>(v: &J) -> R<T> { match v { J::Num(t) => t.parse().map_err(|_| format!("the number {t}")), _ => Err(format!("{} instead of a number", v.kind())) } }
fn list<T>(v: &J, f: impl Fn(&J) -> R<T>) -> R<Vec<T>> { arr(v)?.iter().map(f).collect() }
fn tagged(v: &J) -> R<(&str, &J)> {
    match v { J::Obj(m) if m.len() == 1 => Ok((&m[0].0, &m[0].1)), J::Str(s) => Ok((s, &J::Null)), _ => Err(format!("no alternative: {}", clip(&format!("{v:?}"), 100))) }
}

fn schema(v: &J) -> R<Schema> { Ok(Schema { comment: texts(field(v, "comment")?)?, defs: list(field(v, "definitions")?, def)? }) }

fn def(v: &J) -> R<Def> {
    let (tag, v) = tagged(v)?;
    let name = || text(field(v, "name")?);
    let comment = || texts(field(v, "comment")?);
    let generics = || texts(field(v, "generics")?);
    Ok(match tag {
        "Module" => Def::Module(Module { comment: comment()?, name: name()?, defs: list(field(v, "definitions")?, def)? }),
        "Struct" => Def::Struct(Struct { comment: comment()?, attrs: vec![], name: name()?, generics: generics()?, fields: fields(field(v, "fields")?)? }),
        "Enum" => Def::Enum(Enum { comment: comment()?, attrs: vec![], name: name()?, generics: generics()?, variants: list(field(v, "variants")?, |v| {
            Ok(Variant { comment: texts(field(v, "comment")?)?, name: text(field(v, "name")?)?, fields: fields(field(v, "fields")?)?, id: Some(num(field(v, "id")?)?) })
        })? }),
        "TypeAlias" => Def::Alias(Alias { comment: comment()?, name: name()?, generics: generics()?, target: ty(field(v, "target")?)? }),
        "Const" => Def::Const(Const { comment: comment()?, name: name()?, ty: ty(field(v, "ty")?)?, value: {
            let (tag, v) = tagged(field(v, "value")?)?;
            match (tag, v) {
                ("Bool", J::Bool(b)) => Lit::Bool(*b),
                ("Int", v) => Lit::Int(num(v)?),
                ("Float", v) => Lit::Float(num(v)?),
                ("String", v) => Lit::Str(text(v)?),
                ("Bytes", v) => Lit::Bytes(list(v, num)?),
                _ => return Err(format!("literal {tag} {v:?}")),
            }
        } }),
        "Import" => Def::Import(Import { segments: texts(field(v, "segments")?)?, element: match v.get("element") { None | Some(J::Null) => None, Some(e) => Some(text(e)?) } }),
        _ => return Err(format!("definition of kind {tag}")),
    })
}

fn fields(v: &J) -> R<Fields> {
    let l = list(field(v, "fields")?, |v| Ok(Field { comment: texts(field(v, "comment")?)?, name: Some(text(field(v, "name")?)?), ty: ty(field(v, "ty")?)?, id: Some(num(field(v, "id")?)?) }))?;
    match text(field(v, "kind")?)?.as_str() { "Named" => Ok(Fields::Named(l)), "Unnamed" => Ok(Fields::Unnamed(l)), "Unit" if l.is_empty() => Ok(Fields::Unit), k => Err(format!("{} fields of kind {k}", l.len())) }
}

fn ty(v: &J) -> R<Ty> {
    let (tag, v) = tagged(v)?;
    let b = |v: &J| Ok::<_, String>(Box::new(ty(v)?));
    let two = |v: &J| -> R<(J, J)> { match arr(v)? { [a, b] => Ok((a.clone(), b.clone())), _ => Err("no pair".into()) } };
    Ok(match tag {
        "Bool" => Ty::Bool, "U8" => Ty::U8, "U16" => Ty::U16, "U32" => Ty::U32, "U64" => Ty::U64, "U128" => Ty::U128,
        "I8" => Ty::I8, "I16" => Ty::I16, "I32" => Ty::I32, "I64" => Ty::I64, "I128" => Ty::I128, "F32" => Ty::F32, "F64" => Ty::F64,
        "String" => Ty::Str, "StringRef" => Ty::StrRef, "Bytes" => Ty::Bytes, "BytesRef" => Ty::BytesRef, "BoxString" => Ty::BoxStr, "BoxBytes" => Ty::BoxBytes,
        "Vec" => Ty::Vec(b(v)?), "HashSet" => Ty::Set(b(v)?), "Option" => Ty::Opt(b(v)?), "NonZero" => Ty::NonZero(b(v)?),
        "HashMap" => { let (k, v) = two(v)?; Ty::Map(b(&k)?, b(&v)?) }
        "Tuple" => Ty::Tuple(list(v, ty)?),
        "Array" => { let (t, n) = two(v)?; Ty::Array(b(&t)?, num(&n)?) }
        "External" => Ty::Ext { path: texts(field(v, "path")?)?, name: text(field(v, "name")?)?, args: list(field(v, "generics")?, ty)? },
        _ => return Err(format!("type {tag}")),
    })
}

// ------------------------------------------------------------------ documents of another form

fn size(v: &J) -> usize { 1 + match v { J::Arr(l) => l.iter().map(size).sum(), J::Obj(m) => m.iter().map(|x| size(&x.1)).sum(), _ => 0 } }

/// Change the `n`th value of a document; what was done, unless nothing fits there.
fn spoil(r: &mut Rng, v: &mut J, n: &mut usize) -> Option<Option<String>> {
    if *n == 0 {
        return Some(match v {
            J::Obj(m) => {
                let i = r.below(m.len().max(1));
                let k = m.get(i)?.0.clone();
                if k == "element" { return Some(None); }
                if r.chance(1, 2) { m.remove(i); Some(format!("without `{k}`")) } else { m[i].0 = format!("{k}_"); Some(format!("`{k}` misnamed")) }
            }
            J::Num(_) => { *v = if r.chance(1, 2) { J::Str("1".into()) } else { J::Null }; Some("no number".into()) }
            J::Arr(_) => { *v = if r.chance(1, 2) { J::Str(String::new()) } else { J::Obj(vec![]) }; Some("no list".into()) }
            J::Str(_) => { *v = if r.chance(1, 2) { J::Num("1".into()) } else { J::Bool(false) }; Some("no string".into()) }
            J::Bool(_) => { *v = J::Str("true".into()); Some("no boolean".into()) }
            J::Null => { *v = J::Num("0".into()); Some("no null".into()) }
        });
    }
    *n -= 1;
    match v {
        J::Arr(l) => l.iter_mut().find_map(|v| spoil(r, v, n)),
        J::Obj(m) => m.iter_mut().find_map(|x| spoil(r, &mut x.1, n)),
        _ => None,
    }
}

// ------------------------------------------------------------------ monitor

/// Which of the described definitions and alternatives the documents had.
fn visit(rep: &mut Report, v: &J) {
    match v {
        J::Obj(m) => {
            if m.len() == 1 && m[0].0.starts_with(|c: char| c.is_uppercase()) { rep.count(&format!("{} seen", m[0].0), 1); }
            for (_, x) in m { visit(rep, x); }
        }
        J::Arr(l) => for x in l { visit(rep, x); },
        _ => {}
    }
}

pub fn run(run: &Run, rep: &mut Report) {
    let described = match guard(si::Schema::json_schema) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return rep.violation("schema", format!("the JSON Schema cannot be made: {e}"), json!({})),
        Err(p) => return rep.violation("schema", format!("making the JSON Schema panics: {p}"), json!({})),
    };
    let root = match read(&described) { Ok(v) => v, Err(e) => return rep.violation("schema", format!("the JSON Schema is no JSON: {e}"), json!({"text": clip(&described, 2000)})) };
    let mut used = Vec::new();
    if let Err(e) = sound(&root, &root, &mut used) { return rep.violation("schema", e, json!({"text": clip(&described, 2000)})); }
    let mut round = 0;
    while run.more(round) {
        let mut r = Rng::new(run.seed, &format!("json/{}", run.index), round);
        round += 1;
        let kind = r.below(3);
        let cfg = Cfg { odd: true, ..match kind { 0 => Cfg { defs: (1, 3), depth: 1, ..Cfg::grammar() }, 1 => Cfg::grammar(), _ => Cfg::accepted() } };
        for (_, s) in package(&mut r, &cfg).schemas {
            let (text, _) = render_marked(&s, *r.pick(&LAYOUTS), &mut r);
            watch::begin(|| text.clone());
            rep.case(|| json!({"text": text}));
            let Ok(parsed) = mp::Schema::parse(&text, None) else { rep.count("schemas that don't parse", 1); continue };
            rep.eval();
            let w = |doc: &str| json!({"text": text, "json": clip(doc, 4000)});
            let simple = match guard(|| mc::simplify_schema(&parsed)) { Ok(s) => s, Err(p) => { rep.violation("panic", p, w("")); continue } };
            let doc = match guard(|| if r.chance(1, 4) { serde_json::to_string_pretty(&simple) } else { serde_json::to_string(&simple) }) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => { rep.violation("write", format!("an accepted schema has no JSON form: {e}"), w("")); continue }
                Err(p) => { rep.violation("panic", p, w("")); continue }
            };
            let v = match read(&doc) { Ok(v) => v, Err(e) => { rep.violation("syntax", format!("the JSON form is no JSON: {e}"), w(&doc)); continue } };
            rep.case_seen(&doc);
            rep.count("bytes of JSON", doc.len() as u64);
            if let Err(e) = conforms(&root, &root, &v, "") { rep.violation("schema", format!("the JSON form is not as the JSON Schema describes: {e}"), w(&doc)); }
            visit(rep, &v);
            for _ in 0..3 {
                let mut other = v.clone();
                let mut n = r.below(size(&v));
                let Some(Some(how)) = spoil(&mut r, &mut other, &mut n) else { continue };
                match conforms(&root, &root, &other, "") {
                    Err(_) => rep.count("documents of another form told apart", 1),
                    Ok(()) => { rep.violation("vague", format!("the JSON Schema also describes a document with {how}"), json!({"text": text, "json": clip(&format!("{other:?}"), 4000)})); }
                }
            }
            let want = simple::expected(&s);
            match schema(&v) {
                Err(e) => rep.violation("form", format!("the JSON form cannot be read back: {e}"), w(&doc)),
                Ok(got) => if !same(&want, &got) { rep.violation("content", format!("the JSON form says something else than the schema: {}", diff(&format!("{want:?}"), &format!("{got:?}"))), w(&doc)) },
            }
            rep.sample_every(997, || json!({"text": clip(&text, 300), "json": clip(&doc, 600)}));
        }
    }
    rep.count("references in the JSON Schema", used.len() as u64);
}
