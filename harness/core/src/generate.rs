//! Random schemas.
use std::collections::BTreeSet;

use crate::{model::*, rng::Rng};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub schemas: (usize, usize),
    /// definitions per module
    pub defs: (usize, usize),
    /// depth of the module tree below the schema
    pub depth: usize,
    pub fields: (usize, usize),
    pub ty_depth: usize,
    /// only what the Rust generator is able to turn into working code
    pub wire: bool,
    /// only what the Go generator supports
    pub go: bool,
    /// ungoverned: references, names and identifiers need not obey any rule beyond the grammar
    pub loose: bool,
    pub comments: bool,
    pub attrs: bool,
    pub extras: bool,
    pub wild_literals: bool,
    pub generics: bool,
    pub imports: bool,
    /// submodules use what the schema imports
    pub nested_imports: bool,
    /// the code is compiled, but not run
    pub compile: bool,
    /// comments hold characters that programming languages don't allow everywhere
    pub odd: bool,
}

impl Cfg {
    /// For code that is compiled by rustc and run.
    pub fn wire() -> Cfg {
        Cfg { schemas: (1, 3), defs: (2, 5), depth: 2, fields: (1, 6), ty_depth: 3, wire: true, go: false, loose: false, comments: true, attrs: false, extras: true, wild_literals: false, generics: true, imports: true, nested_imports: false, compile: false, odd: false }
    }
    /// For code that is compiled by rustc only.
    pub fn compiled() -> Cfg { Cfg { compile: true, attrs: true, wild_literals: true, odd: true, defs: (3, 7), ..Cfg::wire() } }
    /// Accepted by validation and resolution, but otherwise anything.
    pub fn accepted() -> Cfg { Cfg { wire: false, attrs: true, wild_literals: true, nested_imports: true, ..Cfg::wire() } }
    /// Anything the grammar allows.
    pub fn grammar() -> Cfg { Cfg { loose: true, schemas: (1, 1), ..Cfg::accepted() } }
}

#[derive(Clone, Debug)]
struct Ref {
    path: Vec<String>,
    name: String,
    arity: usize,
    /// its announced size is known to be wrong (a tuple directly in a field)
    taint: bool,
    /// encodes to nothing
    empty: bool,
}

/// Where a type is used.
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// directly as the type of a field, or as the type in an optional field
    Root,
    /// anywhere below
    Inner,
}

struct Exported { schema: String, path: Vec<String>, r: Ref }

pub struct Gen<'r> { r: &'r mut Rng, c: Cfg, exported: Vec<Exported>, modules: Vec<(String, Vec<String>)>, imported: Vec<Ref> }

pub fn package(r: &mut Rng, c: &Cfg) -> Package {
    let n = r.range(c.schemas.0, c.schemas.1);
    let mut g = Gen { r, c: c.clone(), exported: Vec::new(), modules: Vec::new(), imported: Vec::new() };
    let mut used = BTreeSet::new();
    let mut schemas = Vec::new();
    for _ in 0..n {
        let name = g.name(&mut used, NameKind::Lower);
        let schema = g.schema(&name);
        schemas.push((name, schema));
    }
    Package { schemas }
}

/// Closed types over the definitions of a package: every definition itself, instantiated if generic, and
/// random types around them that the runtime crate implements its traits for.
pub fn closed_types(r: &mut Rng, c: &Cfg, envs: &[&crate::value::Env], extra: usize) -> Vec<Ty> {
    let env = envs[0];
    let refs: Vec<Ref> = env.order.iter().map(|k| {
        let mut path: Vec<String> = k.split("::").map(str::to_string).collect();
        let name = path.pop().unwrap();
        let d = &env.defs[k];
        let empty = matches!(&d.kind, crate::value::RKind::Struct(f) if f.kind == 0);
        Ref { path, name, arity: d.generics.len(), taint: envs.iter().any(|e| tainted_def(e, k)), empty }
    }).collect();
    let mut g = Gen { r, c: c.clone(), exported: Vec::new(), modules: Vec::new(), imported: Vec::new() };
    let mut out = Vec::new();
    for x in &refs {
        for _ in 0..if x.arity > 0 { 2 } else { 1 } {
            // generic definitions within generic definitions soon need more code than a compiler can handle
            for depth in [2, 2, 1, 1, 0, 0] {
                let args = (0..x.arity).map(|_| g.arg(&refs, &[], depth)).collect();
                let t = Ty::Ext { path: x.path.clone(), name: x.name.clone(), args };
                if depth > 0 && envs.iter().any(|e| mono_cost(e, std::slice::from_ref(&t), 400) > 400) { continue; }
                // arrays of arrays soon need more memory than there is
                if envs.iter().any(|e| crate::value::weight(e, &t) > 5000) { continue; }
                if !out.contains(&t) { out.push(t); }
                break;
            }
        }
    }
    for _ in 0..extra { let t = g.arg(&refs, &[], 3); if !out.contains(&t) && envs.iter().all(|e| mono_cost(e, std::slice::from_ref(&t), 400) <= 400 && crate::value::weight(e, &t) <= 5000) { out.push(t); } }
    out
}

fn tainted_def(env: &crate::value::Env, key: &str) -> bool {
    use crate::value::{RFields, RKind};
    let fields = |f: &RFields| f.fields.iter().any(|x| match x.content() {
        Ty::Tuple(_) => true,
        Ty::Ext { path, name, .. } if !path.is_empty() => tainted_def(env, &crate::value::abs_name(path, name)),
        _ => false,
    });
    match &env.defs[key].kind { RKind::Struct(f) => fields(f), RKind::Enum(v) => v.iter().any(|v| fields(&v.2)) }
}

#[derive(Clone, Copy, PartialEq)]
enum NameKind { Upper, Lower, Field, Const, Generic }

/// Keywords of Rust, which generated code has to escape.
pub const RUST_KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];
const RUST_NAMES: &[&str] = &[
    // keywords without an escaped form
    "crate", "self", "super",
    // used by the generated functions
    "id", "r", "w",
    // type names, primitive or of the language, and crates
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "str", "char", "usize", "isize", "string", "bytes", "vec", "hash_map", "hash_set", "option", "non_zero", "mabo", "std", "core", "alloc", "mvrt", "mvcore",
];

/// A name as generated Rust code has to write it.
pub fn rust_name(s: &str) -> String { if RUST_KEYWORDS.contains(&s) { format!("r#{s}") } else { s.to_string() } }
pub fn rust_path(p: &[String]) -> String { p.iter().map(|s| rust_name(s)).collect::<Vec<_>>().join("::") }

const GO_KEYWORDS: &[&str] = &["default", "func", "interface", "select", "case", "defer", "go", "map", "chan", "goto", "package", "switch", "fallthrough", "range", "import", "var", "struct_", "v", "w"];
const RUST_TYPES: &[&str] = &[
    "Self", "Option", "Some", "None", "Ok", "Err", "Vec", "String", "Box", "Result", "Decode", "Encode", "Size", "Clone", "Debug", "PartialEq", "Drop", "Fn", "FnMut", "FnOnce", "From", "Into", "Iterator", "Copy", "Send", "Sync", "Sized", "Eq", "Ord", "PartialOrd", "AsRef", "AsMut", "Default", "ToString", "ToOwned", "Extend", "TryFrom", "TryInto", "Unpin",
];

const STEMS_UP: &[&str] = &["Account", "Zebra", "Node", "Item2", "X", "HTTP", "Point3D", "aB", "Config", "Event", "Leaf", "Q9", "Payload", "Entry", "Sample", "Kind", "A1b2", "LongerNameForADefinition"];
const STEMS_LOW: &[&str] = &["a", "value", "x_y", "field_", "n1", "data", "some_long_name_here", "z9", "count", "k", "v", "name", "self_", "list", "inner", "m__m", "b2", "e"];

impl Gen<'_> {
    fn name(&mut self, used: &mut BTreeSet<String>, kind: NameKind) -> String {
        loop {
            let mut s = match kind {
                NameKind::Upper => self.r.pick(STEMS_UP).to_string(),
                NameKind::Generic if self.c.go && self.r.chance(1, 8) => self.r.pick(&["KEY", "TValue", "T2x"]).to_string(),
                NameKind::Generic => self.r.pick(&["T", "U", "K", "Val", "T1", "P"]).to_string(),
                NameKind::Const => self.r.pick(&["MAX", "A_B", "VALUE_2", "X", "NAME_"]).to_string(),
                _ => self.r.pick(STEMS_LOW).to_string(),
            };
            if kind == NameKind::Upper { s = s[..1].to_uppercase() + &s[1..]; }
            if kind != NameKind::Generic && self.r.chance(2, 3) || used.contains(&s) {
                let tail: String = (0..self.r.range(1, 4)).map(|_| match kind {
                    NameKind::Upper | NameKind::Generic => *self.r.pick(&['a', 'e', 'z', 'A', 'Q', '0', '7']),
                    NameKind::Const => *self.r.pick(&['A', 'Z', '_', '0', '7']),
                    _ => *self.r.pick(&['a', 'e', 'z', '_', '0', '7']),
                }).collect();
                s.push_str(&tail);
            }
            if matches!(kind, NameKind::Field | NameKind::Lower) && self.r.chance(1, 16) { s = self.r.pick(RUST_KEYWORDS).to_string(); }
            if used.contains(&s) && !(self.c.loose && self.r.chance(1, 8)) { continue; }
            let bad = match kind {
                NameKind::Upper | NameKind::Generic => RUST_TYPES.contains(&s.as_str()),
                NameKind::Field | NameKind::Lower => RUST_NAMES.contains(&s.as_str()),
                NameKind::Const => false,
            };
            if bad { continue; }
            if self.c.go {
                // names that differ in the use of underscores and letter case only become one
                let norm = |s: &str| s.chars().filter(|c| *c != '_').flat_map(char::to_lowercase).collect::<String>();
                if matches!(kind, NameKind::Field | NameKind::Lower) && self.r.chance(1, 30) { s = self.r.pick(GO_KEYWORDS).to_string(); }
                // packages named like the receivers and parameters of generated functions
                if matches!(kind, NameKind::Lower) && matches!(s.as_str(), "v" | "w" | "r" | "buf" | "mabo") { continue; }
                if used.iter().any(|u| norm(u) == norm(&s)) { continue; }
            }
            // Not distinct enough for the generated Rust: generics are looked up before definitions.
            if kind == NameKind::Upper && (s.starts_with('T') || s.starts_with('U') || s.starts_with('P') && s.len() < 3 || s == "K" || s.starts_with("Val")) { continue; }
            used.insert(s.clone());
            return s;
        }
    }

    fn comment(&mut self) -> Vec<String> {
        if !self.c.comments || !self.r.chance(1, 3) { return Vec::new(); }
        (0..self.r.range(1, 3)).map(|_| {
            let words = ["The", "value", "of", "`x`", "<b>", "&amp;", "é", "漢字", "/// nested", "*em*", "\"q\"", "a,b;", "{", "}", "#[x]", "1 < 2", "{{x}}", "# Title", "\\", "'"];
            let n = self.r.range(if self.c.wild_literals { 0 } else { 1 }, 5);
            let mut l = (0..n).map(|_| *self.r.pick(&words)).collect::<Vec<_>>().join(if self.r.chance(1, 12) { "  " } else { " " });
            if self.c.odd && self.r.chance(1, 10) {
                l.push_str(self.r.pick(&["\r", "\u{202a}", "\u{202e}", "\u{2066}", "\u{2069}", "\0", "\u{feff}", "\u{2028}", "\u{b}", "\u{c}", "\u{85}", "*/", "\u{7f}", "\u{200f}", "\u{1b}"]));
                l.push_str(self.r.pick(&["x", "\"", "\\", "."]));
                if l.starts_with(['\u{b}', '\u{c}', '\u{85}', '\u{2028}']) { l.insert(0, 'y'); }
            }
            if !l.is_empty() && self.r.chance(1, 8) { l.push_str(self.r.pick(&[" ", "  ", "\t", "\u{a0}", "\u{2003}"])); }
            l
        }).collect()
    }

    pub fn literal(&mut self) -> Lit {
        match self.r.below(5) {
            0 => Lit::Bool(self.r.chance(1, 2)),
            1 => Lit::Int(match self.r.below(5) { 0 => 0, 1 => i128::MAX, 2 => i128::MIN, 3 => self.r.u64() as i128, _ => self.r.u128() as i128 >> self.r.below(128) }),
            2 => Lit::Float(self.float()),
            3 => Lit::Str(self.string()),
            _ => Lit::Bytes(self.bytes()),
        }
    }
    fn float(&mut self) -> f64 {
        loop {
            let f = match self.r.below(7) {
                0 => 0.0,
                1 => -0.0,
                2 => *self.r.pick(&[1.0, 0.1, 1e16, 1e22, 1e21, 1e100, 5e-324, f64::MAX, f64::MIN_POSITIVE, 1e-7, 123456789.125, -1.5e-10]),
                3 => self.r.below(1000) as f64 / 8.0,
                4 => -(self.r.below(1_000_000) as f64) * 1e13,
                _ => f64::from_bits(self.r.u64()),
            };
            if f.is_finite() { return f; }
        }
    }
    fn string(&mut self) -> String {
        let alpha = ['a', 'Z', '0', ' ', '\n', '\r', '\t', '\u{8}', '\u{c}', '"', '\\', '/', 'é', '漢', '😀', '\u{0}', '\u{7f}', '{', '}', ';', '\'', '<', '&', '#', '\u{10fffd}', '\u{1f}', '\u{feff}', '\u{2028}', '\u{301}', '\u{fffd}', '\u{202e}'];
        let s: String = (0..*self.r.pick(&[0, 1, 2, 5, 12])).map(|_| *self.r.pick(&alpha)).collect();
        // the escapes that Go doesn't know are a known finding
        if self.c.go { s.chars().filter(|c| c.escape_debug().len() == 1 || "\n\r\t\"\\'".contains(*c)).collect() } else { s }
    }
    fn bytes(&mut self) -> Vec<u8> { (0..self.r.range(1, 8)).map(|_| if self.r.chance(1, 3) { *self.r.pick(&[0, 255, 34, 92, 10]) } else { self.r.u64() as u8 }).collect() }

    fn attrs(&mut self, depth: usize) -> Vec<Attr> {
        if !self.c.attrs || !self.r.chance(1, 3) { return Vec::new(); }
        self.attr_list(depth)
    }
    fn attr_list(&mut self, depth: usize) -> Vec<Attr> {
        (0..self.r.range(1, 3)).map(|_| {
            let name = self.r.pick(&["deprecated", "derive", "x", "validate", "a_1"]).to_string();
            let value = match self.r.below(if depth == 0 { 2 } else { 3 }) {
                0 => AttrValue::Unit,
                1 => AttrValue::Single(self.literal()),
                _ => AttrValue::Multi(self.attr_list(depth - 1)),
            };
            Attr { name, value }
        }).collect()
    }

    fn schema(&mut self, name: &str) -> Schema {
        let comment = self.comment();
        let mut used = BTreeSet::new();
        let mut refs = Vec::new();
        let mut imports = Vec::new();
        if self.c.imports && (!self.exported.is_empty() || self.c.loose) {
            for _ in 0..self.r.below(4) {
                if self.c.loose {
                    let n = if self.r.chance(1, 5) { self.r.range(4, 9) } else { self.r.range(1, 3) };
                    let segments = (0..n).map(|_| self.name(&mut BTreeSet::new(), NameKind::Lower)).collect();
                    let element = self.r.chance(1, 2).then(|| self.name(&mut BTreeSet::new(), NameKind::Upper));
                    imports.push(Def::Import(Import { segments, element }));
                } else if self.r.chance(1, 2) {
                    let i = self.r.below(self.exported.len());
                    let e = &self.exported[i];
                    if used.contains(&e.r.name) { continue; }
                    used.insert(e.r.name.clone());
                    let mut segments = vec![e.schema.clone()];
                    segments.extend(e.path.iter().cloned());
                    refs.push(Ref { path: Vec::new(), ..e.r.clone() });
                    imports.push(Def::Import(Import { segments, element: Some(e.r.name.clone()) }));
                } else {
                    let i = self.r.below(self.modules.len());
                    let (s, p) = self.modules[i].clone();
                    let last = p.last().unwrap_or(&s).clone();
                    if used.contains(&last) || last == name { continue; }
                    used.insert(last.clone());
                    for e in &self.exported {
                        if e.schema == s && e.path.starts_with(&p) {
                            let mut path = vec![last.clone()];
                            path.extend(e.path[p.len()..].iter().cloned());
                            refs.push(Ref { path, ..e.r.clone() });
                        }
                    }
                    let mut segments = vec![s];
                    segments.extend(p);
                    imports.push(Def::Import(Import { segments, element: None }));
                }
            }
        }
        self.imported = if self.c.nested_imports { refs.clone() } else { Vec::new() };
        let depth = self.c.depth;
        let (mut defs, exports) = self.module_body(&mut used, refs, depth);
        for i in imports {
            let at = self.r.range(0, defs.len());
            defs.insert(at, i);
        }
        if self.r.chance(1, 20) && self.c.loose { defs.clear(); }
        self.modules.push((name.to_string(), Vec::new()));
        for r in exports {
            let path = r.path.clone();
            for i in 1..=path.len() {
                let m = (name.to_string(), path[..i].to_vec());
                if !self.modules.contains(&m) { self.modules.push(m); }
            }
            self.exported.push(Exported { schema: name.to_string(), path, r: Ref { path: Vec::new(), ..r } });
        }
        Schema { comment, defs }
    }

    /// Definitions of one module and what it offers, with paths relative to it.
    fn module_body(&mut self, used: &mut BTreeSet<String>, mut refs: Vec<Ref>, depth: usize) -> (Vec<Def>, Vec<Ref>) {
        let mut defs = Vec::new();
        let mut exports: Vec<Ref> = Vec::new();
        let n = self.r.range(self.c.defs.0, self.c.defs.1);
        for _ in 0..n {
            let mut kind = self.r.weighted(&[if depth > 0 { 2 } else { 0 }, 8, 6, if self.c.extras { 1 } else { 0 }, if self.c.extras { 1 } else { 0 }]);
            if self.c.loose && self.r.chance(1, 30) { kind = 5; }
            match kind {
                0 => {
                    let name = self.name(used, NameKind::Lower);
                    let comment = self.comment();
                    let empty = self.r.chance(1, 10);
                    let (inner, ex) = if empty { (Vec::new(), Vec::new()) } else { { let refs = self.imported.clone(); self.module_body(&mut BTreeSet::new(), refs, depth - 1) } };
                    for e in ex {
                        let mut path = vec![name.clone()];
                        path.extend(e.path.clone());
                        let e = Ref { path, ..e };
                        refs.push(e.clone());
                        exports.push(e);
                    }
                    defs.push(Def::Module(Module { comment, name, defs: inner }));
                }
                1 | 2 => {
                    let name = self.name(used, NameKind::Upper);
                    let comment = self.comment();
                    let attrs = self.attrs(2);
                    let mut gens = Vec::new();
                    if self.c.generics && self.r.chance(1, 4) {
                        let mut gu = BTreeSet::new();
                        let n = if self.r.chance(1, 12) { self.r.range(4, 8) } else { self.r.range(1, 3) };
                        for _ in 0..n { gens.push(self.name(&mut gu, NameKind::Generic)); }
                    }
                    // in accepted schemas a definition may also refer to itself and its predecessors
                    let mut avail = refs.clone();
                    if !self.c.wire && !self.c.loose && self.r.chance(1, 4) { avail.push(Ref { path: Vec::new(), name: name.clone(), arity: gens.len(), taint: false, empty: false }); }
                    let mut r = Ref { path: Vec::new(), name: name.clone(), arity: gens.len(), taint: false, empty: false };
                    if kind == 1 {
                        let mut fields = self.fields(&avail, &gens, true);
                        if !self.c.loose { self.use_generics(std::slice::from_mut(&mut fields), &gens); }
                        r.empty = fields.is_unit();
                        r.taint = self.tainted(&fields, &avail);
                        defs.push(Def::Struct(Struct { comment, attrs, name, generics: gens, fields }));
                    } else {
                        let mut vu = BTreeSet::new();
                        let n = if self.r.chance(1, 15) { self.r.range(6, 24) } else { self.r.range(1, 5) };
                        let mut variants: Vec<Variant> = (0..n).map(|_| {
                            let comment = self.comment();
                            let name = self.name(&mut vu, NameKind::Upper);
                            let fields = self.fields(&avail, &gens, true);
                            Variant { comment, name, fields, id: None }
                        }).collect();
                        for (v, id) in variants.iter_mut().zip(self.ids(n, u32::MAX)) { v.id = id; }
                        if !self.c.loose {
                            let mut fs: Vec<Fields> = variants.iter().map(|v| v.fields.clone()).collect();
                            self.use_generics(&mut fs, &gens);
                            for (v, f) in variants.iter_mut().zip(fs) { v.fields = f; }
                        }
                        r.taint = variants.iter().any(|v| self.tainted(&v.fields, &avail));
                        defs.push(Def::Enum(Enum { comment, attrs, name, generics: gens, variants }));
                    }
                    refs.push(r.clone());
                    exports.push(r);
                }
                3 => {
                    let name = self.name(used, NameKind::Upper);
                    let comment = self.comment();
                    let mut gens = Vec::new();
                    if self.c.generics && self.r.chance(1, 4) {
                        let mut gu = BTreeSet::new();
                        for _ in 0..self.r.range(1, 2) { gens.push(self.name(&mut gu, NameKind::Generic)); }
                    }
                    let d = self.c.ty_depth;
                    let mut target = self.ty(&refs, &[], Pos::Root, d);
                    for g in &gens { target = Ty::Map(Box::new(Ty::U8), Box::new(Ty::Tuple(vec![target, Ty::Ext { path: Vec::new(), name: g.clone(), args: Vec::new() }]))); }
                    defs.push(Def::Alias(Alias { comment, name, generics: gens, target }));
                }
                4 => {
                    let name = self.name(used, NameKind::Const);
                    let comment = self.comment();
                    let (ty, value) = self.constant();
                    defs.push(Def::Const(Const { comment, name, ty, value }));
                }
                _ => {
                    let n = if self.r.chance(1, 5) { self.r.range(4, 9) } else { self.r.range(1, 3) };
                    let segments = (0..n).map(|_| self.name(&mut BTreeSet::new(), NameKind::Lower)).collect();
                    let element = self.r.chance(1, 2).then(|| self.name(&mut BTreeSet::new(), NameKind::Upper));
                    defs.push(Def::Import(Import { segments, element }));
                }
            }
        }
        // definitions may appear in any order
        self.r.shuffle(&mut defs);
        (defs, exports)
    }

    fn constant(&mut self) -> (Ty, Lit) {
        if self.c.loose {
            let d = self.c.ty_depth;
            let ty = self.ty(&[], &[], Pos::Root, d);
            return (ty, self.literal());
        }
        match self.r.below(6) {
            0 => (Ty::Bool, Lit::Bool(self.r.chance(1, 2))),
            1 | 2 => {
                let tys: Vec<_> = [(Ty::U8, 8, false), (Ty::U16, 16, false), (Ty::U32, 32, false), (Ty::U64, 64, false), (Ty::U128, 127, false), (Ty::I8, 8, true), (Ty::I16, 16, true), (Ty::I32, 32, true), (Ty::I64, 64, true), (Ty::I128, 128, true)].into_iter().filter(|t| !self.c.go || t.1 < 127).collect();
                let (ty, bits, signed) = self.r.pick(&tys).clone();
                let v = if signed { crate::value::rand_int(self.r, bits) } else { crate::value::rand_uint(self.r, bits) as i128 };
                (ty, Lit::Int(v))
            }
            3 => {
                let f = self.float();
                if self.r.chance(1, 2) { (Ty::F64, Lit::Float(f)) } else { (Ty::F32, Lit::Float(f64::from((f.clamp(-1e30, 1e30)) as f32))) }
            }
            4 => (if self.r.chance(1, 2) { Ty::Str } else { Ty::StrRef }, Lit::Str(self.string())),
            _ => (if self.r.chance(1, 2) { Ty::Bytes } else { Ty::BytesRef }, Lit::Bytes(self.bytes())),
        }
    }

    fn ids(&mut self, n: usize, max: u32) -> Vec<Option<u32>> {
        let limit = if self.c.wire && !self.c.compile { max } else { u32::MAX - 50 };
        for _ in 0..50 {
            let mode = self.r.below(4);
            let ids: Vec<Option<u32>> = (0..n).map(|i| match mode {
                0 => None,
                1 => Some(i as u32 + 1),
                _ => self.r.chance(1, 2).then(|| match self.r.below(8) {
                    0 => *self.r.pick(&[15, 16, 17, 14]),
                    1 => *self.r.pick(&[2047, 2048, 127, 128, 129, 16383, 16384]),
                    2 => limit - 10 + self.r.below(10) as u32,
                    3 => 1 + (self.r.u64() as u32) % (limit - 1),
                    _ => self.r.range(1, 30) as u32,
                }),
            }).collect();
            let d = derive_ids(ids.iter().copied());
            let set: BTreeSet<_> = d.iter().collect();
            if self.c.loose && self.r.chance(1, 10) { return ids; }
            if set.len() == n && d.iter().all(|i| *i <= u64::from(limit)) { return ids; }
        }
        vec![None; n]
    }

    fn fields(&mut self, refs: &[Ref], gens: &[String], unit: bool) -> Fields {
        let kind = self.r.weighted(&[if unit { 1 } else { 0 }, 5, 3]);
        if kind == 0 { return Fields::Unit; }
        let n = if self.r.chance(1, 15) { self.r.range(self.c.fields.1, 20) } else { self.r.range(self.c.fields.0.max(1), self.c.fields.1) };
        let ids = self.ids(n, (1 << 29) - 1);
        let mut used = BTreeSet::new();
        let d = self.c.ty_depth;
        let list: Vec<Field> = ids.into_iter().map(|id| Field {
            comment: if kind == 1 { self.comment() } else { Vec::new() },
            name: (kind == 1).then(|| self.name(&mut used, NameKind::Field)),
            ty: self.ty(refs, gens, Pos::Root, d),
            id,
        }).collect();
        if kind == 1 { Fields::Named(list) } else { Fields::Unnamed(list) }
    }

    /// Make sure every generic parameter is used.
    fn use_generics(&mut self, fs: &mut [Fields], gens: &[String]) {
        for g in gens {
            let mut found = false;
            for f in fs.iter() {
                for x in f.list() { visit_ty(&x.ty, &mut |t| if matches!(t, Ty::Ext { path, name, args } if path.is_empty() && args.is_empty() && name == g) { found = true; }); }
            }
            if found { continue; }
            let param = Ty::Ext { path: Vec::new(), name: g.clone(), args: Vec::new() };
            let ty = match self.r.below(4) { 0 => Ty::Opt(Box::new(param)), 1 => Ty::Vec(Box::new(param)), _ => param };
            let i = self.r.below(fs.len());
            let f = &mut fs[i];
            if f.is_unit() { *f = Fields::Unnamed(Vec::new()); }
            let taken = f.ids();
            let max = taken.iter().max().copied().unwrap_or(0);
            let next = if max + 1 < 1 << 29 { max + 1 } else { (1..).find(|i| !taken.contains(i)).unwrap() };
            let named = matches!(f, Fields::Named(_));
            let name = named.then(|| format!("gen_{}", g.to_lowercase()));
            let id = if f.list().is_empty() { None } else { Some(next as u32) };
            f.list_mut().unwrap().push(Field { comment: Vec::new(), name, ty, id });
        }
    }

    fn tainted(&self, f: &Fields, refs: &[Ref]) -> bool {
        f.list().iter().any(|x| {
            let t = if let Ty::Opt(t) = &x.ty { t } else { &x.ty };
            match t {
                Ty::Tuple(_) => true,
                Ty::Ext { path, name, .. } => refs.iter().any(|r| r.path == *path && r.name == *name && r.taint),
                _ => false,
            }
        })
    }

    fn prim(&mut self) -> Ty {
        self.r.pick(&[Ty::Bool, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::F32, Ty::F64, Ty::Str, Ty::StrRef, Ty::Bytes, Ty::BytesRef, Ty::BoxStr, Ty::BoxBytes, Ty::Str, Ty::U32]).clone()
    }
    fn int(&mut self) -> Ty { self.r.pick(&[Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128]).clone() }

    /// A type whose Rust form can be hashed.
    fn key(&mut self, refs: &[Ref], gens: &[String], depth: usize) -> Ty {
        if self.c.go { return match self.r.below(3) { 0 => Ty::Str, 1 => Ty::Bool, _ => self.int() }; }
        // only what is compiled has to have keys that can be hashed
        if !self.c.wire && depth > 0 && self.r.chance(1, 4) { return self.ty(refs, gens, Pos::Inner, depth - 1); }
        let k = if depth == 0 { self.r.below(3) } else { self.r.below(7) };
        match k {
            0 => self.int(),
            1 => self.r.pick(&[Ty::Str, Ty::Bool, Ty::StrRef, Ty::BoxStr]).clone(),
            2 => self.r.pick(&[Ty::Bytes, Ty::BytesRef, Ty::BoxBytes, Ty::U32]).clone(),
            3 => Ty::Vec(Box::new(self.key(refs, gens, depth - 1))),
            4 => Ty::Opt(Box::new(self.key(refs, gens, depth - 1))),
            5 => Ty::Array(Box::new(self.key(refs, gens, depth - 1)), self.r.range(1, 3) as u32),
            _ => Ty::Tuple((0..self.r.range(2, 3)).map(|_| self.key(refs, gens, depth - 1)).collect()),
        }
    }

    fn ty(&mut self, refs: &[Ref], gens: &[String], pos: Pos, depth: usize) -> Ty {
        let nested = |g: &mut Self, d: usize| g.ty(refs, gens, Pos::Inner, d);
        if self.c.loose && self.r.chance(1, 6) {
            let path = (0..*self.r.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 6])).map(|_| self.name(&mut BTreeSet::new(), NameKind::Lower)).collect();
            let mut name = self.name(&mut BTreeSet::new(), NameKind::Upper);
            if self.r.chance(1, 6) { name.push('_'); }
            let n = if depth == 0 { 0 } else { *self.r.pick(&[0, 0, 1, 2]) };
            return Ty::Ext { path, name, args: (0..n).map(|_| nested(self, depth - 1)).collect() };
        }
        let usable: Vec<&Ref> = refs.iter().filter(|r| !self.c.wire || self.c.compile || pos == Pos::Root || (!r.taint && !r.empty)).collect();
        let w = if depth == 0 { [10, 0, 0, 0, 0, 0, 0, 0, if usable.is_empty() { 0 } else { 3 }, if gens.is_empty() { 0 } else { 3 }] }
            else { [14, 4, 3, 2, 5, 3, if self.c.wire && self.c.go { 0 } else { 2 }, 2, if usable.is_empty() { 0 } else { 6 }, if gens.is_empty() { 0 } else { 4 }] };
        match self.r.weighted(&w) {
            0 => if self.r.chance(1, 8) && depth > 0 { self.nonzero(refs, gens, depth) } else { self.prim() },
            1 => Ty::Vec(Box::new(nested(self, depth - 1))),
            2 => {
                let k = if self.c.loose { nested(self, depth - 1) } else { self.key(refs, gens, depth - 1) };
                Ty::Map(Box::new(k), Box::new(nested(self, depth - 1)))
            }
            3 => { let k = if self.c.loose { nested(self, depth - 1) } else { self.key(refs, gens, depth - 1) }; Ty::Set(Box::new(k)) }
            4 => {
                let t = if pos == Pos::Root { self.ty(refs, gens, Pos::Root, depth - 1) } else { nested(self, depth - 1) };
                Ty::Opt(Box::new(t))
            }
            5 => self.nonzero(refs, gens, depth),
            6 => {
                let n = if self.r.chance(1, 6) { self.r.range(2, 12) } else { self.r.range(2, 4) };
                let n = if self.c.loose && self.r.chance(1, 10) { *self.r.pick(&[1, 13]) } else { n };
                Ty::Tuple((0..n).map(|_| nested(self, depth - 1)).collect())
            }
            7 => {
                let n = if self.r.chance(1, 5) { self.r.range(5, 32) } else { self.r.range(1, 4) } as u32;
                let n = if self.c.compile && self.r.chance(1, 8) { *self.r.pick(&[0, 33, 100]) } else { n };
                let n = if !self.c.wire && !self.c.go && self.r.chance(1, 5) { *self.r.pick(&[0, 33, 1000, 65_536, 70_000, u32::MAX]) } else { n };
                Ty::Array(Box::new(nested(self, depth - 1)), n)
            }
            8 => {
                let r = (*self.r.pick(&usable)).clone();
                let args = (0..r.arity).map(|_| match (r.arity, depth) {
                    (0..=3, _) => self.arg(refs, gens, depth.saturating_sub(1)),
                    // many arguments that have many arguments never end
                    (_, 0) => self.int(),
                    _ => self.arg(refs, gens, 0),
                }).collect();
                Ty::Ext { path: r.path, name: r.name, args }
            }
            _ => Ty::Ext { path: Vec::new(), name: self.r.pick(gens).clone(), args: Vec::new() },
        }
    }

    /// A generic argument. The runtime does not implement its traits for tuples and numeric non-zero types.
    fn arg(&mut self, refs: &[Ref], gens: &[String], depth: usize) -> Ty {
        loop {
            let t = self.ty(refs, gens, Pos::Inner, depth);
            let mut ok = true;
            if self.c.wire { visit_ty(&t, &mut |t| if matches!(t, Ty::Tuple(_) | Ty::NonZero(_) | Ty::Bytes | Ty::BytesRef) { ok = false; }); }
            if ok { return t; }
        }
    }

    fn nonzero(&mut self, refs: &[Ref], gens: &[String], depth: usize) -> Ty {
        if self.c.loose { let t = self.ty(refs, gens, Pos::Inner, depth - 1); return Ty::NonZero(Box::new(t)); }
        let t = match self.r.below(7) {
            0 | 1 | 2 => self.int(),
            3 => self.r.pick(&[Ty::Str, Ty::StrRef, Ty::Bytes, Ty::BytesRef]).clone(),
            4 => Ty::Vec(Box::new(self.ty(refs, gens, Pos::Inner, depth - 1))),
            5 => Ty::Map(Box::new(self.key(refs, gens, if self.c.wire { 1 } else { depth })), Box::new(self.ty(refs, gens, Pos::Inner, depth - 1))),
            _ => Ty::Set(Box::new(self.key(refs, gens, if self.c.wire { 1 } else { depth }))),
        };
        Ty::NonZero(Box::new(t))
    }
}

/// How much code the instances of definitions amount to that the types need (in type nodes).
pub fn mono_cost(env: &crate::value::Env, types: &[Ty], limit: usize) -> usize {
    use crate::value::{RKind, abs_name, inst};
    let mut seen = std::collections::HashSet::new();
    let mut todo: Vec<Ty> = types.to_vec();
    let mut cost = 0;
    while let Some(t) = todo.pop() {
        if cost > limit { return cost; }
        let mut exts = Vec::new();
        visit_ty(&t, &mut |t| { cost += 1; if let Ty::Ext { .. } = t { exts.push(t.clone()); } });
        for e in exts {
            if !seen.insert(crate::render::ty_text(&e)) { continue; }
            let Ty::Ext { path, name, args } = &e else { unreachable!() };
            let Some(d) = env.defs.get(&abs_name(path, name)) else { continue };
            match &d.kind {
                RKind::Struct(f) => todo.extend(inst(f, d, args).into_iter().map(|f| f.ty)),
                RKind::Enum(v) => for v in v { todo.extend(inst(&v.2, d, args).into_iter().map(|f| f.ty)); },
            }
        }
    }
    cost
}
