//! Resolved environment, values, and random values.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use serde::{Deserialize, Serialize};

use crate::{model::*, rng::Rng};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Val {
    Bool(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    /// vec, array, tuple
    List(Vec<Val>),
    /// sorted by key unless it is an "as on the wire" value
    Map(Vec<(Val, Val)>),
    Set(Vec<Val>),
    Opt(Option<Box<Val>>),
    Rec(Vec<Val>),
    /// position of the variant in its declaration
    Var(usize, Vec<Val>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct RFields { pub kind: u8, pub fields: Vec<RField> } // kind: 0 unit 1 named 2 unnamed

#[derive(Clone, Debug, PartialEq)]
pub struct RField {
    pub name: Option<String>,
    /// the whole type, with generic parameters replaced once instantiated
    pub ty: Ty,
    pub id: u32,
    /// declared as `option<...>`
    pub opt: bool,
    /// declared as a generic parameter, or an option of one
    pub param: bool,
}

impl RField {
    /// The type of the content: without the option of an optional field.
    pub fn content(&self) -> &Ty {
        match &self.ty { Ty::Opt(t) if self.opt => t, t => t }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RKind { Struct(RFields), Enum(Vec<(String, u32, RFields)>) }

#[derive(Clone, Debug, PartialEq)]
pub struct RDef { pub generics: Vec<String>, pub kind: RKind }

/// Definitions by absolute path `schema::module::Name`; field types refer to absolute paths, generic
/// parameters keep an empty path.
#[derive(Clone, Debug, Default)]
pub struct Env { pub defs: HashMap<String, RDef>, pub order: Vec<String> }

pub fn abs_name(path: &[String], name: &str) -> String {
    let mut s = path.join("::");
    s.push_str("::");
    s.push_str(name);
    s
}

impl Env {
    pub fn get(&self, path: &[String], name: &str) -> &RDef {
        self.defs.get(&abs_name(path, name)).unwrap_or_else(|| panic!("no definition {path:?} {name}"))
    }

    /// Build from a package all of whose references resolve.
    pub fn build(pkg: &Package) -> Env {
        let mut env = Env::default();
        for (name, schema) in &pkg.schemas {
            let scope = Scope::new(name, schema);
            let resolve = |at: &[String], generics: &[String], ty: &Ty| -> Ty { scope.resolve(at, generics, ty) };
            let conv = |at: &[String], generics: &[String], f: &Fields| -> RFields {
                let ids = f.ids();
                RFields {
                    kind: match f { Fields::Unit => 0, Fields::Named(_) => 1, Fields::Unnamed(_) => 2 },
                    fields: f.list().iter().zip(ids).map(|(x, id)| {
                        let opt = matches!(x.ty, Ty::Opt(_));
                        let content = if let Ty::Opt(t) = &x.ty { t } else { &x.ty };
                        let param = matches!(content, Ty::Ext { path, name, args } if path.is_empty() && args.is_empty() && generics.contains(name));
                        RField { name: x.name.clone(), ty: resolve(at, generics, &x.ty), id: id as u32, opt, param }
                    }).collect(),
                }
            };
            let mut path = vec![name.clone()];
            visit_defs(&schema.defs, &mut path, &mut |p, d| {
                let def = match d {
                    Def::Struct(s) => RDef { generics: s.generics.clone(), kind: RKind::Struct(conv(p, &s.generics, &s.fields)) },
                    Def::Enum(e) => RDef {
                        generics: e.generics.clone(),
                        kind: RKind::Enum(e.variants.iter().zip(e.ids()).map(|(v, id)| (v.name.clone(), id as u32, conv(p, &e.generics, &v.fields))).collect()),
                    },
                    _ => return,
                };
                let key = abs_name(p, d.name());
                env.order.push(key.clone());
                env.defs.insert(key, def);
            });
        }
        env
    }
}

/// What the names in a schema refer to.
pub struct Scope { local: BTreeSet<String>, imports: BTreeMap<String, Vec<String>>, mod_imports: BTreeMap<String, Vec<String>> }

impl Scope {
    pub fn new(name: &str, schema: &Schema) -> Scope {
        let mut imports: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut mod_imports: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for d in &schema.defs {
            if let Def::Import(i) = d {
                match &i.element {
                    Some(e) => { imports.insert(e.clone(), i.segments.clone()); }
                    None => { mod_imports.insert(i.segments.last().unwrap().clone(), i.segments.clone()); }
                }
            }
        }
        let mut local: BTreeSet<String> = BTreeSet::new();
        let mut path = vec![name.to_string()];
        visit_defs(&schema.defs, &mut path, &mut |p, d| {
            if matches!(d, Def::Struct(_) | Def::Enum(_)) { local.insert(abs_name(p, d.name())); }
        });
        Scope { local, imports, mod_imports }
    }

    /// The type with absolute paths.
    pub fn resolve(&self, at: &[String], generics: &[String], ty: &Ty) -> Ty {
        map_ty(ty, &mut |t| match t {
            Ty::Ext { path, name, args } => {
                if path.is_empty() && args.is_empty() && generics.contains(name) { return Some(t.clone()); }
                let args: Vec<Ty> = args.iter().map(|a| self.resolve(at, generics, a)).collect();
                let mut p = at.to_vec();
                p.extend(path.iter().cloned());
                if !self.local.contains(&abs_name(&p, name)) {
                    if path.is_empty() {
                        p = self.imports.get(name).cloned().unwrap_or_else(|| panic!("unresolved {name}"));
                    } else {
                        p = self.mod_imports.get(&path[0]).cloned().unwrap_or_else(|| panic!("unresolved {path:?}::{name}"));
                        p.extend(path[1..].iter().cloned());
                    }
                }
                Some(Ty::Ext { path: p, name: name.clone(), args })
            }
            _ => None,
        })
    }
}

pub fn inst(f: &RFields, def: &RDef, args: &[Ty]) -> Vec<RField> {
    f.fields.iter().map(|x| RField { ty: subst(&x.ty, &def.generics, args), ..x.clone() }).collect()
}

fn int_bits(ty: &Ty) -> Option<(u32, bool)> {
    Some(match ty {
        Ty::U8 => (8, false), Ty::U16 => (16, false), Ty::U32 => (32, false), Ty::U64 => (64, false), Ty::U128 => (128, false),
        Ty::I8 => (8, true), Ty::I16 => (16, true), Ty::I32 => (32, true), Ty::I64 => (64, true), Ty::I128 => (128, true),
        _ => return None,
    })
}

pub fn rand_uint(r: &mut Rng, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match r.below(8) {
        0 => 0,
        1 => max,
        2 => 1,
        // around a varint length boundary
        3 | 4 => {
            let k = r.range(1, (bits as usize).div_ceil(7)) as u32;
            let b = if 7 * k >= 128 { u128::MAX } else { 1u128 << (7 * k) };
            let v = match r.below(3) { 0 => b, 1 => b.wrapping_sub(1), _ => b.wrapping_add(1) };
            v & max
        }
        5 => 1u128.checked_shl(r.below(bits as usize) as u32).unwrap() & max,
        _ => (r.u128() >> r.below(bits as usize)) & max,
    }
}

pub fn zigzag(v: i128) -> u128 { ((v << 1) ^ (v >> 127)) as u128 }
pub fn unzigzag(v: u128) -> i128 { ((v >> 1) as i128) ^ -((v & 1) as i128) }

pub fn rand_int(r: &mut Rng, bits: u32) -> i128 {
    // random in zigzag space, so that length boundaries are met
    unzigzag(rand_uint(r, bits))
}

const GRAND: [usize; 10] = [16383, 16384, 65534, 65535, 65536, 65537, 70_000, 131_072, 16384, 300_000];

pub fn rand_len(r: &mut Rng, budget: usize) -> usize {
    let n = match r.below(16) {
        0..=2 => 0,
        3..=5 => 1,
        6..=9 => r.range(2, 5),
        10 | 11 => r.range(6, 30),
        12 => r.range(60, 70),
        13 => r.range(120, 135),
        14 => r.range(130, 300),
        _ => r.range(300, 2500),
    };
    n.min(budget)
}

pub fn rand_str(r: &mut Rng, len: usize) -> String {
    let alpha = ['a', 'z', '0', ' ', '\n', '\0', '"', '\\', 'é', 'ß', '€', '漢', '😀', '\u{10ffff}', '\u{feff}', '\u{7f}'];
    let ascii = r.chance(1, 2);
    (0..len).map(|_| if ascii { (b' ' + r.below(95) as u8) as char } else { *r.pick(&alpha) }).collect()
}

/// Random value of a type. `budget` bounds the number of elements created.
pub fn rand_val(r: &mut Rng, env: &Env, ty: &Ty, budget: &mut usize) -> Val {
    *budget = budget.saturating_sub(1);
    if let Some((bits, signed)) = int_bits(ty) {
        return if signed { Val::I(rand_int(r, bits)) } else { Val::U(rand_uint(r, bits)) };
    }
    match ty {
        Ty::Bool => Val::Bool(r.chance(1, 2)),
        Ty::F32 => Val::F32(match r.below(6) { 0 => 0, 1 => 0x8000_0000, 2 => f32::NAN.to_bits() | r.below(100) as u32, 3 => f32::INFINITY.to_bits(), 4 => 1, _ => r.u64() as u32 }),
        Ty::F64 => Val::F64(match r.below(6) { 0 => 0, 1 => 1 << 63, 2 => f64::NAN.to_bits() | r.below(100) as u64, 3 => f64::NEG_INFINITY.to_bits(), 4 => 1, _ => r.u64() }),
        Ty::Str | Ty::StrRef | Ty::BoxStr => {
            if r.chance(1, 300) {
                // longer than lengths of one, two and three bytes can say
                let s = rand_str(r, 64);
                let n = *r.pick(&GRAND);
                let mut s = s.repeat(n / s.len() + 1);
                let mut n = n;
                while !s.is_char_boundary(n) { n += 1; }
                s.truncate(n);
                return Val::Str(s);
            }
            let n = rand_len(r, *budget);
            *budget = budget.saturating_sub(n / 8);
            Val::Str(rand_str(r, n))
        }
        Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => {
            if r.chance(1, 300) {
                let n = *r.pick(&GRAND);
                let s: Vec<u8> = (0..97).map(|_| r.u64() as u8).collect();
                return Val::Bytes(s.into_iter().cycle().take(n).collect());
            }
            let n = if r.chance(1, 40) { *r.pick(&[16383, 16384, 16385, 127, 128]) } else { rand_len(r, *budget) };
            *budget = budget.saturating_sub(n / 8);
            Val::Bytes((0..n).map(|_| r.u64() as u8).collect())
        }
        Ty::Vec(t) if *budget > 1000 && matches!(**t, Ty::Bool | Ty::U8 | Ty::I8 | Ty::U16 | Ty::U32) && r.chance(1, 20) => {
            let n = *r.pick(&[16383, 16384, 20_000]);
            let mut b = 1;
            Val::List((0..n).map(|_| rand_val(r, env, t, &mut b)).collect())
        }
        Ty::Vec(t) => { let n = coll_len(r, *budget); Val::List((0..n).map(|_| rand_val(r, env, t, budget)).collect()) }
        Ty::Array(t, n) => Val::List((0..*n).map(|_| rand_val(r, env, t, budget)).collect()),
        Ty::Tuple(ts) => Val::List(ts.iter().map(|t| rand_val(r, env, t, budget)).collect()),
        Ty::Set(t) => {
            let n = coll_len(r, *budget);
            Val::Set((0..n).map(|_| rand_val(r, env, t, budget)).collect::<BTreeSet<_>>().into_iter().collect())
        }
        Ty::Map(k, v) => {
            let n = coll_len(r, *budget);
            Val::Map((0..n).map(|_| (rand_val(r, env, k, budget), rand_val(r, env, v, budget))).collect::<BTreeMap<_, _>>().into_iter().collect())
        }
        Ty::Opt(t) => Val::Opt((r.chance(2, 3)).then(|| Box::new(rand_val(r, env, t, budget)))),
        Ty::NonZero(t) => loop {
            let v = rand_val(r, env, t, budget);
            if !is_zero(&v) { return v; }
            if *budget == 0 { *budget = 4; }
        },
        Ty::Ext { path, name, args } => {
            let def = env.get(path, name);
            match &def.kind {
                RKind::Struct(f) => Val::Rec(inst(f, def, args).iter().map(|x| rand_val(r, env, &x.ty, budget)).collect()),
                RKind::Enum(vs) => {
                    let i = r.below(vs.len());
                    Val::Var(i, inst(&vs[i].2, def, args).iter().map(|x| rand_val(r, env, &x.ty, budget)).collect())
                }
            }
        }
        _ => unreachable!(),
    }
}

fn coll_len(r: &mut Rng, budget: usize) -> usize { if budget < 2 { budget.min(1) } else { rand_len(r, budget) } }

pub fn is_zero(v: &Val) -> bool {
    match v {
        Val::U(0) | Val::I(0) => true,
        Val::Str(s) => s.is_empty(),
        Val::Bytes(b) => b.is_empty(),
        Val::List(l) | Val::Set(l) => l.is_empty(),
        Val::Map(m) => m.is_empty(),
        _ => false,
    }
}

/// Order-insensitive normal form of a value of the given type: sorts maps and sets, turns lists of
/// small integers into bytes where the type says bytes.
pub fn canon(env: &Env, ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::Bytes | Ty::BytesRef | Ty::BoxBytes, Val::List(l)) =>
            Val::Bytes(l.iter().map(|x| if let Val::U(n) = x { *n as u8 } else { panic!("not a byte: {x:?}") }).collect()),
        (Ty::Vec(t) | Ty::Array(t, _), Val::List(l)) => Val::List(l.iter().map(|x| canon(env, t, x)).collect()),
        (Ty::Vec(t) | Ty::Array(t, _), Val::Bytes(b)) => Val::List(b.iter().map(|x| canon(env, t, &Val::U(u128::from(*x)))).collect()),
        (Ty::Tuple(ts), Val::List(l)) => Val::List(ts.iter().zip(l).map(|(t, x)| canon(env, t, x)).collect()),
        (Ty::Set(t), Val::Set(l)) => { let mut l: Vec<_> = l.iter().map(|x| canon(env, t, x)).collect(); l.sort(); Val::Set(l) }
        (Ty::Map(k, t), Val::Map(m)) => { let mut m: Vec<_> = m.iter().map(|(a, b)| (canon(env, k, a), canon(env, t, b))).collect(); m.sort(); Val::Map(m) }
        (Ty::Opt(t), Val::Opt(o)) => Val::Opt(o.as_ref().map(|x| Box::new(canon(env, t, x)))),
        (Ty::NonZero(t), v) => canon(env, t, v),
        (Ty::Ext { path, name, args }, Val::Rec(l)) => {
            let def = env.get(path, name);
            let RKind::Struct(f) = &def.kind else { panic!("not a struct") };
            Val::Rec(inst(f, def, args).iter().zip(l).map(|(x, v)| canon(env, &x.ty, v)).collect())
        }
        (Ty::Ext { path, name, args }, Val::Var(i, l)) => {
            let def = env.get(path, name);
            let RKind::Enum(vs) = &def.kind else { panic!("not an enum") };
            Val::Var(*i, inst(&vs[*i].2, def, args).iter().zip(l).map(|(x, v)| canon(env, &x.ty, v)).collect())
        }
        (_, v) => v.clone(),
    }
}

/// Short text form for samples and witnesses.
pub fn show(v: &Val) -> String {
    use std::fmt::Write;
    /// Takes what fits.
    struct Short(String);
    impl Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() { if self.0.len() > 400 { return Err(std::fmt::Error); } self.0.push(c); }
            Ok(())
        }
    }
    let mut s = Short(String::new());
    if write!(s, "{v:?}").is_err() { s.0.push('…'); }
    s.0
}

/// True if the value contains a map or set with more than one element (its encoding order is free).
pub fn has_unordered(v: &Val) -> bool {
    match v {
        Val::Map(m) => m.len() > 1 || m.iter().any(|(a, b)| has_unordered(a) || has_unordered(b)),
        Val::Set(l) => l.len() > 1 || l.iter().any(has_unordered),
        Val::List(l) | Val::Rec(l) | Val::Var(_, l) => l.iter().any(has_unordered),
        Val::Opt(Some(x)) => has_unordered(x),
        _ => false,
    }
}

/// Number of leaves of a value of the type, with one element in each collection and the largest variant of each enum.
pub fn weight(env: &Env, ty: &Ty) -> u64 { weigh(env, ty, &mut HashMap::new()) }

fn weigh(env: &Env, ty: &Ty, memo: &mut HashMap<String, u64>) -> u64 {
    match ty {
        Ty::Array(t, n) => 1u64.saturating_add(weigh(env, t, memo).saturating_mul(u64::from(*n))),
        Ty::Tuple(ts) => ts.iter().fold(1, |a: u64, t| a.saturating_add(weigh(env, t, memo))),
        Ty::Opt(t) | Ty::Vec(t) | Ty::Set(t) | Ty::NonZero(t) => weigh(env, t, memo).saturating_add(1),
        Ty::Map(k, t) => weigh(env, k, memo).saturating_add(weigh(env, t, memo)).saturating_add(1),
        Ty::Ext { path, name, args } => {
            let key = crate::render::ty_text(ty);
            if let Some(n) = memo.get(&key) { return *n; }
            memo.insert(key.clone(), u64::MAX);
            let def = env.get(path, name);
            let mut fields = |f: &RFields| inst(f, def, args).iter().fold(1, |a: u64, f| a.saturating_add(weigh(env, &f.ty, memo)));
            let n = match &def.kind { RKind::Struct(f) => fields(f), RKind::Enum(v) => v.iter().map(|v| fields(&v.2)).max().unwrap_or(1) };
            memo.insert(key, n);
            n
        }
        _ => 1,
    }
}
