//! The schema model: what a schema says, without positions.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Bool, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64,
    Str, StrRef, Bytes, BytesRef, BoxStr, BoxBytes,
    Vec(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    Opt(Box<Ty>),
    NonZero(Box<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u32),
    Ext { path: Vec<String>, name: String, args: Vec<Ty> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Lit { Bool(bool), Int(i128), Float(f64), Str(String), Bytes(Vec<u8>) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Attr { pub name: String, pub value: AttrValue }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AttrValue { Unit, Single(Lit), Multi(Vec<Attr>) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Field { pub comment: Vec<String>, pub name: Option<String>, pub ty: Ty, pub id: Option<u32> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fields { Named(Vec<Field>), Unnamed(Vec<Field>), Unit }

impl Fields {
    pub fn list(&self) -> &[Field] {
        match self { Fields::Named(f) | Fields::Unnamed(f) => f, Fields::Unit => &[] }
    }
    pub fn list_mut(&mut self) -> Option<&mut Vec<Field>> {
        match self { Fields::Named(f) | Fields::Unnamed(f) => Some(f), Fields::Unit => None }
    }
    pub fn is_unit(&self) -> bool { matches!(self, Fields::Unit) }
    /// Effective identifiers, by the documented rule.
    pub fn ids(&self) -> Vec<u64> { derive_ids(self.list().iter().map(|f| f.id)) }
}

/// Explicit ids as given, otherwise predecessor + 1, starting at 1.
pub fn derive_ids(ids: impl Iterator<Item = Option<u32>>) -> Vec<u64> {
    let mut next = 1u64;
    ids.map(|id| {
        let id = id.map_or(next, u64::from);
        next = id + 1;
        id
    }).collect()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Struct { pub comment: Vec<String>, pub attrs: Vec<Attr>, pub name: String, pub generics: Vec<String>, pub fields: Fields }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Variant { pub comment: Vec<String>, pub name: String, pub fields: Fields, pub id: Option<u32> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Enum { pub comment: Vec<String>, pub attrs: Vec<Attr>, pub name: String, pub generics: Vec<String>, pub variants: Vec<Variant> }

impl Enum {
    pub fn ids(&self) -> Vec<u64> { derive_ids(self.variants.iter().map(|v| v.id)) }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Alias { pub comment: Vec<String>, pub name: String, pub generics: Vec<String>, pub target: Ty }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Const { pub comment: Vec<String>, pub name: String, pub ty: Ty, pub value: Lit }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Import { pub segments: Vec<String>, pub element: Option<String> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Module { pub comment: Vec<String>, pub name: String, pub defs: Vec<Def> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Def { Module(Module), Struct(Struct), Enum(Enum), Alias(Alias), Const(Const), Import(Import) }

impl Def {
    pub fn name(&self) -> &str {
        match self {
            Def::Module(x) => &x.name, Def::Struct(x) => &x.name, Def::Enum(x) => &x.name,
            Def::Alias(x) => &x.name, Def::Const(x) => &x.name,
            Def::Import(x) => x.element.as_deref().unwrap_or_else(|| x.segments.last().unwrap()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Schema { pub comment: Vec<String>, pub defs: Vec<Def> }

/// A set of named schemas, as in one project.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Package { pub schemas: Vec<(String, Schema)> }

/// Visit every field type of a definition tree.
pub fn visit_defs<'a>(defs: &'a [Def], path: &mut Vec<String>, f: &mut impl FnMut(&[String], &'a Def)) {
    for d in defs {
        f(path, d);
        if let Def::Module(m) = d {
            path.push(m.name.clone());
            visit_defs(&m.defs, path, f);
            path.pop();
        }
    }
}

pub fn visit_ty<'a>(ty: &'a Ty, f: &mut impl FnMut(&'a Ty)) {
    f(ty);
    match ty {
        Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) | Ty::Array(t, _) => visit_ty(t, f),
        Ty::Map(k, v) => { visit_ty(k, f); visit_ty(v, f); }
        Ty::Tuple(ts) => ts.iter().for_each(|t| visit_ty(t, f)),
        Ty::Ext { args, .. } => args.iter().for_each(|t| visit_ty(t, f)),
        _ => {}
    }
}

pub fn map_ty(ty: &Ty, f: &mut impl FnMut(&Ty) -> Option<Ty>) -> Ty {
    if let Some(t) = f(ty) { return t; }
    match ty {
        Ty::Vec(t) => Ty::Vec(Box::new(map_ty(t, f))),
        Ty::Set(t) => Ty::Set(Box::new(map_ty(t, f))),
        Ty::Opt(t) => Ty::Opt(Box::new(map_ty(t, f))),
        Ty::NonZero(t) => Ty::NonZero(Box::new(map_ty(t, f))),
        Ty::Array(t, n) => Ty::Array(Box::new(map_ty(t, f)), *n),
        Ty::Map(k, v) => Ty::Map(Box::new(map_ty(k, f)), Box::new(map_ty(v, f))),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(|t| map_ty(t, f)).collect()),
        Ty::Ext { path, name, args } => Ty::Ext { path: path.clone(), name: name.clone(), args: args.iter().map(|t| map_ty(t, f)).collect() },
        t => t.clone(),
    }
}

/// Replace generic parameters by arguments.
pub fn subst(ty: &Ty, params: &[String], args: &[Ty]) -> Ty {
    map_ty(ty, &mut |t| match t {
        Ty::Ext { path, name, args: a } if path.is_empty() && a.is_empty() =>
            params.iter().position(|p| p == name).map(|i| args[i].clone()),
        _ => None,
    })
}
