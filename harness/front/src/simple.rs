//! The simplified schema in terms of the model.
use mabo_compiler::simplify::{self as si, Definition as D, FieldKind, Literal, ParserField, Type};
use mabo_parser as mp;
use mvcore::model::*;

use crate::conv;

fn strs(l: &[&str]) -> Vec<String> { l.iter().map(|s| s.to_string()).collect() }

pub fn model(s: &si::Schema<'_>) -> Schema { Schema { comment: strs(&s.comment), defs: s.definitions.iter().map(def).collect() } }

fn def(d: &D<'_>) -> Def {
    match d {
        D::Module(m) => Def::Module(Module { comment: strs(&m.comment), name: m.name.into(), defs: m.definitions.iter().map(def).collect() }),
        D::Struct(s) => Def::Struct(Struct { comment: strs(&s.comment), attrs: Vec::new(), name: s.name.into(), generics: strs(&s.generics), fields: fields(&s.fields) }),
        D::Enum(e) => Def::Enum(Enum {
            comment: strs(&e.comment), attrs: Vec::new(), name: e.name.into(), generics: strs(&e.generics),
            variants: e.variants.iter().map(|v| Variant { comment: strs(&v.comment), name: v.name.into(), fields: fields(&v.fields), id: Some(v.id) }).collect(),
        }),
        D::TypeAlias(a) => Def::Alias(Alias { comment: strs(&a.comment), name: a.name.into(), generics: strs(&a.generics), target: ty(&a.target) }),
        D::Const(c) => Def::Const(Const { comment: strs(&c.comment), name: c.name.into(), ty: ty(&c.ty), value: lit(&c.value) }),
        D::Import(i) => Def::Import(Import { segments: strs(&i.segments), element: i.element.as_ref().map(|e| e.to_string()) }),
    }
}

fn lit(l: &Literal) -> Lit {
    match l {
        Literal::Bool(b) => Lit::Bool(*b),
        Literal::Int(i) => Lit::Int(*i),
        Literal::Float(f) => Lit::Float(*f),
        Literal::String(s) => Lit::Str(s.to_string()),
        Literal::Bytes(b) => Lit::Bytes(b.to_vec()),
    }
}

fn fields(f: &si::Fields<'_>) -> Fields {
    let l = f.fields.iter().map(|f| Field { comment: strs(&f.comment), name: Some(f.name.to_string()), ty: ty(&f.ty), id: Some(f.id) }).collect();
    match f.kind { FieldKind::Named => Fields::Named(l), FieldKind::Unnamed => Fields::Unnamed(l), FieldKind::Unit => Fields::Unit }
}

pub fn ty(t: &Type<'_>) -> Ty {
    let b = |t: &Type<'_>| Box::new(ty(t));
    match t {
        Type::Bool => Ty::Bool, Type::U8 => Ty::U8, Type::U16 => Ty::U16, Type::U32 => Ty::U32, Type::U64 => Ty::U64, Type::U128 => Ty::U128,
        Type::I8 => Ty::I8, Type::I16 => Ty::I16, Type::I32 => Ty::I32, Type::I64 => Ty::I64, Type::I128 => Ty::I128, Type::F32 => Ty::F32, Type::F64 => Ty::F64,
        Type::String => Ty::Str, Type::StringRef => Ty::StrRef, Type::Bytes => Ty::Bytes, Type::BytesRef => Ty::BytesRef, Type::BoxString => Ty::BoxStr, Type::BoxBytes => Ty::BoxBytes,
        Type::Vec(t) => Ty::Vec(b(t)), Type::HashSet(t) => Ty::Set(b(t)), Type::Option(t) => Ty::Opt(b(t)), Type::NonZero(t) => Ty::NonZero(b(t)),
        Type::HashMap(kv) => Ty::Map(b(&kv.0), b(&kv.1)),
        Type::Tuple(l) => Ty::Tuple(l.iter().map(ty).collect()),
        Type::Array(t, n) => Ty::Array(b(t), *n),
        Type::External(e) => Ty::Ext { path: strs(&e.path), name: e.name.into(), args: e.generics.iter().map(ty).collect() },
    }
}

/// What the simplified form of a schema has to say.
pub fn expected(s: &Schema) -> Schema { Schema { comment: s.comment.clone(), defs: s.defs.iter().map(want).collect() } }

fn want(d: &Def) -> Def {
    let mut d = d.clone();
    match &mut d {
        Def::Module(m) => m.defs = m.defs.iter().map(want).collect(),
        Def::Struct(s) => { s.attrs.clear(); want_fields(&mut s.fields); }
        Def::Enum(e) => {
            e.attrs.clear();
            let mut next = 1u32;
            for v in &mut e.variants {
                let id = v.id.unwrap_or(next);
                next = id.saturating_add(1);
                v.id = Some(id);
                want_fields(&mut v.fields);
            }
        }
        _ => {}
    }
    d
}

fn want_fields(f: &mut Fields) {
    let unnamed = matches!(f, Fields::Unnamed(_));
    let mut next = 1u32;
    for (i, x) in f.list_mut().into_iter().flatten().enumerate() {
        let id = x.id.unwrap_or(next);
        next = id.saturating_add(1);
        x.id = Some(id);
        if unnamed { x.name = Some(format!("n{i}")); }
    }
}

/// Every simplified element refers to the parsed element with the same content.
pub fn sources(s: &si::Schema<'_>) -> Result<(), String> {
    if s.source.definitions.len() != s.definitions.len() { return Err("the schema's source has other definitions".into()); }
    defs(&s.source.definitions, &s.definitions)
}

fn defs(src: &[mp::Definition<'_>], l: &[D<'_>]) -> Result<(), String> {
    if src.len() != l.len() { return Err("number of definitions differs from the source".into()); }
    for (p, d) in src.iter().zip(l) {
        let same = match (p, d) {
            (mp::Definition::Module(p), D::Module(d)) => { defs(&d.source.definitions, &d.definitions)?; std::ptr::eq(p, d.source) }
            (mp::Definition::Struct(p), D::Struct(d)) => { fields_src(&p.fields, &d.fields)?; std::ptr::eq(p, d.source) }
            (mp::Definition::Enum(p), D::Enum(d)) => {
                for (p, d) in p.variants.values().zip(&d.variants) {
                    if !std::ptr::eq(p, d.source) { return Err(format!("variant {} refers to another one", d.name)); }
                    fields_src(&p.fields, &d.fields)?;
                }
                std::ptr::eq(p, d.source)
            }
            (mp::Definition::TypeAlias(p), D::TypeAlias(d)) => std::ptr::eq(p, d.source),
            (mp::Definition::Const(p), D::Const(d)) => std::ptr::eq(p, d.source),
            (mp::Definition::Import(p), D::Import(d)) => std::ptr::eq(p, d.source),
            _ => false,
        };
        if !same { return Err(format!("{:?} refers to another parsed element", def(d))); }
    }
    Ok(())
}

fn fields_src(p: &mp::Fields<'_>, d: &si::Fields<'_>) -> Result<(), String> {
    if !std::ptr::eq(p, d.source) { return Err("a field list refers to another one".into()); }
    match p {
        mp::Fields::Named(_, l) => for (p, f) in l.values().zip(&d.fields) {
            if !matches!(f.source, ParserField::Named(s) if std::ptr::eq(s, p)) { return Err(format!("field {} refers to another one", f.name)); }
        },
        mp::Fields::Unnamed(_, l) => for (p, f) in l.values().zip(&d.fields) {
            if !matches!(f.source, ParserField::Unnamed(s) if std::ptr::eq(s, p)) { return Err(format!("field {} refers to another one", f.name)); }
        },
        mp::Fields::Unit => {}
    }
    let _ = conv::lit_value;
    Ok(())
}
