//! Reference implementation of the wire format, from book/src/reference/wire-format.md.
use crate::{model::*, value::*};

pub fn put_varint(out: &mut Vec<u8>, mut v: u128) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 { out.push(b); return; }
        out.push(b | 0x80);
    }
}

pub fn varint(v: u128) -> Vec<u8> { let mut o = Vec::new(); put_varint(&mut o, v); o }

/// Field encoding class: 0 varint, 1 length prefixed, 2 fixed 1, 3 fixed 4, 4 fixed 8.
pub fn class(ty: &Ty) -> u32 {
    match ty {
        Ty::Bool | Ty::U8 | Ty::I8 => 2,
        Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128 => 0,
        Ty::F32 => 3,
        Ty::F64 => 4,
        Ty::NonZero(t) => class(t),
        _ => 1,
    }
}

pub fn encode(env: &Env, ty: &Ty, v: &Val) -> Vec<u8> { let mut o = Vec::new(); enc(env, ty, v, &mut o); o }

fn prefixed(out: &mut Vec<u8>, body: &[u8]) { put_varint(out, body.len() as u128); out.extend_from_slice(body); }

pub fn enc(env: &Env, ty: &Ty, v: &Val, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => out.push(u8::from(*b)),
        (Ty::U8, Val::U(n)) => out.push(*n as u8),
        (Ty::I8, Val::I(n)) => out.push(*n as i8 as u8),
        (Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128, Val::U(n)) => put_varint(out, *n),
        (Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128, Val::I(n)) => put_varint(out, zigzag(*n)),
        (Ty::F32, Val::F32(b)) => out.extend_from_slice(&b.to_be_bytes()),
        (Ty::F64, Val::F64(b)) => out.extend_from_slice(&b.to_be_bytes()),
        (Ty::Str | Ty::StrRef | Ty::BoxStr, Val::Str(s)) => prefixed(out, s.as_bytes()),
        (Ty::Bytes | Ty::BytesRef | Ty::BoxBytes, Val::Bytes(b)) => prefixed(out, b),
        (Ty::Vec(t), Val::List(l)) | (Ty::Array(t, _), Val::List(l)) | (Ty::Set(t), Val::Set(l)) => {
            let mut body = Vec::new();
            for x in l { enc(env, t, x, &mut body); }
            prefixed(out, &body);
        }
        (Ty::Map(k, t), Val::Map(m)) => {
            let mut body = Vec::new();
            for (a, b) in m { enc(env, k, a, &mut body); enc(env, t, b, &mut body); }
            prefixed(out, &body);
        }
        (Ty::Opt(_), Val::Opt(None)) => out.push(0),
        (Ty::Opt(t), Val::Opt(Some(x))) => { out.push(1); enc(env, t, x, out); }
        (Ty::NonZero(t), v) => enc(env, t, v, out),
        (Ty::Tuple(ts), Val::List(l)) => for (t, x) in ts.iter().zip(l) { enc(env, t, x, out); },
        (Ty::Ext { path, name, args }, Val::Rec(l)) => {
            let def = env.get(path, name);
            let RKind::Struct(f) = &def.kind else { panic!() };
            enc_fields(env, f.kind, &inst(f, def, args), l, out);
        }
        (Ty::Ext { path, name, args }, Val::Var(i, l)) => {
            let def = env.get(path, name);
            let RKind::Enum(vs) = &def.kind else { panic!() };
            put_varint(out, u128::from(vs[*i].1));
            enc_fields(env, vs[*i].2.kind, &inst(&vs[*i].2, def, args), l, out);
        }
        (t, v) => panic!("value {v:?} does not fit type {t:?}"),
    }
}

/// Encoding class of a field. Fields of a generic type are always announced as length prefixed.
pub fn field_class(f: &RField) -> u32 { if f.param { 1 } else { class(f.content()) } }

/// One field with its key; None for an absent optional field.
pub fn enc_field(env: &Env, f: &RField, v: &Val) -> Option<Vec<u8>> {
    let v = match v {
        Val::Opt(None) if f.opt => return None,
        Val::Opt(Some(x)) if f.opt => x,
        v => v,
    };
    let ty = f.content();
    let mut out = varint(u128::from((u64::from(f.id) << 3) | u64::from(field_class(f))));
    if let Ty::Tuple(_) = ty {
        let mut body = Vec::new();
        enc(env, ty, v, &mut body);
        prefixed(&mut out, &body);
    } else {
        enc(env, ty, v, &mut out);
    }
    Some(out)
}

pub fn enc_fields(env: &Env, kind: u8, fields: &[RField], vals: &[Val], out: &mut Vec<u8>) {
    if kind == 0 { return; }
    for (f, v) in fields.iter().zip(vals) {
        if let Some(b) = enc_field(env, f, v) { out.extend_from_slice(&b); }
    }
    out.push(0);
}

#[derive(Clone, Debug, PartialEq)]
pub enum RefErr {
    Insufficient,
    Varint,
    NonUtf8,
    Missing(u32, Option<String>),
    UnknownVariant(u32),
    UnknownEncoding(u32),
    Zero,
    /// the reference makes no claim (for example an element that consumes nothing)
    NoClaim,
}

type R<T> = Result<T, RefErr>;

pub struct Cur<'a> { pub b: &'a [u8] }

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() < n { return Err(RefErr::Insufficient); }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    /// (value with bits above `bits` dropped, whether something was dropped)
    fn varint(&mut self, bits: u32) -> R<u128> {
        let max = (bits as usize).div_ceil(7);
        let mut v = 0u128;
        for i in 0..max {
            let Some(b) = self.b.get(i).copied() else { return Err(RefErr::Varint) };
            let part = u128::from(b & 0x7f);
            let shifted = if 7 * i >= 128 { if part != 0 { return Err(RefErr::NoClaim) } 0 } else { part << (7 * i) };
            if (shifted >> (7 * i)) != part || (bits < 128 && shifted >> bits != 0) { return Err(RefErr::NoClaim); }
            v |= shifted;
            if b & 0x80 == 0 { self.b = &self.b[i + 1..]; return Ok(v); }
        }
        Err(RefErr::Varint)
    }
}

pub fn decode<'a>(env: &Env, ty: &Ty, b: &'a [u8]) -> R<(Val, &'a [u8])> {
    let mut c = Cur { b };
    let v = dec(env, ty, &mut c, 0)?;
    Ok((v, c.b))
}

/// Maps and sets keep the order of the wire. Repeated keys are reported as NoClaim.
pub fn dec(env: &Env, ty: &Ty, c: &mut Cur<'_>, depth: usize) -> R<Val> {
    if depth > 200 { return Err(RefErr::NoClaim); }
    let d = depth + 1;
    Ok(match ty {
        Ty::Bool => match c.take(1)?[0] { 0 => Val::Bool(false), 1 => Val::Bool(true), _ => return Err(RefErr::NoClaim) },
        Ty::U8 => Val::U(u128::from(c.take(1)?[0])),
        Ty::I8 => Val::I(i128::from(c.take(1)?[0] as i8)),
        Ty::U16 => Val::U(c.varint(16)?), Ty::U32 => Val::U(c.varint(32)?), Ty::U64 => Val::U(c.varint(64)?), Ty::U128 => Val::U(c.varint(128)?),
        Ty::I16 => Val::I(unzigzag(c.varint(16)?)), Ty::I32 => Val::I(unzigzag(c.varint(32)?)), Ty::I64 => Val::I(unzigzag(c.varint(64)?)), Ty::I128 => Val::I(unzigzag(c.varint(128)?)),
        Ty::F32 => Val::F32(u32::from_be_bytes(c.take(4)?.try_into().unwrap())),
        Ty::F64 => Val::F64(u64::from_be_bytes(c.take(8)?.try_into().unwrap())),
        Ty::Str | Ty::StrRef | Ty::BoxStr => { let b = body(c)?; Val::Str(String::from_utf8(b.to_vec()).map_err(|_| RefErr::NonUtf8)?) }
        Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => Val::Bytes(body(c)?.to_vec()),
        Ty::Vec(t) => Val::List(elems(env, t, c, d)?),
        Ty::Set(t) => { let l = elems(env, t, c, d)?; dup(l.iter().collect())?; Val::Set(l) }
        Ty::Array(t, n) => {
            let b = body(c)?;
            let mut cc = Cur { b };
            let mut l = Vec::new();
            while l.len() < *n as usize {
                if cc.b.is_empty() { return Err(RefErr::NoClaim); }
                l.push(dec(env, t, &mut cc, d)?);
            }
            Val::List(l)
        }
        Ty::Map(k, t) => {
            let b = body(c)?;
            let mut cc = Cur { b };
            let mut m = Vec::new();
            while !cc.b.is_empty() {
                let before = cc.b.len();
                m.push((dec(env, k, &mut cc, d)?, dec(env, t, &mut cc, d)?));
                if cc.b.len() == before { return Err(RefErr::NoClaim); }
            }
            dup(m.iter().map(|(k, _)| k).collect())?;
            Val::Map(m)
        }
        Ty::Opt(t) => match c.take(1)?[0] {
            0 => Val::Opt(None),
            1 => Val::Opt(Some(Box::new(dec(env, t, c, d)?))),
            _ => return Err(RefErr::NoClaim),
        },
        Ty::NonZero(t) => { let v = dec(env, t, c, d)?; if is_zero(&v) { return Err(RefErr::Zero); } v }
        Ty::Tuple(ts) => Val::List(ts.iter().map(|t| dec(env, t, c, d)).collect::<R<_>>()?),
        Ty::Ext { path, name, args } => {
            let def = env.get(path, name);
            match &def.kind {
                RKind::Struct(f) => Val::Rec(dec_fields(env, f.kind, &inst(f, def, args), c, d)?),
                RKind::Enum(vs) => {
                    let id = c.varint(32)? as u32;
                    let Some(i) = vs.iter().position(|v| v.1 == id) else { return Err(RefErr::UnknownVariant(id)) };
                    Val::Var(i, dec_fields(env, vs[i].2.kind, &inst(&vs[i].2, def, args), c, d)?)
                }
            }
        }
    })
}

fn dup(mut l: Vec<&Val>) -> R<()> {
    l.sort();
    if l.windows(2).any(|w| w[0] == w[1]) { Err(RefErr::NoClaim) } else { Ok(()) }
}

fn body<'a>(c: &mut Cur<'a>) -> R<&'a [u8]> {
    let n = c.varint(64)?;
    let n = usize::try_from(n).map_err(|_| RefErr::Insufficient)?;
    c.take(n)
}

fn elems(env: &Env, t: &Ty, c: &mut Cur<'_>, d: usize) -> R<Vec<Val>> {
    let b = body(c)?;
    let mut cc = Cur { b };
    let mut l = Vec::new();
    while !cc.b.is_empty() {
        let before = cc.b.len();
        l.push(dec(env, t, &mut cc, d)?);
        if cc.b.len() == before { return Err(RefErr::NoClaim); }
    }
    Ok(l)
}

fn dec_fields(env: &Env, kind: u8, fields: &[RField], c: &mut Cur<'_>, d: usize) -> R<Vec<Val>> {
    if kind == 0 { return Ok(Vec::new()); }
    let mut vals: Vec<Option<Val>> = vec![None; fields.len()];
    loop {
        let key = c.varint(32)? as u32;
        let (id, cl) = (key >> 3, key & 7);
        if cl > 4 { return Err(RefErr::UnknownEncoding(key)); }
        if id == 0 { if cl != 0 { return Err(RefErr::NoClaim); } break; }
        if let Some(i) = fields.iter().position(|f| f.id == id) {
            let ty = fields[i].content();
            if field_class(&fields[i]) != cl { return Err(RefErr::NoClaim); }
            let v = if let Ty::Tuple(_) = ty {
                // the length of a tuple is redundant: no claim about one that does not fit
                let n = c.varint(64)?;
                let before = c.b.len();
                let v = dec(env, ty, c, d)?;
                if (before - c.b.len()) as u128 != n { return Err(RefErr::NoClaim); }
                v
            } else { dec(env, ty, c, d)? };
            vals[i] = Some(v);
        } else {
            match cl {
                0 => loop { if c.take(1)?[0] & 0x80 == 0 { break; } },
                1 => { body(c)?; }
                2 => { c.take(1)?; }
                3 => { c.take(4)?; }
                _ => { c.take(8)?; }
            }
        }
    }
    fields.iter().zip(vals).map(|(f, v)| match (f.opt, v) {
        (true, None) => Ok(Val::Opt(None)),
        (true, Some(v)) => Ok(Val::Opt(Some(Box::new(v)))),
        (_, Some(v)) => Ok(v),
        (_, None) => Err(RefErr::Missing(f.id, f.name.clone())),
    }).collect()
}
