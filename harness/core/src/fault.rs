//! A second writer of the reference format that can apply faults at chosen places.
use crate::{codec::*, model::*, rng::Rng, value::*};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    None,
    /// leave out one field of one struct or variant
    Drop,
    /// write fields repeatedly, the last occurrence carries the value
    Repeat,
    /// any order of the fields
    Permute,
    /// fields nobody knows, between the others
    Unknown,
    /// a field key with an undefined encoding
    BadEncoding,
    /// an unassigned variant number
    BadVariant,
    /// a zero or empty value for a non-zero type
    Zero,
    /// invalid UTF-8
    BadUtf8,
    /// a length that is too large
    Long,
}

pub const FAULTS: &[Mode] = &[Mode::Drop, Mode::Repeat, Mode::BadEncoding, Mode::BadVariant, Mode::Zero, Mode::BadUtf8, Mode::Long];

pub struct Faulter<'a> {
    pub r: &'a mut Rng,
    pub env: &'a Env,
    pub mode: Mode,
    /// apply at the n-th suitable site only; None for every site by chance
    pub target: Option<usize>,
    pub seen: usize,
    pub applied: Vec<String>,
}

impl<'a> Faulter<'a> {
    pub fn new(r: &'a mut Rng, env: &'a Env, mode: Mode, target: Option<usize>) -> Self { Self { r, env, mode, target, seen: 0, applied: Vec::new() } }

    /// Count a suitable site and decide whether to act on it.
    fn here(&mut self) -> bool {
        let n = self.seen;
        self.seen += 1;
        match self.target { Some(t) => t == n, None => self.r.chance(2, 3) }
    }

    fn prefixed(&mut self, out: &mut Vec<u8>, body: &[u8]) {
        let mut n = body.len() as u128;
        if self.mode == Mode::Long && self.here() {
            n += *self.r.pick(&[1, 1, 2, 3, 10, 127, 128, 1 << 20, 1 << 32, 1 << 62]);
            self.applied.push(format!("length {n} instead of {}", body.len()));
        }
        put_varint(out, n);
        out.extend_from_slice(body);
    }

    pub fn enc(&mut self, ty: &Ty, v: &Val, out: &mut Vec<u8>) {
        match (ty, v) {
            (Ty::Str | Ty::StrRef | Ty::BoxStr, Val::Str(s)) if self.mode == Mode::BadUtf8 => {
                let mut b = s.as_bytes().to_vec();
                if self.here() {
                    let bad: &[u8] = *self.r.pick::<&[u8]>(&[&[0xff], &[0xc0, 0x80], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0x80], &[0xf0, 0x9f, 0x98]]);
                    // never inside a character, so that the result is invalid for sure
                    let mut at = self.r.range(0, s.len());
                    while !s.is_char_boundary(at) { at -= 1; }
                    b.splice(at..at, bad.iter().copied());
                    self.applied.push("invalid UTF-8".into());
                }
                put_varint(out, b.len() as u128);
                out.extend_from_slice(&b);
            }
            (Ty::Str | Ty::StrRef | Ty::BoxStr, Val::Str(s)) if self.mode == Mode::Long => self.prefixed(out, s.as_bytes()),
            (Ty::Bytes | Ty::BytesRef | Ty::BoxBytes, Val::Bytes(b)) if self.mode == Mode::Long => self.prefixed(out, b),
            (Ty::NonZero(t), v) if self.mode == Mode::Zero => {
                if self.here() {
                    self.applied.push(format!("zero for {t:?}"));
                    // zero number, or length zero: one null byte in every case
                    out.push(0);
                } else { self.enc(t, v, out); }
            }
            (Ty::NonZero(t), v) => self.enc(t, v, out),
            (Ty::Vec(t), Val::List(l)) | (Ty::Array(t, _), Val::List(l)) | (Ty::Set(t), Val::Set(l)) => {
                let mut body = Vec::new();
                for x in l { self.enc(t, x, &mut body); }
                self.prefixed(out, &body);
            }
            (Ty::Map(k, t), Val::Map(m)) => {
                let mut body = Vec::new();
                for (a, b) in m { self.enc(k, a, &mut body); self.enc(t, b, &mut body); }
                self.prefixed(out, &body);
            }
            (Ty::Opt(_), Val::Opt(None)) => out.push(0),
            (Ty::Opt(t), Val::Opt(Some(x))) => { out.push(1); self.enc(t, x, out); }
            (Ty::Tuple(ts), Val::List(l)) => for (t, x) in ts.iter().zip(l) { self.enc(t, x, out); },
            (Ty::Ext { path, name, args }, Val::Rec(l)) => {
                let def = self.env.get(path, name);
                let RKind::Struct(f) = &def.kind else { panic!() };
                self.fields(f.kind, &inst(f, def, args), l, out);
            }
            (Ty::Ext { path, name, args }, Val::Var(i, l)) => {
                let def = self.env.get(path, name);
                let RKind::Enum(vs) = &def.kind else { panic!() };
                let mut id = vs[*i].1;
                if self.mode == Mode::BadVariant && self.here() {
                    loop {
                        id = match self.r.below(4) { 0 => 0, 1 => self.r.u64() as u32, 2 => u32::MAX - self.r.below(3) as u32, _ => self.r.below(40) as u32 };
                        if vs.iter().all(|v| v.1 != id) { break; }
                    }
                    self.applied.push(format!("variant {id} of {name}"));
                }
                put_varint(out, u128::from(id));
                self.fields(vs[*i].2.kind, &inst(&vs[*i].2, def, args), l, out);
            }
            (t, v) => enc(self.env, t, v, out),
        }
    }

    fn field(&mut self, f: &RField, v: &Val) -> Option<Vec<u8>> {
        let v = match v {
            Val::Opt(None) if f.opt => return None,
            Val::Opt(Some(x)) if f.opt => x,
            v => v,
        };
        let ty = f.content();
        let mut out = varint(u128::from((u64::from(f.id) << 3) | u64::from(field_class(f))));
        if let Ty::Tuple(_) = ty {
            let mut body = Vec::new();
            self.enc(ty, v, &mut body);
            put_varint(&mut out, body.len() as u128);
            out.extend_from_slice(&body);
        } else {
            self.enc(ty, v, &mut out);
        }
        Some(out)
    }

    fn unknown(&mut self, fields: &[RField]) -> Vec<u8> {
        let id = loop {
            let id = match self.r.below(4) { 0 => (1 << 29) - 1 - self.r.below(4) as u32, 1 => 1 + self.r.below(1 << 20) as u32, _ => 1 + self.r.below(40) as u32 };
            if fields.iter().all(|f| f.id != id) { break id; }
        };
        let class = self.r.below(5) as u32;
        let mut out = varint(u128::from((u64::from(id) << 3) | u64::from(class)));
        match class {
            0 => {
                let v = rand_uint(self.r, 128);
                put_varint(&mut out, v);
            }
            1 => {
                let n = *self.r.pick(&[0, 1, 5, 127, 128, 300]);
                let body: Vec<u8> = (0..n).map(|_| self.r.u64() as u8).collect();
                self.prefixed(&mut out, &body);
            }
            2 => out.push(self.r.u64() as u8),
            3 => for _ in 0..4 { out.push(self.r.u64() as u8) },
            _ => for _ in 0..8 { out.push(self.r.u64() as u8) },
        }
        out
    }

    fn fields(&mut self, kind: u8, fields: &[RField], vals: &[Val], out: &mut Vec<u8>) {
        if kind == 0 { return; }
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let drop = if self.mode == Mode::Drop && self.here() { Some(self.r.below(fields.len())) } else { None };
        for (i, (f, v)) in fields.iter().zip(vals).enumerate() {
            let Some(b) = self.field(f, v) else { continue };
            if drop == Some(i) { self.applied.push(format!("field {} {:?} left out", f.id, f.name)); continue; }
            if self.mode == Mode::Repeat && self.here() {
                for _ in 0..self.r.range(1, 2) {
                    let mut budget = 12;
                    let other = rand_val(self.r, self.env, &f.ty, &mut budget);
                    if let Some(b) = enc_field(self.env, f, &other) {
                        let at = self.r.range(0, parts.len());
                        parts.insert(at, b);
                        self.applied.push(format!("field {} {:?} repeated", f.id, f.name));
                    }
                }
            }
            parts.push(b);
        }
        if self.mode == Mode::Permute && parts.len() > 1 && self.here() {
            self.r.shuffle(&mut parts);
            self.applied.push("fields permuted".into());
        }
        if self.mode == Mode::Unknown && self.here() || self.mode == Mode::Long && self.r.chance(1, 2) {
            for _ in 0..self.r.range(1, 3) {
                let b = self.unknown(fields);
                let at = self.r.range(0, parts.len());
                parts.insert(at, b);
            }
            self.applied.push("unknown fields".into());
        }
        if self.mode == Mode::BadEncoding && self.here() {
            let id = if self.r.chance(1, 2) { self.r.pick(fields).id } else { self.r.below(1 << 20) as u32 };
            let key = (id << 3) | self.r.range(5, 7) as u32;
            let mut b = varint(u128::from(key));
            b.extend([0; 3]);
            let at = self.r.range(0, parts.len());
            parts.insert(at, b);
            self.applied.push(format!("field key {key}"));
        }
        for p in parts { out.extend_from_slice(&p); }
        out.push(0);
    }
}

/// Sum of the length prefixes of tuples that are directly in a field, as far as they are not announced:
/// fields reachable without passing through anything that carries its own length.
pub fn tuple_prefixes(env: &Env, ty: &Ty, v: &Val) -> usize {
    match (ty, v) {
        (Ty::Opt(t), Val::Opt(Some(x))) => tuple_prefixes(env, t, x),
        (Ty::Tuple(ts), Val::List(l)) => ts.iter().zip(l).map(|(t, x)| tuple_prefixes(env, t, x)).sum(),
        (Ty::Ext { path, name, args }, Val::Rec(l)) => {
            let def = env.get(path, name);
            let RKind::Struct(f) = &def.kind else { panic!() };
            fields_prefixes(env, &inst(f, def, args), l)
        }
        (Ty::Ext { path, name, args }, Val::Var(i, l)) => {
            let def = env.get(path, name);
            let RKind::Enum(vs) = &def.kind else { panic!() };
            fields_prefixes(env, &inst(&vs[*i].2, def, args), l)
        }
        _ => 0,
    }
}

fn fields_prefixes(env: &Env, fields: &[RField], vals: &[Val]) -> usize {
    fields.iter().zip(vals).map(|(f, v)| {
        let v = match v {
            Val::Opt(None) if f.opt => return 0,
            Val::Opt(Some(x)) if f.opt => x,
            v => v,
        };
        let own = if let Ty::Tuple(_) = f.content() { varint(encode(env, f.content(), v).len() as u128).len() } else { 0 };
        own + tuple_prefixes(env, f.content(), v)
    }).sum()
}
