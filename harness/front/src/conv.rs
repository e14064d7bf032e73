//! Translates the real parser's tree into the model, with the location of every element.
use std::ops::Range;

use mabo_parser::{self as mp, Spanned, punctuated::Punctuated, token::{Comma, Delimiter}};
use mvcore::{model::*, render::Mark};

pub struct Conv { pub marks: Vec<Mark> }

pub fn schema(s: &mp::Schema<'_>) -> (Schema, Vec<Mark>) {
    let mut c = Conv { marks: Vec::new() };
    let comment = c.comment(&s.comment);
    let defs = s.definitions.iter().map(|d| c.def(d)).collect();
    (Schema { comment, defs }, c.marks)
}

pub fn model(s: &mp::Schema<'_>) -> Schema { schema(s).0 }

fn range(s: mp::Span) -> Range<usize> { s.into() }

impl Conv {
    fn m(&mut self, kind: &'static str, s: mp::Span) { let r = range(s); self.marks.push((kind, r.start, r.end)); }
    fn comment(&mut self, c: &mp::Comment<'_>) -> Vec<String> {
        c.0.iter().map(|l| { self.m("comment", l.span()); l.get().to_string() }).collect()
    }
    fn name(&mut self, n: &mp::Name<'_>) -> String { self.m("name", n.span()); n.get().to_string() }
    fn generics(&mut self, g: Option<&mp::Generics<'_>>) -> Vec<String> {
        g.map_or_else(Vec::new, |g| {
            self.m("open", g.angle.open());
            let l = self.list(&g.types, |c, n| c.name(n));
            self.m("close", g.angle.close());
            l
        })
    }
    fn list<T, O>(&mut self, l: &Punctuated<T>, mut f: impl FnMut(&mut Self, &T) -> O) -> Vec<O> {
        l.iter().map(|(v, p): (&T, Option<Comma>)| {
            let o = f(self, v);
            if let Some(p) = p { self.m("punct", p.span()); }
            o
        }).collect()
    }
    fn def(&mut self, d: &mp::Definition<'_>) -> Def {
        match d {
            mp::Definition::Module(m) => {
                let comment = self.comment(&m.comment);
                self.m("kw", m.keyword.span());
                let name = self.name(&m.name);
                self.m("open", m.brace.open());
                let defs = m.definitions.iter().map(|d| self.def(d)).collect();
                self.m("close", m.brace.close());
                Def::Module(Module { comment, name, defs })
            }
            mp::Definition::Struct(s) => {
                let comment = self.comment(&s.comment);
                let attrs = self.attrs(&s.attributes.0);
                self.m("kw", s.keyword.span());
                let name = self.name(&s.name);
                let generics = self.generics(s.generics.as_ref());
                let fields = self.fields(&s.fields);
                Def::Struct(Struct { comment, attrs, name, generics, fields })
            }
            mp::Definition::Enum(e) => {
                let comment = self.comment(&e.comment);
                let attrs = self.attrs(&e.attributes.0);
                self.m("kw", e.keyword.span());
                let name = self.name(&e.name);
                let generics = self.generics(e.generics.as_ref());
                self.m("open", e.brace.open());
                let variants = self.list(&e.variants, |c, v| {
                    let comment = c.comment(&v.comment);
                    c.m("variant", v.span());
                    let name = c.name(&v.name);
                    let fields = c.fields(&v.fields);
                    let id = c.id(v.id.as_ref());
                    Variant { comment, name, fields, id }
                });
                self.m("close", e.brace.close());
                Def::Enum(Enum { comment, attrs, name, generics, variants })
            }
            mp::Definition::TypeAlias(a) => {
                let comment = self.comment(&a.comment);
                self.m("kw", a.keyword.span());
                let name = self.name(&a.name);
                let generics = self.generics(a.generics.as_ref());
                self.m("punct", a.equal.span());
                let target = self.ty(&a.target);
                self.m("punct", a.semicolon.span());
                Def::Alias(Alias { comment, name, generics, target })
            }
            mp::Definition::Const(k) => {
                let comment = self.comment(&k.comment);
                self.m("kw", k.keyword.span());
                let name = self.name(&k.name);
                self.m("punct", k.colon.span());
                let ty = self.ty(&k.ty);
                self.m("punct", k.equal.span());
                let value = self.lit(&k.value);
                self.m("punct", k.semicolon.span());
                Def::Const(Const { comment, name, ty, value })
            }
            mp::Definition::Import(i) => {
                self.m("kw", i.keyword.span());
                self.m("import", i.full.span());
                let segments = i.segments.iter().map(|s| self.name(s)).collect();
                let element = i.element.as_ref().map(|(p, n)| { self.m("punct", p.span()); self.name(n) });
                self.m("punct", i.semicolon.span());
                Def::Import(Import { segments, element })
            }
        }
    }
    fn id(&mut self, id: Option<&mp::Id>) -> Option<u32> { id.map(|i| { self.m("id", i.span()); i.get() }) }
    fn fields(&mut self, f: &mp::Fields<'_>) -> Fields {
        match f {
            mp::Fields::Unit => Fields::Unit,
            mp::Fields::Named(b, l) => {
                self.m("open", b.open());
                let l = self.list(l, |c, f| {
                    let comment = c.comment(&f.comment);
                    c.m("field", f.span());
                    let name = Some(c.name(&f.name));
                    c.m("punct", f.colon.span());
                    let ty = c.ty(&f.ty);
                    let id = c.id(f.id.as_ref());
                    Field { comment, name, ty, id }
                });
                self.m("close", b.close());
                Fields::Named(l)
            }
            mp::Fields::Unnamed(b, l) => {
                self.m("open", b.open());
                let l = self.list(l, |c, f| {
                    c.m("field", f.span());
                    let ty = c.ty(&f.ty);
                    let id = c.id(f.id.as_ref());
                    Field { comment: Vec::new(), name: None, ty, id }
                });
                self.m("close", b.close());
                Fields::Unnamed(l)
            }
        }
    }
    fn boxed(&mut self, word: mp::Span, angle: &mp::token::Angle, t: &mp::Type<'_>) -> Box<Ty> {
        self.m("word", word);
        self.m("open", angle.open());
        let t = Box::new(self.ty(t));
        self.m("close", angle.close());
        t
    }
    fn ty(&mut self, t: &mp::Type<'_>) -> Ty {
        self.m("type", t.span());
        use mp::DataType as D;
        match &t.value {
            D::Bool => Ty::Bool, D::U8 => Ty::U8, D::U16 => Ty::U16, D::U32 => Ty::U32, D::U64 => Ty::U64, D::U128 => Ty::U128,
            D::I8 => Ty::I8, D::I16 => Ty::I16, D::I32 => Ty::I32, D::I64 => Ty::I64, D::I128 => Ty::I128, D::F32 => Ty::F32, D::F64 => Ty::F64,
            D::String => Ty::Str, D::StringRef => Ty::StrRef, D::Bytes => Ty::Bytes, D::BytesRef => Ty::BytesRef, D::BoxString => Ty::BoxStr, D::BoxBytes => Ty::BoxBytes,
            D::Vec { span, angle, ty } => Ty::Vec(self.boxed(*span, angle, ty)),
            D::HashSet { span, angle, ty } => Ty::Set(self.boxed(*span, angle, ty)),
            D::Option { span, angle, ty } => Ty::Opt(self.boxed(*span, angle, ty)),
            D::NonZero { span, angle, ty } => Ty::NonZero(self.boxed(*span, angle, ty)),
            D::HashMap { span, angle, key, comma, value } => {
                self.m("word", *span);
                self.m("open", angle.open());
                let k = Box::new(self.ty(key));
                self.m("punct", comma.span());
                let v = Box::new(self.ty(value));
                self.m("close", angle.close());
                Ty::Map(k, v)
            }
            D::Tuple { paren, types } => {
                self.m("open", paren.open());
                let l = self.list(types, |c, t| c.ty(t));
                self.m("close", paren.close());
                Ty::Tuple(l)
            }
            D::Array { bracket, ty, semicolon, size } => {
                self.m("open", bracket.open());
                let t = Box::new(self.ty(ty));
                self.m("punct", semicolon.span());
                self.m("close", bracket.close());
                Ty::Array(t, *size)
            }
            D::External(e) => {
                let path = e.path.iter().map(|(n, p)| { let n = self.name(n); self.m("punct", p.span()); n }).collect();
                let name = self.name(&e.name);
                let args = match (&e.angle, &e.generics) {
                    (Some(a), Some(g)) => {
                        self.m("open", a.open());
                        let l = self.list(g, |c, t| c.ty(t));
                        self.m("close", a.close());
                        l
                    }
                    _ => Vec::new(),
                };
                Ty::Ext { path, name, args }
            }
        }
    }
    fn attrs(&mut self, l: &[mp::Attribute<'_>]) -> Vec<Attr> {
        l.iter().map(|a| {
            let value = match &a.value {
                mp::AttributeValue::Unit => AttrValue::Unit,
                mp::AttributeValue::Single(l) => AttrValue::Single(self.lit(l)),
                mp::AttributeValue::Multi(l) => AttrValue::Multi(self.attrs(l)),
            };
            Attr { name: a.name.to_string(), value }
        }).collect()
    }
    fn lit(&mut self, l: &mp::Literal) -> Lit { self.m("lit", l.span()); lit_value(&l.value) }
}

pub fn lit_value(l: &mp::LiteralValue) -> Lit {
    match l {
        mp::LiteralValue::Bool(b) => Lit::Bool(*b),
        mp::LiteralValue::Int(i) => Lit::Int(*i),
        mp::LiteralValue::Float(f) => Lit::Float(*f),
        mp::LiteralValue::String(s) => Lit::Str(s.clone()),
        mp::LiteralValue::Bytes(b) => Lit::Bytes(b.clone()),
    }
}
