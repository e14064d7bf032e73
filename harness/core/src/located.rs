//! A model together with the location of its elements in the text that it was written to.
use crate::{model::*, render::Mark};

pub type R = (usize, usize);

#[derive(Clone, Debug)]
pub struct LTy { pub ty: Ty, pub span: R, pub path: Vec<R>, pub name: R, pub kids: Vec<LTy> }
#[derive(Clone, Debug)]
pub struct LField { pub field: Field, pub span: R, pub name: Option<R>, pub comments: Vec<R>, pub ty: LTy, pub id: Option<R> }
#[derive(Clone, Debug)]
pub struct LVariant { pub variant: Variant, pub span: R, pub name: R, pub comments: Vec<R>, pub fields: Vec<LField>, pub id: Option<R> }
#[derive(Clone, Debug)]
pub struct LDef {
    pub def: Def, pub comments: Vec<R>, pub attr_lits: Vec<R>, pub kw: R, pub name: R, pub generics: Vec<R>,
    pub fields: Vec<LField>, pub variants: Vec<LVariant>, pub ty: Option<LTy>, pub lit: Option<R>,
    /// of an import
    pub segments: Vec<R>, pub element: Option<R>, pub full: R,
    pub defs: Vec<LDef>,
}
#[derive(Clone, Debug)]
pub struct LSchema { pub comments: Vec<R>, pub defs: Vec<LDef> }

struct Cur<'a> { marks: Vec<&'a Mark>, i: usize }

pub fn locate(s: &Schema, marks: &[Mark]) -> LSchema {
    let mut c = Cur { marks: marks.iter().filter(|m| !matches!(m.0, "punct" | "open" | "close")).collect(), i: 0 };
    let comments = c.comments(&s.comment);
    let defs = s.defs.iter().map(|d| c.def(d)).collect();
    assert_eq!(c.i, c.marks.len(), "harness: unused marks");
    LSchema { comments, defs }
}

impl Cur<'_> {
    fn take(&mut self, kind: &str) -> R {
        let m = self.marks.get(self.i).copied().unwrap_or_else(|| panic!("harness: no mark for {kind}"));
        assert_eq!(m.0, kind, "harness: mark {m:?}");
        self.i += 1;
        (m.1, m.2)
    }
    fn comments(&mut self, c: &[String]) -> Vec<R> { c.iter().map(|_| self.take("comment")).collect() }
    fn attrs(&mut self, a: &[Attr]) -> Vec<R> {
        let mut out = Vec::new();
        for a in a {
            match &a.value {
                AttrValue::Unit => {}
                AttrValue::Single(_) => out.push(self.take("lit")),
                AttrValue::Multi(l) => out.extend(self.attrs(l)),
            }
        }
        out
    }
    fn names(&mut self, n: usize) -> Vec<R> { (0..n).map(|_| self.take("name")).collect() }
    fn def(&mut self, d: &Def) -> LDef {
        let mut l = LDef { def: d.clone(), comments: Vec::new(), attr_lits: Vec::new(), kw: (0, 0), name: (0, 0), generics: Vec::new(), fields: Vec::new(), variants: Vec::new(), ty: None, lit: None, segments: Vec::new(), element: None, full: (0, 0), defs: Vec::new() };
        match d {
            Def::Module(m) => {
                l.comments = self.comments(&m.comment);
                l.kw = self.take("kw");
                l.name = self.take("name");
                l.defs = m.defs.iter().map(|d| self.def(d)).collect();
            }
            Def::Struct(s) => {
                l.comments = self.comments(&s.comment);
                l.attr_lits = self.attrs(&s.attrs);
                l.kw = self.take("kw");
                l.name = self.take("name");
                l.generics = self.names(s.generics.len());
                l.fields = self.fields(&s.fields);
            }
            Def::Enum(e) => {
                l.comments = self.comments(&e.comment);
                l.attr_lits = self.attrs(&e.attrs);
                l.kw = self.take("kw");
                l.name = self.take("name");
                l.generics = self.names(e.generics.len());
                l.variants = e.variants.iter().map(|v| {
                    let comments = self.comments(&v.comment);
                    let span = self.take("variant");
                    let name = self.take("name");
                    let fields = self.fields(&v.fields);
                    let id = v.id.map(|_| self.take("id"));
                    LVariant { variant: v.clone(), span, name, comments, fields, id }
                }).collect();
            }
            Def::Alias(a) => {
                l.comments = self.comments(&a.comment);
                l.kw = self.take("kw");
                l.name = self.take("name");
                l.generics = self.names(a.generics.len());
                l.ty = Some(self.ty(&a.target));
            }
            Def::Const(c) => {
                l.comments = self.comments(&c.comment);
                l.kw = self.take("kw");
                l.name = self.take("name");
                l.ty = Some(self.ty(&c.ty));
                l.lit = Some(self.take("lit"));
            }
            Def::Import(i) => {
                l.kw = self.take("kw");
                l.full = self.take("import");
                l.segments = self.names(i.segments.len());
                l.element = i.element.as_ref().map(|_| self.take("name"));
                l.name = l.element.unwrap_or_else(|| *l.segments.last().unwrap());
            }
        }
        l
    }
    fn fields(&mut self, f: &Fields) -> Vec<LField> {
        f.list().iter().map(|f| {
            let comments = self.comments(&f.comment);
            let span = self.take("field");
            let name = f.name.as_ref().map(|_| self.take("name"));
            let ty = self.ty(&f.ty);
            let id = f.id.map(|_| self.take("id"));
            LField { field: f.clone(), span, name, comments, ty, id }
        }).collect()
    }
    fn ty(&mut self, t: &Ty) -> LTy {
        let span = self.take("type");
        let mut l = LTy { ty: t.clone(), span, path: Vec::new(), name: (0, 0), kids: Vec::new() };
        match t {
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) => { l.name = self.take("word"); l.kids.push(self.ty(t)); }
            Ty::Map(k, v) => { l.name = self.take("word"); l.kids.push(self.ty(k)); l.kids.push(self.ty(v)); }
            Ty::Array(t, _) => l.kids.push(self.ty(t)),
            Ty::Tuple(ts) => for t in ts { l.kids.push(self.ty(t)); },
            Ty::Ext { path, args, .. } => {
                l.path = self.names(path.len());
                l.name = self.take("name");
                for t in args { l.kids.push(self.ty(t)); }
            }
            _ => {}
        }
        l
    }
}

impl LTy {
    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a LTy)) {
        f(self);
        for k in &self.kids { k.visit(f); }
    }
}

impl LDef {
    /// Every field list of the definition.
    pub fn field_lists(&self) -> Vec<&[LField]> {
        match &self.def {
            Def::Struct(_) => vec![&self.fields],
            Def::Enum(_) => self.variants.iter().map(|v| &v.fields[..]).collect(),
            _ => Vec::new(),
        }
    }
    /// Every type of the definition.
    pub fn types(&self) -> Vec<&LTy> {
        let mut l: Vec<&LTy> = self.field_lists().into_iter().flatten().map(|f| &f.ty).collect();
        l.extend(self.ty.as_ref());
        l
    }
    pub fn generic_names(&self) -> &[String] {
        match &self.def { Def::Struct(s) => &s.generics, Def::Enum(e) => &e.generics, Def::Alias(a) => &a.generics, _ => &[] }
    }
}
