//! Renders a schema model as text, in canonical, minimal or wild layout.
use crate::{model::*, rng::Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout { Canon, Min, Wild, WildCrlf }

/// Where an element of a certain kind lies in the text.
pub type Mark = (&'static str, usize, usize);

pub struct Renderer<'r> { pub r: &'r mut Rng, pub layout: Layout, out: String, marks: Vec<Mark> }

/// The text, and the location of every element in it, in the order of their beginnings.
pub fn render_marked(schema: &Schema, layout: Layout, r: &mut Rng) -> (String, Vec<Mark>) {
    let mut x = Renderer { r, layout, out: String::new(), marks: Vec::new() };
    x.schema(schema);
    (x.out, x.marks)
}

pub fn render(schema: &Schema, layout: Layout, r: &mut Rng) -> String {
    render_marked(schema, layout, r).0
}

pub fn canon(schema: &Schema) -> String { render(schema, Layout::Canon, &mut Rng::new(0, "canon", 0)) }

/// Canonical text of a type.
pub fn ty_text(ty: &Ty) -> String {
    let mut r = Rng::new(0, "ty", 0);
    let mut x = Renderer { r: &mut r, layout: Layout::Canon, out: String::new(), marks: Vec::new() };
    x.ty(ty);
    x.out
}

pub fn lit_text(l: &Lit) -> String {
    let mut r = Rng::new(0, "lit", 0);
    let mut x = Renderer { r: &mut r, layout: Layout::Canon, out: String::new(), marks: Vec::new() };
    x.lit(l);
    x.out
}

impl Renderer<'_> {
    fn p(&mut self, s: &str) { self.out.push_str(s); }
    /// text that is an element of its own
    fn m(&mut self, kind: &'static str, s: &str) { let at = self.out.len(); self.marks.push((kind, at, at + s.len())); self.out.push_str(s); }
    fn begin(&mut self, kind: &'static str) -> usize { self.marks.push((kind, self.out.len(), 0)); self.marks.len() - 1 }
    fn end(&mut self, i: usize) { self.marks[i].2 = self.out.len(); }
    fn wild(&self) -> bool { matches!(self.layout, Layout::Wild | Layout::WildCrlf) }
    /// any whitespace
    fn w(&mut self) {
        if self.wild() {
            for _ in 0..self.r.below(4) {
                let s = match self.r.below(8) { 0 | 1 => "\n", 2 => "\t", 3 => "\r\n", _ => " " };
                self.p(s);
            }
        }
    }
    /// spaces and tabs
    fn s(&mut self) {
        if self.wild() { for _ in 0..self.r.below(3) { let s = if self.r.chance(1, 4) { "\t" } else { " " }; self.p(s); } }
    }
    fn s1(&mut self) { self.p(" "); self.s(); }
    fn sp(&mut self) { if self.layout == Layout::Canon { self.p(" "); } else { self.s(); } }
    fn nl(&mut self) { if self.layout == Layout::WildCrlf { self.p("\r\n") } else { self.p("\n") } }
    fn trailing(&mut self) -> bool { match self.layout { Layout::Canon => false, Layout::Min => false, _ => self.r.chance(1, 2) } }

    fn schema(&mut self, s: &Schema) {
        if self.wild() { self.w(); }
        if !s.comment.is_empty() {
            self.comments(&s.comment, "");
            self.nl();
        }
        for (i, d) in s.defs.iter().enumerate() {
            if i > 0 { self.between(); }
            self.def(d, "", i == 0 && s.comment.is_empty());
        }
        if !s.defs.is_empty() { self.nl(); }
        self.w();
    }
    fn between(&mut self) {
        match self.layout {
            Layout::Canon => self.p("\n\n"),
            Layout::Min => self.p("\n"),
            _ => { self.nl(); self.w(); }
        }
    }
    fn comments(&mut self, c: &[String], ind: &str) {
        for l in c {
            if self.wild() { self.s(); } else { self.p(ind); }
            let i = self.begin("comment");
            self.p("///");
            self.sp();
            self.p(l);
            self.end(i);
            self.nl();
        }
    }
    fn def(&mut self, d: &Def, ind: &str, first: bool) {
        let (comment, attrs): (&[String], &[Attr]) = match d {
            Def::Module(x) => (&x.comment, &[]),
            Def::Struct(x) => (&x.comment, &x.attrs),
            Def::Enum(x) => (&x.comment, &x.attrs),
            Def::Alias(x) => (&x.comment, &[]),
            Def::Const(x) => (&x.comment, &[]),
            Def::Import(_) => (&[], &[]),
        };
        self.comments(comment, ind);
        // A blank line after the first comment would turn it into the schema comment.
        if self.wild() && !(first && !comment.is_empty()) { self.w(); }
        if !attrs.is_empty() {
            if self.layout == Layout::Canon { self.p(ind); }
            // random split into several attribute lists
            let mut i = 0;
            while i < attrs.len() {
                let n = if self.layout == Layout::Canon { attrs.len() } else { self.r.range(1, attrs.len() - i) };
                self.p("#[");
                self.attr_list(&attrs[i..i + n]);
                self.p("]");
                self.nl();
                i += n;
            }
        }
        if self.layout == Layout::Canon { self.p(ind); } else if self.wild() { self.s(); }
        match d {
            Def::Module(m) => {
                self.m("kw", "mod"); self.s1(); self.m("name", &m.name); self.sp(); self.m("open", "{");
                let inner = format!("{ind}    ");
                for (i, d) in m.defs.iter().enumerate() {
                    if i == 0 { self.nl(); } else { self.between(); }
                    self.def(d, &inner, false);
                }
                if self.layout == Layout::Canon { if !m.defs.is_empty() { self.p("\n"); } self.p(ind); } else { self.nl(); self.w(); }
                self.m("close", "}");
            }
            Def::Struct(s) => { self.m("kw", "struct"); self.s1(); self.m("name", &s.name); self.generics(&s.generics); self.fields(&s.fields, ind); }
            Def::Enum(e) => {
                self.m("kw", "enum"); self.s1(); self.m("name", &e.name); self.generics(&e.generics); self.sp(); self.m("open", "{");
                let inner = format!("{ind}    ");
                for (i, v) in e.variants.iter().enumerate() {
                    self.item_start(&v.comment, &inner, i);
                    let m = self.begin("variant");
                    self.m("name", &v.name);
                    self.fields(&v.fields, &inner);
                    self.id(v.id);
                    self.end(m);
                    self.item_end(i, e.variants.len(), true);
                }
                self.close("}", ind);
            }
            Def::Alias(a) => {
                self.m("kw", "type"); self.s1(); self.m("name", &a.name); self.generics(&a.generics); self.sp(); self.m("punct", "="); self.sp(); self.ty(&a.target); self.s(); self.m("punct", ";");
            }
            Def::Const(c) => {
                self.m("kw", "const"); self.s1(); self.m("name", &c.name); self.m("punct", ":"); self.sp(); self.ty(&c.ty); self.sp(); self.m("punct", "="); self.sp(); self.lit(&c.value); self.m("punct", ";");
            }
            Def::Import(i) => {
                self.m("kw", "use"); self.s1();
                let m = self.begin("import");
                for (i, s) in i.segments.iter().enumerate() { if i > 0 { self.p("::"); } self.m("name", s); }
                if let Some(e) = &i.element { self.m("punct", "::"); self.m("name", e); }
                self.end(m);
                self.m("punct", ";");
            }
        }
    }
    fn item_start(&mut self, comment: &[String], ind: &str, _i: usize) {
        match self.layout {
            Layout::Canon => { self.p("\n"); self.comments(comment, ind); self.p(ind); }
            Layout::Min => { if !comment.is_empty() { self.p("\n"); } self.comments(comment, ""); }
            _ => { self.w(); if !comment.is_empty() { self.nl(); } self.comments(comment, ind); self.s(); }
        }
    }
    fn item_end(&mut self, i: usize, n: usize, canon_trailing: bool) {
        let last = i + 1 == n;
        if !last || (self.layout == Layout::Canon && canon_trailing) || self.trailing() { self.w(); self.m("punct", ","); }
    }
    fn close(&mut self, s: &str, ind: &str) {
        if self.layout == Layout::Canon { self.p("\n"); self.p(ind); } else { self.w(); }
        self.m("close", s);
    }
    fn generics(&mut self, g: &[String]) {
        if g.is_empty() { return; }
        self.m("open", "<");
        for (i, x) in g.iter().enumerate() { self.w(); self.m("name", x); self.sep(i, g.len()); }
        self.w();
        self.m("close", ">");
    }
    fn sep(&mut self, i: usize, n: usize) {
        if i + 1 < n { self.w(); self.m("punct", ","); if self.layout == Layout::Canon { self.p(" "); } }
        else if self.trailing() { self.w(); self.m("punct", ","); }
    }
    fn fields(&mut self, f: &Fields, ind: &str) {
        match f {
            Fields::Unit => {}
            Fields::Named(l) => {
                self.sp();
                self.m("open", "{");
                let inner = format!("{ind}    ");
                for (i, x) in l.iter().enumerate() {
                    self.item_start(&x.comment, &inner, i);
                    let m = self.begin("field");
                    self.m("name", x.name.as_deref().unwrap());
                    self.s(); self.m("punct", ":"); self.sp(); self.ty(&x.ty); self.id(x.id);
                    self.end(m);
                    self.item_end(i, l.len(), true);
                }
                self.close("}", ind);
            }
            Fields::Unnamed(l) => {
                self.s();
                self.m("open", "(");
                for (i, x) in l.iter().enumerate() { self.w(); let m = self.begin("field"); self.ty(&x.ty); self.id(x.id); self.end(m); self.sep(i, l.len()); }
                self.w();
                self.m("close", ")");
            }
        }
    }
    fn id(&mut self, id: Option<u32>) { if let Some(id) = id { self.sp(); self.m("id", &format!("@{id}")); } }
    pub fn ty(&mut self, t: &Ty) {
        let m = self.begin("type");
        self.ty_inner(t);
        self.end(m);
    }
    fn ty_inner(&mut self, t: &Ty) {
        let basic = match t {
            Ty::Bool => "bool", Ty::U8 => "u8", Ty::U16 => "u16", Ty::U32 => "u32", Ty::U64 => "u64", Ty::U128 => "u128",
            Ty::I8 => "i8", Ty::I16 => "i16", Ty::I32 => "i32", Ty::I64 => "i64", Ty::I128 => "i128", Ty::F32 => "f32", Ty::F64 => "f64",
            Ty::Str => "string", Ty::StrRef => "&string", Ty::Bytes => "bytes", Ty::BytesRef => "&bytes", Ty::BoxStr => "box<string>", Ty::BoxBytes => "box<bytes>",
            _ => "",
        };
        if !basic.is_empty() { self.p(basic); return; }
        match t {
            Ty::Vec(t) => self.one("vec", t),
            Ty::Set(t) => self.one("hash_set", t),
            Ty::Opt(t) => self.one("option", t),
            Ty::NonZero(t) => self.one("non_zero", t),
            Ty::Map(k, v) => { self.m("word", "hash_map"); self.m("open", "<"); self.ty(k); self.s(); self.m("punct", ","); self.sp(); self.ty(v); self.w(); self.m("close", ">"); }
            Ty::Tuple(ts) => { self.m("open", "("); for (i, t) in ts.iter().enumerate() { self.w(); self.ty(t); self.sep(i, ts.len()); } self.w(); self.m("close", ")"); }
            Ty::Array(t, n) => { self.m("open", "["); self.w(); self.ty(t); self.w(); self.m("punct", ";"); if self.layout == Layout::Canon { self.p(" "); } self.w(); self.p(&n.to_string()); self.w(); self.m("close", "]"); }
            Ty::Ext { path, name, args } => {
                for s in path { self.m("name", s); self.m("punct", "::"); }
                self.m("name", name);
                if !args.is_empty() { self.m("open", "<"); for (i, t) in args.iter().enumerate() { self.w(); self.ty(t); self.sep(i, args.len()); } self.w(); self.m("close", ">"); }
            }
            _ => unreachable!(),
        }
    }
    fn one(&mut self, n: &str, t: &Ty) { self.m("word", n); self.m("open", "<"); self.ty(t); self.w(); self.m("close", ">"); }
    fn attr_list(&mut self, l: &[Attr]) {
        for (i, a) in l.iter().enumerate() {
            self.w();
            self.p(&a.name);
            match &a.value {
                AttrValue::Unit => {}
                AttrValue::Single(l) => { self.sp(); self.p("="); self.sp(); self.lit(l); }
                AttrValue::Multi(m) => { self.p("("); self.attr_list(m); self.w(); self.p(")"); }
            }
            if i + 1 < l.len() { self.w(); self.p(","); if self.layout == Layout::Canon { self.p(" "); } }
            else if self.wild() && self.r.chance(1, 3) { self.p(","); }
        }
        self.w();
    }
    pub fn lit(&mut self, l: &Lit) {
        let m = self.begin("lit");
        self.lit_inner(l);
        self.end(m);
    }
    fn lit_inner(&mut self, l: &Lit) {
        match l {
            Lit::Bool(b) => self.p(if *b { "true" } else { "false" }),
            Lit::Int(i) => {
                let mut s = i.to_string();
                if self.wild() {
                    match self.r.below(6) {
                        0 if *i >= 0 => s.insert(0, '+'),
                        1 => { let at = usize::from(*i < 0); s.insert_str(at, "00"); }
                        _ => {}
                    }
                }
                self.p(&s);
            }
            Lit::Float(f) => { let s = float_text(*f); self.p(&s); }
            Lit::Str(s) => {
                self.p("\"");
                let cs: Vec<char> = s.chars().collect();
                for (i, c) in cs.iter().enumerate() {
                    let wild = self.wild();
                    let hex = wild && self.r.chance(1, 8);
                    match c {
                        '"' => self.p("\\\""),
                        '\\' => self.p("\\\\"),
                        _ if hex => { let (w, c) = (self.r.range(1, 6), *c as u32); let t = if self.r.chance(1, 2) { format!("\\u{{{c:0w$x}}}") } else { format!("\\u{{{c:0w$X}}}") }; self.p(&t) }
                        '\n' if !wild || self.r.chance(1, 2) => self.p("\\n"),
                        '\r' if !wild || self.r.chance(1, 2) => self.p("\\r"),
                        '\t' if !wild || self.r.chance(1, 2) => self.p("\\t"),
                        '\u{8}' => self.p("\\b"),
                        '\u{c}' => self.p("\\f"),
                        '\0' if wild && self.r.chance(1, 2) => self.p("\\0"),
                        '/' if wild && self.r.chance(1, 2) => self.p("\\/"),
                        c => { let t = c.to_string(); self.p(&t); }
                    }
                    if wild && self.r.chance(1, 12) && !cs.get(i + 1).is_some_and(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
                        let t = *self.r.pick(&["\\ ", "\\\n    ", "\\\t\n"]);
                        self.p(t);
                    }
                }
                self.p("\"");
            }
            Lit::Bytes(b) => {
                self.p("[");
                for (i, x) in b.iter().enumerate() { self.w(); self.p(&x.to_string()); if i + 1 < b.len() { self.w(); self.p(","); if self.layout == Layout::Canon { self.p(" "); } } else if self.trailing() { self.w(); self.p(","); } }
                self.w();
                self.p("]");
            }
        }
    }
}

/// A float in the grammar of the language: digits, a dot, digits, optional exponent.
pub fn float_text(f: f64) -> String {
    let s = format!("{f:?}");
    match s.split_once('e') {
        Some((m, e)) if !m.contains('.') => format!("{m}.0e{e}"),
        _ => s,
    }
}
