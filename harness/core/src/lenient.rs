//! An independent reader for schema texts that takes every text of the grammar and, as blanks are free in it, a few
//! more. What the real parser accepts, this one has to accept as well, with the same content in the same places.
use crate::{model::*, render::Mark};

pub struct Parser<'a> { t: &'a str, at: usize, last: usize, depth: usize, marks: Vec<Mark> }

#[derive(Debug, PartialEq)]
pub enum Fail { At(usize), Deep }

type R<T> = Result<T, Fail>;

pub fn parse(t: &str) -> R<(Schema, Vec<Mark>)> {
    let mut p = Parser { t, at: 0, last: 0, depth: 0, marks: Vec::new() };
    let s = p.schema()?;
    Ok((s, p.marks))
}

fn lower(b: u8) -> bool { b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_' }

impl<'a> Parser<'a> {
    fn rest(&self) -> &'a str { &self.t[self.at..] }
    fn peek(&self) -> Option<u8> { self.t.as_bytes().get(self.at).copied() }
    fn fail<T>(&self) -> R<T> { Err(Fail::At(self.at)) }
    fn ws(&mut self) { while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) { self.at += 1; } }
    fn blanks(&mut self) { while matches!(self.peek(), Some(b' ' | b'\t')) { self.at += 1; } }
    fn mark(&mut self, kind: &'static str, start: usize) { self.marks.push((kind, start, self.at)); self.last = self.at; }
    fn begin(&mut self, kind: &'static str) -> usize { self.marks.push((kind, self.at, 0)); self.marks.len() - 1 }
    fn end(&mut self, i: usize) { self.marks[i].2 = self.last; }
    fn eat(&mut self, s: &str) -> bool {
        if self.rest().starts_with(s) { self.at += s.len(); self.last = self.at; true } else { false }
    }
    /// next token is `s`; blanks before it are free
    fn tok(&mut self, kind: &'static str, s: &str) -> R<()> {
        self.ws();
        let at = self.at;
        if !self.eat(s) { return self.fail(); }
        self.mark(kind, at);
        Ok(())
    }
    fn see(&mut self, s: &str) -> bool { self.ws(); self.rest().starts_with(s) }
    fn word(&self) -> &'a str {
        let n = self.rest().bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'_').count();
        &self.rest()[..n]
    }
    fn take(&mut self, w: &str) { self.at += w.len(); self.last = self.at; }
    fn name(&mut self, ok: impl Fn(u8, bool) -> bool) -> R<String> {
        self.ws();
        let w = self.word();
        if w.is_empty() || !w.bytes().enumerate().all(|(i, b)| ok(b, i == 0)) { return self.fail(); }
        let at = self.at;
        self.take(w);
        self.mark("name", at);
        Ok(w.to_string())
    }
    fn lower_name(&mut self) -> R<String> { self.name(|b, first| if first { b.is_ascii_lowercase() } else { lower(b) }) }
    fn upper_name(&mut self) -> R<String> { self.name(|b, first| if first { b.is_ascii_uppercase() } else { b.is_ascii_alphanumeric() }) }
    fn const_name(&mut self) -> R<String> { self.name(|b, first| if first { b.is_ascii_uppercase() } else { b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_' }) }

    /// Comment lines that follow each other directly.
    fn comments(&mut self) -> Vec<String> {
        let mut out = Vec::new();
        self.ws();
        loop {
            let save = self.at;
            self.blanks();
            let Some(n) = self.rest().starts_with("///").then(|| self.rest().find('\n')).flatten() else { self.at = save; return out };
            let start = self.at;
            let mut line = &self.rest()[..n];
            line = line.strip_suffix('\r').unwrap_or(line);
            self.marks.push(("comment", start, start + line.len()));
            out.push(line[3..].trim_start_matches([' ', '\t']).to_string());
            self.at += n + 1;
        }
    }

    fn schema(&mut self) -> R<Schema> {
        let comment = self.comments();
        let lone = !comment.is_empty() && (self.rest().starts_with('\n') || self.rest().starts_with("\r\n"));
        let (comment, mut pending) = if lone { (comment, None) } else { (Vec::new(), Some(comment)) };
        let mut defs = Vec::new();
        loop {
            let c = match pending.take() { Some(c) if !c.is_empty() => c, _ => self.comments() };
            self.ws();
            if c.is_empty() && self.at == self.t.len() { break; }
            defs.push(self.def(c)?);
        }
        Ok(Schema { comment, defs })
    }

    fn def(&mut self, comment: Vec<String>) -> R<Def> {
        self.depth += 1;
        if self.depth > 400 { return Err(Fail::Deep); }
        let mut attrs = Vec::new();
        let before = self.marks.len();
        while self.see("#[") { self.at += 2; attrs.extend(self.attrs("]")?); }
        self.ws();
        let w = self.word();
        // the tree has no place for these
        if !matches!(w, "struct" | "enum") { self.marks.truncate(before); }
        if w == "use" { self.marks.truncate(before - comment.len()); }
        let at = self.at;
        self.take(w);
        self.mark("kw", at);
        let def = match w {
            "mod" => {
                let name = self.lower_name()?;
                self.tok("open", "{")?;
                let mut defs = Vec::new();
                loop {
                    let c = self.comments();
                    if c.is_empty() && self.see("}") { break; }
                    defs.push(self.def(c)?);
                }
                self.tok("close", "}")?;
                Def::Module(Module { comment, name, defs })
            }
            "struct" => {
                let name = self.upper_name()?;
                let generics = self.generics()?;
                let fields = self.fields()?;
                Def::Struct(Struct { comment, attrs, name, generics, fields })
            }
            "enum" => {
                let name = self.upper_name()?;
                let generics = self.generics()?;
                self.tok("open", "{")?;
                let variants = self.list("}", |p| {
                    let comment = p.comments();
                    p.ws();
                    let m = p.begin("variant");
                    let name = p.upper_name()?;
                    let fields = p.fields()?;
                    let id = p.id()?;
                    p.end(m);
                    Ok(Variant { comment, name, fields, id })
                })?;
                Def::Enum(Enum { comment, attrs, name, generics, variants })
            }
            "type" => {
                let name = self.upper_name()?;
                let generics = self.generics()?;
                self.tok("punct", "=")?;
                let target = self.ty()?;
                self.tok("punct", ";")?;
                Def::Alias(Alias { comment, name, generics, target })
            }
            "const" => {
                let name = self.const_name()?;
                self.tok("punct", ":")?;
                let ty = self.ty()?;
                self.tok("punct", "=")?;
                let value = self.lit()?;
                self.tok("punct", ";")?;
                Def::Const(Const { comment, name, ty, value })
            }
            "use" => {
                self.ws();
                let m = self.begin("import");
                let mut segments = vec![self.lower_name()?];
                let mut element = None;
                while self.see("::") {
                    let save = (self.at, self.marks.len());
                    self.tok("punct", "::")?;
                    self.ws();
                    if self.peek().is_some_and(|b| b.is_ascii_uppercase()) { element = Some(self.upper_name()?); break; }
                    // only the separator of the element is kept
                    self.marks.truncate(save.1);
                    segments.push(self.lower_name()?);
                }
                self.end(m);
                self.tok("punct", ";")?;
                Def::Import(Import { segments, element })
            }
            _ => return self.fail(),
        };
        self.depth -= 1;
        Ok(def)
    }

    /// One or more items, separated and optionally ended by commas, up to the closing delimiter.
    fn list<T>(&mut self, close: &str, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut out = vec![f(self)?];
        loop {
            if !self.see(",") { break; }
            self.tok("punct", ",")?;
            if self.see(close) { break; }
            out.push(f(self)?);
        }
        self.tok("close", close)?;
        Ok(out)
    }

    fn generics(&mut self) -> R<Vec<String>> {
        if !self.see("<") { return Ok(Vec::new()); }
        self.tok("open", "<")?;
        self.list(">", Self::upper_name)
    }

    fn id(&mut self) -> R<Option<u32>> {
        if !self.see("@") { return Ok(None); }
        let at = self.at;
        self.at += 1;
        let id = self.uint()?;
        self.mark("id", at);
        Ok(Some(id))
    }

    fn uint<T: std::str::FromStr>(&mut self) -> R<T> {
        let n = self.rest().bytes().take_while(u8::is_ascii_digit).count();
        let s = &self.rest()[..n];
        if n == 0 || n > 1 && s.starts_with('0') { return self.fail(); }
        let Ok(v) = s.parse() else { return self.fail() };
        self.take(s);
        Ok(v)
    }

    fn fields(&mut self) -> R<Fields> {
        let save = self.last;
        if self.see("{") {
            self.tok("open", "{")?;
            Ok(Fields::Named(self.list("}", |p| {
                let comment = p.comments();
                p.ws();
                let m = p.begin("field");
                let name = Some(p.lower_name()?);
                p.tok("punct", ":")?;
                let ty = p.ty()?;
                let id = p.id()?;
                p.end(m);
                Ok(Field { comment, name, ty, id })
            })?))
        } else if self.see("(") {
            self.tok("open", "(")?;
            Ok(Fields::Unnamed(self.list(")", |p| {
                p.ws();
                let m = p.begin("field");
                let ty = p.ty()?;
                let id = p.id()?;
                p.end(m);
                Ok(Field { comment: Vec::new(), name: None, ty, id })
            })?))
        } else {
            self.last = save;
            Ok(Fields::Unit)
        }
    }

    fn ty(&mut self) -> R<Ty> {
        self.depth += 1;
        if self.depth > 400 { return Err(Fail::Deep); }
        self.ws();
        let m = self.begin("type");
        let t = self.ty_inner()?;
        self.end(m);
        self.depth -= 1;
        Ok(t)
    }

    fn ty_inner(&mut self) -> R<Ty> {
        match self.peek() {
            Some(b'(') => { self.tok("open", "(")?; return Ok(Ty::Tuple(self.list(")", Self::ty)?)); }
            Some(b'[') => {
                self.tok("open", "[")?;
                let t = self.ty()?;
                self.tok("punct", ";")?;
                self.ws();
                let n = self.uint()?;
                self.tok("close", "]")?;
                return Ok(Ty::Array(Box::new(t), n));
            }
            _ => {}
        }
        for (s, t) in [("&string", Ty::StrRef), ("&bytes", Ty::BytesRef), ("box<string>", Ty::BoxStr), ("box<bytes>", Ty::BoxBytes)] { if self.eat(s) { return Ok(t); } }
        let w = self.word();
        let basic = match w {
            "bool" => Some(Ty::Bool), "u8" => Some(Ty::U8), "u16" => Some(Ty::U16), "u32" => Some(Ty::U32), "u64" => Some(Ty::U64), "u128" => Some(Ty::U128),
            "i8" => Some(Ty::I8), "i16" => Some(Ty::I16), "i32" => Some(Ty::I32), "i64" => Some(Ty::I64), "i128" => Some(Ty::I128), "f32" => Some(Ty::F32), "f64" => Some(Ty::F64),
            "string" => Some(Ty::Str), "bytes" => Some(Ty::Bytes), _ => None,
        };
        if let Some(t) = basic { self.take(w); return Ok(t); }
        if matches!(w, "vec" | "hash_set" | "option" | "non_zero" | "hash_map") {
            let at = self.at;
            self.take(w);
            self.mark("word", at);
            self.tok("open", "<")?;
            let a = Box::new(self.ty()?);
            let t = match w {
                "vec" => Ty::Vec(a), "hash_set" => Ty::Set(a), "option" => Ty::Opt(a), "non_zero" => Ty::NonZero(a),
                _ => { self.tok("punct", ",")?; Ty::Map(a, Box::new(self.ty()?)) }
            };
            self.tok("close", ">")?;
            return Ok(t);
        }
        let mut path = Vec::new();
        while self.peek().is_some_and(|b| b.is_ascii_lowercase()) {
            path.push(self.lower_name()?);
            self.tok("punct", "::")?;
            self.ws();
        }
        let name = self.name(|b, first| if first { b.is_ascii_uppercase() } else { b.is_ascii_alphanumeric() || b == b'_' })?;
        let save = self.last;
        let args = if self.see("<") { self.tok("open", "<")?; self.list(">", Self::ty)? } else { self.last = save; Vec::new() };
        Ok(Ty::Ext { path, name, args })
    }

    fn attrs(&mut self, close: &str) -> R<Vec<Attr>> {
        self.depth += 1;
        if self.depth > 400 { return Err(Fail::Deep); }
        let mut out = Vec::new();
        loop {
            self.ws();
            let w = self.word();
            if w.is_empty() || !w.bytes().enumerate().all(|(i, b)| if i == 0 { b.is_ascii_lowercase() } else { lower(b) }) { return self.fail(); }
            self.take(w);
            let value = if self.see("(") { self.at += 1; AttrValue::Multi(self.attrs(")")?) }
                else if self.see("=") { self.at += 1; AttrValue::Single(self.lit()?) }
                else { AttrValue::Unit };
            out.push(Attr { name: w.to_string(), value });
            if !self.see(",") { break; }
            self.at += 1;
            if self.see(close) { break; }
        }
        if !self.see(close) { return self.fail(); }
        self.at += close.len();
        self.last = self.at;
        self.depth -= 1;
        Ok(out)
    }

    fn lit(&mut self) -> R<Lit> {
        self.ws();
        let at = self.at;
        let l = self.lit_inner()?;
        self.mark("lit", at);
        Ok(l)
    }

    fn lit_inner(&mut self) -> R<Lit> {
        match self.peek() {
            Some(b't') if self.word() == "true" => { self.take("true"); Ok(Lit::Bool(true)) }
            Some(b'f') if self.word() == "false" => { self.take("false"); Ok(Lit::Bool(false)) }
            Some(b'[') => {
                self.at += 1;
                let mut out = Vec::new();
                loop {
                    self.ws();
                    out.push(self.uint()?);
                    if !self.see(",") { break; }
                    self.at += 1;
                    if self.see("]") { break; }
                }
                if !self.see("]") { return self.fail(); }
                self.at += 1;
                Ok(Lit::Bytes(out))
            }
            Some(b'"') => self.string().map(Lit::Str),
            Some(b'+' | b'-' | b'0'..=b'9') => {
                let s = self.rest();
                let b = s.as_bytes();
                let digits = |mut i: usize| { while b.get(i).is_some_and(u8::is_ascii_digit) { i += 1; } i };
                let start = usize::from(matches!(b[0], b'+' | b'-'));
                let mut n = digits(start);
                if n == start { return self.fail(); }
                if b.get(n) == Some(&b'.') && digits(n + 1) > n + 1 {
                    n = digits(n + 1);
                    if matches!(b.get(n), Some(b'e' | b'E')) {
                        let e = n + 1 + usize::from(matches!(b.get(n + 1), Some(b'+' | b'-')));
                        if digits(e) == e { return self.fail(); }
                        n = digits(e);
                    }
                    let Ok(f) = s[..n].parse::<f64>() else { return self.fail() };
                    if !f.is_finite() { return self.fail(); }
                    self.take(&s[..n]);
                    Ok(Lit::Float(f))
                } else {
                    let Ok(i) = s[..n].parse::<i128>() else { return self.fail() };
                    self.take(&s[..n]);
                    Ok(Lit::Int(i))
                }
            }
            _ => self.fail(),
        }
    }

    fn string(&mut self) -> R<String> {
        self.at += 1;
        let mut out = String::new();
        loop {
            let Some(c) = self.rest().chars().next() else { return self.fail() };
            self.at += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let Some(c) = self.rest().chars().next() else { return self.fail() };
                    self.at += c.len_utf8();
                    out.push(match c {
                        'n' => '\n', 'r' => '\r', 't' => '\t', 'b' => '\u{8}', 'f' => '\u{c}', '\\' => '\\', '0' => '\0', '/' => '/', '"' => '"',
                        'u' => {
                            let Some(h) = self.rest().strip_prefix('{').and_then(|r| r.split_once('}')).map(|x| x.0) else { return self.fail() };
                            if h.is_empty() || h.len() > 6 || !h.bytes().all(|b| b.is_ascii_hexdigit()) { return self.fail(); }
                            let Some(c) = u32::from_str_radix(h, 16).ok().and_then(char::from_u32) else { return self.fail() };
                            self.at += h.len() + 2;
                            c
                        }
                        ' ' | '\t' | '\r' | '\n' => { self.ws(); continue; }
                        _ => return self.fail(),
                    });
                }
                c => out.push(c),
            }
        }
    }
}
