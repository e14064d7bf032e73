//! A strict reader of the HTML that the documentation consists of.
pub struct Node { pub tag: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Kid> }
pub enum Kid { Text(String), Node(Node) }

const VOID: &[&str] = &["meta", "link", "br", "hr", "img", "input"];

impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn class(&self, c: &str) -> bool { self.attr("class").is_some_and(|v| v.split_whitespace().any(|x| x == c)) }
    pub fn nodes(&self) -> impl Iterator<Item = &Node> { self.kids.iter().filter_map(|k| if let Kid::Node(n) = k { Some(n) } else { None }) }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    fn put(&self, s: &mut String) {
        for k in &self.kids { match k { Kid::Text(t) => s.push_str(t), Kid::Node(n) => n.put(s) } }
    }
    /// Every element within, and the element itself, in order.
    pub fn all<'a>(&'a self, out: &mut Vec<&'a Node>) {
        out.push(self);
        for n in self.nodes() { n.all(out); }
    }
    pub fn find(&self, f: impl Fn(&Node) -> bool) -> Vec<&Node> {
        let mut l = Vec::new();
        self.all(&mut l);
        l.into_iter().filter(|n| f(n)).collect()
    }
}

fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let end = rest[i..].find(';').filter(|n| *n < 12).ok_or_else(|| format!("bare ampersand: {}", &rest[i..].chars().take(20).collect::<String>()))?;
        let e = &rest[i + 1..i + end];
        out.push(match e {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            _ => e.strip_prefix("#x").map_or_else(|| e.strip_prefix('#').and_then(|n| n.parse().ok()), |n| u32::from_str_radix(n, 16).ok())
                .and_then(char::from_u32).ok_or_else(|| format!("unknown entity &{e};"))?,
        });
        rest = &rest[i + end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

pub fn parse(s: &str) -> Result<Node, String> {
    let mut stack = vec![Node { tag: String::new(), attrs: Vec::new(), kids: Vec::new() }];
    let mut rest = s.trim_start().strip_prefix("<!DOCTYPE html>").ok_or("no doctype")?;
    loop {
        let Some(i) = rest.find('<') else { break };
        if i > 0 {
            let t = decode(&rest[..i])?;
            stack.last_mut().unwrap().kids.push(Kid::Text(t));
        }
        rest = &rest[i + 1..];
        let here = || rest.chars().take(40).collect::<String>();
        if let Some(r) = rest.strip_prefix('/') {
            let n = r.find('>').ok_or("unterminated tag")?;
            let tag = r[..n].trim();
            let node = stack.pop().unwrap();
            if node.tag != tag || stack.is_empty() { return Err(format!("</{tag}> closes <{}>", node.tag)); }
            stack.last_mut().unwrap().kids.push(Kid::Node(node));
            rest = &r[n + 1..];
            continue;
        }
        let n = rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len());
        if n == 0 { return Err(format!("no tag, yet: <{}", here())); }
        let tag = rest[..n].to_string();
        let mut r = &rest[n..];
        let mut attrs = Vec::new();
        let mut closed = false;
        loop {
            r = r.trim_start();
            if let Some(x) = r.strip_prefix("/>") { r = x; closed = true; break; }
            if let Some(x) = r.strip_prefix('>') { r = x; break; }
            let n = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(r.len());
            if n == 0 { return Err(format!("no attribute in <{}", here())); }
            let name = r[..n].to_string();
            r = &r[n..];
            let mut value = String::new();
            if let Some(x) = r.strip_prefix("=\"") {
                let e = x.find('"').ok_or("unterminated attribute")?;
                value = decode(&x[..e])?;
                r = &x[e + 1..];
            } else if r.starts_with('=') { return Err(format!("attribute without quotes in <{}", here())); }
            attrs.push((name, value));
        }
        let node = Node { tag, attrs, kids: Vec::new() };
        if closed || VOID.contains(&node.tag.as_str()) { stack.last_mut().unwrap().kids.push(Kid::Node(node)); } else { stack.push(node); }
        rest = r;
    }
    if !rest.trim().is_empty() { return Err("text behind the document".into()); }
    if stack.len() != 1 { return Err(format!("<{}> is never closed", stack.last().unwrap().tag)); }
    Ok(stack.pop().unwrap())
}
