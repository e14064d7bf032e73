//! Texts that are no schemas, or not quite.
use mvcore::rng::Rng;

const TOKENS: &[&str] = &[
    "mod", "struct", "enum", "const", "type", "use", "{", "}", "(", ")", "<", ">", "[", "]", ",", ":", "::", ";", "=", "#[", "#", "@", "@1", "@4294967295", "@4294967296", "@01", "///", "/// c\n", "//", "\n", "\r\n", " ", "\t",
    "bool", "u8", "u32", "i128", "f64", "string", "&string", "&bytes", "&", "bytes", "box<string>", "box<", "vec<", "vec", "hash_map<", "hash_set<", "option<", "non_zero<", "Name", "T", "name", "a", "A", "Z9_", "x::y::Z", "self",
    "true", "false", "0", "1", "-1", "+5", "00", "1.0", "1.5e3", "1e5", "1.", ".5", "340282366920938463463374607431768211456", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105729", "1.0e999", "\"s\"", "\"", "\"\\n\\u{41}\"", "\"\\u{d800}\"", "\"\\u{110000}\"", "\"\\q\"", "\"\\", "[1, 2]", "[256]", "[]", "é", "漢", "😀", "\u{0}", "\u{feff}", "\u{2028}", "-", "+", "_", "'",
];

pub fn soup(r: &mut Rng) -> String {
    let n = r.range(0, 40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(TOKENS));
        if r.chance(2, 3) { s.push(' '); }
    }
    s
}

pub fn noise(r: &mut Rng) -> String {
    (0..r.range(0, 60)).map(|_| match r.below(6) {
        0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
        1 => *r.pick(&['{', '}', '<', '>', '(', ')', '@', '/', ':', ';', '"', '\\', '\n', '\r']),
        _ => (r.range(32, 126) as u8) as char,
    }).collect()
}

fn boundary(s: &str, mut i: usize) -> usize { while !s.is_char_boundary(i) { i -= 1; } i }
fn at(r: &mut Rng, s: &str) -> usize { let i = r.range(0, s.len()); boundary(s, i) }

/// One small change somewhere in the text.
pub fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
        let a = at(r, &s);
        let len = *r.pick(&[1, 1, 2, 5, 20]);
        let b = boundary(&s, (a + len).min(s.len())).max(a);
        match r.below(9) {
            0 => s.replace_range(a..b, ""),
            1 => s.insert_str(a, r.pick(TOKENS)),
            2 => s.replace_range(a..b, r.pick(TOKENS)),
            3 => { let t = s[a..b].to_string(); s.insert_str(a, &t); }
            4 => s.truncate(a),
            5 => { let c = at(r, other); let d = boundary(other, (c + len * 4).min(other.len())).max(c); s.insert_str(a, &other[c..d]); }
            6 => { s = s[a..].to_string(); }
            7 => {
                // swap two words
                let mut w: Vec<String> = s.split(' ').map(str::to_string).collect();
                if w.len() > 2 { let (i, j) = (r.below(w.len()), r.below(w.len())); w.swap(i, j); s = w.join(" "); }
            }
            _ => { let t: String = noise(r).chars().take(3).collect(); s.insert_str(a, &t); }
        }
    }
    s
}

pub const NESTS: &[&str] = &["tuple", "tuple-last", "vec", "map-key", "array", "generic", "attribute", "module", "unclosed", "unclosed-module", "string", "comments", "fields", "variants", "imports"];

/// The same construct nested or repeated many times.
pub fn nest(kind: &str, n: usize) -> String {
    let ty = |s: String| format!("struct A {{\n    a: {s} @1,\n}}\n");
    match kind {
        "tuple" => ty(format!("{}u8{}", "(".repeat(n), ", u8)".repeat(n))),
        "tuple-last" => ty(format!("{}u8, u8{}", "(u8, ".repeat(n), ")".repeat(n))),
        "vec" => ty(format!("{}u8{}", "vec<".repeat(n), ">".repeat(n))),
        "map-key" => ty(format!("{}u8{}", "hash_map<".repeat(n), ", u8>".repeat(n))),
        "array" => ty(format!("{}u8{}", "[".repeat(n), "; 4]".repeat(n))),
        "generic" => ty(format!("{}u8{}", "B<u8, ".repeat(n), ">".repeat(n))),
        "attribute" => format!("#[{}x{}]\nstruct A(u8)\n", "a(".repeat(n), ")".repeat(n)),
        "module" => format!("{}struct A(u8){}\n", "mod a {\n".repeat(n), "\n}".repeat(n)),
        "unclosed" => ty("vec<(".repeat(n)),
        "unclosed-module" => "mod a {\n".repeat(n),
        "string" => format!("const A: string = \"{}\";\n", "\\n".repeat(n)),
        "comments" => format!("{}struct A(u8)\n", "/// x\n".repeat(n)),
        "fields" => format!("struct A {{\n{}}}\n", (0..n).map(|i| format!("    f{i}: u8,\n")).collect::<String>()),
        "variants" => format!("enum A {{\n{}}}\n", (0..n).map(|i| format!("    V{i}(u8, u8),\n")).collect::<String>()),
        "imports" => format!("use {}A;\n", "a::".repeat(n.max(1))),
        _ => unreachable!(),
    }
}
