//! Field and variant identifiers, and non-zero containers, through the runtime crate's own interface.
use std::{
    collections::{HashMap, HashSet},
    fmt::Debug,
};

use mabo::{
    Buf, Bytes, Encode, FieldEncoding as E, FieldId, NonZero, VariantId,
    buf::{self, Error, Size},
};
use mvcore::{
    codec::{RefErr, varint},
    out::{Report, hex},
    rng::Rng,
};
use mvrt::{buf::SegBuf, guard, kind};
use serde_json::json;

#[global_allocator]
static ALLOC: mvrt::alloc::Track = mvrt::alloc::Track;

const CLASSES: [E; 5] = [E::Varint, E::LengthPrefixed, E::Fixed1, E::Fixed4, E::Fixed8];

fn class(e: E) -> u32 {
    match e { E::Varint => 0, E::LengthPrefixed => 1, E::Fixed1 => 2, E::Fixed4 => 3, E::Fixed8 => 4 }
}

/// What a raw field key means: identifier and class.
fn meaning(raw: u32) -> Option<(u32, u32)> { (raw % 8 <= 4).then_some((raw / 8, raw % 8)) }

fn raw_ok(raw: u32) -> bool {
    let want = meaning(raw);
    let whole = FieldId::from_u32(raw);
    whole.map(|f| (f.value, class(f.encoding))) == want
        && E::from_u32(raw).map(class) == want.map(|w| w.1)
        && whole.is_none_or(|f| f.into_u32() == raw)
        && want.is_none_or(|(id, c)| FieldId::new(id, CLASSES[c as usize]).into_u32() == raw)
}

/// Each of the 2^32 raw keys.
fn raws(rep: &mut Report) {
    let n = 8u64;
    let bad: Vec<u32> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|k| s.spawn(move || {
            let (from, to) = ((k << 32) / n, ((k + 1) << 32) / n);
            let mut bad = Vec::new();
            for raw in from..to {
                let raw = raw as u32;
                if bad.len() < 3 && !raw_ok(raw) { bad.push(raw); }
            }
            bad
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![u32::MAX])).collect()
    });
    rep.count("raw field keys (all there are)", 1 << 32);
    rep.evaluations += 1 << 32;
    for raw in bad {
        rep.violation("key", format!("raw key {raw}: identifier and class should be {:?}", meaning(raw)), json!({"raw": raw}));
    }
}

/// Keys and fields on the wire.
fn key(rep: &mut Report, r: &mut Rng, id: u32, e: E) {
    rep.eval();
    rep.case_seen(&(id, class(e)));
    rep.count("keys written and read", 1);
    let raw = id * 8 + class(e);
    let payload: Vec<u8> = match e {
        E::Varint => varint(r.u128() >> r.below(128) >> 1),
        E::LengthPrefixed => { let n = *r.pick(&[0, 1, 2, 5, 127, 128, 300]); let mut p = varint(n as u128); p.extend((0..n).map(|_| r.u64() as u8)); p }
        E::Fixed1 => vec![r.u64() as u8],
        E::Fixed4 => (r.u64() as u32).to_le_bytes().to_vec(),
        E::Fixed8 => r.u64().to_le_bytes().to_vec(),
    };
    let mut want = varint(raw.into());
    let len = want.len();
    want.extend(&payload);
    let f = FieldId::new(id, e);
    let wit = json!({"identifier": id, "class": class(e), "payload": hex(&payload)});
    let got = guard(|| {
        let (mut a, mut b, mut c, mut d) = (vec![], vec![], vec![], vec![]);
        buf::encode_id(&mut a, f);
        buf::encode_field(&mut b, f, |w| w.extend_from_slice(&payload));
        buf::encode_field_option(&mut c, f, &Some(payload.clone()), |w: &mut Vec<u8>, p| w.extend_from_slice(p));
        buf::encode_field_option(&mut d, f, &None::<Vec<u8>>, |w: &mut Vec<u8>, p| w.extend_from_slice(p));
        let sizes = (buf::size_field_id(id), buf::size_field(id, || payload.len()), buf::size_field_option(id, Some(&payload), |p: &Vec<u8>| p.len()), buf::size_field_option(id, None::<&Vec<u8>>, |p: &Vec<u8>| p.len()));
        (a, b, c, d, sizes)
    });
    match got {
        Ok((a, b, c, d, s)) if a == want[..len] && b == want && c == want && d.is_empty() && s == (len, want.len(), want.len(), 0) => {}
        o => rep.violation("key-encode", format!("field {id} of class {}: {o:?} instead of {}", class(e), hex(&want)), wit.clone()),
    }
    want.extend([0x80, 0x80, 0x01]);
    for cuts in [vec![], (1..want.len()).collect()] {
        let mut b = SegBuf::new(&want, cuts);
        let got = guard(|| {
            let f = buf::decode_id(&mut b).map_err(|e| kind(&e))?;
            let left = b.remaining();
            buf::decode_skip(&mut b, f.encoding).map_err(|e| kind(&e))?;
            Ok::<_, RefErr>((f.value, class(f.encoding), f.into_u32(), left, b.remaining()))
        });
        if got != Ok(Ok((id, class(e), raw, payload.len() + 3, 3))) { rep.violation("key-decode", format!("field {id} of class {}: read as {got:?}", class(e)), wit.clone()); }
    }
}

fn undefined(rep: &mut Report, raw: u32) {
    rep.eval();
    rep.case_seen(&("undefined", raw));
    rep.count("keys of undefined classes read", 1);
    let data = varint(raw.into());
    let got = guard(|| buf::decode_id(&mut data.as_slice()).map(|f| f.value).map_err(|e| kind(&e)));
    if got != Ok(Err(RefErr::UnknownEncoding(raw))) { rep.violation("key-undefined", format!("raw key {raw}: read as {got:?}"), json!({"raw": raw})); }
}

fn variant(rep: &mut Report, id: u32) {
    rep.eval();
    rep.case_seen(&("variant", id));
    rep.count("variant numbers written and read", 1);
    let want = varint(id.into());
    let got = guard(|| {
        let mut a = vec![];
        buf::encode_variant_id(&mut a, VariantId::new(id));
        let mut b = a.as_slice();
        let back = buf::decode_variant_id(&mut b).map(|v| v.value).map_err(|e| kind(&e));
        (buf::size_variant_id(id), back, b.len(), a)
    });
    if got != Ok((want.len(), Ok(id), 0, want)) { rep.violation("variant", format!("variant {id}: {got:?}"), json!({"identifier": id})); }
}

/// A non-zero container made of a value says no exactly to empty ones and is that value in every other respect.
fn container<T, N>(rep: &mut Report, label: &str, v: T, empty: bool, new: impl Fn(T) -> Option<N>, parts: impl Fn(&N) -> (T, T), inner: impl Fn(N) -> T, bytes: impl Fn(Result<&T, &N>) -> (usize, Vec<u8>))
where T: Clone + PartialEq + Debug, N: Clone + PartialEq {
    rep.eval();
    rep.case_seen(&(label, format!("{v:?}")));
    rep.count(if empty { "empty values refused" } else { "non-zero containers made" }, 1);
    let wit = || json!({"type": label, "value": format!("{v:?}").chars().take(300).collect::<String>()});
    let Ok(made) = guard(|| new(v.clone())) else { rep.violation("container-panic", format!("{label}: panicked"), wit()); return };
    match made {
        None if empty => {}
        Some(n) if !empty => {
            let (a, b) = parts(&n);
            if a != v || b != v || n.clone() != n || inner(n.clone()) != v { rep.violation("container", format!("{label}: holds something else"), wit()); }
            let (plain, wrapped) = (bytes(Ok(&v)), bytes(Err(&n)));
            if plain != wrapped { rep.violation("container-bytes", format!("{label}: {wrapped:?} instead of {plain:?}"), wit()); }
        }
        o => rep.violation("container-new", format!("{label}: {} for a value that is {}", if o.is_some() { "made" } else { "refused" }, if empty { "empty" } else { "not empty" }), wit()),
    }
}

type Got<T> = Result<buf::Result<T>, String>;

/// Reading as non-zero is reading the plain value and refusing the empty one.
fn same<T: PartialEq + Debug, N>(rep: &mut Report, label: &str, data: &[u8], cuts: &[usize], plain: impl Fn(&mut SegBuf) -> buf::Result<T>, nz: impl Fn(&mut SegBuf) -> buf::Result<N>, is_zero: impl Fn(&T) -> bool, inner: impl Fn(N) -> T) {
    rep.eval();
    rep.case_seen(&(label, data));
    let (mut a, mut b) = (SegBuf::new(data, cuts.to_vec()), SegBuf::new(data, cuts.to_vec()));
    let x: Got<T> = guard(|| plain(&mut a));
    let y: Got<T> = guard(|| nz(&mut b).map(&inner));
    let fine = match (&x, &y) {
        (Ok(Ok(v)), Ok(Err(Error::Zero))) if is_zero(v) => { rep.count("zeros refused", 1); true }
        (Ok(Ok(v)), Ok(Ok(w))) if !is_zero(v) => { rep.count("non-zero values read", 1); v == w && a.remaining() == b.remaining() }
        (Ok(Err(e)), Ok(Err(f))) => { rep.count("malformed, refused alike", 1); kind(e) == kind(f) }
        _ => false,
    };
    if !fine { rep.violation("non-zero-decode", format!("{label}: {y:?} with {} left where the plain value is {x:?} with {} left", b.remaining(), a.remaining()), json!({"type": label, "bytes": hex(data), "cuts": cuts})); }
}

fn bytes_of<T: Encode + Size>(x: &T) -> (usize, Vec<u8>) {
    let mut w = vec![];
    x.encode(&mut w);
    (x.size(), w)
}

fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 1, 1, 2, 5, 200]);
    (0..n).map(|_| *r.pick(&['a', '\0', 'ä', '€', '😀', '\n'])).collect()
}

fn main() {
    let var = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set"));
    let out = var("MV_OUT");
    let seed: u64 = var("MV_SEED").parse().unwrap();
    let rounds: usize = var("MV_ROUNDS").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    mvcore::watch::start(format!("{out}.hang").into(), 600);
    let mut rep = Report::new(&out, "C28");
    let rep = &mut rep;
    raws(rep);
    let mut r = Rng::new(seed, "keys", 0);
    let mut ids: Vec<u32> = (0..3000).collect();
    for k in 0..29 { for d in 0..4u32 { ids.extend([(1u32 << k).wrapping_add(d), (1u32 << k).wrapping_sub(d), (1 << 29) - 1 - d]); } }
    ids.extend((0..rounds).map(|_| (r.u64() as u32) >> r.range(3, 31)));
    ids.retain(|i| *i < 1 << 29);
    for id in ids {
        for e in CLASSES { key(rep, &mut r, id, e); }
        for c in 5..8 { undefined(rep, id * 8 + c); }
        variant(rep, id);
        variant(rep, !id);
    }
    for i in 0..rounds {
        let mut r = Rng::new(seed, "non-zero", i as u64);
        let r = &mut r;
        let n = *r.pick(&[0, 0, 1, 1, 2, 7, 150]);
        let s = text(r);
        let strings: Vec<String> = (0..n.min(9)).map(|_| text(r)).collect();
        let raw: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
        let map: HashMap<u16, String> = (0..n).map(|_| (r.u64() as u16 >> 9, text(r))).collect();
        let set: HashSet<String> = strings.iter().cloned().collect();
        macro_rules! made { ($label:literal, $v:expr, $t:ty) => {{
            let v: $t = $v;
            let empty = v.len() == 0;
            container(rep, $label, v, empty, NonZero::<$t>::new, |n| (n.get().clone(), (**n).clone()), NonZero::<$t>::into_inner, |x| match x { Ok(v) => bytes_of(v), Err(n) => bytes_of(n) });
        }} }
        made!("NonZero<String>", s.clone(), String);
        made!("NonZero<Vec<String>>", strings.clone(), Vec<String>);
        made!("NonZero<Vec<u8>>", raw.clone(), Vec<u8>);
        made!("NonZero<HashMap<u16, String>>", map.clone(), HashMap<u16, String>);
        made!("NonZero<HashSet<String>>", set.clone(), HashSet<String>);
        let b = Bytes::from(raw.clone());
        container(rep, "NonZero<Bytes>", b, raw.is_empty(), NonZero::<Bytes>::new, |n| (n.get().clone(), (**n).clone()), NonZero::<Bytes>::into_inner, |x| {
            let mut w = vec![];
            let x = match x { Ok(v) => v, Err(n) => n.get() };
            buf::encode_bytes_bytes(&mut w, x);
            (buf::size_bytes_bytes(x), w)
        });

        // bytes: encodings of such values, spoiled or not, and noise
        let mut all: Vec<Vec<u8>> = vec![bytes_of(&s).1, bytes_of(&strings).1, bytes_of(&map).1, bytes_of(&set).1];
        let mut w = vec![];
        buf::encode_bytes_std(&mut w, &raw);
        all.push(w);
        all.push(varint(r.u128() >> r.below(128)));
        all.push((0..r.below(30)).map(|_| *r.pick(&[0u8, 0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xc3, 0xff])).collect());
        for mut d in all {
            match r.below(5) {
                0 if !d.is_empty() => { let k = r.below(d.len()); d[k] = *r.pick(&[0, 1, 2, 0x80, 0xff, 0xc3]); }
                1 => { let k = r.below(d.len() + 1); d.truncate(k); }
                2 => { let mut p = vec![0x80; r.range(1, 3)]; p.push(0); p.extend(&d); d = p; }
                _ => {}
            }
            if r.chance(1, 2) { d.extend([1, 2, 3]); }
            let cuts: Vec<usize> = match r.below(3) { 0 => vec![], 1 => (1..d.len().max(1)).collect(), _ => (0..3).map(|_| r.range(0, d.len())).collect() };
            macro_rules! int { ($($t:ident $p:ident $n:ident),+) => { $( same(rep, stringify!($t), &d, &cuts, |b| buf::$p(b), |b| buf::$n(b), |v| *v == 0, |v| v.get()); )+ } }
            int!(u8 decode_u8 decode_non_zero_u8, u16 decode_u16 decode_non_zero_u16, u32 decode_u32 decode_non_zero_u32, u64 decode_u64 decode_non_zero_u64, u128 decode_u128 decode_non_zero_u128,
                 i8 decode_i8 decode_non_zero_i8, i16 decode_i16 decode_non_zero_i16, i32 decode_i32 decode_non_zero_i32, i64 decode_i64 decode_non_zero_i64, i128 decode_i128 decode_non_zero_i128);
            same(rep, "string", &d, &cuts, |b| buf::decode_string(b), |b| buf::decode_non_zero_string(b), String::is_empty, |v| v.into_inner());
            same(rep, "bytes", &d, &cuts, |b| buf::decode_bytes_std(b), |b| buf::decode_non_zero_bytes_std(b), |v| v.is_empty(), |v| v.into_inner());
            same(rep, "Bytes", &d, &cuts, |b| buf::decode_bytes_bytes(b), |b| buf::decode_non_zero_bytes_bytes(b), |v| v.is_empty(), |v| v.into_inner());
            same(rep, "vec<string>", &d, &cuts, |b| buf::decode_vec(b, |r| buf::decode_string(r)), |b| buf::decode_non_zero_vec(b, |r| buf::decode_string(r)), |v| v.is_empty(), |v| v.into_inner());
            same(rep, "vec<u8>", &d, &cuts, |b| buf::decode_vec(b, |r| buf::decode_u8(r)), |b| buf::decode_non_zero_vec(b, |r| buf::decode_u8(r)), |v| v.is_empty(), |v| v.into_inner());
            same(rep, "hash_map<u16, string>", &d, &cuts, |b| buf::decode_hash_map(b, |r| buf::decode_u16(r), |r| buf::decode_string(r)), |b| buf::decode_non_zero_hash_map(b, |r| buf::decode_u16(r), |r| buf::decode_string(r)), |v| v.is_empty(), |v| v.into_inner());
            same(rep, "hash_set<string>", &d, &cuts, |b| buf::decode_hash_set(b, |r| buf::decode_string(r)), |b| buf::decode_non_zero_hash_set(b, |r| buf::decode_string(r)), |v| v.is_empty(), |v| v.into_inner());
        }
        if i < 3 { rep.sample(|| json!({"strings": strings, "bytes": hex(&raw), "map": format!("{map:?}")})); }
    }
    rep.save();
}
