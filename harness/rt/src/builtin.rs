//! Runtime types that no schema produces: smart pointers, borrowed slices, wrappers.
use std::{borrow::Cow, collections::{HashMap, HashSet}, rc::Rc, sync::Arc};

use mabo::{Decode, Encode, NonZero, buf::Size};
use mvcore::{codec, model::Ty, out::hex, rng::Rng, value::*};
use serde_json::json;

use crate::{Dyn, kind, work::Ctx};

fn b<T>(t: T) -> Box<T> { Box::new(t) }

/// Size, bytes and bytes read back, all against the reference.
fn check<T: Dyn, W: Encode + Size>(c: &mut Ctx, label: &str, ty: &Ty, r: &mut Rng, wrap: impl Fn(&T) -> W, dec: Option<&dyn Fn(&mut &[u8]) -> mabo::buf::Result<Val>>) {
    let env = Env::default();
    let mut budget = *r.pick(&[5, 60, 400]);
    let v = rand_val(r, &env, ty, &mut budget);
    let x = T::from_val(&v);
    let w = wrap(&x);
    c.rep.eval();
    c.rep.count("runtime wrapper types", 1);
    let mut out = Vec::new();
    let Ok(n) = crate::guard(|| { w.encode(&mut out); w.size() }) else {
        c.rep.violation("runtime-panic", format!("{label}: panicked"), json!({"type": label, "value": show(&v)}));
        return;
    };
    c.rep.case_seen(&(label, &v));
    let wit = || json!({"type": label, "value": show(&v), "bytes": hex(&out[..out.len().min(300)])});
    if n != out.len() { c.rep.violation("runtime-size", format!("{label}: announced {n}, encoded {}", out.len()), wit()); }
    match codec::decode(&env, ty, &out) {
        Ok((got, rest)) if rest.is_empty() && canon(&env, ty, &got) == canon(&env, ty, &v) && codec::encode(&env, ty, &got) == out => {}
        o => c.rep.violation("runtime-bytes", format!("{label}: reference reads {o:?}"), wit()),
    }
    if let Some(dec) = dec {
        let mut s = out.as_slice();
        match dec(&mut s) {
            Ok(got) if canon(&env, ty, &got) == canon(&env, ty, &v) && s.is_empty() => {}
            Ok(got) => c.rep.violation("runtime-value", format!("{label}: became {}", show(&got)), wit()),
            Err(e) => c.rep.violation("runtime-value", format!("{label}: {:?}", kind(&e)), wit()),
        }
    }
}

/// Skipping unknown content, one call at a time.
fn skip(c: &mut Ctx) {
    use mabo::FieldEncoding as E;
    use mvcore::codec::RefErr;
    for i in 0..c.rounds.min(2000) * 200 {
        let mut r = Rng::new(c.seed, "skip", i as u64);
        let (enc, n) = *r.pick(&[(E::Varint, 0), (E::LengthPrefixed, 1), (E::Fixed1, 2), (E::Fixed4, 3), (E::Fixed8, 4)]);
        let body: Vec<u8> = (0..r.below(40)).map(|_| *r.pick(&[0u8, 1, 2, 5, 0x7f, 0x80, 0x81, 0xff])).collect();
        let data: Vec<u8> = if n == 1 && r.chance(4, 5) { let mut d = codec::varint((body.len() + r.below(3)) as u128); d.extend(&body); d } else { body };
        let want = match n {
            0 => data.iter().position(|b| b & 0x80 == 0).map(|i| i + 1).ok_or(RefErr::Insufficient),
            1 => {
                // the length may not use more than 10 bytes
                match data.iter().take(10).position(|b| b & 0x80 == 0) {
                    None => Err(RefErr::Varint),
                    Some(9) if data[9] > 1 => continue,
                    Some(k) => {
                        let len = data[..=k].iter().enumerate().fold(0u128, |a, (i, b)| a | u128::from(b & 0x7f) << (7 * i));
                        if (data.len() - k - 1) as u128 >= len { Ok(k + 1 + len as usize) } else { Err(RefErr::Insufficient) }
                    }
                }
            }
            k => { let len = [1, 4, 8][k - 2]; if data.len() >= len { Ok(len) } else { Err(RefErr::Insufficient) } }
        };
        c.rep.eval();
        c.rep.case_seen(&("skip", n, &data));
        let mut s = data.as_slice();
        let got = crate::guard(|| mabo::buf::decode_skip(&mut s, enc).map_err(|e| kind(&e)));
        let used = data.len() - s.len();
        c.rep.count(if want.is_ok() { "skipped" } else { "skipping rejected" }, 1);
        let ok = match (&want, &got) { (Ok(n), Ok(Ok(()))) => *n == used, (Err(a), Ok(Err(b))) => a == b, _ => false };
        if !ok { c.rep.violation("skip", format!("skipping encoding {n}: expected {want:?}, got {got:?} with {used} bytes consumed"), json!({"bytes": hex(&data)})); }
    }
}

/// Collections whose elements claim to be huge, so that the lengths in front of them need not be backed by memory.
fn huge(c: &mut Ctx) {
    use mabo::buf;
    let sizes = c.rep.property == "C02";
    for i in 0..c.rounds.min(2000) * 4 {
        let mut r = Rng::new(c.seed, "huge", i as u64);
        let l: [usize; 4] = std::array::from_fn(|_| { let n = r.below(60); (r.u64() >> (63 - n)) as usize });
        let n = r.below(5);
        let v = &l[..n];
        let map: HashMap<usize, usize> = v.iter().map(|n| (*n, n / 3)).collect();
        let set: HashSet<usize> = v.iter().copied().collect();
        let f = |n: &usize| *n;
        let none = |_: &mut Vec<u8>, _: &usize| {};
        let all: [(&str, usize, usize, Vec<u8>); 5] = {
            let enc = |f: &dyn Fn(&mut Vec<u8>)| { let mut w = Vec::new(); f(&mut w); w };
            [
                ("vec", v.iter().sum(), buf::size_vec(v, f), enc(&|w| buf::encode_vec(w, v, f, none))),
                ("array", l.iter().sum(), buf::size_array(&l, f), enc(&|w| buf::encode_array(w, &l, f, none))),
                ("hash_set", set.iter().sum(), buf::size_hash_set(&set, f), enc(&|w| buf::encode_hash_set(w, &set, f, none))),
                ("hash_map", map.iter().map(|(k, v)| k + v).sum(), buf::size_hash_map(&map, f, f), enc(&|w| buf::encode_hash_map(w, &map, f, f, none, none))),
                ("tuple", l[0], l[0] + codec::varint(l[0] as u128).len(), enc(&|w| buf::encode_tuple(w, || l[0], |_| {}))),
            ]
        };
        for (what, sum, size, bytes) in all {
            c.rep.eval();
            c.rep.count("collections of huge elements", 1);
            c.rep.case_seen(&("huge", what, sum, n));
            let want = codec::varint(sum as u128);
            let w = || json!({"type": what, "sizes": l, "elements": n, "bytes": hex(&bytes)});
            if sizes && size != sum + want.len() { c.rep.violation("runtime-size", format!("{what} of {sum} bytes: announced {size}"), w()); }
            if !sizes && bytes != want { c.rep.violation("runtime-bytes", format!("{what} of {sum} bytes: the length in front is {}", hex(&bytes)), w()); }
        }
    }
}

pub fn run(c: &mut Ctx) {
    if matches!(c.rep.property.as_str(), "C02" | "C08") { huge(c); }
    if c.rep.property == "C06" { skip(c); }
    if !matches!(c.rep.property.as_str(), "C01" | "C02" | "C08") { return; }
    let rounds = c.rounds.min(2000) * 2;
    for i in 0..rounds {
        let mut r = Rng::new(c.seed, "builtin", i as u64);
        let r = &mut r;
        macro_rules! dec { ($t:ty, $f:expr) => { Some(&|s: &mut &[u8]| <$t>::decode(s).map($f)) } }
        let strs = Ty::Vec(b(Ty::Str));
        check::<Vec<String>, _>(c, "Rc<Vec<String>>", &strs, r, |x| Rc::new(x.clone()), dec!(Rc<Vec<String>>, |x| x.to_val()));
        check::<Vec<String>, _>(c, "Arc<Vec<String>>", &strs, r, |x| Arc::new(x.clone()), dec!(Arc<Vec<String>>, |x| x.to_val()));
        check::<Vec<String>, _>(c, "Vec<Vec<String>>", &Ty::Vec(b(Ty::Str)), r, |x| x.clone(), dec!(Vec<String>, |x| x.to_val()));
        check::<u64, _>(c, "Cow<u64>", &Ty::U64, r, |x| Cow::<u64>::Owned(*x), dec!(Cow<'_, u64>, |x| x.to_val()));
        check::<i128, _>(c, "Cow<i128>", &Ty::I128, r, |x| Cow::<i128>::Owned(*x), dec!(Cow<'_, i128>, |x| x.to_val()));
        check::<[u32; 3], _>(c, "Cow<[u32; 3]>", &Ty::Array(b(Ty::U32), 3), r, |x| Cow::<[u32; 3]>::Owned(*x), dec!(Cow<'_, [u32; 3]>, |x| x.to_val()));
        let nested = Ty::Vec(b(Ty::Vec(b(Ty::U16))));
        let env = Env::default();
        let mut budget = 300;
        let v = rand_val(r, &env, &nested, &mut budget);
        let owned = <Vec<Vec<u16>>>::from_val(&v);
        let slice: &[Vec<u16>] = &owned;
        let mut out = Vec::new();
        slice.encode(&mut out);
        c.rep.eval();
        c.rep.case_seen(&("slice", &v));
        if slice.size() != out.len() || out != codec::encode(&env, &nested, &v) { c.rep.violation("runtime-size", "&[Vec<u16>]", json!({"value": show(&v), "bytes": hex(&out)})); }
        let nz = |t: Ty| Ty::NonZero(b(t));
        check::<NonZero<String>, _>(c, "NonZero<String>", &nz(Ty::Str), r, |x| x.clone(), None);
        check::<NonZero<Vec<i32>>, _>(c, "NonZero<Vec<i32>>", &nz(Ty::Vec(b(Ty::I32))), r, |x| x.clone(), None);
        check::<NonZero<HashMap<String, u64>>, _>(c, "NonZero<HashMap>", &nz(Ty::Map(b(Ty::Str), b(Ty::U64))), r, |x| x.clone(), None);
        check::<NonZero<HashSet<u32>>, _>(c, "NonZero<HashSet>", &nz(Ty::Set(b(Ty::U32))), r, |x| x.clone(), None);
        check::<HashMap<Vec<u8>, Option<HashSet<String>>>, _>(c, "HashMap<Vec<u8>, Option<HashSet<String>>>", &Ty::Map(b(Ty::Bytes), b(Ty::Opt(b(Ty::Set(b(Ty::Str)))))), r, |x| x.clone(), dec!(HashMap<Vec<u8>, Option<HashSet<String>>>, |x| x.to_val()));
        check::<Option<[Option<Box<str>>; 4]>, _>(c, "Option<[Option<Box<str>>; 4]>", &Ty::Opt(b(Ty::Array(b(Ty::Opt(b(Ty::BoxStr))), 4))), r, |x| x.clone(), dec!(Option<[Option<Box<str>>; 4]>, |x| x.to_val()));
        check::<Box<[u8]>, _>(c, "Rc<Box<[u8]>>", &Ty::BoxBytes, r, |x| Rc::new(x.clone()), dec!(Rc<Box<[u8]>>, |x| x.to_val()));
    }
}
