//! Integers: encodings, sizes and decoding of arbitrary bytes against an independent definition.
use mabo::buf::{self, Error};
use mvcore::{
    codec::{put_varint, varint},
    out::{Report, hex},
    rng::Rng,
    value::{unzigzag, zigzag},
};
use mvrt::buf::SegBuf;
use serde_json::json;

#[global_allocator]
static ALLOC: mvrt::alloc::Track = mvrt::alloc::Track;

/// Value of a complete varint, or None when no final byte comes within `max` bytes.
fn reference(b: &[u8], max: usize, bits: u32) -> Option<(Option<u128>, usize)> {
    let mut v: u128 = 0;
    let mut exact = true;
    for i in 0..max {
        let x = *b.get(i)?;
        let part = u128::from(x & 0x7f);
        if 7 * i < 128 {
            let s = part << (7 * i);
            if s >> (7 * i) != part { exact = false; }
            v |= s;
        } else if part != 0 { exact = false; }
        if x & 0x80 == 0 {
            if bits < 128 && v >> bits != 0 { exact = false; }
            return Some((exact.then_some(v), i + 1));
        }
    }
    None
}

macro_rules! width {
    ($name:ident, $t:ident, $enc:ident, $dec:ident, $size:ident, $venc:ident, $vdec:ident, $vsize:ident, $bits:expr, $to:expr, $from:expr) => {
        mod $name {
            use super::*;
            pub const MAX: usize = ($bits as usize).div_ceil(7);
            pub fn value(rep: &mut Report, u: u128) {
                let u = if $bits == 128 { u } else { u & ((1u128 << ($bits % 128)) - 1) };
                let v: $t = ($from)(u);
                rep.eval();
                let want = varint(u);
                let mut out = Vec::with_capacity(20);
                let wit = |out: &[u8]| json!({"type": stringify!($t), "value": v.to_string(), "bytes": hex(out)});
                let r = mvrt::guard(|| {
                    buf::$enc(&mut out, v);
                    let (a, n) = mabo::varint::$venc(v);
                    (buf::$size(v), mabo::varint::$vsize(v), a[..n].to_vec())
                });
                let Ok((s1, s2, direct)) = r else { rep.violation("panic", format!("{} {v}: encoding panicked", stringify!($t)), wit(&[])); return };
                if out != want || direct != want { rep.violation("bytes", format!("{} {v}: encoded as {} instead of {}", stringify!($t), hex(&out), hex(&want)), wit(&out)); }
                if s1 != want.len() || s2 != want.len() { rep.violation("size", format!("{} {v}: announced {s1}/{s2}, takes {}", stringify!($t), want.len()), wit(&out)); }
                let mut data = want.clone();
                data.extend([0x80, 0x01, 0xff]);
                let mut b = data.as_slice();
                match mvrt::guard(|| buf::$dec(&mut b)) {
                    Ok(Ok(x)) if x == v && b.len() == 3 => {}
                    o => rep.violation("roundtrip", format!("{} {v}: decoded as {o:?}, {} bytes left", stringify!($t), b.len()), wit(&data)),
                }
                // every prefix is incomplete
                for cut in 0..want.len() {
                    let mut b = &want[..cut];
                    match mvrt::guard(|| buf::$dec(&mut b)) {
                        Ok(Err(Error::DecodeInt(_) | Error::InsufficientData)) => {}
                        o => rep.violation("incomplete", format!("{}: {} decoded as {o:?}", stringify!($t), hex(&want[..cut])), wit(&want)),
                    }
                }
            }
            pub fn bytes(rep: &mut Report, data: &[u8]) {
                rep.eval();
                let mut b = data;
                let got = mvrt::guard(|| buf::$dec(&mut b));
                let used = data.len() - b.len();
                judge(rep, data, got, used, "contiguous");
                let got = mvrt::guard(|| mabo::varint::$vdec(data));
                match (reference(data, MAX, $bits), got) {
                    (Some((Some(u), n)), Ok(Ok((x, m)))) if x == ($from)(u) && n == m => {}
                    (Some((None, n)), Ok(Ok((_, m)))) if n == m => {}
                    (Some((None, _)), Ok(Err(_))) | (None, Ok(Err(_))) => {}
                    (want, got) => rep.violation("decode-direct", format!("{}: {} gave {got:?}, expected {want:?}", stringify!($t), hex(data)), json!({"bytes": hex(data)})),
                }
            }
            pub fn segmented(rep: &mut Report, data: &[u8], cuts: Vec<usize>) {
                use mabo::Buf;
                rep.eval();
                let mut b = SegBuf::new(data, cuts);
                let got = mvrt::guard(|| buf::$dec(&mut b));
                let used = data.len() - b.remaining();
                judge(rep, data, got, used, "fragmented");
            }
            fn judge(rep: &mut Report, data: &[u8], got: Result<buf::Result<$t>, String>, used: usize, how: &str) {
                let want = reference(data, MAX, $bits);
                let fine = match (&want, &got) {
                    (Some((Some(u), n)), Ok(Ok(x))) => *x == ($from)(*u) && used == *n,
                    (Some((None, n)), Ok(Ok(_))) => used == *n,
                    // too large for the type: rejecting it is as good
                    (Some((None, _)), Ok(Err(_))) => true,
                    (None, Ok(Err(Error::DecodeInt(_) | Error::InsufficientData))) => used <= MAX,
                    _ => false,
                };
                if !fine { rep.violation("decode", format!("{}: {how} {} gave {got:?} after {used} bytes, expected {want:?}", stringify!($t), hex(data)), json!({"type": stringify!($t), "bytes": hex(data)})); }
            }
            #[allow(dead_code)]
            pub fn back(v: $t) -> u128 { ($to)(v) }
        }
    };
}
width!(u16_, u16, encode_u16, decode_u16, size_u16, encode_u16, decode_u16, size_u16, 16, |v: u16| u128::from(v), |u: u128| u as u16);
width!(u32_, u32, encode_u32, decode_u32, size_u32, encode_u32, decode_u32, size_u32, 32, |v: u32| u128::from(v), |u: u128| u as u32);
width!(u64_, u64, encode_u64, decode_u64, size_u64, encode_u64, decode_u64, size_u64, 64, |v: u64| u128::from(v), |u: u128| u as u64);
width!(u128_, u128, encode_u128, decode_u128, size_u128, encode_u128, decode_u128, size_u128, 128, |v: u128| v, |u: u128| u);
width!(i16_, i16, encode_i16, decode_i16, size_i16, encode_i16, decode_i16, size_i16, 16, |v: i16| zigzag(v.into()), |u: u128| unzigzag(u) as i16);
width!(i32_, i32, encode_i32, decode_i32, size_i32, encode_i32, decode_i32, size_i32, 32, |v: i32| zigzag(v.into()), |u: u128| unzigzag(u) as i32);
width!(i64_, i64, encode_i64, decode_i64, size_i64, encode_i64, decode_i64, size_i64, 64, |v: i64| zigzag(v.into()), |u: u128| unzigzag(u) as i64);
width!(i128_, i128, encode_i128, decode_i128, size_i128, encode_i128, decode_i128, size_i128, 128, |v: i128| zigzag(v), |u: u128| unzigzag(u));

fn values(rep: &mut Report, u: u128) {
    u16_::value(rep, u); u32_::value(rep, u); u64_::value(rep, u); u128_::value(rep, u);
    i16_::value(rep, u); i32_::value(rep, u); i64_::value(rep, u); i128_::value(rep, u);
    rep.case_seen(&u);
}
fn all_bytes(rep: &mut Report, b: &[u8]) {
    u16_::bytes(rep, b); u32_::bytes(rep, b); u64_::bytes(rep, b); u128_::bytes(rep, b);
    i16_::bytes(rep, b); i32_::bytes(rep, b); i64_::bytes(rep, b); i128_::bytes(rep, b);
}
fn all_segmented(rep: &mut Report, b: &[u8], cuts: &[usize]) {
    let c = || cuts.to_vec();
    u16_::segmented(rep, b, c()); u32_::segmented(rep, b, c()); u64_::segmented(rep, b, c()); u128_::segmented(rep, b, c());
    i16_::segmented(rep, b, c()); i32_::segmented(rep, b, c()); i64_::segmented(rep, b, c()); i128_::segmented(rep, b, c());
}

fn main() {
    let var = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set"));
    let out = var("MV_OUT");
    let seed: u64 = var("MV_SEED").parse().unwrap();
    let rounds: usize = var("MV_ROUNDS").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    mvcore::watch::start(format!("{out}.hang").into(), 600);
    let mut rep = Report::new(&out, "C05");
    // all 16 bit values, and around every power of two of the wider ones
    for u in 0..=0xffffu128 { u16_::value(&mut rep, u); i16_::value(&mut rep, u); rep.case_seen(&u); }
    rep.count("16 bit values, each signed and unsigned", 65536);
    for k in 0..128 {
        for d in 0..6u128 {
            let p = 1u128 << k;
            values(&mut rep, p.wrapping_add(d));
            values(&mut rep, p.wrapping_sub(d));
            values(&mut rep, (p.wrapping_mul(2)).wrapping_sub(1) ^ d);
            values(&mut rep, !p.wrapping_add(d));
            rep.count("values around powers of two, all widths", 4);
        }
    }
    // all byte strings up to two bytes, all of three bytes for the narrow types
    all_bytes(&mut rep, &[]);
    for a in 0..=255u8 { all_bytes(&mut rep, &[a]); for b in 0..=255u8 { all_bytes(&mut rep, &[a, b]); rep.case_seen(&[a, b]); } }
    for a in 0..=255u8 { for b in 0..=255u8 {
        if a & 0x80 == 0 || b & 0x80 == 0 { continue; }
        for c in 0..=255u8 {
            u16_::bytes(&mut rep, &[a, b, c]);
            i16_::bytes(&mut rep, &[a, b, c]);
        }
    } }
    rep.count("byte strings of three bytes (unterminated before the third), narrow types", 128 * 128 * 256);
    // longer strings
    for i in 0..rounds {
        let mut r = Rng::new(seed, "varint", i as u64);
        let v = r.u128() >> r.below(128);
        values(&mut rep, v);
        let n = r.range(0, 24);
        let hi = r.range(0, n);
        let data: Vec<u8> = (0..n).map(|k| match r.below(4) { 0 => 0xff, 1 => 0x80, _ => r.u64() as u8 | 0x80 } & if k < hi || r.chance(1, 2) { 0xff } else { 0x7f }).collect();
        all_bytes(&mut rep, &data);
        rep.case_seen(&data);
        let mut d = Vec::new();
        put_varint(&mut d, v);
        d.extend_from_slice(&data);
        let all: Vec<usize> = (1..d.len()).collect();
        all_segmented(&mut rep, &d, &all);
        let some: Vec<usize> = (0..3).map(|_| r.range(0, d.len())).collect();
        all_segmented(&mut rep, &d, &some);
        all_segmented(&mut rep, &data, &some);
        rep.count("random values and byte strings", 1);
        if i < 4 { rep.sample(|| json!({"value": v.to_string(), "bytes": hex(&data)})); }
    }
    rep.save();
}
