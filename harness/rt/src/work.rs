//! Workloads and monitors per property.
use std::time::{Duration, Instant};

use mvcore::{
    codec::{self, RefErr},
    evolve::{Rejected, project},
    fault::{FAULTS, Faulter, Mode, tuple_prefixes},
    model::*,
    out::{Report, hex},
    rng::Rng,
    value::*,
};
use serde_json::json;

use crate::{Entry, Loaded, Out, alloc, buf::BUDGET_MARK};

pub struct Ctx<'a> { pub l: &'a Loaded, pub rep: Report, pub seed: u64, pub rounds: usize, pub until: Instant, pub digests: Vec<String> }

pub fn run(l: &Loaded) {
    let var = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set"));
    let property = var("MV_PROPERTY");
    let out = var("MV_OUT");
    std::panic::set_hook(Box::new(|_| {}));
    mvcore::watch::start(format!("{out}.hang").into(), 60);
    let mut c = Ctx {
        l, rep: Report::new(&out, &property), seed: var("MV_SEED").parse().unwrap(), rounds: var("MV_ROUNDS").parse().unwrap(),
        until: Instant::now() + Duration::from_secs(var("MV_SECS").parse().unwrap()), digests: Vec::new(),
    };
    let (normal, probes): (Vec<&(Entry, Ty)>, Vec<_>) = l.entries.iter().partition(|x| x.0.probe.is_empty());
    c.rep.count("types", normal.len() as u64);
    c.rep.count("packages", normal.iter().map(|x| x.0.pkg).collect::<std::collections::HashSet<_>>().len() as u64);
    // the probes of known findings
    for (e, ty) in probes {
        let Some(name) = e.probe.strip_prefix(&format!("{property}:")) else { continue };
        let tmp = std::mem::replace(&mut c.rep, Report::new(&out, &property));
        for round in 0..20 { one(&mut c, &property, e, ty, round); }
        let got = std::mem::replace(&mut c.rep, tmp);
        if let Some(v) = got.violations.first() { c.rep.violation(&format!("probe:{name}"), v["what"].as_str().unwrap_or_default(), v["witness"].clone()); }
    }
    // round robin over the types, so that a time limit cuts all of them alike
    'rounds: for round in 0..c.rounds {
        for (e, ty) in &normal {
            if Instant::now() > c.until { c.rep.count("stopped by time limit", 1); break 'rounds; }
            one(&mut c, &property, e, ty, round);
        }
    }
    crate::builtin::run(&mut c);
    if !c.digests.is_empty() { std::fs::write(format!("{out}.digests"), c.digests.join("\n")).unwrap(); }
    c.rep.save();
}

fn one(c: &mut Ctx, property: &str, e: &Entry, ty: &Ty, round: usize) {
    let l = c.l;
    let mut r = Rng::new(c.seed, &format!("{property}/{}", e.name), (round * 1_000_003 + e.pkg * 10 + e.ver) as u64);
    let env = &l.envs[e.pkg][e.ver];
    let mut budget = *r.pick(&[10, 60, 60, 200, 200, 3000]);
    let v = rand_val(&mut r, env, ty, &mut budget);
    let case = || json!({"package": e.pkg, "version": e.ver, "type": e.name, "ty": mvcore::render::ty_text(ty), "round": round, "value": show(&v)});
    mvcore::watch::begin(|| case().to_string());
    c.rep.case(case);
    match property {
        "C01" => c01(c, e, ty, env, &v, &mut r),
        "C02" => c02(c, e, ty, env, &v),
        "C03" => c03(c, e, ty, env, &v, &mut r),
        "C04" => c04(c, e, ty, &v, &mut r),
        "C06" => c06(c, e, ty, env, &v, &mut r),
        "C07" => c07(c, e, ty, env, &v, &mut r),
        "C08" => c08(c, e, ty, env, &v),
        "C25" => c25(c, e, ty, env, &v, round),
        p => panic!("unknown property {p}"),
    }
    if round == 0 { c.rep.sample_every(17, case); }
}

fn witness(e: &Entry, ty: &Ty, v: &Val, bytes: &[u8]) -> serde_json::Value {
    json!({"package": e.pkg, "version": e.ver, "type": e.name, "ty": mvcore::render::ty_text(ty), "value": show(v), "bytes": hex(&bytes[..bytes.len().min(400)]), "bytes_len": bytes.len()})
}

fn encode(c: &mut Ctx, e: &Entry, ty: &Ty, v: &Val) -> Option<(usize, Vec<u8>)> {
    match crate::guard(|| (e.enc)(v)) {
        Ok(x) => Some(x),
        Err(p) => { c.rep.violation("encode-panic", format!("encoding a value of {} panicked: {p}", e.name), witness(e, ty, v, &[])); None }
    }
}

fn c01(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val, r: &mut Rng) {
    c.rep.eval();
    let Some((_, bytes)) = encode(c, e, ty, v) else { return };
    let mut data = bytes.clone();
    let tail = r.below(20);
    for _ in 0..tail { data.push(r.u64() as u8); }
    let out = if r.chance(1, 2) { (e.dec)(&data) } else { (e.dec_bytes)(&data) };
    let want = canon(env, ty, v);
    c.rep.case_seen(&(e.name, e.pkg, &want));
    c.rep.count("bytes encoded", bytes.len() as u64);
    match out {
        Out::Ok(got, used) => {
            let got = canon(env, ty, &got);
            if got != want { c.rep.violation("value", format!("{}: decoded {} instead of {}", e.name, show(&got), show(&want)), witness(e, ty, v, &data)); }
            else if used != bytes.len() { c.rep.violation("consumed", format!("{}: {used} bytes consumed, {} were written", e.name, bytes.len()), witness(e, ty, v, &data)); }
        }
        o => c.rep.violation("reject", format!("{}: own encoding was not decoded: {o:?}", e.name), witness(e, ty, v, &data)),
    }
    // the real PartialEq agrees as well (apart from NaN): conversion is the identity
    let back = canon(env, ty, &(e.conv)(v));
    if back != want { c.rep.violation("harness", "conversion is not the identity", witness(e, ty, v, &data)); }
}

fn c02(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val) {
    c.rep.eval();
    let Some((size, bytes)) = encode(c, e, ty, v) else { return };
    c.rep.case_seen(&(e.name, e.pkg, bytes.len(), v));
    if size == bytes.len() { return; }
    let prefixes = tuple_prefixes(env, ty, v);
    let sig = if prefixes > 0 && size + prefixes == bytes.len() { "tuple-field-prefix" } else { "size" };
    if sig != "size" { c.rep.count("values hit by the known finding", 1); }
    c.rep.violation(sig, format!("{}: announced {size}, encoded {} bytes", e.name, bytes.len()), witness(e, ty, v, &bytes));
}

pub fn mutate(r: &mut Rng, bytes: &[u8], other: &[u8]) -> Vec<u8> {
    let mut b = bytes.to_vec();
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        match r.below(12) {
            0 => { b = (0..r.below(60)).map(|_| r.u64() as u8).collect(); }
            1 | 2 if n > 0 => { let i = r.below(n); b[i] ^= 1 << r.below(8); }
            3 if n > 0 => { let i = r.below(n); b[i] = *r.pick(&[0, 1, 2, 8, 9, 0x7f, 0x80, 0xff, 0xfe]); }
            4 if n > 0 => { b.truncate(r.below(n)); }
            5 => { let i = r.range(0, n); let l = *r.pick(&[u128::from(u64::MAX), u128::from(u32::MAX), 1 << 31, 1 << 30, 1 << 62, 1 << 63, 127, 128, 100_000, u128::MAX]); let v = codec::varint(l); let end = (i + r.below(2)).min(n); b.splice(i..end, v); }
            6 => { let i = r.range(0, n); let v: Vec<u8> = (0..r.below(12)).map(|_| r.u64() as u8 | 0x80).collect(); b.splice(i..i, v); }
            7 if n > 0 && !other.is_empty() => { let i = r.below(n); let j = r.below(other.len()); b.truncate(i); b.extend_from_slice(&other[j..]); }
            8 if n > 1 => { let i = r.below(n); let j = r.below(n); b.swap(i, j); }
            9 if n > 0 => { let i = r.below(n); b.remove(i); }
            10 if n > 0 => { let i = r.below(n); let j = r.range(i, n); let s = b[i..j.min(i + 40)].to_vec(); b.splice(i..i, s); }
            _ => { let i = r.range(0, n); b.insert(i, r.u64() as u8); }
        }
        b.truncate(20_000);
    }
    b
}

fn c03(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val, r: &mut Rng) {
    let bytes = codec::encode(env, ty, v);
    // every proper prefix is rejected
    let cuts: Vec<usize> = if bytes.len() <= 40 { (0..bytes.len()).collect() } else { (0..20).map(|_| r.below(bytes.len())).collect() };
    for cut in cuts {
        c.rep.eval();
        c.rep.count("prefixes", 1);
        hostile(c, e, ty, env, v, &bytes[..cut], true);
    }
    let mut budget = 40;
    let other = codec::encode(env, ty, &rand_val(r, env, ty, &mut budget));
    for _ in 0..10 {
        c.rep.eval();
        let b = mutate(r, &bytes, &other);
        hostile(c, e, ty, env, v, &b, false);
    }
}

fn hostile(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val, b: &[u8], prefix: bool) {
    c.rep.case(|| json!({"type": e.name, "ty": mvcore::render::ty_text(ty), "package": e.pkg, "version": e.ver, "hostile": hex(b)}));
    mvcore::watch::begin(|| format!("{} {}", e.name, hex(b)));
    c.rep.case_seen(&(e.name, e.pkg, b));
    let base = alloc::reset();
    let out = (e.dec_seg)(b, Vec::new());
    let peak = alloc::peak(base);
    let limit = (1 << 20) + 20_000 * b.len();
    if peak > limit { c.rep.violation("memory", format!("{}: {peak} bytes allocated for {} bytes of input", e.name, b.len()), witness(e, ty, v, b)); }
    match out {
        Out::Panic(p) if p.contains(BUDGET_MARK) => c.rep.violation("no-progress", format!("{}: {p}", e.name), witness(e, ty, v, b)),
        Out::Panic(p) => c.rep.violation("panic", format!("{}: decoding panicked: {p}", e.name), witness(e, ty, v, b)),
        Out::Err(k) => { c.rep.count(&format!("rejected: {}", short(&k)), 1); }
        Out::Ok(got, used) => {
            c.rep.count("accepted", 1);
            if prefix { c.rep.violation("prefix", format!("{}: a prefix of {used} bytes was accepted as {}", e.name, show(&got)), witness(e, ty, v, b)); return; }
            let Some((_, again)) = encode(c, e, ty, &got) else { return };
            let want = canon(env, ty, &got);
            match (e.dec)(&again) {
                Out::Ok(x, n) if n == again.len() && canon(env, ty, &x) == want => {}
                o => c.rep.violation("reencode", format!("{}: accepted value {} became {o:?} after encoding", e.name, show(&want)), witness(e, ty, v, b)),
            }
        }
    }
}

pub fn short(e: &RefErr) -> &'static str {
    match e {
        RefErr::Insufficient => "insufficient data", RefErr::Varint => "varint", RefErr::NonUtf8 => "non UTF-8", RefErr::Missing(..) => "missing field",
        RefErr::UnknownVariant(_) => "unknown variant", RefErr::UnknownEncoding(_) => "unknown encoding", RefErr::Zero => "zero", RefErr::NoClaim => "other",
    }
}

fn c04(c: &mut Ctx, e: &Entry, ty: &Ty, v: &Val, r: &mut Rng) {
    let l = c.l;
    let envs = &l.envs[e.pkg];
    let env = &envs[e.ver];
    // other version
    if let Some((o, oty)) = l.entries.iter().find(|(o, _)| o.pkg == e.pkg && o.ver != e.ver && o.name == e.name) {
        c.rep.eval();
        c.rep.count("version pairs decoded", 1);
        let mut bad = Rejected::default();
        let to = &envs[o.ver];
        let want = project(env, to, ty, v, &mut bad);
        let Some((_, bytes)) = encode(c, e, ty, v) else { return };
        c.rep.case_seen(&(e.name, e.pkg, e.ver, &bytes));
        let out = (o.dec)(&bytes);
        let what = |s: String| format!("{}: written by version {}, read by version {}: {s}; changes: {}", e.name, e.ver, o.ver, mvcore::out::clip(&l.changes[e.pkg], 500));
        match out {
            Out::Ok(got, n) => {
                let got = canon(to, oty, &got);
                if !bad.none() { c.rep.violation("accepted", what(format!("accepted although {bad:?}")), witness(e, ty, v, &bytes)); }
                else if got != canon(to, oty, &want) { c.rep.violation("value", what(format!("became {} instead of {}", show(&got), show(&want))), witness(e, ty, v, &bytes)); }
                else if n != bytes.len() { c.rep.violation("consumed", what(format!("{n} of {} bytes consumed", bytes.len())), witness(e, ty, v, &bytes)); }
                else { c.rep.count("accepted", 1); if bad.longer { c.rep.count("accepted with additional array elements", 1); } if want != *v { c.rep.count("accepted with a difference", 1); } }
            }
            Out::Err(RefErr::Missing(id, name)) if bad.missing.contains(&(id, name.clone())) => c.rep.count("missing field reported", 1),
            Out::Err(RefErr::Insufficient) if bad.short => c.rep.count("lack of array elements reported", 1),
            Out::Err(RefErr::UnknownVariant(id)) if bad.variants.contains(&id) => c.rep.count("unknown variant reported", 1),
            o => c.rep.violation("reject", what(format!("{o:?}, expected {}", if bad.none() { show(&want) } else { format!("{bad:?}") })), witness(e, ty, v, &bytes)),
        }
    }
    // other order, unknown fields
    for mode in [Mode::Permute, Mode::Unknown] {
        let mut out = Vec::new();
        let mut f = Faulter::new(r, env, mode, None);
        f.enc(ty, v, &mut out);
        if f.applied.is_empty() { continue; }
        c.rep.eval();
        c.rep.case_seen(&(e.name, e.pkg, &out));
        c.rep.count(&format!("{mode:?}"), 1);
        match (e.dec)(&out) {
            Out::Ok(got, n) if n == out.len() && canon(env, ty, &got) == canon(env, ty, v) => {}
            o => c.rep.violation(&format!("{mode:?}"), format!("{}: data with {mode:?} became {}", e.name, mvcore::out::clip(&format!("{o:?}"), 300)), witness(e, ty, v, &out)),
        }
    }
}

fn c06(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val, r: &mut Rng) {
    let judge = |c: &mut Ctx, mode: &str, applied: &str, data: &[u8]| {
        c.rep.eval();
        let want = codec::decode(env, ty, data).map(|(v, rest)| (v, data.len() - rest.len()));
        let got = (e.dec)(data);
        c.rep.case_seen(&(e.name, e.pkg, data));
        let ok = match (&want, &got) {
            (Err(RefErr::NoClaim), _) => { c.rep.count("no claim", 1); return; }
            (Ok((v, n)), Out::Ok(g, m)) => n == m && canon(env, ty, v) == canon(env, ty, g),
            (Err(RefErr::UnknownEncoding(_)), Out::Err(RefErr::UnknownEncoding(_))) => true,
            (Err(a), Out::Err(b)) => a == b,
            _ => false,
        };
        c.rep.count(&format!("{mode} -> {}", match &want { Ok(_) => "accepted", Err(k) => short(k) }), 1);
        if !ok { c.rep.violation(mode, format!("{}: {applied}: expected {}, got {}", e.name, mvcore::out::clip(&format!("{want:?}"), 300), mvcore::out::clip(&format!("{got:?}"), 300)), witness(e, ty, v, data)); }
    };
    for mode in FAULTS {
        // count the sites first, then pick one
        let mut sink = Vec::new();
        let mut f = Faulter::new(r, env, *mode, Some(usize::MAX));
        f.enc(ty, v, &mut sink);
        let sites = f.seen;
        if sites == 0 { continue; }
        for _ in 0..2.min(sites) {
            let target = r.below(sites);
            let mut data = Vec::new();
            let mut f = Faulter::new(r, env, *mode, Some(target));
            f.enc(ty, v, &mut data);
            let applied = f.applied.join(", ");
            if applied.is_empty() { continue; }
            judge(c, &format!("{mode:?}"), &applied, &data);
        }
    }
    // cut off anywhere
    let mut data = Vec::new();
    let mode = if r.chance(1, 2) { Mode::Unknown } else { Mode::None };
    Faulter::new(r, env, mode, None).enc(ty, v, &mut data);
    for _ in 0..2 {
        if data.is_empty() { break; }
        let n = r.below(data.len());
        judge(c, "Cut", &format!("cut at {n} of {}", data.len()), &data[..n]);
    }
}

fn c07(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val, r: &mut Rng) {
    let bytes = codec::encode(env, ty, v);
    for i in 0..4 {
        let mut data = if i < 2 { bytes.clone() } else { mutate(r, &bytes, &bytes) };
        if i == 1 { for _ in 0..r.below(5) { data.push(r.u64() as u8); } }
        let whole = (e.dec)(&data);
        for j in 0..4 {
            c.rep.eval();
            let n = data.len();
            let cuts: Vec<usize> = match j {
                0 => (1..n).collect(),
                1 if n > 1 => vec![r.range(1, n - 1)],
                2 => (0..r.range(1, 6)).map(|_| r.below(n + 1)).collect(),
                _ => (0..n / 2).map(|_| r.below(n + 1)).collect(),
            };
            c.rep.case_seen(&(e.name, e.pkg, &data, &cuts));
            let seg = if j == 3 && r.chance(1, 3) { (e.dec_bytes)(&data) } else { (e.dec_seg)(&data, cuts.clone()) };
            let same = match (&whole, &seg) {
                (Out::Ok(a, n), Out::Ok(b, m)) => n == m && canon(env, ty, a) == canon(env, ty, b),
                // both unwind: that is another property's business
                (Out::Panic(_), Out::Panic(_)) => true,
                (a, b) => a == b,
            };
            c.rep.count(match &whole { Out::Ok(..) => "valid data", _ => "invalid data" }, 1);
            if !same { c.rep.violation("differs", format!("{}: contiguous {}, split at {} {}", e.name, mvcore::out::clip(&format!("{whole:?}"), 300), mvcore::out::clip(&format!("{cuts:?}"), 100), mvcore::out::clip(&format!("{seg:?}"), 300)), witness(e, ty, v, &data)); }
        }
    }
}

/// The same bytes each time, from equal values, in every thread and process.
fn c25(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val, round: usize) {
    if has_unordered(v) { c.rep.count("with maps or sets, left out", 1); return; }
    c.rep.eval();
    let Some((_, first)) = encode(c, e, ty, v) else { return };
    c.rep.case_seen(&(e.name, e.pkg, &first));
    c.rep.count("bytes compared", first.len() as u64);
    let mut others = vec![("a second time", (e.enc)(v).1)];
    if let Out::Ok(w, _) = (e.dec)(&first) && canon(env, ty, &w) == canon(env, ty, v) { others.push(("when read and written again", (e.enc)(&w).1)); }
    if round % 10 == 0 { others.push(("in another thread", std::thread::scope(|s| s.spawn(|| (e.enc)(v).1).join().unwrap_or_default()))); }
    if let Some((how, b)) = others.iter().find(|o| o.1 != first) {
        c.rep.violation("encoded", format!("{}: {how}, the bytes are {} instead of {}", e.name, mvcore::out::clip(&hex(b), 300), mvcore::out::clip(&hex(&first), 300)), witness(e, ty, v, &first));
    }
    c.digests.push(format!("{round} {} {} {} {:x}", e.pkg, e.ver, e.name, mvcore::out::hash(&first)));
}

fn c08(c: &mut Ctx, e: &Entry, ty: &Ty, env: &Env, v: &Val) {
    c.rep.eval();
    let Some((_, got)) = encode(c, e, ty, v) else { return };
    c.rep.case_seen(&(e.name, e.pkg, &got));
    c.rep.count("bytes compared", got.len() as u64);
    let want = codec::encode(env, ty, v);
    if has_unordered(v) {
        // the order of maps and sets is free: read with the reference, keeping the order, and write again
        match codec::decode(env, ty, &got) {
            Ok((w, rest)) => {
                if !rest.is_empty() { c.rep.violation("bytes", format!("{}: {} bytes too many", e.name, rest.len()), witness(e, ty, v, &got)); }
                else if canon(env, ty, &w) != canon(env, ty, v) { c.rep.violation("bytes", format!("{}: reads as {}", e.name, show(&w)), witness(e, ty, v, &got)); }
                else if codec::encode(env, ty, &w) != got { c.rep.violation("bytes", format!("{}: bytes are not the prescribed ones", e.name), witness(e, ty, v, &got)); }
            }
            Err(x) => c.rep.violation("bytes", format!("{}: not readable by the wire format: {x:?}", e.name), witness(e, ty, v, &got)),
        }
        c.rep.count("with maps or sets", 1);
    } else if got != want {
        c.rep.violation("bytes", format!("{}: wrote {} instead of {}", e.name, mvcore::out::clip(&hex(&got), 300), mvcore::out::clip(&hex(&want), 300)), witness(e, ty, v, &got));
    }
    match (e.dec)(&want) {
        Out::Ok(x, n) if n == want.len() && canon(env, ty, &x) == canon(env, ty, v) => {}
        o => c.rep.violation("read", format!("{}: bytes by the wire format became {}", e.name, mvcore::out::clip(&format!("{o:?}"), 300)), witness(e, ty, v, &want)),
    }
}
