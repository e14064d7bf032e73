//! Drives generated code with generated values and watches what it does.
pub mod alloc;
pub mod buf;
pub mod builtin;
pub mod dynval;
pub mod work;

use std::{any::Any, panic::AssertUnwindSafe};

use mabo::{Decode, Encode, buf::{Error, Size}};
use mvcore::{codec::RefErr, model::*, value::*};

pub use dynval::Dyn;
pub use mvcore::value::Val as V;

/// What decoding did.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// value and number of consumed bytes
    Ok(Val, usize),
    Err(RefErr),
    Panic(String),
}

pub struct Entry {
    pub pkg: usize,
    /// 0 and 1: versions of the package
    pub ver: usize,
    pub name: &'static str,
    pub ty: &'static str,
    /// property and name of a known finding
    pub probe: &'static str,
    pub enc: fn(&Val) -> (usize, Vec<u8>),
    /// what conversion to the Rust type and back makes of it
    pub conv: fn(&Val) -> Val,
    pub dec: fn(&[u8]) -> Out,
    pub dec_seg: fn(&[u8], Vec<usize>) -> Out,
    pub dec_bytes: fn(&[u8]) -> Out,
}

pub fn enc<T: Dyn + Encode + Size>(v: &Val) -> (usize, Vec<u8>) {
    let x = T::from_val(v);
    let mut out = Vec::new();
    let n = x.size();
    x.encode(&mut out);
    (n, out)
}
pub fn conv<T: Dyn>(v: &Val) -> Val { T::from_val(v).to_val() }

pub fn kind(e: &Error) -> RefErr {
    match e {
        Error::InsufficientData => RefErr::Insufficient,
        Error::DecodeInt(_) => RefErr::Varint,
        Error::NonUtf8(_) => RefErr::NonUtf8,
        Error::MissingField { id, name } => RefErr::Missing(*id, name.map(str::to_string)),
        Error::UnknownVariant(id) => RefErr::UnknownVariant(*id),
        Error::UnknownEncoding(id) => RefErr::UnknownEncoding(*id),
        Error::Zero => RefErr::Zero,
        #[allow(unreachable_patterns)]
        _ => RefErr::NoClaim,
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&*p))
}

fn run_dec<T: Dyn + Decode, B: mabo::Buf>(len: usize, b: &mut B) -> Out {
    match guard(|| {
        let r = T::decode(b);
        (r, b.remaining())
    }) {
        Ok((Ok(v), left)) => Out::Ok(v.to_val(), len - left),
        Ok((Err(e), _)) => Out::Err(kind(&e)),
        Err(p) => Out::Panic(p),
    }
}
pub fn dec<T: Dyn + Decode>(mut b: &[u8]) -> Out { run_dec::<T, _>(b.len(), &mut b) }
pub fn dec_seg<T: Dyn + Decode>(b: &[u8], cuts: Vec<usize>) -> Out { run_dec::<T, _>(b.len(), &mut buf::SegBuf::new(b, cuts)) }
pub fn dec_bytes<T: Dyn + Decode>(b: &[u8]) -> Out { run_dec::<T, _>(b.len(), &mut bytes::Bytes::copy_from_slice(b)) }

#[macro_export]
macro_rules! entry {
    ($pkg:expr, $ver:expr, $name:expr, $json:expr, $probe:expr, $t:ty) => {
        $crate::Entry {
            pkg: $pkg, ver: $ver, name: $name, ty: $json, probe: $probe,
            enc: $crate::enc::<$t>, conv: $crate::conv::<$t>, dec: $crate::dec::<$t>, dec_seg: $crate::dec_seg::<$t>, dec_bytes: $crate::dec_bytes::<$t>,
        }
    };
}

pub struct Pkg {
    /// JSON of the versions, and what was changed
    pub versions: [&'static str; 2],
    pub changes: &'static str,
}

pub struct Loaded {
    pub envs: Vec<[Env; 2]>,
    pub changes: Vec<String>,
    pub entries: Vec<(Entry, Ty)>,
}

pub fn main(pkgs: &[Pkg], entries: Vec<Entry>) {
    let load = |s: &str| Env::build(&serde_json::from_str::<Package>(s).unwrap());
    let loaded = Loaded {
        envs: pkgs.iter().map(|p| [load(p.versions[0]), load(p.versions[1])]).collect(),
        changes: pkgs.iter().map(|p| p.changes.to_string()).collect(),
        entries: entries.into_iter().map(|e| { let t = serde_json::from_str(e.ty).unwrap(); (e, t) }).collect(),
    };
    work::run(&loaded);
}
