//! Conversion between model values and the Rust types of generated code.
use std::{
    collections::{HashMap, HashSet},
    hash::Hash,
    num::*,
};

use mabo::NonZero;
use mvcore::value::Val;

pub trait Dyn: Sized {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

macro_rules! ints {
    ($var:ident $wide:ty: $($t:ty, $nz:ty);+) => {$(
        impl Dyn for $t {
            fn from_val(v: &Val) -> Self { if let Val::$var(n) = v { <$t>::try_from(*n).unwrap() } else { panic!("{v:?}") } }
            fn to_val(&self) -> Val { Val::$var(<$wide>::from(*self)) }
        }
        impl Dyn for $nz {
            fn from_val(v: &Val) -> Self { <$nz>::new(<$t>::from_val(v)).unwrap() }
            fn to_val(&self) -> Val { self.get().to_val() }
        }
    )+};
}
ints!(U u128: u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128);
ints!(I i128: i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128);

impl Dyn for bool {
    fn from_val(v: &Val) -> Self { if let Val::Bool(b) = v { *b } else { panic!("{v:?}") } }
    fn to_val(&self) -> Val { Val::Bool(*self) }
}
impl Dyn for f32 {
    fn from_val(v: &Val) -> Self { if let Val::F32(b) = v { f32::from_bits(*b) } else { panic!("{v:?}") } }
    fn to_val(&self) -> Val { Val::F32(self.to_bits()) }
}
impl Dyn for f64 {
    fn from_val(v: &Val) -> Self { if let Val::F64(b) = v { f64::from_bits(*b) } else { panic!("{v:?}") } }
    fn to_val(&self) -> Val { Val::F64(self.to_bits()) }
}
impl Dyn for String {
    fn from_val(v: &Val) -> Self { if let Val::Str(s) = v { s.clone() } else { panic!("{v:?}") } }
    fn to_val(&self) -> Val { Val::Str(self.clone()) }
}
impl Dyn for Box<str> {
    fn from_val(v: &Val) -> Self { String::from_val(v).into() }
    fn to_val(&self) -> Val { Val::Str(self.to_string()) }
}
impl Dyn for Box<[u8]> {
    fn from_val(v: &Val) -> Self { bytes_of(v).into() }
    fn to_val(&self) -> Val { Val::Bytes(self.to_vec()) }
}
impl Dyn for bytes::Bytes {
    fn from_val(v: &Val) -> Self { bytes_of(v).into() }
    fn to_val(&self) -> Val { Val::Bytes(self.to_vec()) }
}
fn bytes_of(v: &Val) -> Vec<u8> {
    match v {
        Val::Bytes(b) => b.clone(),
        Val::List(l) => l.iter().map(u8::from_val).collect(),
        v => panic!("{v:?}"),
    }
}
fn list(v: &Val) -> std::borrow::Cow<'_, [Val]> {
    match v {
        Val::List(l) | Val::Set(l) => l.as_slice().into(),
        Val::Bytes(b) => b.iter().map(|b| Val::U(u128::from(*b))).collect::<Vec<_>>().into(),
        v => panic!("{v:?}"),
    }
}
impl<T: Dyn> Dyn for Vec<T> {
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
    fn to_val(&self) -> Val { Val::List(self.iter().map(T::to_val).collect()) }
}
impl<T: Dyn + std::fmt::Debug, const N: usize> Dyn for [T; N] {
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect::<Vec<_>>().try_into().unwrap() }
    fn to_val(&self) -> Val { Val::List(self.iter().map(T::to_val).collect()) }
}
impl<T: Dyn + Eq + Hash> Dyn for HashSet<T> {
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
    fn to_val(&self) -> Val { Val::Set(self.iter().map(T::to_val).collect()) }
}
impl<K: Dyn + Eq + Hash, T: Dyn> Dyn for HashMap<K, T> {
    fn from_val(v: &Val) -> Self { if let Val::Map(m) = v { m.iter().map(|(a, b)| (K::from_val(a), T::from_val(b))).collect() } else { panic!("{v:?}") } }
    fn to_val(&self) -> Val { Val::Map(self.iter().map(|(a, b)| (a.to_val(), b.to_val())).collect()) }
}
impl<T: Dyn> Dyn for Option<T> {
    fn from_val(v: &Val) -> Self { if let Val::Opt(o) = v { o.as_ref().map(|x| T::from_val(x)) } else { panic!("{v:?}") } }
    fn to_val(&self) -> Val { Val::Opt(self.as_ref().map(|x| Box::new(x.to_val()))) }
}
macro_rules! nonzero {
    ($([$($g:tt)*] $t:ty);+) => {$(
        impl<$($g)*> Dyn for NonZero<$t> {
            fn from_val(v: &Val) -> Self { NonZero::<$t>::new(<$t>::from_val(v)).unwrap() }
            fn to_val(&self) -> Val { self.get().to_val() }
        }
    )+};
}
nonzero!([] String; [] bytes::Bytes; [T: Dyn] Vec<T>; [K: Dyn + Eq + Hash, V: Dyn] HashMap<K, V>; [T: Dyn + Eq + Hash] HashSet<T>);

macro_rules! tuples {
    ($($($t:ident $i:tt),+);+) => {$(
        impl<$($t: Dyn),+> Dyn for ($($t,)+) {
            fn from_val(v: &Val) -> Self { if let Val::List(l) = v { ($($t::from_val(&l[$i]),)+) } else { panic!("{v:?}") } }
            fn to_val(&self) -> Val { Val::List(vec![$(self.$i.to_val()),+]) }
        }
    )+};
}
tuples!(A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; A 0, B 1, C 2, D 3, E 4, F 5; A 0, B 1, C 2, D 3, E 4, F 5, G 6; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
