//! User types whose codecs come from the derive macros, with reference shapes
//! and generators. They reach forms that the library's own types do not have.
use crate::rng::Rng;
use crate::shape::Shape;
use crate::types::*;
use crate::wenum;
use safe_discriminant::Discriminant;
use std::fmt::Debug;
#[allow(unused_imports)]
use tpm2_rs_base::{errors::*, marshal::*, *};
use tpm2_rs_base::marshal::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
use tpm2_rs_marshalable;

// ---- plain structures -------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DEmpty {
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DOne {
    pub a: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DInts {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: i8,
    pub f: i16,
    pub g: i32,
    pub h: i64,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DFixed {
    pub pre: u16,
    pub raw: [u8; 5],
    pub words: [u16; 3],
    pub pairs: [DPair; 2],
    pub post: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DPairs {
    pub a: u8,
    pub pairs: [DPair; 3],
}
/// Ends with a fixed array.
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DWords {
    pub words: [u16; 4],
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DOctets {
    pub octets: [u8; 9],
}
/// Neighbouring fixed arrays of the same element type.
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DGrid {
    pub a: [i32; 2],
    pub b: [i32; 3],
    pub c: [DEnum8; 2],
    pub d: [DWords; 2],
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DPair {
    pub xx: u16,
    pub yy: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DZero {
    pub pre: u8,
    pub none: [u32; 0],
    pub post: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DUnitField {
    pub a: u16,
    pub nothing: (),
    pub b: u16,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DNest {
    pub a: DPair,
    pub b: DTuple,
    pub c: DEnum16,
    pub d: DList8,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DDeep {
    pub a: DNest,
    pub b: DEnumNest,
    pub trailer: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DUnit;
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DTuple(pub u8, pub u32, pub DPair);
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DNew(pub u64);
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DTupleRaw(pub [u8; 3], pub i16, pub DUnit, pub [u8; 0]);

/// More positional fields than any type of the library has.
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DTupleLong(
    pub u8,
    pub u16,
    pub u32,
    pub u64,
    pub DPair,
    pub i8,
    pub i16,
    pub DEnum8,
    pub u8,
    pub u16,
    pub DUnit,
    pub [u8; 3],
    pub u8,
    pub DTuple,
    pub u16,
    pub u8,
    pub u32,
    pub u8,
);
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DLong {
    pub f00: u8,
    pub f01: u16,
    pub f02: u32,
    pub f03: u64,
    pub f04: DPair,
    pub f05: i8,
    pub f06: i16,
    pub f07: DEnum16,
    pub f08: u8,
    pub f09: u16,
    pub f10: u8,
    pub f11: u32,
    pub f12: DNew,
    pub f13: u8,
    pub f14: u16,
    pub f15: DTupleLong,
    pub f16: u8,
    pub f17: u8,
    pub f18: DList8,
    pub f19: u16,
    pub f20: u8,
    pub f21: u32,
    pub f22: [u8; 2],
    pub f23: u8,
    pub f24: u16,
    pub f25: u8,
    pub f26: u8,
    pub f27: i64,
    pub f28: u8,
    pub f29: u16,
    pub f30: u8,
    pub f31: u8,
    pub f32: u16,
    pub f33: u8,
}
/// Names that sort differently from their order.
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DNames {
    pub zeta: u8,
    pub kappa: u16,
    pub alpha: u32,
    pub omega: u8,
    pub beta: u16,
    pub kappa2: u8,
    pub kappa10: u16,
}
/// The same type through other spellings.
pub type Alias = DPair;
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct DPaths {
    pub a: crate::derived::DPair,
    pub b: Alias,
    pub c: u16,
    pub e: [crate::derived::DNew; 2],
}

macro_rules! seq {
    ($($t:ident { $($f:ident : $ft:ty),* $(,)? })*) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Seq(vec![$(<$ft as Wire>::shape()),*]) }
            fn arb(_r: &mut Rng, _out: &mut Vec<u8>) -> Self {
                $(let $f = <$ft as Wire>::arb(_r, _out);)*
                $t { $($f),* }
            }
        }
    )*};
}
seq! {
    DEmpty {}
    DUnit {}
    DOne { a: u8 }
    DInts { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64 }
    DPair { xx: u16, yy: u8 }
    DUnitField { a: u16, nothing: (), b: u16 }
    DNest { a: DPair, b: DTuple, c: DEnum16, d: DList8 }
    DDeep { a: DNest, b: DEnumNest, trailer: u32 }
    DLong {
        f00: u8, f01: u16, f02: u32, f03: u64, f04: DPair, f05: i8, f06: i16, f07: DEnum16, f08: u8, f09: u16, f10: u8, f11: u32,
        f12: DNew, f13: u8, f14: u16, f15: DTupleLong, f16: u8, f17: u8, f18: DList8, f19: u16, f20: u8, f21: u32, f22: [u8; 2],
        f23: u8, f24: u16, f25: u8, f26: u8, f27: i64, f28: u8, f29: u16, f30: u8, f31: u8, f32: u16, f33: u8
    }
    DNames { zeta: u8, kappa: u16, alpha: u32, omega: u8, beta: u16, kappa2: u8, kappa10: u16 }
}
macro_rules! tup {
    ($($t:ident ( $($f:ident : $ft:ty),* ))*) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Seq(vec![$(<$ft as Wire>::shape()),*]) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                $(let $f = <$ft as Wire>::arb(r, out);)*
                $t($($f),*)
            }
        }
    )*};
}
tup! {
    DTuple(a: u8, b: u32, c: DPair)
    DNew(a: u64)
    DTupleRaw(a: [u8; 3], b: i16, c: DUnit, d: [u8; 0])
    DTupleLong(
        a: u8, b: u16, c: u32, d: u64, e: DPair, f: i8, g: i16, h: DEnum8, i: u8, j: u16, k: DUnit, l: [u8; 3], m: u8, n: DTuple,
        o: u16, p: u8, q: u32, s: u8
    )
}
impl Wire for DPaths {
    fn shape() -> Shape {
        Shape::Seq(vec![DPair::shape(), DPair::shape(), Shape::Int(2), Shape::Rep(2, Box::new(DNew::shape()))])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DPaths { a: DPair::arb(r, o), b: DPair::arb(r, o), c: u16::arb(r, o), e: fixed(r, o) }
    }
}
impl Wire for DFixed {
    fn shape() -> Shape {
        Shape::Seq(vec![
            Shape::Int(2),
            Shape::Bytes(5),
            Shape::Rep(3, Box::new(Shape::Int(2))),
            Shape::Rep(2, Box::new(DPair::shape())),
            Shape::Int(1),
        ])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DFixed {
            pre: u16::arb(r, o),
            raw: <[u8; 5]>::arb(r, o),
            words: [u16::arb(r, o), u16::arb(r, o), u16::arb(r, o)],
            pairs: [DPair::arb(r, o), DPair::arb(r, o)],
            post: u8::arb(r, o),
        }
    }
}
/// A fixed array, every element of it generated.
fn fixed<T: Wire + Default + Copy, const N: usize>(r: &mut Rng, o: &mut Vec<u8>) -> [T; N] {
    elems(r, o, N)
}
impl Wire for DPairs {
    fn shape() -> Shape {
        Shape::Seq(vec![Shape::Int(1), Shape::Rep(3, Box::new(DPair::shape()))])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DPairs { a: u8::arb(r, o), pairs: fixed(r, o) }
    }
}
impl Wire for DWords {
    fn shape() -> Shape {
        Shape::Rep(4, Box::new(Shape::Int(2)))
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DWords { words: fixed(r, o) }
    }
}
impl Wire for DOctets {
    fn shape() -> Shape {
        Shape::Bytes(9)
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DOctets { octets: fixed(r, o) }
    }
}
impl Wire for DGrid {
    fn shape() -> Shape {
        Shape::Seq(vec![
            Shape::Rep(2, Box::new(Shape::Int(4))),
            Shape::Rep(3, Box::new(Shape::Int(4))),
            Shape::Rep(2, Box::new(DEnum8::shape())),
            Shape::Rep(2, Box::new(DWords::shape())),
        ])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DGrid { a: fixed(r, o), b: fixed(r, o), c: fixed(r, o), d: fixed(r, o) }
    }
}
impl Wire for DZero {
    fn shape() -> Shape {
        Shape::Seq(vec![Shape::Int(1), Shape::Int(1)])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        DZero { pre: u8::arb(r, o), none: [], post: u8::arb(r, o) }
    }
}

// ---- counted arrays ---------------------------------------------------------

/// `[T; N]` with the first `n` elements generated and the rest default.
fn elems<T: Wire + Default + Copy, const N: usize>(r: &mut Rng, o: &mut Vec<u8>, n: usize) -> [T; N] {
    let mut a = [T::default(); N];
    for x in a.iter_mut().take(n) {
        *x = T::arb(r, o);
    }
    a
}
fn count(r: &mut Rng, o: &mut Vec<u8>, w: usize, max: usize) -> usize {
    let n = r.len_upto(max);
    o.extend_from_slice(&(n as u64).to_be_bytes()[8 - w..]);
    n
}

#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DList8 {
    pub tally: u8,
    #[marshalable(length = tally)]
    pub items: [u16; 5],
}
impl Default for DList8 {
    fn default() -> Self {
        DList8 { tally: 0, items: [0; 5] }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DList8Full {
    pub tally: u8,
    #[marshalable(length = tally)]
    pub items: [u8; 255],
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DList16 {
    pub lead_in: u8,
    pub tally: u16,
    #[marshalable(length = tally)]
    pub items: [DPair; 300],
    pub trailer: u16,
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DList32 {
    pub tally: u32,
    #[marshalable(length = tally)]
    pub items: [u64; 3],
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DListNone {
    pub tally: u16,
    #[marshalable(length = tally)]
    pub items: [u16; 0],
    pub trailer: u8,
}
/// The count does not immediately precede its array.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DListFar {
    pub tally: u16,
    pub mid: u32,
    pub fixed: [u8; 3],
    #[marshalable(length = tally)]
    pub items: [i16; 7],
    pub trailer: u8,
}
/// Two arrays with one count.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DListShared {
    pub tally: u8,
    #[marshalable(length = tally)]
    pub names: [DPair; 6],
    #[marshalable(length = tally)]
    pub values: [u32; 4],
}
/// Two arrays with a count each.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DListTwo {
    pub tally: u8,
    pub tally2: u16,
    #[marshalable(length = tally2)]
    pub second: [u8; 9],
    #[marshalable(length = tally)]
    pub first: [DEnum8; 3],
}
/// Lists within lists.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DListNest {
    pub tally: u32,
    #[marshalable(length = tally)]
    pub items: [DList8; 4],
}

macro_rules! counted {
    ($($t:ident { $n:ident : $nt:ty [$min:expr]; $($f:ident : $k:tt $ft:tt),* })*) => {$(
        impl Wire for $t {
            fn shape() -> Shape {
                Shape::Counted { w: size_of::<$nt>(), parts: vec![$(counted!(@shape $k $ft)),*] }
            }
            fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
                let n = count(r, o, size_of::<$nt>(), $min);
                $(let $f = counted!(@arb r o n $k $ft);)*
                $t { $n: n as $nt, $($f),* }
            }
        }
    )*};
    (@shape arr [$e:ty; $m:expr]) => { (Some($m), <$e as Wire>::shape()) };
    (@shape one [$e:ty]) => { (None, <$e as Wire>::shape()) };
    (@arb $r:ident $o:ident $n:ident arr [$e:ty; $m:expr]) => { elems::<$e, $m>($r, $o, $n) };
    (@arb $r:ident $o:ident $n:ident one [$e:ty]) => { <$e as Wire>::arb($r, $o) };
}
counted! {
    DList8 { tally: u8 [5]; items: arr [u16; 5] }
    DList8Full { tally: u8 [255]; items: arr [u8; 255] }
    DList32 { tally: u32 [3]; items: arr [u64; 3] }
    DListNone { tally: u16 [0]; items: arr [u16; 0], trailer: one [u8] }
    DListFar { tally: u16 [7]; mid: one [u32], fixed: one [[u8; 3]], items: arr [i16; 7], trailer: one [u8] }
    DListShared { tally: u8 [4]; names: arr [DPair; 6], values: arr [u32; 4] }
    DListNest { tally: u32 [4]; items: arr [DList8; 4] }
}
impl Wire for DList16 {
    fn shape() -> Shape {
        Shape::Seq(vec![
            Shape::Int(1),
            Shape::Counted { w: 2, parts: vec![(Some(300), DPair::shape()), (None, Shape::Int(2))] },
        ])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        let head = u8::arb(r, o);
        let n = count(r, o, 2, 300);
        DList16 { lead_in: head, tally: n as u16, items: elems(r, o, n), trailer: u16::arb(r, o) }
    }
}
impl Wire for DListTwo {
    // Not expressible as one counted shape; only used with generated values.
    fn shape() -> Shape {
        Shape::Unit
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        let n = count(r, o, 1, 3);
        let m = count(r, o, 2, 9);
        let second = elems(r, o, m);
        DListTwo { tally: n as u8, tally2: m as u16, second, first: elems(r, o, n) }
    }
}

// ---- enums ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u8)]
pub enum DEnum8 {
    Zero() = 0,
    One(u8) = 1,
    Two(u16, u8) = 0x7F,
    Three(u8, u16, u32) = 0x80,
    Four(u8, DPair, u64, i8) = 0xFF,
}
impl Default for DEnum8 {
    fn default() -> Self {
        DEnum8::Zero()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u16)]
pub enum DEnum16 {
    None() = 0x0100,
    Same(u32) = 0x0001,
    Swapped(i32) = 0x1000,
    Pair(DPair, DPair) = 0xFFFF,
    Raw([u8; 6]) = 0x8001,
}
impl Default for DEnum16 {
    fn default() -> Self {
        DEnum16::None()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u32)]
pub enum DEnum32 {
    Zero(u8) = 0,
    Low(u16) = 0x0000_0001,
    Mid(u32, u8) = 0x0001_0000,
    High(u64) = 0x8000_0000,
    Max(DList8) = 0xFFFF_FFFF,
    Buf(DBuf10) = 0x0000_FFFF,
}
impl Default for DEnum32 {
    fn default() -> Self {
        DEnum32::Zero(0)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u8)]
pub enum DEnumOne {
    Only(u16) = 0x42,
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u16)]
pub enum DEnumNest {
    Inner(DEnum8) = 2,
    Both(DEnum16, DEnum32) = 3,
    Tup(DTuple) = 0x0200,
}
impl Default for DEnumNest {
    fn default() -> Self {
        DEnumNest::Inner(DEnum8::Zero())
    }
}
// More payload fields and more variants than any type of the library has.
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u16)]
pub enum DEnumLong {
    Long(u8, u16, u32, u64, DPair, i8, u8, DEnum8, u16, u8, [u8; 3], u8, u16, u8) = 0x0B0A,
    Short(u8) = 0x0A0B,
    Nine(u8, u8, u8, u8, u8, u8, u8, u8, u16) = 0x000B,
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u8)]
pub enum DEnumMany {
    V0() = 3,
    V1(u8) = 10,
    V2(u16, u8) = 17,
    V3(DPair) = 24,
    V4() = 31,
    V5(u8) = 38,
    V6(u16, u8) = 45,
    V7(DPair) = 52,
    V8() = 59,
    V9(u8) = 66,
    V10(u16, u8) = 73,
    V11(DPair) = 80,
    V12() = 87,
    V13(u8) = 94,
    V14(u16, u8) = 101,
    V15(DPair) = 108,
    V16() = 115,
    V17(u8) = 122,
    V18(u16, u8) = 129,
    V19(DPair) = 136,
    V20() = 143,
    V21(u8) = 150,
    V22(u16, u8) = 157,
    V23(DPair) = 164,
    V24() = 171,
    V25(u8) = 178,
    V26(u16, u8) = 185,
    V27(DPair) = 192,
    V28() = 199,
    V29(u8) = 206,
    V30(u16, u8) = 213,
    V31(DPair) = 220,
    V32() = 227,
    V33(u8) = 234,
    V34(u16, u8) = 241,
    V35(DPair) = 248,
    V36() = 255,
    V37(u8) = 6,
    V38(u16, u8) = 13,
    V39(DPair) = 20,
}
/// Selectors that are not literals.
pub mod sel {
    pub const A: u16 = 0x1234;
    pub const B: u16 = 0x3412;
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(C, u16)]
pub enum DEnumConst {
    A(u16) = sel::A,
    B(u8) = sel::B,
    C(u32) = sel::A + 1,
    D() = 1 << 9,
    E(DList8) = 0b11,
}
#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]
#[repr(u32)]
pub enum DEnumPlain {
    A(u8) = 0x0102_0304,
    B(DPair) = 0x0403_0201,
}
wenum! {
    DEnumLong [2] { 0x0B0A => Long(u8, u16, u32, u64, DPair, i8, u8, DEnum8, u16, u8, [u8; 3], u8, u16, u8), 0x0A0B => Short(u8),
        0x000B => Nine(u8, u8, u8, u8, u8, u8, u8, u8, u16) }
    DEnumMany [1] { 3 => V0(), 10 => V1(u8), 17 => V2(u16, u8), 24 => V3(DPair), 31 => V4(), 38 => V5(u8), 45 => V6(u16, u8), 52 => V7(DPair), 59 => V8(), 66 => V9(u8), 73 => V10(u16, u8), 80 => V11(DPair), 87 => V12(), 94 => V13(u8), 101 => V14(u16, u8), 108 => V15(DPair), 115 => V16(), 122 => V17(u8), 129 => V18(u16, u8), 136 => V19(DPair), 143 => V20(), 150 => V21(u8), 157 => V22(u16, u8), 164 => V23(DPair), 171 => V24(), 178 => V25(u8), 185 => V26(u16, u8), 192 => V27(DPair), 199 => V28(), 206 => V29(u8), 213 => V30(u16, u8), 220 => V31(DPair), 227 => V32(), 234 => V33(u8), 241 => V34(u16, u8), 248 => V35(DPair), 255 => V36(), 6 => V37(u8), 13 => V38(u16, u8), 20 => V39(DPair) }
    DEnumConst [2] { 0x1234 => A(u16), 0x3412 => B(u8), 0x1235 => C(u32), 0x0200 => D(), 3 => E(DList8) }
    DEnumPlain [4] { 0x01020304 => A(u8), 0x04030201 => B(DPair) }
    DEnum8 [1] { 0 => Zero(), 1 => One(u8), 0x7F => Two(u16, u8), 0x80 => Three(u8, u16, u32), 0xFF => Four(u8, DPair, u64, i8) }
    DEnum16 [2] { 0x0100 => None(), 0x0001 => Same(u32), 0x1000 => Swapped(i32), 0xFFFF => Pair(DPair, DPair), 0x8001 => Raw([u8; 6]) }
    DEnum32 [4] { 0 => Zero(u8), 1 => Low(u16), 0x10000 => Mid(u32, u8), 0x80000000 => High(u64), 0xFFFFFFFF => Max(DList8), 0xFFFF => Buf(DBuf10) }
    DEnumOne [1] { 0x42 => Only(u16) }
    DEnumNest [2] { 2 => Inner(DEnum8), 3 => Both(DEnum16, DEnum32), 0x0200 => Tup(DTuple) }
}

// ---- sized buffers ----------------------------------------------------------

macro_rules! bufs {
    ($($t:ident [$n:expr]),* $(,)?) => {$(
        #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
        #[marshalable(tpm2b_simple)]
        pub struct $t { size: u16, contents: [u8; $n] }
        impl Wire for $t {
            fn shape() -> Shape { Shape::B2(($n as usize).min(65535)) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let n = r.len_upto(($n as usize).min(65535));
                let n = if out.len() > 5000 || n > 20_000 && r.chance(9, 10) { n.min(4) } else { n };
                let b = r.bytes(n);
                out.extend_from_slice(&(n as u16).to_be_bytes());
                out.extend_from_slice(&b);
                <$t as Tpm2bSimple>::from_bytes(&b).unwrap_or_else(|e| panic!("{}::from_bytes of {n} bytes: {e:?}", stringify!($t)))
            }
        }
    )*};
}
bufs! { DBuf0[0], DBuf1[1], DBuf10[10], DBuf255[255], DBuf256[256], DBuf65535[65535], DBuf70000[70000] }

macro_rules! struct_bufs {
    ($($t:ident of $s:ident),* $(,)?) => {$(
        #[derive(Clone, Copy, Debug, PartialEq, Marshalable, Tpm2bStruct)]
        #[marshalable(tpm2b_simple)]
        pub struct $t { size: u16, inner: [u8; size_of::<$s>()] }
        impl Wire for $t {
            fn shape() -> Shape { Shape::B2(size_of::<$s>()) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let n = r.len_upto(size_of::<$s>());
                let b = r.bytes(n);
                out.extend_from_slice(&(n as u16).to_be_bytes());
                out.extend_from_slice(&b);
                <$t as Tpm2bSimple>::from_bytes(&b).unwrap_or_else(|e| panic!("{}::from_bytes of {n} bytes: {e:?}", stringify!($t)))
            }
        }
    )*};
}
struct_bufs! { DBufPair of DPair, DBufInts of DInts, DBufTuple of DTuple, DBufFar of DListFar, DBufEnum of DEnum32, DBufDeep of DDeep }

macro_rules! plain {
    ($($t:ty),* $(,)?) => { vec![$(info::<$t>(stringify!($t))),*] };
}
macro_rules! unions {
    ($($t:ty),* $(,)?) => { vec![$(vinfo::<$t>(stringify!($t))),*] };
}
/// Types whose shape the reference grammar describes.
pub fn all() -> Vec<TypeInfo> {
    let mut v = plain![
        DEmpty, DUnit, DOne, DInts, DFixed, DPairs, DWords, DOctets, DGrid, DPair, DZero, DUnitField, DNest, DDeep, DTuple, DNew, DTupleRaw, DTupleLong, DLong,
        DNames, DPaths, DList8,
        DList8Full, DList16, DList32, DListNone, DListFar, DListShared, DListNest, DBuf0, DBuf1, DBuf10, DBuf255,
        DBuf256, DBufPair, DBufInts, DBufTuple, DBufFar, DBufEnum, DBufDeep,
    ];
    v.extend(unions![DEnum8, DEnum16, DEnum32, DEnumOne, DEnumNest, DEnumLong, DEnumMany, DEnumConst, DEnumPlain]);
    v
}
/// Further types for the monitors that work on values.
pub fn values_only() -> Vec<TypeInfo> {
    plain![DListTwo]
}
/// Types with large encodings.
pub fn large() -> Vec<TypeInfo> {
    plain![DBuf65535, DBuf70000]
}

/// Encodes to more than 65535 bytes when `n` is large.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct DHuge {
    pub tally: u32,
    #[marshalable(length = tally)]
    pub payload: [u8; 70_000],
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable, Tpm2bStruct)]
#[marshalable(tpm2b_simple)]
pub struct DBufHuge {
    size: u16,
    inner: [u8; size_of::<DHuge>()],
}
