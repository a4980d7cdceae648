//! C08: unit-only enums.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{BinRead, BinResult, Error};

#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = u8)]
enum R8 {
    A,
    B,
    C = 7,
    D,
    E = 255,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = i16, big)]
enum R16 {
    A = -2,
    B,
    C = 300,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = u32, little)]
enum R32 {
    A = 0x01020304,
    B = 5,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = i64)]
enum R64 {
    A = -5,
    B = 0x1122334455667788,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = u16, import(k: u32))]
enum RPre {
    #[br(pre_assert(k == 1))]
    A = 10,
    #[br(pre_assert(k > 0), pre_assert(k < 9))]
    B = 20,
    C = 30,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(import(k: u32))]
enum GPre {
    #[br(magic = 0x0102u16, pre_assert(k == 1))]
    A,
    #[br(magic = 0x0102u16)]
    B,
    #[br(magic = 0x0304u16, pre_assert(k > 4), pre_assert(k != 6))]
    C,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
enum G32 {
    #[br(magic = 1u32)]
    A,
    #[br(magic = 0x01000000u32)]
    B,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(big)]
enum GStr {
    #[br(magic = b"ab")]
    A,
    #[br(magic = b"ba")]
    B,
}
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(little)]
enum GByte {
    #[br(magic = b'a')]
    A,
    #[br(magic = b'b')]
    B,
}

fn bits(n: u32, en: u8) -> u128 {
    let le = g().win & ((1u128 << (8 * n)) - 1);
    if en == BIG || (en == NATIVE && cfg!(target_endian = "big")) { le.swap_bytes() >> (128 - 8 * n) } else { le }
}

macro_rules! unit { ($t:ty, $args:expr, $n:literal, |$e:ident| $en:expr, |$b:ident| $spec:expr) => {{
    let p0 = init();
    let o = O::nd();
    let $e = o.en;
    let $b = bits($n, $en);
    let want: Option<$t> = $spec;
    let r = <$t>::read_options(&mut Rd, &o.real(), $args);
    if !faulted() {
        match want {
            Some(v) => {
                oblige!("C08", matches!(&r, Ok(x) if *x == v), "the stored value selects its variant");
                oblige!("C08", g().pos == p0 + $n, "exactly one value is consumed");
                reach!(true, "a variant");
            }
            None => {
                oblige!("C08", matches!(&r, Err(Error::NoVariantMatch { pos }) if *pos == p0), "any other value is NoVariantMatch at the enum's position");
                reach!(true, "no variant");
            }
        }
    } else {
        oblige!("C08", reported(&r), "a reader error is reported");
        reach!(true, "reader fault");
    }
    forget(r);
}} }

contracts! { TAB;
    c08_repr_u8 [8] { unit!(R8, (), 1, |e| e, |b| match b { 0 => Some(R8::A), 1 => Some(R8::B), 7 => Some(R8::C), 8 => Some(R8::D), 255 => Some(R8::E), _ => None }); }
    c08_repr_i16 [8] { unit!(R16, (), 2, |_e| BIG, |b| match b as u16 as i16 { -2 => Some(R16::A), -1 => Some(R16::B), 300 => Some(R16::C), _ => None }); }
    c08_repr_u32 [8] { unit!(R32, (), 4, |_e| LITTLE, |b| match b { 0x01020304 => Some(R32::A), 5 => Some(R32::B), _ => None }); }
    c08_repr_i64 [8] { unit!(R64, (), 8, |e| e, |b| match b as u64 as i64 { -5 => Some(R64::A), 0x1122334455667788 => Some(R64::B), _ => None }); }
    c08_repr_pre [8] { let k = nd_u32(); unit!(RPre, (k,), 2, |e| e, |b| match b { 10 if k == 1 => Some(RPre::A), 20 if k > 0 && k < 9 => Some(RPre::B), 30 => Some(RPre::C), _ => None }); }
    c08_magic_pre [8] { let k = nd_u32(); unit!(GPre, (k,), 2, |e| e, |b| match b { 0x0102 if k == 1 => Some(GPre::A), 0x0102 => Some(GPre::B), 0x0304 if k > 4 && k != 6 => Some(GPre::C), _ => None }); }
    c08_magic_u32 [8] { unit!(G32, (), 4, |e| e, |b| match b { 1 => Some(G32::A), 0x01000000 => Some(G32::B), _ => None }); }
    c08_magic_str [8] { unit!(GStr, (), 2, |_e| LITTLE, |b| match b { 0x6261 => Some(GStr::A), 0x6162 => Some(GStr::B), _ => None }); }
    c08_magic_byte [8] { unit!(GByte, (), 1, |e| e, |b| match b { 0x61 => Some(GByte::A), 0x62 => Some(GByte::B), _ => None }); }
}
