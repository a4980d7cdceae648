//! C05: magic values.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{BinRead, BinResult, Error};

#[derive(BinRead)]
#[br(magic = 0xA1B2C3D4u32)]
struct M32 {
    a: E<0>,
}
#[derive(BinRead)]
#[br(big, magic = 0x1234u16)]
struct M16(E<0>);
#[derive(BinRead)]
#[br(magic = 0x0102030405060708u64, little)]
struct M64;
#[derive(BinRead)]
#[br(magic = b"abcd")]
struct MStr {
    a: E<0>,
}
#[derive(BinRead)]
#[br(magic = b'x')]
struct MByte {
    a: E<0>,
}
#[derive(BinRead)]
#[br(magic = 1.5f32)]
struct MF {
    a: E<0>,
}
#[derive(BinRead)]
#[br(big)]
struct Field {
    a: E<0>,
    #[br(little, magic = 0x0A0Bu16)]
    b: E<1>,
    #[br(calc = 1)]
    c: u32,
}
#[derive(BinRead)]
#[br(magic = 0x77u8, import(k: u32), pre_assert(k == 1))]
struct MPre {
    a: E<0>,
}
#[derive(BinRead)]
#[br(magic = 0x0505u16)]
enum MEn {
    A(E<0>),
    #[br(magic = 0x0707u16)]
    B(E<1>),
    #[br(magic = 0x09u8)]
    C,
}
#[derive(BinRead)]
#[br(magic = 0x33u8, map = |x: E<0>| MMap(x.0))]
struct MMap(u32);
#[derive(BinRead)]
#[br(magic = 0x44u8, repr = u8)]
enum MUnit {
    A = 1,
    B = 2,
}

/// bits of the first `n` bytes at the start position in byte order `en`
fn bits(n: u32, en: u8) -> u128 {
    let le = g().win & ((1u128 << (8 * n)) - 1);
    if en == BIG || (en == NATIVE && cfg!(target_endian = "big")) { le.swap_bytes() >> (128 - 8 * n) } else { le }
}
fn bad<T, F: 'static>(r: &BinResult<T>, p0: u64, same: impl Fn(&F) -> bool) -> bool {
    match r {
        Err(Error::BadMagic { pos, found }) => *pos == p0 && found.downcast_ref::<F>().map_or(false, same),
        _ => false,
    }
}

/// $n bytes of magic equal to $want in byte order $en (given the caller's order), then the rest of
/// the item, which is one read of E<0> (or nothing)
macro_rules! magic { ($t:ty, $args:expr, $n:literal, $want:expr, |$oe:ident| $en:expr, $f:ty, |$v:ident| $fb:expr, $follow:literal) => {{
    let p0 = init();
    let o = O::nd();
    let $oe = o.en;
    let b = bits($n, $en);
    let r = <$t>::read_options(&mut Rd, &o.real(), $args);
    if !faulted() {
        if b == $want {
            oblige!("C05", !matches!(r, Err(Error::BadMagic { .. })), "a matching magic is accepted");
            if $follow {
                oblige!("C05", g().n >= 1 && g().ev[0].id == 0 && g().ev[0].p0 == p0 + $n, "exactly the magic's bytes are consumed before the first field");
            } else {
                oblige!("C05", r.is_ok() && g().pos == p0 + $n, "exactly the magic's bytes are consumed");
            }
            reach!(r.is_ok(), "match");
        } else {
            oblige!("C05", bad::<_, $f>(&r, p0, |$v| $fb == b), "a mismatch is BadMagic with the position and the value found");
            oblige!("C05", g().n == 0, "nothing is read after a mismatch");
            reach!(true, "mismatch");
        }
    } else {
        oblige!("C05", reported(&r), "a reader error is reported");
        oblige!("C05", !r.is_ok(), "no success without the magic");
        reach!(true, "reader fault");
    }
    forget(r);
}} }

fn s4(v: &[u8; 4]) -> u128 {
    u32::from_le_bytes(*v) as u128
}

contracts! { TAB;
    c05_u32 [8] { magic!(M32, (), 4, 0xA1B2C3D4, |e| e, u32, |v| *v as u128, true); }
    c05_u16_big [8] { magic!(M16, (), 2, 0x1234, |_e| BIG, u16, |v| *v as u128, true); }
    c05_u64_unit [8] { magic!(M64, (), 8, 0x0102030405060708, |_e| LITTLE, u64, |v| *v as u128, false); }
    c05_str [8] { magic!(MStr, (), 4, 0x64636261, |_e| LITTLE, [u8; 4], |v| s4(v), true); }
    c05_byte [8] { magic!(MByte, (), 1, 0x78, |e| e, u8, |v| *v as u128, true); }
    c05_float [8] { let _ = (); magic!(MF, (), 4, 0x3FC00000, |e| e, f32, |v| v.to_bits() as u128, true); }
    c05_map [8] { magic!(MMap, (), 1, 0x33, |e| e, u8, |v| *v as u128, true); }
    c05_pre_assert [8] { let k = nd_u32(); assume(k == 1); magic!(MPre, (k,), 1, 0x77, |e| e, u8, |v| *v as u128, true); }
    c05_unit_enum [8] {
        let p0 = init();
        let o = O::nd();
        let r = MUnit::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let (m, v) = (g().win as u8, (g().win >> 8) as u8);
            if m != 0x44 {
                oblige!("C05", bad::<_, u8>(&r, p0, |f| *f == m), "a mismatch is BadMagic with the position and the value found");
                reach!(true, "mismatch");
            } else if v == 1 || v == 2 {
                oblige!("C05", r.is_ok() && g().pos == p0 + 2, "the value follows right after the magic");
                reach!(true, "match");
            } else {
                oblige!("C05", matches!(r, Err(Error::NoVariantMatch { .. })), "the magic is accepted");
            }
        }
        forget(r);
    }
    c05_field [8] {
        let p0 = init();
        g().el_move = false;
        let o = O::nd();
        let b = bits(2, LITTLE);
        let r = Field::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            if g().ev[0].out == 0 {
                if b == 0x0A0B {
                    oblige!("C05", g().n >= 2 && g().ev[1].id == 1 && g().ev[1].p0 == p0 + 2, "a field's magic is consumed right before the field");
                    reach!(r.is_ok(), "match");
                } else {
                    oblige!("C05", bad::<_, u16>(&r, p0, |v| *v as u128 == b), "a mismatch is BadMagic with the position and the value found");
                    oblige!("C05", g().n == 1, "nothing is read after a mismatch");
                    reach!(true, "mismatch");
                }
            }
        } else {
            oblige!("C05", reported(&r), "a reader error is reported");
        }
        forget(r);
    }
    c05_enum [8] {
        // the enum's magic holds for variants without their own
        let p0 = init();
        g().faults_on = false;
        g().el_err = false;
        let o = O::nd();
        let m2 = bits(2, o.en);
        let m1 = bits(1, o.en);
        let r = MEn::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            if m2 == 0x0505 {
                oblige!("C05", matches!(r, Ok(MEn::A(_))) && g().ev[0].p0 == p0 + 2, "a variant without a magic has the enum's");
                reach!(true, "first");
            } else if m2 == 0x0707 {
                oblige!("C05", matches!(r, Ok(MEn::B(_))) && g().ev[0].p0 == p0 + 2, "a variant's magic replaces the enum's");
                reach!(true, "second");
            } else if m1 == 9 {
                oblige!("C05", matches!(r, Ok(MEn::C)) && g().pos == p0 + 1, "a unit variant is its magic");
                reach!(true, "third");
            } else {
                oblige!("C05", matches!(&r, Err(Error::EnumErrors { pos, variant_errors }) if *pos == p0 && variant_errors.len() == 3 && variant_errors.iter().all(|(_, e)| matches!(e, Error::BadMagic { pos, .. } if *pos == p0))), "every variant reports its own mismatch");
                oblige!("C05", g().n == 0, "no field is read");
                reach!(true, "none");
            }
        }
        forget(r);
    }
}
