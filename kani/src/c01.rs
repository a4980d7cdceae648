//! C01: primitive reads.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::BinRead;

/// The value of the first `n` bytes at the start position in byte order `en`.
fn spec_bits(n: u32, en: u8) -> u128 {
    let le = if n == 16 { g().win } else { g().win & ((1u128 << (8 * n)) - 1) };
    let big = en == BIG || (en == NATIVE && cfg!(target_endian = "big"));
    if big {
        le.swap_bytes() >> (128 - 8 * n)
    } else {
        le
    }
}

macro_rules! prim { ($t:ty, $n:literal, |$v:ident| $bits:expr) => {{
    let p0 = init();
    let o = O::nd();
    let r = <$t>::read_options(&mut Rd, &o.real(), ());
    match &r {
        Ok($v) => {
            let $v = *$v;
            oblige!("C01", g().pos == p0 + $n, "exactly the type's bytes are consumed");
            oblige!("C01", p0 + $n <= g().len, "only bytes the reader has are returned");
            oblige!("C01", ($bits) == spec_bits($n, o.en), "the value is that of the bytes in the byte order of the options");
            reach!(o.en == BIG, "big-endian success");
            reach!(o.en != BIG, "little-endian success");
        }
        Err(e) => {
            oblige!("C01", faulted(), "a read fails only if the reader does");
            oblige!("C01", err_is(e, &Se::Io(g().fault)), "the reader's own error is returned");
            oblige!("C01", rewound(p0), "the reader is back where the read started");
            reach!(g().pos == p0 && p0 > 7, "failure with the position restored");
        }
    }
    forget(r);
}} }

contracts! { TAB;
    c01_u8 [8] { prim!(u8, 1, |v| v as u128); }
    c01_u16 [8] { prim!(u16, 2, |v| v as u128); }
    c01_u32 [8] { prim!(u32, 4, |v| v as u128); }
    c01_u64 [8] { prim!(u64, 8, |v| v as u128); }
    c01_u128 [8] { prim!(u128, 16, |v| v); }
    c01_i8 [8] { prim!(i8, 1, |v| v as u8 as u128); }
    c01_i16 [8] { prim!(i16, 2, |v| v as u16 as u128); }
    c01_i32 [8] { prim!(i32, 4, |v| v as u32 as u128); }
    c01_i64 [8] { prim!(i64, 8, |v| v as u64 as u128); }
    c01_i128 [8] { prim!(i128, 16, |v| v as u128); }
    c01_f32 [8] { prim!(f32, 4, |v| v.to_bits() as u128); }
    c01_f64 [8] { prim!(f64, 8, |v| v.to_bits() as u128); }
    c01_char [8] { prim!(char, 1, |v| v as u32 as u128); }
    c01_after [8] {
        // postprocessing a primitive does nothing
        let p0 = init();
        let o = O::nd();
        let v = nd_u32();
        let mut x = v;
        let r = x.after_parse(&mut Rd, &o.real(), ());
        oblige!("C01", r.is_ok() && x == v && g().pos == p0, "postprocessing a primitive changes nothing");
        reach!(true, "reached");
        forget(r);
    }
}
