//! C13: file pointers.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::file_ptr::IntoSeekFrom;
use binread::io::SeekFrom;
use binread::{BinRead, BinResult, Error, FilePtr};

/// The displacement a pointer stands for: its value, limited to the range of i64.
fn clamp_i(v: i128) -> i64 {
    if v > i64::MAX as i128 { i64::MAX } else if v < i64::MIN as i128 { i64::MIN } else { v as i64 }
}
fn clamp_u(v: u128) -> i64 {
    if v > i64::MAX as u128 { i64::MAX } else { v as i64 }
}
/// Where a pointer with displacement `d` and offset `off` leads, if the reader can go there.
fn target(off: u64, d: i64) -> Option<u64> {
    if off > MAXPOS {
        return None;
    }
    match (off as i64).checked_add(d) {
        Some(t) if t >= 0 => Some(t as u64),
        _ => None,
    }
}

macro_rules! seek { ($t:ty, $nd:expr, |$v:ident| $d:expr) => {{
    let $v: $t = $nd;
    let s = $v.into_seek_from();
    let want = $d;
    oblige!("C13", matches!(s, SeekFrom::Current(x) if x == want), "a pointer is its value as a displacement, limited to an i64");
    reach!(want != 0, "reached");
}} }

/// `FilePtr<$p, A<1>>`: read, then resolve, with any reader
macro_rules! ptr { ($p:ty, $n:literal, |$b:ident| $d:expr) => {{
    let p0 = init();
    let o = O::nd();
    let a = nd_u32();
    let le = if $n == 16 { g().win } else { g().win & ((1u128 << (8 * $n)) - 1) };
    let $b: u128 = if o.en == BIG { le.swap_bytes() >> (128 - 8 * $n) } else { le };
    let d: i64 = $d;
    let r = FilePtr::<$p, A<1>>::read_options(&mut Rd, &o.real(), (a,));
    if let Ok(mut f) = r {
        oblige!("C13", f.ptr as u128 as i128 == ($b as $p) as u128 as i128, "the pointer is read with the options' byte order");
        oblige!("C13", f.value.is_none() && g().n == 0 && g().pos == p0 + $n, "reading a pointer reads only the pointer");
        // any later moment, any position, any offset
        let q = nd_pos();
        g().pos = q;
        g().fault = 0;
        let o2 = O::nd();
        let r = f.after_parse(&mut Rd, &o2.real(), (a,));
        match &r {
            Ok(()) => {
                oblige!("C13", !faulted(), "a reader error is not swallowed");
                oblige!("C13", g().n == 2 && g().ev[0].kind == READ && g().ev[1].kind == AFTER, "the target is read and postprocessed, once");
                let (e, f2) = (g().ev[0], g().ev[1]);
                oblige!("C13", Some(e.p0) == target(o2.off, d), "the target is read at offset + pointer");
                oblige!("C13", e.en == o2.en && e.cnt == o2.cnt && e.off == o2.off && e.arg == a, "the target is read with the same options and arguments");
                oblige!("C13", f2.en == o2.en && f2.cnt == o2.cnt && f2.off == o2.off && f2.arg == a && f2.val == e.val, "the target is postprocessed with the same options and arguments");
                oblige!("C13", f.value.map_or(false, |v| v.0 == e.val), "the target is stored");
                oblige!("C13", g().pos == q, "the reader is back where it was");
                reach!(o2.off > 0 && q != e.p0, "resolved");
            }
            Err(x) => {
                if faulted() {
                    // an error of the target itself comes first if both happened
                    oblige!("C13", reported(&r) || is_el(x), "a reader error is reported");
                } else {
                    oblige!("C13", is_el(x), "an error of the target is returned unchanged");
                }
                oblige!("C13", g().n <= 2, "nothing is read after a failure");
                oblige!("C13", f.value.is_none() || (faulted() && g().n == 2 && g().ev[1].out == 0), "a failed resolution stores nothing");
                oblige!("C13", g().n == 0 || Some(g().ev[0].p0) == target(o2.off, d), "nothing is read anywhere but at the target");
                reach!(!faulted() && g().n == 1, "the target's read fails");
                reach!(!faulted() && g().n == 2, "the target's postprocessing fails");
                reach!(target(o2.off, d).is_none(), "unreachable target");
            }
        }
        forget(r);
        forget(f);
    } else {
        oblige!("C13", faulted() && g().n == 0, "reading a pointer fails only if the reader does");
        forget(r);
    }
}} }
fn is_el(x: &Error) -> bool {
    g().n > 0 && err_is(x, &Se::El(g().n - 1))
}

/// an alias names pointers of its width
macro_rules! alias { ($($al:ident $n:literal $u:ty),*) => {{
    use binread::file_ptr::*;
    init();
    let v: u64 = nd_u64();
    $({
        let f = $al::<E<1>> { ptr: v as _, value: None };
        oblige!("C13", core::mem::size_of_val(&f.ptr) == $n && f.ptr as u128 == v as $u as u128, "an alias names pointers of its width");
        forget(f);
    })*
    reach!(v > u32::MAX as u64, "reached");
}} }
macro_rules! alias_read { ($al:ident, $n:literal) => {{
    use binread::file_ptr::*;
    let p0 = init();
    let o = O::nd();
    let a = nd_u32();
    let le = if $n == 16 { g().win } else { g().win & ((1u128 << (8 * $n)) - 1) };
    let b: u128 = if o.en == BIG { le.swap_bytes() >> (128 - 8 * $n) } else { le };
    let r = $al::<A<1>>::read_options(&mut Rd, &o.real(), (a,));
    match &r {
        Ok(f) => {
            oblige!("C13", f.ptr as u128 == b && g().pos == p0 + $n && g().n == 0, "an aliased pointer is an integer of its width, in the options' byte order");
            reach!(b != 0, "read");
        }
        Err(_) => oblige!("C13", faulted(), "reading a pointer fails only if the reader does"),
    }
    forget(r);
}} }

/// FilePtr::parse in one step
macro_rules! parse { ($p:ty, $n:literal, |$b:ident| $d:expr) => {{
    let p0 = init();
    let o = O::nd();
    let a = nd_u32();
    let le = g().win & ((1u128 << (8 * $n)) - 1);
    let $b: u128 = if o.en == BIG { le.swap_bytes() >> (128 - 8 * $n) } else { le };
    let d: i64 = $d;
    let r = FilePtr::<$p, A<1>>::parse(&mut Rd, &o.real(), (a,));
    match &r {
        Ok(v) => {
            oblige!("C13", !faulted(), "a reader error is not swallowed");
            oblige!("C13", g().n == 2 && g().ev[0].kind == READ && g().ev[1].kind == AFTER, "the target is read and postprocessed, once");
            let e = g().ev[0];
            oblige!("C13", Some(e.p0) == target(o.off, d), "the target is read at offset + pointer");
            oblige!("C13", e.en == o.en && e.cnt == o.cnt && e.off == o.off && e.arg == a, "the target is read with the same options and arguments");
            oblige!("C13", v.0 == e.val, "the target is the result");
            oblige!("C13", g().pos == p0 + $n, "the reader ends right after the pointer");
            reach!(true, "resolved");
        }
        Err(x) => {
            oblige!("C13", if faulted() { reported(&r) || is_el(x) } else { is_el(x) }, "an error is returned unchanged");
            oblige!("C13", g().n == 0 || Some(g().ev[0].p0) == target(o.off, d), "nothing is read anywhere but at the target");
            reach!(!faulted(), "the target fails");
        }
    }
    forget(r);
}} }

contracts! { TAB;
    c13_seek_i8 [8] { seek!(i8, nd_i8(), |v| v as i64); }
    c13_seek_i16 [8] { seek!(i16, nd_i16(), |v| v as i64); }
    c13_seek_i32 [8] { seek!(i32, nd_i32(), |v| v as i64); }
    c13_seek_i64 [8] { seek!(i64, nd_i64(), |v| v); }
    c13_seek_i128 [8] { seek!(i128, nd_i128(), |v| clamp_i(v)); }
    c13_seek_u8 [8] { seek!(u8, nd_u8(), |v| v as i64); }
    c13_seek_u16 [8] { seek!(u16, nd_u16(), |v| v as i64); }
    c13_seek_u32 [8] { seek!(u32, nd_u32(), |v| v as i64); }
    c13_seek_u64 [8] { seek!(u64, nd_u64(), |v| clamp_u(v as u128)); }
    c13_seek_u128 [8] { seek!(u128, nd_u128(), |v| clamp_u(v)); }
    c13_ptr_u8 [8] { ptr!(u8, 1, |b| b as i64); }
    c13_ptr_u32 [8] { ptr!(u32, 4, |b| b as i64); }
    c13_ptr_i32 [8] { ptr!(i32, 4, |b| b as u32 as i32 as i64); }
    c13_ptr_u64 [8] { ptr!(u64, 8, |b| clamp_u(b)); }
    c13_ptr_i128 [8] { ptr!(i128, 16, |b| clamp_i(b as i128)); }
    c13_parse_u16 [8] { parse!(u16, 2, |b| b as i64); }
    c13_parse_i64 [8] { parse!(i64, 8, |b| b as u64 as i64); }
    c13_alias [8] { alias!(FilePtr8 1 u8, FilePtr16 2 u16, FilePtr32 4 u32, FilePtr64 8 u64, FilePtr128 16 u128); }
    c13_alias_read8 [8] { alias_read!(FilePtr8, 1); }
    c13_alias_read16 [8] { alias_read!(FilePtr16, 2); }
    c13_alias_read64 [8] { alias_read!(FilePtr64, 8); }
    c13_alias_read128 [8] { alias_read!(FilePtr128, 16); }
    c13_deref [8] {
        let v = nd_u32();
        let w = nd_u32();
        let mut f = FilePtr::<u32, E<1>> { ptr: 1, value: Some(E(v)) };
        let h = FilePtr::<u32, E<1>> { ptr: 2, value: Some(E(w)) };
        oblige!("C13", (*f).0 == v, "dereferencing gives the target");
        oblige!("C13", (f == h) == (v == w), "comparison is that of the targets");
        f.0 = w;
        oblige!("C13", f.value == Some(E(w)), "the target can be changed in place");
        oblige!("C13", f.into_inner().0 == w, "into_inner gives the target");
        reach!(v != w, "reached");
        forget(h);
    }
}
