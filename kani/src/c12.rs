//! C12: null-terminated strings.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::io::{self, Read, Seek, SeekFrom};
use binread::{BinRead, BinResult, NullString, NullWideString};
use core::num::{NonZeroU16, NonZeroU8};

/// Reader over bytes given one after the other; every read may be short, interrupted or fail.
/// Its stream is `win`; `left` bytes remain until the end of the data.
struct Sr1 {
    /// what the reader reports at the point where it fails (0: nothing)
    intr: bool,
}
static mut TAKEN: u64 = 0;
static mut OVER: bool = false;
fn taken() -> u64 {
    unsafe { TAKEN }
}
impl Read for Sr1 {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if g().fault != 0 || g().refused == Some(77) {
            // nothing may be read after an error or after the end was reported
            unsafe { OVER = true };
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.intr && nd_bool() {
            self.intr = false;
            return Err(mk_io(2));
        }
        if g().faults_on && nd_bool() {
            g().fault = 5;
            return Err(mk_io(5));
        }
        if g().pos >= g().len {
            g().refused = Some(77);
            return Ok(0);
        }
        buf[0] = (g().win >> (8 * taken())) as u8;
        unsafe { TAKEN += 1 };
        g().pos += 1;
        Ok(1)
    }
}
impl Seek for Sr1 {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        Rd.seek(p)
    }
}
/// A stream of at most `max` bytes at any position, with any contents.
fn stream(max: u8, faults: bool) -> (u64, u8) {
    let p0 = init();
        no_faults_in_debug();
    assume(p0 < MAXPOS - 16);
    let k = nd_below(max + 1);
    g().len = p0 + k as u64;
    g().faults_on = faults;
    unsafe {
        TAKEN = 0;
        OVER = false;
    }
    (p0, k)
}
fn byte(i: u64) -> u8 {
    (g().win >> (8 * i)) as u8
}
/// number of bytes before the first zero among the first `k`
fn zero_at(k: u8) -> u8 {
    let mut i = 0;
    while i < k && byte(i as u64) != 0 {
        i += 1;
    }
    i
}
fn same_bytes(v: &[u8], n: u8) -> bool {
    let mut ok = v.len() == n as usize;
    let mut i = 0;
    while ok && i < v.len() {
        ok &= v[i] == byte(i as u64);
        i += 1;
    }
    ok
}
fn unit(i: u64, en: u8) -> u16 {
    let (a, b) = (byte(2 * i), byte(2 * i + 1));
    if en == BIG { (a as u16) << 8 | b as u16 } else { (b as u16) << 8 | a as u16 }
}

contracts! { TAB;
    c12_narrow [5] {
        let (p0, k) = stream(3, false);
        let o = O::nd();
        let r = NullString::read_options(&mut Sr1 { intr: false }, &o.real(), ());
        let n = zero_at(k);
        oblige!("C12", unsafe { !OVER }, "nothing is read after the terminator, the end of the data or an error");
        oblige!("C12", match &r { Ok(s) => same_bytes(s, n), _ => false }, "the string is exactly the bytes before the first zero or the end");
        oblige!("C12", taken() == n as u64 + (n < k) as u64 && g().pos == p0 + taken(), "the terminator is consumed, and nothing after it");
        reach!(n == 2 && k == 3, "terminated");
        reach!(n == 3, "end of the data");
        reach!(k == 0, "no data");
        forget(r);
    }
    c12_narrow_faults [3] {
        let (_, k) = stream(1, true);
        let o = O::nd();
        let r = NullString::read_options(&mut Sr1 { intr: false }, &o.real(), ());
        oblige!("C12", unsafe { !OVER }, "nothing is read after the terminator, the end of the data or an error");
        if g().fault != 0 {
            oblige!("C12", reported(&r), "a reader error is returned");
            reach!(taken() == 1, "reader error after a byte");
        } else {
            oblige!("C12", r.is_ok(), "without reader errors the string is read");
            reach!(k == 1, "success");
        }
        forget(r);
    }
    /*native*/ c12_interrupted [5] {
        let (p0, k) = stream(4, true);
        let o = O::nd();
        let r = NullString::read_options(&mut Sr1 { intr: true }, &o.real(), ());
        let n = zero_at(k);
        oblige!("C12", unsafe { !OVER }, "nothing is read after the terminator, the end of the data or an error");
        if g().fault != 0 {
            oblige!("C12", reported(&r), "a reader error is returned");
            oblige!("C12", taken() <= n as u64, "nothing is read after the terminator");
        } else {
            oblige!("C12", match &r { Ok(s) => same_bytes(s, n), _ => false }, "the string is exactly the bytes before the first zero or the end");
            oblige!("C12", taken() == n as u64 + (n < k) as u64 && g().pos == p0 + taken(), "the terminator is consumed, and nothing after it");
        }
        forget(r);
    }
    c12_nonzero [5] {
        let (p0, k) = stream(3, false);
        let r = Vec::<NonZeroU8>::read_options(&mut Sr1 { intr: false }, &O::nd().real(), ());
        let n = zero_at(k);
        oblige!("C12", match &r { Ok(s) => s.len() == n as usize && (n < 1 || s[0].get() == byte(0)) && (n < 3 || s[2].get() == byte(2)), _ => false }, "the units are exactly the bytes before the first zero or the end");
        oblige!("C12", unsafe { !OVER } && g().pos == p0 + n as u64 + (n < k) as u64, "the terminator is consumed, and nothing after it");
        reach!(n == 3, "end of the data");
        forget(r);
    }
    c12_wide [6] {
        let (p0, k) = stream(8, false);
        let o = O::nd();
        let r = NullWideString::read_options(&mut Rd, &o.real(), ());
        let units = (k / 2) as u64;
        let mut n = 0;
        while n < units && unit(n, o.en) != 0 { n += 1; }
        if n < units {
            oblige!("C12", match &r { Ok(s) => s.len() as u64 == n && (n < 1 || s[0] == unit(0, o.en)) && (n < 2 || s[1] == unit(1, o.en)) && (n < 3 || s[2] == unit(2, o.en)), _ => false }, "the string is exactly the units before the first zero unit");
            oblige!("C12", g().pos == p0 + 2 * n + 2 && !faulted(), "the terminator is consumed, and nothing after it");
            reach!(n == 3 && o.en == BIG, "terminated");
            reach!(n == 0, "empty");
        } else {
            oblige!("C12", reported(&r) && g().fault == 1, "the end of the data before a terminator is an error");
            reach!(n == 4, "unterminated");
            reach!(k == 5, "half a unit");
        }
        forget(r);
    }
    c12_wide_faults [6] {
        let (_, k) = stream(6, true);
        let o = O::nd();
        let r = Vec::<NonZeroU16>::read_options(&mut Rd, &o.real(), ());
        if faulted() {
            oblige!("C12", reported(&r), "a reader error is returned");
            reach!(k == 6 && g().fault == 4, "reader error");
        } else {
            oblige!("C12", r.is_ok(), "without reader errors the string is read");
            reach!(k == 6, "success");
        }
        forget(r);
    }
    c12_convert [6] {
        // conversions keep every unit
        let (a, b) = (nd_u8(), nd_u8());
        let (c, d) = (nd_u16(), nd_u16());
        assume(a != 0 && b != 0 && c != 0 && d != 0);
        let mut v = Vec::new();
        v.push(NonZeroU8::new(a).unwrap());
        v.push(NonZeroU8::new(b).unwrap());
        let s: NullString = v.into();
        oblige!("C12", s.len() == 2 && s[0] == a && s[1] == b, "NullString holds the units");
        let v: Vec<u8> = s.into();
        oblige!("C12", v.len() == 2 && v[0] == a && v[1] == b, "Vec<u8> holds the units");
        let mut w = Vec::new();
        w.push(NonZeroU16::new(c).unwrap());
        w.push(NonZeroU16::new(d).unwrap());
        let s: NullWideString = w.into();
        oblige!("C12", s.len() == 2 && s[0] == c && s[1] == d, "NullWideString holds the units");
        let w: Vec<u16> = s.into();
        oblige!("C12", w.len() == 2 && w[0] == c && w[1] == d, "Vec<u16> holds the units");
        reach!(true, "reached");
        forget((v, w));
    }
    /*native*/ c12_into_string [6] {
        let n = nd_below(9) as usize;
        let b: Vec<u8> = (0..n).map(|_| nd_u8()).collect();
        let w: Vec<u16> = (0..n).map(|_| if nd_bool() { nd_u16() } else { 0xD800 | nd_u16() & 0x7FF }).collect();
        let s = NullString(b.clone());
        let lossy = String::from_utf8_lossy(&b).into_owned();
        oblige!("C12", s.to_string() == lossy && s.clone().into_string() == lossy, "to_string and into_string are lossy conversions of all bytes");
        oblige!("C12", s.into_string_lossless().ok() == String::from_utf8(b).ok(), "into_string_lossless converts valid UTF-8 only");
        let s = NullWideString(w.clone());
        let lossy = String::from_utf16_lossy(&w);
        oblige!("C12", s.to_string() == lossy && s.clone().into_string() == lossy, "to_string and into_string are lossy conversions of all units");
        oblige!("C12", s.into_string_lossless().ok() == String::from_utf16(&w).ok(), "into_string_lossless converts valid UTF-16 only");
    }
    /*native*/ c12_long [6] {
        // long strings
        let p0 = { init(); g().pos &= 0xFFFF_FFFF; g().pos };
        let o = O::nd();
        let f = nd_below(8) == 0;
        if nd_bool() {
            let r = NullString::read_options(&mut Lr { f }, &o.real(), ());
            if faulted() {
                oblige!("C12", reported(&r), "a reader error is returned");
            } else {
                let n = (0..).find(|i| byte_at(p0 + i) == 0).unwrap();
                let ok = match &r { Ok(s) => s.len() as u64 == n && s.iter().enumerate().all(|(i, b)| *b == byte_at(p0 + i as u64)), _ => false };
                oblige!("C12", ok, "the string is exactly the bytes before the first zero");
                oblige!("C12", g().pos == p0 + n + 1, "the terminator is consumed, and nothing after it");
            }
        } else {
            // pairs of bytes: the stream has a zero unit after at most 2^16 units
            let r = NullWideString::read_options(&mut Lr { f }, &o.real(), ());
            if faulted() {
                oblige!("C12", reported(&r), "a reader error is returned");
            } else {
                let u = |i: u64| { let (a, b) = (byte_at(p0 + 2 * i), byte_at(p0 + 2 * i + 1)); if o.en == BIG { (a as u16) << 8 | b as u16 } else { (b as u16) << 8 | a as u16 } };
                let n = (0..).find(|i| u(*i) == 0).unwrap();
                let ok = match &r { Ok(s) => s.len() as u64 == n && s.iter().enumerate().all(|(i, b)| *b == u(i as u64)), _ => false };
                oblige!("C12", ok, "the string is exactly the units before the first zero unit");
                oblige!("C12", g().pos == p0 + 2 * n + 2, "the terminator is consumed, and nothing after it");
            }
        }
    }
}
