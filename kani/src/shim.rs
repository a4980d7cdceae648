//! One source of nondeterminism for both ways a contract harness runs:
//! * under Kani (`cfg(kani)`) every `nd_*` is `kani::any()`: the harness is a Hoare triple
//!   over all values and the verifier discharges it;
//! * natively, the values come from a list of concrete values (Kani's counterexample, for
//!   replay on the compiled code) or from a seeded generator (search for a failing input).
#![allow(dead_code)]

#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    pub enum Source {
        Empty,
        List(Vec<Vec<u8>>, usize),
        Rng(u64, Vec<Vec<u8>>),
    }
    thread_local! { pub static SRC: RefCell<Source> = RefCell::new(Source::Empty);
                    pub static SKIP: RefCell<bool> = RefCell::new(false); }
    pub struct AssumeFailed;
    fn mix(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn take(n: usize, want_bool: bool) -> Vec<u8> {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Empty => vec![0; n],
            Source::List(v, i) => {
                let r = v.get(*i).cloned().unwrap_or_default();
                *i += 1;
                let mut r = r;
                r.resize(n, 0);
                r
            }
            Source::Rng(st, log) => {
                let r = mix(st);
                let mut out = vec![0u8; n];
                if want_bool {
                    out[0] = (r & 1) as u8;
                } else {
                    // biased: small values, extreme values, random values
                    match r % 8 {
                        0 | 1 | 2 => out[0] = ((r >> 8) % 5) as u8,
                        3 => out.iter_mut().for_each(|b| *b = 0xFF),
                        4 => {
                            out.iter_mut().for_each(|b| *b = 0xFF);
                            out[n - 1] = 0x7F;
                        }
                        5 => out[0] = (r >> 8) as u8,
                        _ => {
                            for b in out.iter_mut() {
                                *b = mix(st) as u8;
                            }
                        }
                    }
                }
                log.push(out.clone());
                out
            }
        })
    }
}

macro_rules! nd_int { ($($f:ident $t:ty),*) => { $(
    #[cfg(kani)] #[inline(always)] pub fn $f() -> $t { kani::any() }
    #[cfg(not(kani))] pub fn $f() -> $t {
        let b = native::take(core::mem::size_of::<$t>(), false);
        let mut a = [0u8; core::mem::size_of::<$t>()];
        a.copy_from_slice(&b);
        <$t>::from_le_bytes(a)
    }
)* } }
nd_int!(nd_u8 u8, nd_u16 u16, nd_u32 u32, nd_u64 u64, nd_u128 u128, nd_i8 i8, nd_i16 i16, nd_i32 i32, nd_i64 i64, nd_i128 i128, nd_usize usize);

#[cfg(kani)]
#[inline(always)]
pub fn nd_bool() -> bool {
    kani::any()
}
#[cfg(not(kani))]
pub fn nd_bool() -> bool {
    native::take(1, true)[0] & 1 == 1
}

#[cfg(kani)]
#[inline(always)]
pub fn assume(b: bool) {
    kani::assume(b)
}
#[cfg(not(kani))]
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(native::AssumeFailed)
    }
}

/// Restrict to `x < n` (by assumption under Kani, by reduction natively).
#[cfg(kani)]
#[inline(always)]
pub fn nd_below(n: u8) -> u8 {
    let x: u8 = kani::any();
    kani::assume(x < n);
    x
}
#[cfg(not(kani))]
pub fn nd_below(n: u8) -> u8 {
    nd_u8() % n
}

/// An obligation. The message starts with the property it belongs to.
#[macro_export]
macro_rules! oblige { ($p:literal, $c:expr, $m:literal) => {{
    #[cfg(kani)] { assert!($c, concat!("OBLIGATION[", $p, "] ", $m)) }
    #[cfg(not(kani))] { if !$c && $crate::shim::wanted($p) { panic!(concat!("OBLIGATION[", $p, "] ", $m)) } }
}} }
/// natively, `VP_ONLY=Cxx` leaves the obligations of the other properties aside
#[cfg(not(kani))]
pub fn wanted(p: &str) -> bool {
    static ONLY: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    ONLY.get_or_init(|| std::env::var("VP_ONLY").ok()).as_ref().map_or(true, |o| o == p)
}
/// Vacuity guard: this point must be reachable.
#[macro_export]
macro_rules! reach { ($c:expr, $m:literal) => {{
    #[cfg(kani)] { kani::cover!($c, $m); }
    #[cfg(not(kani))] { let _ = &$c; }
}} }

/// `contract!{ name, unwind N, { body } }`: a Kani proof harness, and natively an entry in the
/// harness table.
#[macro_export]
macro_rules! contracts { ($tab:ident; $( $(#[$m:meta])* $name:ident [$u:literal] $body:block )*) => {
    $(
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(core::ptr::drop_in_place, $crate::shim::nodrop)]
        #[kani::stub(core::ptr::drop_glue, $crate::shim::nodrop2)]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write_named, $crate::shim::tpl_named))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write, $crate::shim::tpl_write))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write_vec_named, $crate::shim::tpl_vec_named))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write_vec, $crate::shim::tpl_vec))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write_comment, $crate::shim::tpl_str))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write_start_struct, $crate::shim::tpl_str))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::write_end_struct, $crate::shim::tpl_end))]
        #[cfg_attr(feature = "debug_template", kani::stub(std::fmt::format, $crate::shim::tpl_format))]
        #[cfg_attr(feature = "debug_template", kani::stub(core::any::type_name, $crate::shim::tpl_type))]
        #[cfg_attr(feature = "debug_template", kani::stub(binread::binary_template::get_next_var_name, $crate::shim::tpl_name))]
        $(#[$m])*
        pub fn $name() $body
        #[cfg(not(kani))]
        pub fn $name() $body
    )*
    #[cfg(not(kani))]
    pub const $tab: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($name)), $name as fn()) ),* ];
} }

#[cfg(kani)]
pub unsafe fn nodrop<T: ?Sized>(_p: *mut T) {}
#[cfg(kani)]
pub unsafe fn nodrop2<T: ?Sized>(_p: &mut T) {}

// What the template functions write is not part of any property; under debug_template the
// verifier sees them as functions that do nothing to the program's state (they write to an output
// of their own).
#[cfg(feature = "debug_template")]
mod tpl {
    use binread::Endian;
    pub fn tpl_named(_: Endian, _: u64, _: &str, _: &str) {}
    pub fn tpl_write(_: Endian, _: u64, _: &str) {}
    pub fn tpl_vec_named(_: Endian, _: u64, _: &str, _: usize, _: &str) {}
    pub fn tpl_vec(_: Endian, _: u64, _: &str, _: usize) {}
    pub fn tpl_str(_: &str) {}
    pub fn tpl_end(_: Option<&str>) {}
    pub const fn tpl_type<T: ?Sized>() -> &'static str {
        "T"
    }
    pub fn tpl_format(_: core::fmt::Arguments<'_>) -> String {
        String::new()
    }
    pub fn tpl_name() -> String {
        String::new()
    }
}
#[cfg(feature = "debug_template")]
pub use tpl::*;
