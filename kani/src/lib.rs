#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables, overflowing_literals, arithmetic_overflow, unconditional_panic, static_mut_refs, deprecated)]
#![recursion_limit = "1024"]
#[macro_use]
pub mod shim;
#[macro_use]
pub mod ghost;

#[cfg(any(feature = "all", feature = "c01"))]
pub mod c01;
#[cfg(any(feature = "all", feature = "c02"))]
pub mod c02;
#[cfg(any(feature = "all", feature = "c03"))]
pub mod c03;
#[cfg(any(feature = "all", feature = "c04"))]
pub mod c04;
#[cfg(any(feature = "all", feature = "c05"))]
pub mod c05;
#[cfg(any(feature = "all", feature = "c06"))]
pub mod c06;
#[cfg(any(feature = "all", feature = "c07"))]
pub mod c07;
#[cfg(any(feature = "all", feature = "c08"))]
pub mod c08;
#[cfg(any(feature = "all", feature = "c09"))]
pub mod c09;
#[cfg(any(feature = "all", feature = "c10"))]
pub mod c10;
#[cfg(any(feature = "all", feature = "c11"))]
pub mod c11;
#[cfg(any(feature = "all", feature = "c12"))]
pub mod c12;
#[cfg(any(feature = "all", feature = "c13"))]
pub mod c13;
#[cfg(any(feature = "all", feature = "c14"))]
pub mod c14;
#[cfg(any(feature = "all", feature = "c15"))]
pub mod c15;
#[cfg(any(feature = "all", feature = "c16"))]
pub mod c16;
#[cfg(any(feature = "all", feature = "c17"))]
pub mod c17;
#[cfg(any(feature = "all", feature = "c18"))]
#[cfg(not(feature = "std"))]
pub mod c18;
#[cfg(any(feature = "all", feature = "c19"))]
#[cfg(not(feature = "std"))]
pub mod c19;
#[cfg(any(feature = "all", feature = "c21"))]
pub mod c21;
#[cfg(any(feature = "all", feature = "c22"))]
pub mod c22;
#[cfg(any(feature = "all", feature = "c50"))]
pub mod combo;
#[cfg(any(feature = "all", feature = "c50"))]
pub mod c50;
#[cfg(any(feature = "all", feature = "c51", feature = "c52"))]
pub mod combo_enum;
#[cfg(any(feature = "all", feature = "c51"))]
pub mod c51;
#[cfg(any(feature = "all", feature = "c52"))]
pub mod c52;
#[cfg(all(not(kani), any(feature = "all", feature = "c54")))]
pub mod c54;

#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![];
    #[cfg(any(feature = "all", feature = "c01"))]
    v.extend_from_slice(c01::TAB);
    #[cfg(any(feature = "all", feature = "c02"))]
    v.extend_from_slice(c02::TAB);
    #[cfg(any(feature = "all", feature = "c03"))]
    v.extend_from_slice(c03::TAB);
    #[cfg(any(feature = "all", feature = "c04"))]
    v.extend_from_slice(c04::TAB);
    #[cfg(any(feature = "all", feature = "c05"))]
    v.extend_from_slice(c05::TAB);
    #[cfg(any(feature = "all", feature = "c06"))]
    v.extend_from_slice(c06::TAB);
    #[cfg(any(feature = "all", feature = "c07"))]
    v.extend_from_slice(c07::TAB);
    #[cfg(any(feature = "all", feature = "c08"))]
    v.extend_from_slice(c08::TAB);
    #[cfg(any(feature = "all", feature = "c09"))]
    v.extend_from_slice(c09::TAB);
    #[cfg(any(feature = "all", feature = "c10"))]
    v.extend_from_slice(c10::TAB);
    #[cfg(any(feature = "all", feature = "c11"))]
    v.extend_from_slice(c11::TAB);
    #[cfg(any(feature = "all", feature = "c12"))]
    v.extend_from_slice(c12::TAB);
    #[cfg(any(feature = "all", feature = "c13"))]
    v.extend_from_slice(c13::TAB);
    #[cfg(any(feature = "all", feature = "c14"))]
    v.extend_from_slice(c14::TAB);
    #[cfg(any(feature = "all", feature = "c15"))]
    v.extend_from_slice(c15::TAB);
    #[cfg(any(feature = "all", feature = "c16"))]
    v.extend_from_slice(c16::TAB);
    #[cfg(any(feature = "all", feature = "c17"))]
    v.extend_from_slice(c17::TAB);
    #[cfg(any(feature = "all", feature = "c18"))]
    #[cfg(not(feature = "std"))]
    v.extend_from_slice(c18::TAB);
    #[cfg(any(feature = "all", feature = "c19"))]
    #[cfg(not(feature = "std"))]
    v.extend_from_slice(c19::TAB);
    #[cfg(any(feature = "all", feature = "c21"))]
    v.extend_from_slice(c21::TAB);
    #[cfg(any(feature = "all", feature = "c22"))]
    v.extend_from_slice(c22::TAB);
    #[cfg(any(feature = "all", feature = "c50"))]
    v.extend_from_slice(c50::TAB);
    #[cfg(any(feature = "all", feature = "c51"))]
    v.extend_from_slice(c51::TAB);
    #[cfg(any(feature = "all", feature = "c52"))]
    v.extend_from_slice(c52::TAB);
    #[cfg(any(feature = "all", feature = "c54"))]
    v.extend_from_slice(c54::TAB);
    v
}
