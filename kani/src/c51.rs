//! Generated by tools/gen_enums.py: data enums that combine the directives of variants, each with the contract of combo_enum.rs.
use crate::combo_enum::*;
use crate::ghost::*;
use binread::BinRead;

#[derive(BinRead)]
#[br(import(q: K), magic = 3u8)]
enum D00 {
    #[br(assert(q.k[5], Me(0)))]
    A(#[br(assert(q.k[3]))] E<0>, E<1>),
    #[br(pre_assert(q.k[3]))]
    Bee,
    C(E<20>),
}
#[derive(BinRead)]
#[br(magic = 3u8, pre_assert(q.k[0]), import(q: K))]
enum D01 {
    #[br(assert(q.k[5]), little)]
    A { f0: E<0>, f1: E<1> },
    Bee,
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum D02 {
    #[br(assert(q.k[5]), pre_assert(q.k[3]), magic = 2u8)]
    A(E<0>, E<1>),
    #[br(magic = 0u8)]
    Bee(#[br(try)] Option<E<10>>),
    #[br(little, magic = 2u8)]
    C { #[br(args(q.arg))] f0: A<20>, f1: E<21> },
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D03 {
    A,
    #[br(big, magic = 2u8, pre_assert(q.k[2]))]
    Bee(#[br(try, args(q.arg))] Option<A<10>>),
}
#[derive(BinRead)]
#[br(import(q: K), little)]
enum D04 {
    #[br(big, magic = 2u8)]
    A(#[br(args(q.arg), try, assert(q.k[3]))] Option<A<0>>),
    #[br(magic = 4u8)]
    Bee,
    C(#[br(args(q.arg))] A<20>, E<21>),
}
#[derive(BinRead)]
#[br(magic = 3u8, import(q: K))]
enum D05 {
    #[br(pre_assert(q.k[2]))]
    A { #[br(args(q.arg))] f0: A<0>, f1: E<1> },
    Bee { f0: E<10> },
    #[br(pre_assert(q.k[2]))]
    C,
}
#[derive(BinRead)]
#[br(import(q: K), pre_assert(q.k[0]))]
enum D06 {
    #[br(little)]
    A(#[br(assert(q.k[3]), try)] Option<E<0>>),
    #[br(pre_assert(q.k[2]), magic = 2u8)]
    Bee,
    #[br(pre_assert(q.k[2]), magic = 1u8, little)]
    C { #[br(try)] f0: Option<E<20>> },
}
#[derive(BinRead)]
#[br(import(q: K), pre_assert(q.k[0]))]
enum D07 {
    #[br(assert(q.k[5]), magic = 2u8, pre_assert(q.k[3]))]
    A(#[br(assert(q.k[3]), args(q.arg))] A<0>, E<1>),
    #[br(magic = 2u8, pre_assert(q.k[3]), assert(q.k[4]), big)]
    Bee(#[br(try)] Option<E<10>>),
    #[br(pre_assert(q.k[2]), assert(q.k[5]), magic = 0u8)]
    C { f0: E<20>, f1: E<21> },
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D08 {
    #[br(pre_assert(q.k[2]))]
    A,
    #[br(pre_assert(q.k[3]), assert(q.k[5], Me(1)))]
    Bee { f0: E<10> },
}
#[derive(BinRead)]
#[br(magic = 3u8, import(q: K), assert(q.k[1]))]
enum D09 {
    #[br(pre_assert(q.k[2]))]
    A { #[br(args(q.arg))] f0: A<0> },
    Bee(E<10>, E<11>),
    C(#[br(args(q.arg), try)] Option<A<20>>),
    #[br(big)]
    Delta { #[br(assert(q.k[3]))] f0: E<30> },
}
#[derive(BinRead)]
#[br(return_unexpected_error, import(q: K), little)]
enum D10 {
    #[br(assert(q.k[4]), pre_assert(q.k[3]))]
    A { #[br(assert(q.k[3]))] f0: E<0> },
    #[br(pre_assert(q.k[3]), magic = 0u8)]
    Bee,
    #[br(magic = 4u8, pre_assert(q.k[2]))]
    C,
}
#[derive(BinRead)]
#[br(import(q: K), return_all_errors, little)]
enum D11 {
    #[br(magic = 2u8)]
    A(#[br(args(q.arg))] A<0>),
    #[br(magic = 2u8)]
    Bee,
}
#[derive(BinRead)]
#[br(import(q: K), assert(q.k[1]), little, return_all_errors)]
enum D12 {
    #[br(pre_assert(q.k[3]), big, magic = 1u8)]
    A(#[br(assert(q.k[3]))] E<0>),
    #[br(assert(q.k[5], Me(1)), magic = 4u8)]
    Bee { f0: E<10>, f1: E<11> },
    #[br(little)]
    C(#[br(args(q.arg))] A<20>),
}
#[derive(BinRead)]
#[br(return_unexpected_error, import(q: K))]
enum D13 {
    A(#[br(assert(q.k[3]), args(q.arg))] A<0>),
    #[br(pre_assert(q.k[3]), big)]
    Bee(E<10>, E<11>),
    #[br(magic = 2u8)]
    C { f0: E<20>, f1: E<21> },
}
#[derive(BinRead)]
#[br(big, return_all_errors, import(q: K))]
enum D14 {
    #[br(magic = 0u8)]
    A { #[br(args(q.arg))] f0: A<0> },
    #[br(magic = 4u8, little)]
    Bee { #[br(try, assert(q.k[3]))] f0: Option<E<10>>, f1: E<11> },
}
#[derive(BinRead)]
#[br(little, import(q: K), assert(q.k[1]))]
enum D15 {
    #[br(magic = 0u8)]
    A(E<0>),
    #[br(magic = 4u8, little)]
    Bee(E<10>),
    #[br(magic = 0u8, pre_assert(q.k[2]))]
    C(E<20>),
}
#[derive(BinRead)]
#[br(import(q: K), return_all_errors)]
enum D16 {
    #[br(assert(q.k[4], Me(0)), magic = 4u8, pre_assert(q.k[2]))]
    A(#[br(assert(q.k[3]))] E<0>, E<1>),
    #[br(magic = 4u8, pre_assert(q.k[2]))]
    Bee,
    #[br(magic = 2u8)]
    C(#[br(try)] Option<E<20>>),
}
#[derive(BinRead)]
#[br(big, import(q: K), return_all_errors)]
enum D17 {
    #[br(little, magic = 4u8, assert(q.k[5]))]
    A { f0: E<0>, f1: E<1> },
    #[br(magic = 4u8, big)]
    Bee { f0: E<10> },
    #[br(pre_assert(q.k[2]))]
    C,
    #[br(pre_assert(q.k[2]), magic = 1u8, assert(q.k[5]))]
    Delta(#[br(try)] Option<E<30>>, E<31>),
}
#[derive(BinRead)]
#[br(import(q: K), little, magic = 3u8)]
enum D18 {
    #[br(pre_assert(q.k[3]))]
    A,
    #[br(pre_assert(q.k[2]))]
    Bee,
    #[br(pre_assert(q.k[3]), assert(q.k[4]), big)]
    C(#[br(assert(q.k[3]), try)] Option<E<20>>, E<21>),
}
#[derive(BinRead)]
#[br(little, assert(q.k[1]), import(q: K), pre_assert(q.k[0]))]
enum D19 {
    #[br(big, assert(q.k[5]))]
    A(E<0>),
}
#[derive(BinRead)]
#[br(magic = 3u8, import(q: K))]
enum D20 {
    #[br(little, assert(q.k[4]))]
    A(#[br(args(q.arg), assert(q.k[3]))] A<0>),
}
#[derive(BinRead)]
#[br(assert(q.k[1]), little, import(q: K))]
enum D21 {
    #[br(big, magic = 1u8, pre_assert(q.k[2]))]
    A(E<0>),
    #[br(assert(q.k[4], Me(1)))]
    Bee { #[br(args(q.arg))] f0: A<10>, f1: E<11> },
}
#[derive(BinRead)]
#[br(import(q: K), return_all_errors, pre_assert(q.k[0]))]
enum D22 {
    #[br(pre_assert(q.k[3]), magic = 1u8)]
    A,
    #[br(pre_assert(q.k[3]))]
    Bee,
    #[br(magic = 2u8, assert(q.k[4], Me(2)), pre_assert(q.k[3]))]
    C { f0: E<20> },
    #[br(magic = 2u8, little, pre_assert(q.k[2]))]
    Delta { f0: E<30> },
}
#[derive(BinRead)]
#[br(big, import(q: K), assert(q.k[1]))]
enum D23 {
    #[br(assert(q.k[4]), pre_assert(q.k[2]), magic = 2u8)]
    A(#[br(assert(q.k[3]))] E<0>),
    #[br(pre_assert(q.k[2]), assert(q.k[5]), magic = 4u8, big)]
    Bee(#[br(args(q.arg))] A<10>),
}
#[derive(BinRead)]
#[br(little, magic = 3u8, import(q: K), pre_assert(q.k[0]))]
enum D24 {
    A(#[br(try)] Option<E<0>>),
    #[br(assert(q.k[4]), little)]
    Bee { #[br(assert(q.k[3]))] f0: E<10> },
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D25 {
    #[br(big, assert(q.k[5], Me(0)), pre_assert(q.k[2]), magic = 2u8)]
    A { #[br(args(q.arg), assert(q.k[3]))] f0: A<0> },
    #[br(pre_assert(q.k[3]), little)]
    Bee(#[br(assert(q.k[3]), args(q.arg))] A<10>, E<11>),
    #[br(magic = 2u8)]
    C,
    #[br(pre_assert(q.k[3]), big, magic = 0u8)]
    Delta { f0: E<30> },
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D26 {
    #[br(pre_assert(q.k[3]), big, magic = 4u8)]
    A(#[br(try, args(q.arg))] Option<A<0>>),
    #[br(magic = 0u8, pre_assert(q.k[2]))]
    Bee,
}
#[derive(BinRead)]
#[br(return_all_errors, little, pre_assert(q.k[0]), import(q: K))]
enum D27 {
    #[br(magic = 4u8)]
    A,
    #[br(magic = 0u8, pre_assert(q.k[3]))]
    Bee(E<10>),
}
#[derive(BinRead)]
#[br(magic = 3u8, import(q: K), little, assert(q.k[1]))]
enum D28 {
    #[br(pre_assert(q.k[3]), big)]
    A(E<0>),
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D29 {
    #[br(assert(q.k[5]), magic = 4u8)]
    A { #[br(assert(q.k[3]))] f0: E<0>, f1: E<1> },
    #[br(little, magic = 2u8)]
    Bee(E<10>),
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum D30 {
    #[br(magic = 1u8)]
    A(E<0>, E<1>),
    #[br(little, assert(q.k[5]), magic = 2u8)]
    Bee { f0: E<10> },
}
#[derive(BinRead)]
#[br(return_all_errors, magic = 3u8, import(q: K), big, pre_assert(q.k[0]))]
enum D31 {
    #[br(pre_assert(q.k[2]))]
    A,
    #[br(big, assert(q.k[5]))]
    Bee(E<10>),
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D32 {
    #[br(magic = 2u8)]
    A { f0: E<0> },
    #[br(pre_assert(q.k[3]), magic = 1u8)]
    Bee,
}
#[derive(BinRead)]
#[br(import(q: K), return_unexpected_error, little)]
enum D33 {
    #[br(magic = 4u8, pre_assert(q.k[2]))]
    A { #[br(args(q.arg))] f0: A<0> },
    #[br(pre_assert(q.k[3]), magic = 4u8)]
    Bee,
    #[br(big, magic = 1u8)]
    C(E<20>, E<21>),
    #[br(magic = 4u8)]
    Delta(#[br(args(q.arg))] A<30>),
}
#[derive(BinRead)]
#[br(return_unexpected_error, big, import(q: K))]
enum D34 {
    #[br(magic = 0u8, assert(q.k[4], Me(0)), big)]
    A(#[br(args(q.arg))] A<0>, E<1>),
    #[br(pre_assert(q.k[2]), magic = 4u8)]
    Bee,
}
#[derive(BinRead)]
#[br(import(q: K))]
enum D35 {
    #[br(magic = 0u8, assert(q.k[5]))]
    A { #[br(args(q.arg))] f0: A<0>, f1: E<1> },
    #[br(magic = 1u8)]
    Bee,
    #[br(little)]
    C(#[br(args(q.arg), assert(q.k[3]))] A<20>),
}
#[derive(BinRead)]
#[br(magic = 3u8, little, return_unexpected_error, import(q: K))]
enum D36 {
    #[br(big, pre_assert(q.k[3]), assert(q.k[5]))]
    A(E<0>),
    #[br(pre_assert(q.k[2]))]
    Bee(#[br(args(q.arg))] A<10>),
}
#[derive(BinRead)]
#[br(pre_assert(q.k[0]), import(q: K), big, return_unexpected_error, assert(q.k[1]))]
enum D37 {
    #[br(little, magic = 4u8)]
    A { #[br(try)] f0: Option<E<0>>, f1: E<1> },
    #[br(pre_assert(q.k[3]), big, magic = 4u8)]
    Bee(#[br(args(q.arg), assert(q.k[3]))] A<10>),
    #[br(magic = 0u8, pre_assert(q.k[2]))]
    C { f0: E<20> },
}
#[derive(BinRead)]
#[br(import(q: K), pre_assert(q.k[0]))]
enum D38 {
    #[br(magic = 0u8)]
    A { #[br(args(q.arg), assert(q.k[3]))] f0: A<0> },
    #[br(little, assert(q.k[4]), magic = 2u8)]
    Bee { #[br(args(q.arg))] f0: A<10> },
}
#[derive(BinRead)]
#[br(pre_assert(q.k[0]), import(q: K), big, return_all_errors)]
enum D39 {
    #[br(big, magic = 1u8)]
    A { #[br(assert(q.k[3]))] f0: E<0> },
    #[br(magic = 4u8)]
    Bee(#[br(assert(q.k[3]), args(q.arg))] A<10>, E<11>),
}
#[derive(BinRead)]
#[br(import(q: K), assert(q.k[1]))]
enum D40 {
    #[br(magic = 4u8, pre_assert(q.k[3]), little)]
    A { #[br(args(q.arg))] f0: A<0> },
    #[br(pre_assert(q.k[2]))]
    Bee(#[br(assert(q.k[3]))] E<10>),
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum D41 {
    #[br(magic = 0u8, assert(q.k[5]))]
    A(E<0>),
    #[br(magic = 1u8)]
    Bee(#[br(assert(q.k[3]))] E<10>),
    #[br(magic = 4u8)]
    C,
    #[br(magic = 1u8, big, pre_assert(q.k[3]))]
    Delta { #[br(assert(q.k[3]))] f0: E<30>, f1: E<31> },
}
#[derive(BinRead)]
#[br(big, import(q: K))]
enum D42 {
    #[br(pre_assert(q.k[3]), magic = 1u8, assert(q.k[5], Me(0)))]
    A { #[br(args(q.arg))] f0: A<0>, f1: E<1> },
    #[br(magic = 2u8)]
    Bee,
    #[br(pre_assert(q.k[3]), magic = 0u8)]
    C(#[br(assert(q.k[3]), args(q.arg))] A<20>),
    #[br(pre_assert(q.k[2]), magic = 1u8)]
    Delta,
}
#[derive(BinRead)]
#[br(import(q: K), magic = 3u8, return_all_errors)]
enum D43 {
    #[br(assert(q.k[5]))]
    A { f0: E<0>, f1: E<1> },
    #[br(pre_assert(q.k[3]), assert(q.k[5]))]
    Bee { #[br(try)] f0: Option<E<10>> },
    #[br(little)]
    C(#[br(args(q.arg))] A<20>),
}
#[derive(BinRead)]
#[br(magic = 3u8, return_unexpected_error, pre_assert(q.k[0]), import(q: K))]
enum D44 {
    #[br(big)]
    A { f0: E<0> },
    #[br(big, pre_assert(q.k[3]))]
    Bee(#[br(args(q.arg))] A<10>),
    C,
}
#[derive(BinRead)]
#[br(little, magic = 3u8, import(q: K), return_all_errors)]
enum D45 {
    #[br(assert(q.k[5], Me(0)))]
    A { #[br(args(q.arg), assert(q.k[3]), try)] f0: Option<A<0>>, f1: E<1> },
    #[br(little, assert(q.k[4], Me(1)))]
    Bee(#[br(args(q.arg), try)] Option<A<10>>, E<11>),
    #[br(assert(q.k[5]), big)]
    C(#[br(args(q.arg))] A<20>),
}
#[derive(BinRead)]
#[br(assert(q.k[1]), import(q: K), return_all_errors, magic = 3u8, pre_assert(q.k[0]))]
enum D46 {
    #[br(big, pre_assert(q.k[2]))]
    A(#[br(args(q.arg))] A<0>),
    #[br(assert(q.k[4]), pre_assert(q.k[2]), big)]
    Bee { #[br(try)] f0: Option<E<10>> },
    #[br(assert(q.k[4]))]
    C(#[br(args(q.arg), assert(q.k[3]))] A<20>),
    #[br(big, pre_assert(q.k[3]))]
    Delta { #[br(args(q.arg))] f0: A<30> },
}
#[derive(BinRead)]
#[br(import(q: K), return_all_errors, big)]
enum D47 {
    #[br(big, assert(q.k[5]), pre_assert(q.k[3]), magic = 0u8)]
    A(#[br(try, assert(q.k[3]))] Option<E<0>>),
}

crate::contracts! { TAB;
    e00_d_asr_mag [10] { data_enum::<D00>(En { magic: 3, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: NONE, pre: NONE, asr: 5, cus: true, en: 0, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: NONE, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D00| match e { D00::A(x, y) => (0, [x.0, y.0]), D00::Bee => (1, [0, 0]), D00::C(x) => (2, [x.0, 0]) }) }
    e01_d_asr_mag [10] { data_enum::<D01>(En { magic: 3, pre: 0, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: NONE, pre: NONE, asr: 5, cus: false, en: 2, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D01| match e { D01::A { f0: x, f1: y } => (0, [x.0, y.0]), D01::Bee => (1, [0, 0]) }) }
    e02_d_asr_mag [10] { data_enum::<D02>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 2, magic: 2, pre: 3, asr: 5, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 0, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: true },
        Va { name: "C", n: 2, magic: 2, pre: NONE, asr: NONE, cus: false, en: 2, fas: NONE, arg: true, tri: false },
    ] }, |e: &D02| match e { D02::A(x, y) => (0, [x.0, y.0]), D02::Bee(x) => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D02::C { f0: x, f1: y } => (2, [x.0, y.0]) }) }
    e03_d_asr_mag [10] { data_enum::<D03>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 0, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 2, pre: 2, asr: NONE, cus: false, en: 1, fas: NONE, arg: true, tri: true },
    ] }, |e: &D03| match e { D03::A => (0, [0, 0]), D03::Bee(x) => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]) }) }
    e04_d_asr_mag [10] { data_enum::<D04>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: 2, pre: NONE, asr: NONE, cus: false, en: 1, fas: 3, arg: true, tri: true },
        Va { name: "Bee", n: 0, magic: 4, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 2, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
    ] }, |e: &D04| match e { D04::A(x) => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D04::Bee => (1, [0, 0]), D04::C(x, y) => (2, [x.0, y.0]) }) }
    e05_d_asr_mag [10] { data_enum::<D05>(En { magic: 3, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 0, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D05| match e { D05::A { f0: x, f1: y } => (0, [x.0, y.0]), D05::Bee { f0: x } => (1, [x.0, 0]), D05::C => (2, [0, 0]) }) }
    e06_d_asr_mag [10] { data_enum::<D06>(En { magic: NONE, pre: 0, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 2, fas: 3, arg: false, tri: true },
        Va { name: "Bee", n: 0, magic: 2, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: 1, pre: 2, asr: NONE, cus: false, en: 2, fas: NONE, arg: false, tri: true },
    ] }, |e: &D06| match e { D06::A(x) => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D06::Bee => (1, [0, 0]), D06::C { f0: x } => (2, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]) }) }
    e07_d_asr_mag [10] { data_enum::<D07>(En { magic: NONE, pre: 0, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: 2, pre: 3, asr: 5, cus: false, en: 0, fas: 3, arg: true, tri: false },
        Va { name: "Bee", n: 1, magic: 2, pre: 3, asr: 4, cus: false, en: 1, fas: NONE, arg: false, tri: true },
        Va { name: "C", n: 2, magic: 0, pre: 2, asr: 5, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D07| match e { D07::A(x, y) => (0, [x.0, y.0]), D07::Bee(x) => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D07::C { f0: x, f1: y } => (2, [x.0, y.0]) }) }
    e08_d_asr [10] { data_enum::<D08>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 0, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: 3, asr: 5, cus: true, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D08| match e { D08::A => (0, [0, 0]), D08::Bee { f0: x } => (1, [x.0, 0]) }) }
    e09_d_asr_mag [10] { data_enum::<D09>(En { magic: 3, pre: NONE, asr: 1, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 2, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: true },
        Va { name: "Delta", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 1, fas: 3, arg: false, tri: false },
    ] }, |e: &D09| match e { D09::A { f0: x } => (0, [x.0, 0]), D09::Bee(x, y) => (1, [x.0, y.0]), D09::C(x) => (2, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D09::Delta { f0: x } => (3, [x.0, 0]) }) }
    e10_d_asr_mag [10] { data_enum::<D10>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: false, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: 3, asr: 4, cus: false, en: 0, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: 0, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 0, magic: 4, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D10| match e { D10::A { f0: x } => (0, [x.0, 0]), D10::Bee => (1, [0, 0]), D10::C => (2, [0, 0]) }) }
    e11_d_mag [10] { data_enum::<D11>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 0, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D11| match e { D11::A(x) => (0, [x.0, 0]), D11::Bee => (1, [0, 0]) }) }
    e12_d_asr_mag [10] { data_enum::<D12>(En { magic: NONE, pre: NONE, asr: 1, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: 1, pre: 3, asr: NONE, cus: false, en: 1, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 2, magic: 4, pre: NONE, asr: 5, cus: true, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 2, fas: NONE, arg: true, tri: false },
    ] }, |e: &D12| match e { D12::A(x) => (0, [x.0, 0]), D12::Bee { f0: x, f1: y } => (1, [x.0, y.0]), D12::C(x) => (2, [x.0, 0]) }) }
    e13_d_asr_mag [10] { data_enum::<D13>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: false, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: 3, arg: true, tri: false },
        Va { name: "Bee", n: 2, magic: NONE, pre: 3, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 2, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D13| match e { D13::A(x) => (0, [x.0, 0]), D13::Bee(x, y) => (1, [x.0, y.0]), D13::C { f0: x, f1: y } => (2, [x.0, y.0]) }) }
    e14_d_asr_mag [10] { data_enum::<D14>(En { magic: NONE, pre: NONE, asr: NONE, en: 1, all: true, va: &[
        Va { name: "A", n: 1, magic: 0, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 2, magic: 4, pre: NONE, asr: NONE, cus: false, en: 2, fas: 3, arg: false, tri: true },
    ] }, |e: &D14| match e { D14::A { f0: x } => (0, [x.0, 0]), D14::Bee { f0: x, f1: y } => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), y.0]) }) }
    e15_d_asr_mag [10] { data_enum::<D15>(En { magic: NONE, pre: NONE, asr: 1, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: 0, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 4, pre: NONE, asr: NONE, cus: false, en: 2, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: 0, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D15| match e { D15::A(x) => (0, [x.0, 0]), D15::Bee(x) => (1, [x.0, 0]), D15::C(x) => (2, [x.0, 0]) }) }
    e16_d_asr_mag [10] { data_enum::<D16>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: 4, pre: 2, asr: 4, cus: true, en: 0, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: 4, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: true },
    ] }, |e: &D16| match e { D16::A(x, y) => (0, [x.0, y.0]), D16::Bee => (1, [0, 0]), D16::C(x) => (2, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]) }) }
    e17_d_asr_mag [10] { data_enum::<D17>(En { magic: NONE, pre: NONE, asr: NONE, en: 1, all: true, va: &[
        Va { name: "A", n: 2, magic: 4, pre: NONE, asr: 5, cus: false, en: 2, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 4, pre: NONE, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 0, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Delta", n: 2, magic: 1, pre: 2, asr: 5, cus: false, en: 0, fas: NONE, arg: false, tri: true },
    ] }, |e: &D17| match e { D17::A { f0: x, f1: y } => (0, [x.0, y.0]), D17::Bee { f0: x } => (1, [x.0, 0]), D17::C => (2, [0, 0]), D17::Delta(x, y) => (3, [x.as_ref().map_or(0xDEAD, |x| x.0), y.0]) }) }
    e18_d_asr_mag [10] { data_enum::<D18>(En { magic: 3, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 0, magic: NONE, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 2, magic: NONE, pre: 3, asr: 4, cus: false, en: 1, fas: 3, arg: false, tri: true },
    ] }, |e: &D18| match e { D18::A => (0, [0, 0]), D18::Bee => (1, [0, 0]), D18::C(x, y) => (2, [x.as_ref().map_or(0xDEAD, |x| x.0), y.0]) }) }
    e19_d_asr [10] { data_enum::<D19>(En { magic: NONE, pre: 0, asr: 1, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: NONE, asr: 5, cus: false, en: 1, fas: NONE, arg: false, tri: false },
    ] }, |e: &D19| match e { D19::A(x) => (0, [x.0, 0]) }) }
    e20_d_asr_mag [10] { data_enum::<D20>(En { magic: 3, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: NONE, asr: 4, cus: false, en: 2, fas: 3, arg: true, tri: false },
    ] }, |e: &D20| match e { D20::A(x) => (0, [x.0, 0]) }) }
    e21_d_asr_mag [10] { data_enum::<D21>(En { magic: NONE, pre: NONE, asr: 1, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: 1, pre: 2, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 2, magic: NONE, pre: NONE, asr: 4, cus: true, en: 0, fas: NONE, arg: true, tri: false },
    ] }, |e: &D21| match e { D21::A(x) => (0, [x.0, 0]), D21::Bee { f0: x, f1: y } => (1, [x.0, y.0]) }) }
    e22_d_asr_mag [10] { data_enum::<D22>(En { magic: NONE, pre: 0, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 0, magic: 1, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: NONE, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: 2, pre: 3, asr: 4, cus: true, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Delta", n: 1, magic: 2, pre: 2, asr: NONE, cus: false, en: 2, fas: NONE, arg: false, tri: false },
    ] }, |e: &D22| match e { D22::A => (0, [0, 0]), D22::Bee => (1, [0, 0]), D22::C { f0: x } => (2, [x.0, 0]), D22::Delta { f0: x } => (3, [x.0, 0]) }) }
    e23_d_asr_mag [10] { data_enum::<D23>(En { magic: NONE, pre: NONE, asr: 1, en: 1, all: true, va: &[
        Va { name: "A", n: 1, magic: 2, pre: 2, asr: 4, cus: false, en: 0, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 4, pre: 2, asr: 5, cus: false, en: 1, fas: NONE, arg: true, tri: false },
    ] }, |e: &D23| match e { D23::A(x) => (0, [x.0, 0]), D23::Bee(x) => (1, [x.0, 0]) }) }
    e24_d_asr_mag [10] { data_enum::<D24>(En { magic: 3, pre: 0, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: true },
        Va { name: "Bee", n: 1, magic: NONE, pre: NONE, asr: 4, cus: false, en: 2, fas: 3, arg: false, tri: false },
    ] }, |e: &D24| match e { D24::A(x) => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D24::Bee { f0: x } => (1, [x.0, 0]) }) }
    e25_d_asr_mag [10] { data_enum::<D25>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: 2, pre: 2, asr: 5, cus: true, en: 1, fas: 3, arg: true, tri: false },
        Va { name: "Bee", n: 2, magic: NONE, pre: 3, asr: NONE, cus: false, en: 2, fas: 3, arg: true, tri: false },
        Va { name: "C", n: 0, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Delta", n: 1, magic: 0, pre: 3, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
    ] }, |e: &D25| match e { D25::A { f0: x } => (0, [x.0, 0]), D25::Bee(x, y) => (1, [x.0, y.0]), D25::C => (2, [0, 0]), D25::Delta { f0: x } => (3, [x.0, 0]) }) }
    e26_d_asr_mag [10] { data_enum::<D26>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: 4, pre: 3, asr: NONE, cus: false, en: 1, fas: NONE, arg: true, tri: true },
        Va { name: "Bee", n: 0, magic: 0, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D26| match e { D26::A(x) => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D26::Bee => (1, [0, 0]) }) }
    e27_d_asr_mag [10] { data_enum::<D27>(En { magic: NONE, pre: 0, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 0, magic: 4, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 0, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D27| match e { D27::A => (0, [0, 0]), D27::Bee(x) => (1, [x.0, 0]) }) }
    e28_d_asr_mag [10] { data_enum::<D28>(En { magic: 3, pre: NONE, asr: 1, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: 3, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
    ] }, |e: &D28| match e { D28::A(x) => (0, [x.0, 0]) }) }
    e29_d_asr_mag [10] { data_enum::<D29>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: 4, pre: NONE, asr: 5, cus: false, en: 0, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 2, pre: NONE, asr: NONE, cus: false, en: 2, fas: NONE, arg: false, tri: false },
    ] }, |e: &D29| match e { D29::A { f0: x, f1: y } => (0, [x.0, y.0]), D29::Bee(x) => (1, [x.0, 0]) }) }
    e30_d_asr_mag [10] { data_enum::<D30>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 2, magic: 1, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 2, pre: NONE, asr: 5, cus: false, en: 2, fas: NONE, arg: false, tri: false },
    ] }, |e: &D30| match e { D30::A(x, y) => (0, [x.0, y.0]), D30::Bee { f0: x } => (1, [x.0, 0]) }) }
    e31_d_asr_mag [10] { data_enum::<D31>(En { magic: 3, pre: 0, asr: NONE, en: 1, all: true, va: &[
        Va { name: "A", n: 0, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: NONE, asr: 5, cus: false, en: 1, fas: NONE, arg: false, tri: false },
    ] }, |e: &D31| match e { D31::A => (0, [0, 0]), D31::Bee(x) => (1, [x.0, 0]) }) }
    e32_d_asr_mag [10] { data_enum::<D32>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 0, magic: 1, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D32| match e { D32::A { f0: x } => (0, [x.0, 0]), D32::Bee => (1, [0, 0]) }) }
    e33_d_asr_mag [10] { data_enum::<D33>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: false, va: &[
        Va { name: "A", n: 1, magic: 4, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 0, magic: 4, pre: 3, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 2, magic: 1, pre: NONE, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
        Va { name: "Delta", n: 1, magic: 4, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
    ] }, |e: &D33| match e { D33::A { f0: x } => (0, [x.0, 0]), D33::Bee => (1, [0, 0]), D33::C(x, y) => (2, [x.0, y.0]), D33::Delta(x) => (3, [x.0, 0]) }) }
    e34_d_asr_mag [10] { data_enum::<D34>(En { magic: NONE, pre: NONE, asr: NONE, en: 1, all: false, va: &[
        Va { name: "A", n: 2, magic: 0, pre: NONE, asr: 4, cus: true, en: 1, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 0, magic: 4, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D34| match e { D34::A(x, y) => (0, [x.0, y.0]), D34::Bee => (1, [0, 0]) }) }
    e35_d_asr_mag [10] { data_enum::<D35>(En { magic: NONE, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: 0, pre: NONE, asr: 5, cus: false, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 0, magic: 1, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 2, fas: 3, arg: true, tri: false },
    ] }, |e: &D35| match e { D35::A { f0: x, f1: y } => (0, [x.0, y.0]), D35::Bee => (1, [0, 0]), D35::C(x) => (2, [x.0, 0]) }) }
    e36_d_asr_mag [10] { data_enum::<D36>(En { magic: 3, pre: NONE, asr: NONE, en: 2, all: false, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: 3, asr: 5, cus: false, en: 1, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: true, tri: false },
    ] }, |e: &D36| match e { D36::A(x) => (0, [x.0, 0]), D36::Bee(x) => (1, [x.0, 0]) }) }
    e37_d_asr_mag [10] { data_enum::<D37>(En { magic: NONE, pre: 0, asr: 1, en: 1, all: false, va: &[
        Va { name: "A", n: 2, magic: 4, pre: NONE, asr: NONE, cus: false, en: 2, fas: NONE, arg: false, tri: true },
        Va { name: "Bee", n: 1, magic: 4, pre: 3, asr: NONE, cus: false, en: 1, fas: 3, arg: true, tri: false },
        Va { name: "C", n: 1, magic: 0, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D37| match e { D37::A { f0: x, f1: y } => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), y.0]), D37::Bee(x) => (1, [x.0, 0]), D37::C { f0: x } => (2, [x.0, 0]) }) }
    e38_d_asr_mag [10] { data_enum::<D38>(En { magic: NONE, pre: 0, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: 0, pre: NONE, asr: NONE, cus: false, en: 0, fas: 3, arg: true, tri: false },
        Va { name: "Bee", n: 1, magic: 2, pre: NONE, asr: 4, cus: false, en: 2, fas: NONE, arg: true, tri: false },
    ] }, |e: &D38| match e { D38::A { f0: x } => (0, [x.0, 0]), D38::Bee { f0: x } => (1, [x.0, 0]) }) }
    e39_d_asr_mag [10] { data_enum::<D39>(En { magic: NONE, pre: 0, asr: NONE, en: 1, all: true, va: &[
        Va { name: "A", n: 1, magic: 1, pre: NONE, asr: NONE, cus: false, en: 1, fas: 3, arg: false, tri: false },
        Va { name: "Bee", n: 2, magic: 4, pre: NONE, asr: NONE, cus: false, en: 0, fas: 3, arg: true, tri: false },
    ] }, |e: &D39| match e { D39::A { f0: x } => (0, [x.0, 0]), D39::Bee(x, y) => (1, [x.0, y.0]) }) }
    e40_d_asr_mag [10] { data_enum::<D40>(En { magic: NONE, pre: NONE, asr: 1, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: 4, pre: 3, asr: NONE, cus: false, en: 2, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: 2, asr: NONE, cus: false, en: 0, fas: 3, arg: false, tri: false },
    ] }, |e: &D40| match e { D40::A { f0: x } => (0, [x.0, 0]), D40::Bee(x) => (1, [x.0, 0]) }) }
    e41_d_asr_mag [10] { data_enum::<D41>(En { magic: NONE, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 1, magic: 0, pre: NONE, asr: 5, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: 1, pre: NONE, asr: NONE, cus: false, en: 0, fas: 3, arg: false, tri: false },
        Va { name: "C", n: 0, magic: 4, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Delta", n: 2, magic: 1, pre: 3, asr: NONE, cus: false, en: 1, fas: 3, arg: false, tri: false },
    ] }, |e: &D41| match e { D41::A(x) => (0, [x.0, 0]), D41::Bee(x) => (1, [x.0, 0]), D41::C => (2, [0, 0]), D41::Delta { f0: x, f1: y } => (3, [x.0, y.0]) }) }
    e42_d_asr_mag [10] { data_enum::<D42>(En { magic: NONE, pre: NONE, asr: NONE, en: 1, all: true, va: &[
        Va { name: "A", n: 2, magic: 1, pre: 3, asr: 5, cus: true, en: 0, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 0, magic: 2, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "C", n: 1, magic: 0, pre: 3, asr: NONE, cus: false, en: 0, fas: 3, arg: true, tri: false },
        Va { name: "Delta", n: 0, magic: 1, pre: 2, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D42| match e { D42::A { f0: x, f1: y } => (0, [x.0, y.0]), D42::Bee => (1, [0, 0]), D42::C(x) => (2, [x.0, 0]), D42::Delta => (3, [0, 0]) }) }
    e43_d_asr_mag [10] { data_enum::<D43>(En { magic: 3, pre: NONE, asr: NONE, en: 0, all: true, va: &[
        Va { name: "A", n: 2, magic: NONE, pre: NONE, asr: 5, cus: false, en: 0, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: 3, asr: 5, cus: false, en: 0, fas: NONE, arg: false, tri: true },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 2, fas: NONE, arg: true, tri: false },
    ] }, |e: &D43| match e { D43::A { f0: x, f1: y } => (0, [x.0, y.0]), D43::Bee { f0: x } => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D43::C(x) => (2, [x.0, 0]) }) }
    e44_d_asr_mag [10] { data_enum::<D44>(En { magic: 3, pre: 0, asr: NONE, en: 0, all: false, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 1, fas: NONE, arg: false, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: 3, asr: NONE, cus: false, en: 1, fas: NONE, arg: true, tri: false },
        Va { name: "C", n: 0, magic: NONE, pre: NONE, asr: NONE, cus: false, en: 0, fas: NONE, arg: false, tri: false },
    ] }, |e: &D44| match e { D44::A { f0: x } => (0, [x.0, 0]), D44::Bee(x) => (1, [x.0, 0]), D44::C => (2, [0, 0]) }) }
    e45_d_asr_mag [10] { data_enum::<D45>(En { magic: 3, pre: NONE, asr: NONE, en: 2, all: true, va: &[
        Va { name: "A", n: 2, magic: NONE, pre: NONE, asr: 5, cus: true, en: 0, fas: 3, arg: true, tri: true },
        Va { name: "Bee", n: 2, magic: NONE, pre: NONE, asr: 4, cus: true, en: 2, fas: NONE, arg: true, tri: true },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: 5, cus: false, en: 1, fas: NONE, arg: true, tri: false },
    ] }, |e: &D45| match e { D45::A { f0: x, f1: y } => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), y.0]), D45::Bee(x, y) => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), y.0]), D45::C(x) => (2, [x.0, 0]) }) }
    e46_d_asr_mag [10] { data_enum::<D46>(En { magic: 3, pre: 0, asr: 1, en: 0, all: true, va: &[
        Va { name: "A", n: 1, magic: NONE, pre: 2, asr: NONE, cus: false, en: 1, fas: NONE, arg: true, tri: false },
        Va { name: "Bee", n: 1, magic: NONE, pre: 2, asr: 4, cus: false, en: 1, fas: NONE, arg: false, tri: true },
        Va { name: "C", n: 1, magic: NONE, pre: NONE, asr: 4, cus: false, en: 0, fas: 3, arg: true, tri: false },
        Va { name: "Delta", n: 1, magic: NONE, pre: 3, asr: NONE, cus: false, en: 1, fas: NONE, arg: true, tri: false },
    ] }, |e: &D46| match e { D46::A(x) => (0, [x.0, 0]), D46::Bee { f0: x } => (1, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]), D46::C(x) => (2, [x.0, 0]), D46::Delta { f0: x } => (3, [x.0, 0]) }) }
    e47_d_asr_mag [10] { data_enum::<D47>(En { magic: NONE, pre: NONE, asr: NONE, en: 1, all: true, va: &[
        Va { name: "A", n: 1, magic: 0, pre: 3, asr: 5, cus: false, en: 1, fas: 3, arg: false, tri: true },
    ] }, |e: &D47| match e { D47::A(x) => (0, [x.as_ref().map_or(0xDEAD, |x| x.0), 0]) }) }
}
