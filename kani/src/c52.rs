//! Generated by tools/gen_enums.py: unit-only enums, each with the contract of combo_enum.rs.
use crate::combo_enum::*;
use crate::ghost::*;
use binread::BinRead;

#[derive(BinRead)]
#[repr(u8)]
#[br(little, repr = u8, import(q: K))]
enum U00 {
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    A,
}
#[derive(BinRead)]
#[repr(i8)]
#[br(import(q: K), repr = i8)]
enum U01 {
    A,
    #[br(pre_assert(q.k[1]))]
    B,
    #[br(pre_assert(q.k[3]))]
    C,
}
#[derive(BinRead)]
#[br(big, import(q: K))]
enum U02 {
    #[br(magic = 65534u16, pre_assert(q.k[1]))]
    A,
    #[br(magic = 65534u16)]
    B,
    #[br(magic = 65534u16, pre_assert(q.k[1]), pre_assert(q.k[3]))]
    C,
    #[br(magic = 7u16, pre_assert(q.k[1]), pre_assert(q.k[3]))]
    D,
    #[br(magic = 7u16, pre_assert(q.k[1]))]
    E,
}
#[derive(BinRead)]
#[br(import(q: K), big, magic = 3u8)]
enum U03 {
    #[br(magic = 11460i16, pre_assert(q.k[3]))]
    A,
}
#[derive(BinRead)]
#[repr(u32)]
#[br(repr = u32, little, import(q: K))]
enum U04 {
    #[br(pre_assert(q.k[1]))]
    A = 0,
    #[br(pre_assert(q.k[1]))]
    B,
    #[br(pre_assert(q.k[2]))]
    C,
}
#[derive(BinRead)]
#[repr(i32)]
#[br(import(q: K), big, repr = i32)]
enum U05 {
    #[br(pre_assert(q.k[2]))]
    A = 2147483647,
    B = 2,
}
#[derive(BinRead)]
#[repr(u64)]
#[br(import(q: K), repr = u64)]
enum U06 {
    #[br(pre_assert(q.k[2]))]
    A = 8894974495538586567,
    B,
    #[br(pre_assert(q.k[1]))]
    C,
    #[br(pre_assert(q.k[1]), pre_assert(q.k[3]))]
    D,
    #[br(pre_assert(q.k[3]))]
    E = 3876417037390533079,
}
#[derive(BinRead)]
#[br(big, import(q: K))]
enum U07 {
    #[br(magic = 5031705133284964630i64, pre_assert(q.k[3]))]
    A,
    #[br(magic = 1i64, pre_assert(q.k[1]))]
    B,
    #[br(magic = 0i64)]
    C,
    #[br(magic = 9223372036854775807i64, pre_assert(q.k[2]))]
    D,
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum U08 {
    #[br(magic = b"xZ", pre_assert(q.k[3]))]
    A,
    #[br(magic = b"aZ")]
    B,
    #[br(magic = b"b\x01", pre_assert(q.k[2]))]
    C,
}
#[derive(BinRead)]
#[repr(i8)]
#[br(import(q: K), repr = i8, magic = 3u8)]
enum U09 {
    A = 89,
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    B = 64,
    C = 17,
    D = 2,
}
#[derive(BinRead)]
#[repr(u16)]
#[br(repr = u16, import(q: K), little, magic = 3u8)]
enum U10 {
    A = 0,
    B = 44882,
    #[br(pre_assert(q.k[1]), pre_assert(q.k[3]))]
    C,
    #[br(pre_assert(q.k[3]))]
    D,
}
#[derive(BinRead)]
#[repr(i16)]
#[br(import(q: K), little, repr = i16)]
enum U11 {
    A = 7,
    B,
    #[br(pre_assert(q.k[1]))]
    C = -8952,
    #[br(pre_assert(q.k[2]))]
    D = 32767,
    E = -32768,
}
#[derive(BinRead)]
#[br(magic = 3u8, import(q: K))]
enum U12 {
    #[br(magic = 0u8)]
    A,
    #[br(magic = 1u8, pre_assert(q.k[1]))]
    B,
    #[br(magic = 1u8)]
    C,
}
#[derive(BinRead)]
#[repr(i32)]
#[br(repr = i32, import(q: K), big)]
enum U13 {
    #[br(pre_assert(q.k[2]))]
    A = 1,
    #[br(pre_assert(q.k[2]))]
    B,
    #[br(pre_assert(q.k[1]))]
    C = -1,
}
#[derive(BinRead)]
#[repr(u64)]
#[br(repr = u64, import(q: K), little)]
enum U14 {
    #[br(pre_assert(q.k[1]))]
    A = 0,
}
#[derive(BinRead)]
#[repr(i64)]
#[br(import(q: K), repr = i64, little)]
enum U15 {
    #[br(pre_assert(q.k[1]), pre_assert(q.k[3]))]
    A = 5348535199017421990,
    B,
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    C = -9156837620076861624,
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum U16 {
    #[br(magic = 103865785u32, pre_assert(q.k[2]))]
    A,
    #[br(magic = 2u32)]
    B,
    #[br(magic = 1777784294u32, pre_assert(q.k[1]))]
    C,
    #[br(magic = 1777784294u32)]
    D,
}
#[derive(BinRead)]
#[repr(i8)]
#[br(magic = 3u8, repr = i8, import(q: K))]
enum U17 {
    #[br(pre_assert(q.k[2]))]
    A = 127,
    #[br(pre_assert(q.k[2]))]
    B = -114,
    #[br(pre_assert(q.k[1]))]
    C = 2,
    #[br(pre_assert(q.k[3]))]
    D,
    #[br(pre_assert(q.k[2]))]
    E = 7,
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum U18 {
    #[br(magic = 7u64, pre_assert(q.k[1]), pre_assert(q.k[3]))]
    A,
    #[br(magic = 7u64, pre_assert(q.k[2]))]
    B,
    #[br(magic = 18446744073709551615u64, pre_assert(q.k[1]))]
    C,
    #[br(magic = 7u64)]
    D,
}
#[derive(BinRead)]
#[br(magic = 3u8, big, import(q: K))]
enum U19 {
    #[br(magic = 7i64, pre_assert(q.k[3]))]
    A,
    #[br(magic = 9223372036854775807i64)]
    B,
    #[br(magic = 6787311524472533184i64, pre_assert(q.k[2]))]
    C,
}
#[derive(BinRead)]
#[repr(u32)]
#[br(little, import(q: K), repr = u32)]
enum U20 {
    #[br(pre_assert(q.k[3]))]
    A = 3430275574,
    B,
    #[br(pre_assert(q.k[1]))]
    C = 4294967294,
}
#[derive(BinRead)]
#[br(magic = 3u8, import(q: K), big)]
enum U21 {
    #[br(magic = b"ya\x01a", pre_assert(q.k[1]), pre_assert(q.k[3]))]
    A,
    #[br(magic = b"bZbx", pre_assert(q.k[1]), pre_assert(q.k[3]))]
    B,
}
#[derive(BinRead)]
#[br(import(q: K), little, magic = 3u8)]
enum U22 {
    #[br(magic = 'a', pre_assert(q.k[2]), pre_assert(q.k[3]))]
    A,
    #[br(magic = 'a')]
    B,
    #[br(magic = 'a', pre_assert(q.k[1]))]
    C,
    #[br(magic = '~', pre_assert(q.k[1]))]
    D,
}
#[derive(BinRead)]
#[repr(i64)]
#[br(import(q: K), repr = i64)]
enum U23 {
    A,
    B,
    C = 2,
}
#[derive(BinRead)]
#[repr(u8)]
#[br(import(q: K), repr = u8)]
enum U24 {
    #[br(pre_assert(q.k[2]))]
    A = 45,
    #[br(pre_assert(q.k[1]))]
    B,
    #[br(pre_assert(q.k[1]))]
    C = 176,
}
#[derive(BinRead)]
#[br(import(q: K))]
enum U25 {
    #[br(magic = 0i32)]
    A,
    #[br(magic = 835847234i32)]
    B,
}
#[derive(BinRead)]
#[repr(i16)]
#[br(import(q: K), repr = i16)]
enum U26 {
    #[br(pre_assert(q.k[2]))]
    A,
}
#[derive(BinRead)]
#[repr(i8)]
#[br(big, repr = i8, import(q: K))]
enum U27 {
    #[br(pre_assert(q.k[1]))]
    A = -128,
    #[br(pre_assert(q.k[2]))]
    B = 127,
}
#[derive(BinRead)]
#[br(import(q: K))]
enum U28 {
    #[br(magic = 1u8)]
    A,
    #[br(magic = 1u8, pre_assert(q.k[2]))]
    B,
    #[br(magic = 1u8, pre_assert(q.k[1]))]
    C,
    #[br(magic = 108u8, pre_assert(q.k[2]))]
    D,
}
#[derive(BinRead)]
#[repr(i32)]
#[br(big, import(q: K), repr = i32)]
enum U29 {
    #[br(pre_assert(q.k[1]))]
    A,
    B,
}
#[derive(BinRead)]
#[br(import(q: K))]
enum U30 {
    #[br(magic = 7i16, pre_assert(q.k[3]))]
    A,
    #[br(magic = 7i16)]
    B,
    #[br(magic = 1i16, pre_assert(q.k[3]))]
    C,
    #[br(magic = 5i16, pre_assert(q.k[1]))]
    D,
    #[br(magic = 1i16, pre_assert(q.k[2]))]
    E,
}
#[derive(BinRead)]
#[repr(i64)]
#[br(repr = i64, big, import(q: K))]
enum U31 {
    A,
    #[br(pre_assert(q.k[1]))]
    B,
}
#[derive(BinRead)]
#[br(big, import(q: K))]
enum U32 {
    #[br(magic = b'b')]
    A,
    #[br(magic = b'Z')]
    B,
    #[br(magic = b'a', pre_assert(q.k[1]))]
    C,
    #[br(magic = b'b', pre_assert(q.k[1]))]
    D,
}
#[derive(BinRead)]
#[repr(i64)]
#[br(repr = i64, import(q: K))]
enum U33 {
    A,
    #[br(pre_assert(q.k[1]))]
    B,
    #[br(pre_assert(q.k[1]))]
    C,
    #[br(pre_assert(q.k[2]))]
    D = -8772688080345706861,
    #[br(pre_assert(q.k[2]))]
    E,
}
#[derive(BinRead)]
#[repr(i16)]
#[br(import(q: K), repr = i16)]
enum U34 {
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    A = 0,
}
#[derive(BinRead)]
#[repr(u32)]
#[br(import(q: K), repr = u32, big)]
enum U35 {
    #[br(pre_assert(q.k[1]), pre_assert(q.k[3]))]
    A,
}
#[derive(BinRead)]
#[repr(u16)]
#[br(magic = 3u8, little, import(q: K), repr = u16)]
enum U36 {
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    A,
    #[br(pre_assert(q.k[2]))]
    B = 45495,
    #[br(pre_assert(q.k[2]))]
    C = 65239,
    #[br(pre_assert(q.k[2]))]
    D,
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    E,
}
#[derive(BinRead)]
#[repr(u8)]
#[br(import(q: K), repr = u8)]
enum U37 {
    #[br(pre_assert(q.k[3]))]
    A = 254,
}
#[derive(BinRead)]
#[br(import(q: K))]
enum U38 {
    #[br(magic = 47i8, pre_assert(q.k[1]))]
    A,
    #[br(magic = 127i8, pre_assert(q.k[1]))]
    B,
    #[br(magic = 106i8, pre_assert(q.k[2]))]
    C,
    #[br(magic = 47i8, pre_assert(q.k[2]))]
    D,
}
#[derive(BinRead)]
#[repr(u32)]
#[br(repr = u32, big, import(q: K))]
enum U39 {
    A = 0,
    #[br(pre_assert(q.k[1]), pre_assert(q.k[3]))]
    B = 1,
    C = 2,
    D,
}
#[derive(BinRead)]
#[repr(u32)]
#[br(big, repr = u32, import(q: K))]
enum U40 {
    A,
    #[br(pre_assert(q.k[2]))]
    B,
    #[br(pre_assert(q.k[3]))]
    C = 4294967294,
    #[br(pre_assert(q.k[1]), pre_assert(q.k[3]))]
    D,
}
#[derive(BinRead)]
#[repr(u64)]
#[br(repr = u64, import(q: K))]
enum U41 {
    #[br(pre_assert(q.k[2]))]
    A,
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    B = 7850960755461089888,
}
#[derive(BinRead)]
#[repr(i16)]
#[br(repr = i16, import(q: K))]
enum U42 {
    A,
    #[br(pre_assert(q.k[2]), pre_assert(q.k[3]))]
    B,
    #[br(pre_assert(q.k[3]))]
    C = -18926,
    #[br(pre_assert(q.k[1]))]
    D,
    E = 2,
}
#[derive(BinRead)]
#[br(import(q: K))]
enum U43 {
    #[br(magic = b'b', pre_assert(q.k[1]), pre_assert(q.k[3]))]
    A,
    #[br(magic = b'\x01', pre_assert(q.k[2]), pre_assert(q.k[3]))]
    B,
    #[br(magic = b'x')]
    C,
}
#[derive(BinRead)]
#[br(little, import(q: K))]
enum U44 {
    #[br(magic = b"ZyxZ", pre_assert(q.k[2]), pre_assert(q.k[3]))]
    A,
}
#[derive(BinRead)]
#[br(magic = 3u8, little, import(q: K))]
enum U45 {
    #[br(magic = 4294967294u32, pre_assert(q.k[2]))]
    A,
    #[br(magic = 256753916u32, pre_assert(q.k[1]))]
    B,
}
#[derive(BinRead)]
#[br(import(q: K), magic = 3u8, big)]
enum U46 {
    #[br(magic = 2u64, pre_assert(q.k[1]), pre_assert(q.k[3]))]
    A,
}
#[derive(BinRead)]
#[repr(i64)]
#[br(repr = i64, little, import(q: K))]
enum U47 {
    #[br(pre_assert(q.k[2]))]
    A = -1,
    B,
    C = 9223372036854775807,
}

crate::contracts! { TAB;
    u00_repr_u8 [10] { unit_enum::<U00>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(0, 2, 3)] }, |e: &U00| match e { U00::A => 0 }) }
    u01_repr_i8 [10] { unit_enum::<U01>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, NONE, NONE), (1, 1, NONE), (2, NONE, 3)] }, |e: &U01| match e { U01::A => 0, U01::B => 1, U01::C => 2 }) }
    u02_magic_u16 [10] { unit_enum::<U02>(Un { size: 2, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(65534, 1, NONE), (65534, NONE, NONE), (65534, 1, 3), (7, 1, 3), (7, 1, NONE)] }, |e: &U02| match e { U02::A => 0, U02::B => 1, U02::C => 2, U02::D => 3, U02::E => 4 }) }
    u03_magic_i16_mag [10] { unit_enum::<U03>(Un { size: 2, bytes: false, magic: 3, pre: NONE, en: 1, va: &[(11460, NONE, 3)] }, |e: &U03| match e { U03::A => 0 }) }
    u04_repr_u32 [10] { unit_enum::<U04>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(0, 1, NONE), (1, 1, NONE), (2, 2, NONE)] }, |e: &U04| match e { U04::A => 0, U04::B => 1, U04::C => 2 }) }
    u05_repr_i32 [10] { unit_enum::<U05>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(2147483647, 2, NONE), (2, NONE, NONE)] }, |e: &U05| match e { U05::A => 0, U05::B => 1 }) }
    u06_repr_u64 [10] { unit_enum::<U06>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(8894974495538586567, 2, NONE), (8894974495538586568, NONE, NONE), (8894974495538586569, 1, NONE), (8894974495538586570, 1, 3), (3876417037390533079, NONE, 3)] }, |e: &U06| match e { U06::A => 0, U06::B => 1, U06::C => 2, U06::D => 3, U06::E => 4 }) }
    u07_magic_i64 [10] { unit_enum::<U07>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(5031705133284964630, NONE, 3), (1, 1, NONE), (0, NONE, NONE), (9223372036854775807, 2, NONE)] }, |e: &U07| match e { U07::A => 0, U07::B => 1, U07::C => 2, U07::D => 3 }) }
    u08_magic_b2 [10] { unit_enum::<U08>(Un { size: 2, bytes: true, magic: NONE, pre: NONE, en: 2, va: &[(23160, NONE, 3), (23137, NONE, NONE), (354, 2, NONE)] }, |e: &U08| match e { U08::A => 0, U08::B => 1, U08::C => 2 }) }
    u09_repr_i8_mag [10] { unit_enum::<U09>(Un { size: 1, bytes: false, magic: 3, pre: NONE, en: 0, va: &[(89, NONE, NONE), (64, 2, 3), (17, NONE, NONE), (2, NONE, NONE)] }, |e: &U09| match e { U09::A => 0, U09::B => 1, U09::C => 2, U09::D => 3 }) }
    u10_repr_u16_mag [10] { unit_enum::<U10>(Un { size: 2, bytes: false, magic: 3, pre: NONE, en: 2, va: &[(0, NONE, NONE), (44882, NONE, NONE), (44883, 1, 3), (44884, NONE, 3)] }, |e: &U10| match e { U10::A => 0, U10::B => 1, U10::C => 2, U10::D => 3 }) }
    u11_repr_i16 [10] { unit_enum::<U11>(Un { size: 2, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(7, NONE, NONE), (8, NONE, NONE), (56584, 1, NONE), (32767, 2, NONE), (32768, NONE, NONE)] }, |e: &U11| match e { U11::A => 0, U11::B => 1, U11::C => 2, U11::D => 3, U11::E => 4 }) }
    u12_magic_u8_mag [10] { unit_enum::<U12>(Un { size: 1, bytes: false, magic: 3, pre: NONE, en: 0, va: &[(0, NONE, NONE), (1, 1, NONE), (1, NONE, NONE)] }, |e: &U12| match e { U12::A => 0, U12::B => 1, U12::C => 2 }) }
    u13_repr_i32 [10] { unit_enum::<U13>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(1, 2, NONE), (2, 2, NONE), (4294967295, 1, NONE)] }, |e: &U13| match e { U13::A => 0, U13::B => 1, U13::C => 2 }) }
    u14_repr_u64 [10] { unit_enum::<U14>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(0, 1, NONE)] }, |e: &U14| match e { U14::A => 0 }) }
    u15_repr_i64 [10] { unit_enum::<U15>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(5348535199017421990, 1, 3), (5348535199017421991, NONE, NONE), (9289906453632689992, 2, 3)] }, |e: &U15| match e { U15::A => 0, U15::B => 1, U15::C => 2 }) }
    u16_magic_u32 [10] { unit_enum::<U16>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(103865785, 2, NONE), (2, NONE, NONE), (1777784294, 1, NONE), (1777784294, NONE, NONE)] }, |e: &U16| match e { U16::A => 0, U16::B => 1, U16::C => 2, U16::D => 3 }) }
    u17_repr_i8_mag [10] { unit_enum::<U17>(Un { size: 1, bytes: false, magic: 3, pre: NONE, en: 0, va: &[(127, 2, NONE), (142, 2, NONE), (2, 1, NONE), (3, NONE, 3), (7, 2, NONE)] }, |e: &U17| match e { U17::A => 0, U17::B => 1, U17::C => 2, U17::D => 3, U17::E => 4 }) }
    u18_magic_u64 [10] { unit_enum::<U18>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(7, 1, 3), (7, 2, NONE), (18446744073709551615, 1, NONE), (7, NONE, NONE)] }, |e: &U18| match e { U18::A => 0, U18::B => 1, U18::C => 2, U18::D => 3 }) }
    u19_magic_i64_mag [10] { unit_enum::<U19>(Un { size: 8, bytes: false, magic: 3, pre: NONE, en: 1, va: &[(7, NONE, 3), (9223372036854775807, NONE, NONE), (6787311524472533184, 2, NONE)] }, |e: &U19| match e { U19::A => 0, U19::B => 1, U19::C => 2 }) }
    u20_repr_u32 [10] { unit_enum::<U20>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(3430275574, NONE, 3), (3430275575, NONE, NONE), (4294967294, 1, NONE)] }, |e: &U20| match e { U20::A => 0, U20::B => 1, U20::C => 2 }) }
    u21_magic_b4_mag [10] { unit_enum::<U21>(Un { size: 4, bytes: true, magic: 3, pre: NONE, en: 1, va: &[(1627480441, 1, 3), (2019711586, 1, 3)] }, |e: &U21| match e { U21::A => 0, U21::B => 1 }) }
    u22_magic_char_mag [10] { unit_enum::<U22>(Un { size: 1, bytes: true, magic: 3, pre: NONE, en: 2, va: &[(97, 2, 3), (97, NONE, NONE), (97, 1, NONE), (126, 1, NONE)] }, |e: &U22| match e { U22::A => 0, U22::B => 1, U22::C => 2, U22::D => 3 }) }
    u23_repr_i64 [10] { unit_enum::<U23>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, NONE, NONE), (1, NONE, NONE), (2, NONE, NONE)] }, |e: &U23| match e { U23::A => 0, U23::B => 1, U23::C => 2 }) }
    u24_repr_u8 [10] { unit_enum::<U24>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(45, 2, NONE), (46, 1, NONE), (176, 1, NONE)] }, |e: &U24| match e { U24::A => 0, U24::B => 1, U24::C => 2 }) }
    u25_magic_i32 [10] { unit_enum::<U25>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, NONE, NONE), (835847234, NONE, NONE)] }, |e: &U25| match e { U25::A => 0, U25::B => 1 }) }
    u26_repr_i16 [10] { unit_enum::<U26>(Un { size: 2, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, 2, NONE)] }, |e: &U26| match e { U26::A => 0 }) }
    u27_repr_i8 [10] { unit_enum::<U27>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(128, 1, NONE), (127, 2, NONE)] }, |e: &U27| match e { U27::A => 0, U27::B => 1 }) }
    u28_magic_u8 [10] { unit_enum::<U28>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(1, NONE, NONE), (1, 2, NONE), (1, 1, NONE), (108, 2, NONE)] }, |e: &U28| match e { U28::A => 0, U28::B => 1, U28::C => 2, U28::D => 3 }) }
    u29_repr_i32 [10] { unit_enum::<U29>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(0, 1, NONE), (1, NONE, NONE)] }, |e: &U29| match e { U29::A => 0, U29::B => 1 }) }
    u30_magic_i16 [10] { unit_enum::<U30>(Un { size: 2, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(7, NONE, 3), (7, NONE, NONE), (1, NONE, 3), (5, 1, NONE), (1, 2, NONE)] }, |e: &U30| match e { U30::A => 0, U30::B => 1, U30::C => 2, U30::D => 3, U30::E => 4 }) }
    u31_repr_i64 [10] { unit_enum::<U31>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(0, NONE, NONE), (1, 1, NONE)] }, |e: &U31| match e { U31::A => 0, U31::B => 1 }) }
    u32_magic_b1 [10] { unit_enum::<U32>(Un { size: 1, bytes: true, magic: NONE, pre: NONE, en: 1, va: &[(98, NONE, NONE), (90, NONE, NONE), (97, 1, NONE), (98, 1, NONE)] }, |e: &U32| match e { U32::A => 0, U32::B => 1, U32::C => 2, U32::D => 3 }) }
    u33_repr_i64 [10] { unit_enum::<U33>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, NONE, NONE), (1, 1, NONE), (2, 1, NONE), (9674055993363844755, 2, NONE), (9674055993363844756, 2, NONE)] }, |e: &U33| match e { U33::A => 0, U33::B => 1, U33::C => 2, U33::D => 3, U33::E => 4 }) }
    u34_repr_i16 [10] { unit_enum::<U34>(Un { size: 2, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, 2, 3)] }, |e: &U34| match e { U34::A => 0 }) }
    u35_repr_u32 [10] { unit_enum::<U35>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(0, 1, 3)] }, |e: &U35| match e { U35::A => 0 }) }
    u36_repr_u16_mag [10] { unit_enum::<U36>(Un { size: 2, bytes: false, magic: 3, pre: NONE, en: 2, va: &[(0, 2, 3), (45495, 2, NONE), (65239, 2, NONE), (65240, 2, NONE), (65241, 2, 3)] }, |e: &U36| match e { U36::A => 0, U36::B => 1, U36::C => 2, U36::D => 3, U36::E => 4 }) }
    u37_repr_u8 [10] { unit_enum::<U37>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(254, NONE, 3)] }, |e: &U37| match e { U37::A => 0 }) }
    u38_magic_i8 [10] { unit_enum::<U38>(Un { size: 1, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(47, 1, NONE), (127, 1, NONE), (106, 2, NONE), (47, 2, NONE)] }, |e: &U38| match e { U38::A => 0, U38::B => 1, U38::C => 2, U38::D => 3 }) }
    u39_repr_u32 [10] { unit_enum::<U39>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(0, NONE, NONE), (1, 1, 3), (2, NONE, NONE), (3, NONE, NONE)] }, |e: &U39| match e { U39::A => 0, U39::B => 1, U39::C => 2, U39::D => 3 }) }
    u40_repr_u32 [10] { unit_enum::<U40>(Un { size: 4, bytes: false, magic: NONE, pre: NONE, en: 1, va: &[(0, NONE, NONE), (1, 2, NONE), (4294967294, NONE, 3), (4294967295, 1, 3)] }, |e: &U40| match e { U40::A => 0, U40::B => 1, U40::C => 2, U40::D => 3 }) }
    u41_repr_u64 [10] { unit_enum::<U41>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, 2, NONE), (7850960755461089888, 2, 3)] }, |e: &U41| match e { U41::A => 0, U41::B => 1 }) }
    u42_repr_i16 [10] { unit_enum::<U42>(Un { size: 2, bytes: false, magic: NONE, pre: NONE, en: 0, va: &[(0, NONE, NONE), (1, 2, 3), (46610, NONE, 3), (46611, 1, NONE), (2, NONE, NONE)] }, |e: &U42| match e { U42::A => 0, U42::B => 1, U42::C => 2, U42::D => 3, U42::E => 4 }) }
    u43_magic_b1 [10] { unit_enum::<U43>(Un { size: 1, bytes: true, magic: NONE, pre: NONE, en: 0, va: &[(98, 1, 3), (1, 2, 3), (120, NONE, NONE)] }, |e: &U43| match e { U43::A => 0, U43::B => 1, U43::C => 2 }) }
    u44_magic_b4 [10] { unit_enum::<U44>(Un { size: 4, bytes: true, magic: NONE, pre: NONE, en: 2, va: &[(1517844826, 2, 3)] }, |e: &U44| match e { U44::A => 0 }) }
    u45_magic_u32_mag [10] { unit_enum::<U45>(Un { size: 4, bytes: false, magic: 3, pre: NONE, en: 2, va: &[(4294967294, 2, NONE), (256753916, 1, NONE)] }, |e: &U45| match e { U45::A => 0, U45::B => 1 }) }
    u46_magic_u64_mag [10] { unit_enum::<U46>(Un { size: 8, bytes: false, magic: 3, pre: NONE, en: 1, va: &[(2, 1, 3)] }, |e: &U46| match e { U46::A => 0 }) }
    u47_repr_i64 [10] { unit_enum::<U47>(Un { size: 8, bytes: false, magic: NONE, pre: NONE, en: 2, va: &[(18446744073709551615, 2, NONE), (0, NONE, NONE), (9223372036854775807, NONE, NONE)] }, |e: &U47| match e { U47::A => 0, U47::B => 1, U47::C => 2 }) }
}
