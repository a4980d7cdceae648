//! C02: a failed read of a derived type leaves the reader where it started.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::io::SeekFrom;
use binread::{derive_binread, BinRead};

#[derive(BinRead)]
struct S {
    a: E<0>,
    b: E<1>,
}
#[derive(BinRead)]
struct T(E<0>, #[br(deref_now)] E<1>);
#[derive(BinRead)]
#[br(magic = 0x1234u16)]
struct M;
#[derive(BinRead)]
#[br(magic = b'x', import(k: u32), assert(k < 5, "k"))]
struct MU;
#[derive(BinRead)]
struct FM {
    #[br(magic = 7u8)]
    a: E<0>,
    #[br(pad_after = 3)]
    b: u8,
}
#[derive(BinRead)]
#[br(import(k: u32, at: u64), assert(a.0 < k), pre_assert(k != 9))]
struct As {
    #[br(seek_before = SeekFrom::Start(at), assert(a.0 != 3))]
    a: E<0>,
}
#[derive(BinRead)]
#[br(import(p: i64))]
struct Po {
    #[br(pad_before = p, align_after = 8)]
    a: E<0>,
    #[br(restore_position, pad_size_to = 16)]
    b: E<1>,
}
#[derive(BinRead)]
struct TM {
    a: E<0>,
    #[br(try_map = |x: E<1>| if x.0 % 2 == 0 { Ok(x.0) } else { Err(Bad(x.0)) })]
    b: u32,
}
#[derive(Debug)]
struct Bad(u32);
#[derive(BinRead)]
#[br(try_map = top_try)]
struct TopTry(u32);
fn top_try(x: E<0>) -> Result<TopTry, Bad> {
    if x.0 > 9 {
        Ok(TopTry(x.0))
    } else {
        Err(Bad(x.0))
    }
}
#[derive(BinRead)]
#[br(magic = 3u8, map = |x: E<0>| TopMap(x.0))]
struct TopMap(u32);
#[derive(BinRead)]
enum En {
    A(E<0>),
    B { x: E<1> },
    #[br(magic = 1u16)]
    C,
}
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum Eu {
    A(E<0>),
    B { x: E<1>, #[br(calc = x.0)] y: u32 },
}
#[derive(BinRead)]
#[br(repr = u16)]
enum Rp {
    A = 1,
    B = 700,
}
#[derive(BinRead)]
enum G {
    #[br(magic = 1u32)]
    A,
    #[br(magic = 2u32)]
    B,
}
#[derive(BinRead)]
struct W {
    #[br(parse_with = parser::<_, 5>)]
    w: u32,
    #[br(try)]
    t: Option<E<1>>,
    z: E<2>,
}
#[derive(BinRead)]
struct Nest {
    s: S,
    r: Rp,
}

macro_rules! atom { ($t:ty, $args:expr) => {{
    let p0 = init();
    let o = O::nd();
    let r = <$t>::read_options(&mut Rd, &o.real(), $args);
    oblige!("C02", atomic(&r, p0), "after a failure the reader is where the read began (or its refusal to go there is reported)");
    reach!(r.is_ok(), "success");
    reach!(r.is_err() && g().pos == p0 && g().fault != 0, "failure of the reader, rewound");
    reach!(r.is_err() && g().pos != p0, "the reader refuses to go back");
    forget(r);
}} }

contracts! { TAB;
    c02_struct [8] { atom!(S, ()); }
    c02_tuple_deref_now [8] { atom!(T, ()); }
    c02_magic [8] { atom!(M, ()); }
    c02_unit_assert [8] { atom!(MU, (nd_u32(),)); }
    c02_field_magic [8] { atom!(FM, ()); }
    c02_assert [8] { atom!(As, (nd_u32(), nd_u64())); }
    c02_position [8] { let p = nd_i64(); atom!(Po, (p,)); }
    c02_try_map [8] { atom!(TM, ()); }
    c02_top_try_map [8] { atom!(TopTry, ()); }
    c02_top_map [8] { atom!(TopMap, ()); }
    c02_enum [8] { atom!(En, ()); }
    c02_enum_unexpected [8] { atom!(Eu, ()); }
    c02_unit_repr [8] { atom!(Rp, ()); }
    c02_unit_magic [8] { atom!(G, ()); }
    c02_parse_with_try [8] { atom!(W, ()); }
    c02_nested [8] { atom!(Nest, ()); }
}
