//! Generated by tools/gen_combo.py: declarations that combine the directives (44536 of the 45606 triples
//! of directive values that can occur together), each with the contract of combo.rs.
use crate::combo::*;
use crate::ghost::*;
use crate::shim::*;
use binread::{derive_binread, io::SeekFrom, BinRead};

#[derive(BinRead)]
#[br(import(q: Par))]
enum X000 { #[br(magic = 9u8, little)]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, count = q.cnt, align_before = 3, restore_position, pad_after = q.pa, parse_with = parser_a::<_, 1>, if(q.c, q.alt), args(q.arg ^ a.v().1))] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), assert(q.k2))]
struct X001(E<0>, #[br(map = |x: Option<u32>| mapo(x), is_big = q.big, assert(q.k0), temp, offset = q.off, seek_before = SeekFrom::Current(q.rel), offset_after = q.offa, parse_with = parser_a::<_, 1>, try, if(q.c), args(q.arg ^ self_0.v().1))] u32, E<2>);
#[derive_binread]
#[br(import(q: Par))]
enum X002 { #[br(magic = 9u8, assert(q.k2), little, pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(temp, parse_with = parser::<_, 1>, is_little = q.big, map = |x: u32| mapf(x.v().1), assert(q.k0, "k0"), pad_size_to = q.sz, align_before = 4, magic = 7u8, align_after = 8, count = q.cnt, deref_now, assert(q.k1, Me(1)))] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X003 { #[br(assert(q.k2), magic = 9u8, pre_assert(q.k3), big)]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, postprocess_now, seek_before = SeekFrom::Current(q.rel), try, pad_size_to = q.sz, assert(q.k1, Me(1)), magic = 0x0102u16)] b: Option<E<1>>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X004 { #[br(assert(q.k2), big, pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(seek_before = SeekFrom::Start(q.to), align_before = 4, try_map = |x: A<1>| tmapf(x.v().1, &q), temp, pad_size_to = q.sz, offset = q.off, pad_after = q.pa, little, restore_position, if(q.c, q.alt), args_tuple = (q.arg,), align_after = 8, deref_now)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), magic = 9u8)]
struct X005 {
    a: E<0>,
    #[br(temp, pad_before = q.pb, seek_before = SeekFrom::Current(q.rel), is_big = q.big, try, pad_after = q.pa, align_after = 8, assert(q.k0), offset = q.off, offset_after = q.offa, magic = 0x0102u16, align_before = 4, parse_with = parser::<_, 1>, pad_size_to = q.sz, assert(q.k1, Me(1)))] b: Option<u32>,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(q: Par))]
struct X006(E<0>, #[br(args_tuple = (q.arg,), if(q.c), assert(q.k0, "k0"), try_map = |x: A<1>| tmapf(x.v().1, &q), big, count = q.cnt, seek_before = SeekFrom::Current(q.rel), pad_size_to = q.sz, restore_position, offset_after = q.offa)] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive_binread]
#[br(import(q: Par))]
enum X007 { #[br(big)]
    V {
        a: E<0>,
        #[br(restore_position, assert(q.k1, Me(1)), try, deref_now, align_before = 3, pad_before = q.pb, temp, if(q.c), align_after = 8, big, try_map = |x: Option<E<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) })] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X008 { #[br(little, assert(q.k2))]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, align_after = 8, seek_before = SeekFrom::Current(q.rel), magic = 7u8, try, big, align_before = 3, count = q.cnt, args(q.arg ^ a.v().1), map = |x: Option<A<1>>| mapo(x), deref_now)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), assert(q.k2), big)]
struct X009 {
    a: E<0>,
    #[br(align_before = 3, parse_with = parser_a::<_, 1>, big, magic = 0x0102u16, assert(q.k1, Me(1)), count = q.cnt, pad_after = q.pa, align_after = 8, offset = q.off, args(q.arg ^ a.v().1), temp, postprocess_now, seek_before = SeekFrom::Start(q.to), try_map = |x: u32| tmapf(x.v().1, &q))] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X010 { #[br(pre_assert(q.k3), big)]
    V {
        a: E<0>,
        #[br(try, pad_size_to = q.sz, if(q.c, q.alt), offset = q.off, align_after = 8, seek_before = SeekFrom::Start(q.to), align_before = 3, is_big = q.big, map = |x: Option<A<1>>| mapo(x), restore_position, args(q.arg ^ a.v().1), count = q.cnt, offset_after = q.offa, assert(q.k1, Me(1)))] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), magic = 9u8)]
struct X011(E<0>, #[br(postprocess_now, pad_after = q.pa, seek_before = SeekFrom::Start(q.to), align_after = 8, offset = q.off, assert(q.k0), if(q.c, q.alt), assert(q.k1, Me(1)), args(q.arg ^ self_0.v().1), is_big = q.big, try_map = |x: A<1>| tmapf(x.v().1, &q))] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive_binread]
#[br(import(q: Par))]
enum X012 { #[br(little)]
    V {
        a: E<0>,
        #[br(deref_now, pad_after = q.pa, offset = q.off, is_little = q.big, magic = 0x0102u16, try_map = |x: A<1>| tmapf(x.v().1, &q), pad_before = q.pb, temp, args_tuple = (q.arg,))] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X013 { #[br(pre_assert(q.k3), little)]
    V {
        a: E<0>,
        #[br(pad_after = q.pa, magic = 0x0102u16, seek_before = SeekFrom::Start(q.to), align_after = 8, parse_with = parser_a::<_, 1>, little, offset_after = q.offa, assert(q.k0), pad_before = q.pb, assert(q.k1, Me(1)), args(q.arg ^ a.v().1), align_before = 4)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), assert(q.k2), big, magic = 9u8)]
struct X014(E<0>, #[br(seek_before = SeekFrom::Start(q.to), align_before = 4, assert(q.k0, "k0"), pad_after = q.pa, calc = self_0.v().1 ^ q.arg, temp, try_map = |x: u32| tmapf(x.v().1, &q), if(q.c))] u32, E<2>);
#[derive(BinRead)]
#[br(import(q: Par), pre_assert(q.k3))]
struct X015 {
    a: E<0>,
    #[br(seek_before = SeekFrom::Current(q.rel), is_little = q.big, assert(q.k0), align_after = 8, offset = q.off, restore_position, if(q.c), args(q.arg ^ a.v().1), pad_before = q.pb, postprocess_now, try, align_before = 4)] b: Option<A<1>>,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3))]
struct X016 {
    a: E<0>,
    #[br(seek_before = SeekFrom::Start(q.to), temp, pad_before = q.pb, try, default, try_map = |x: Option<E<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, pad_after = q.pa, restore_position, pad_size_to = q.sz)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), little)]
struct X017(E<0>, #[br(count = q.cnt, assert(q.k1, Me(1)), seek_before = SeekFrom::Current(q.rel), magic = 7u8, offset_after = q.offa, try, align_before = 4, little)] Option<E<1>>, E<2>);
#[derive(BinRead)]
#[br(import(q: Par), pre_assert(q.k3), magic = 9u8, assert(q.k2))]
struct X018 {
    a: E<0>,
    #[br(postprocess_now, if(q.c, q.alt), pad_after = q.pa, map = |x: u32| mapf(x.v().1), pad_size_to = q.sz, align_before = 3, seek_before = SeekFrom::Current(q.rel), restore_position, parse_with = parser::<_, 1>)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X019 { #[br(magic = 9u8)]
    V {
        a: E<0>,
        #[br(if(q.c), pad_size_to = q.sz, map = |x: Option<u32>| mapo(x), pad_after = q.pa, count = q.cnt, little, restore_position, try, offset = q.off, parse_with = parser::<_, 1>, assert(q.k1, Me(1)), seek_before = SeekFrom::Start(q.to), postprocess_now)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X020 { #[br(big, assert(q.k2))]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, args_tuple = (q.arg,), pad_size_to = q.sz, big, assert(q.k0, "k0"), offset = q.off, temp, align_before = 3, magic = 7u8)] b: A<1>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X021 { #[br(magic = 9u8, pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(offset_after = q.offa, try, try_map = |x: Option<A<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, pad_after = q.pa, pad_before = q.pb, align_before = 4, args_tuple = (q.arg,), count = q.cnt, offset = q.off, assert(q.k1, Me(1)), is_little = q.big, magic = 7u8)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X022 { #[br(little, assert(q.k2), pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(offset = q.off, pad_after = q.pa, try, big, pad_before = q.pb, if(q.c, Some(E(q.alt))), count = q.cnt, postprocess_now, restore_position, align_before = 4, seek_before = SeekFrom::Current(q.rel))] b: Option<E<1>>,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), magic = 9u8, pre_assert(q.k3), assert(q.k2))]
struct X023(E<0>, #[br(pad_after = q.pa, map = |x: Option<A<1>>| mapo(x), count = q.cnt, args_tuple = (q.arg,), assert(q.k0), magic = 0x0102u16, pad_size_to = q.sz, pad_before = q.pb, align_before = 4, temp, try, is_big = q.big, deref_now)] u32, E<2>);
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X024 { #[br(magic = 9u8)]
    V {
        a: E<0>,
        #[br(align_before = 3, parse_with = parser_a::<_, 1>, map = |x: u32| mapf(x.v().1), deref_now, args(q.arg ^ a.v().1), magic = 7u8, seek_before = SeekFrom::Start(q.to), pad_size_to = q.sz, offset = q.off, assert(q.k0, "k0"), assert(q.k1, Me(1)), pad_before = q.pb)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X025 { #[br(assert(q.k2), little)]
    V {
        a: E<0>,
        #[br(pad_size_to = q.sz, restore_position, align_before = 3, count = q.cnt, if(q.c, q.alt), parse_with = parser::<_, 1>, try, map = |x: Option<u32>| mapo(x), little, align_after = 8, seek_before = SeekFrom::Current(q.rel), temp, assert(q.k0), pad_before = q.pb, offset_after = q.offa, offset = q.off, assert(q.k1, Me(1)))] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), big, magic = 9u8)]
struct X026 {
    a: E<0>,
    #[br(pad_size_to = q.sz, little, if(q.c, A(q.alt)), args(q.arg ^ a.v().1), restore_position, assert(q.k0, "k0"), deref_now, count = q.cnt)] b: A<1>,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X027 { #[br(big, pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(assert(q.k0), restore_position, assert(q.k1, Me(1)), pad_size_to = q.sz, count = q.cnt, map = |x: Option<u32>| mapo(x), if(q.c), parse_with = parser::<_, 1>, align_after = 8, try, temp, offset_after = q.offa)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X028 { #[br(pre_assert(q.k3), assert(q.k2))]
    V {
        a: E<0>,
        #[br(if(q.c), restore_position, pad_after = q.pa, args(q.arg ^ a.v().1), assert(q.k1, Me(1)), pad_size_to = q.sz, temp, postprocess_now, is_little = q.big, seek_before = SeekFrom::Start(q.to), count = q.cnt)] b: A<1>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), magic = 9u8, little, assert(q.k2))]
struct X029 {
    a: E<0>,
    #[br(restore_position, assert(q.k0), align_before = 4, if(q.c, q.alt), try, calc = a.v().1 ^ q.arg, assert(q.k1, Me(1)), temp, seek_before = SeekFrom::Current(q.rel), try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) })] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive_binread]
#[br(import(q: Par))]
enum X030 { #[br(big, magic = 9u8)]
    V {
        a: E<0>,
        #[br(pad_size_to = q.sz, is_little = q.big, magic = 7u8, pad_before = q.pb, map = |x: Option<u32>| mapo(x), temp, postprocess_now, pad_after = q.pa, parse_with = parser_a::<_, 1>, try, args(q.arg ^ a.v().1), align_after = 8)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), little, magic = 9u8, assert(q.k2))]
struct X031 {
    a: E<0>,
    #[br(map = |x: E<1>| mapf(x.v().1), assert(q.k0), pad_size_to = q.sz, offset = q.off, pad_before = q.pb, is_big = q.big, magic = 0x0102u16, temp, align_before = 3)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), magic = 9u8, little, assert(q.k2))]
struct X032(E<0>, #[br(align_after = 8, pad_size_to = q.sz, default, if(q.c), try_map = |x: Option<E<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, try, assert(q.k1, Me(1)), align_before = 4)] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive(BinRead)]
#[br(import(q: Par), pre_assert(q.k3), big, assert(q.k2))]
struct X033(E<0>, #[br(offset = q.off, align_before = 3, args(q.arg ^ self_0.v().1), seek_before = SeekFrom::Current(q.rel), magic = 0x0102u16, pad_after = q.pa, try, offset_after = q.offa)] Option<A<1>>, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive(BinRead)]
#[br(import(q: Par), little, assert(q.k2), pre_assert(q.k3))]
struct X034(E<0>, #[br(is_little = q.big, try_map = |x: u32| tmapf(x.v().1, &q), align_before = 3, parse_with = parser::<_, 1>, offset_after = q.offa, assert(q.k0, "k0"), magic = 7u8, count = q.cnt, seek_before = SeekFrom::Current(q.rel), align_after = 8)] u32, E<2>);
#[derive_binread]
#[br(import(q: Par), little, assert(q.k2))]
struct X035 {
    a: E<0>,
    #[br(assert(q.k0), align_before = 3, args_tuple = (q.arg,), postprocess_now, count = q.cnt, temp, if(q.c), seek_before = SeekFrom::Start(q.to), big, assert(q.k1, Me(1)), offset = q.off)] b: A<1>,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), big)]
struct X036(E<0>, #[br(is_big = q.big, map = |x: E<1>| mapf(x.v().1), align_after = 8, pad_size_to = q.sz, pad_before = q.pb, restore_position, count = q.cnt, offset = q.off, seek_before = SeekFrom::Current(q.rel), offset_after = q.offa, temp)] u32, E<2>);
#[derive_binread]
#[br(import(q: Par), assert(q.k2), little)]
struct X037 {
    a: E<0>,
    #[br(magic = 7u8, seek_before = SeekFrom::Start(q.to), pad_size_to = q.sz, count = q.cnt, align_after = 8, assert(q.k0), offset = q.off, try_map = |x: Option<E<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, temp, offset_after = q.offa, try)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), magic = 9u8, assert(q.k2), little)]
struct X038 {
    a: E<0>,
    #[br(pad_before = q.pb, if(q.c), args_tuple = (q.arg,), offset_after = q.offa, seek_before = SeekFrom::Start(q.to), is_little = q.big, try, map = |x: Option<A<1>>| mapo(x), restore_position, pad_after = q.pa, align_before = 4)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X039 { #[br(pre_assert(q.k3), magic = 9u8, little)]
    V {
        a: E<0>,
        #[br(align_after = 8, pad_after = q.pa, restore_position, seek_before = SeekFrom::Current(q.rel), if(q.c, q.alt), calc = a.v().1 ^ q.arg)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), magic = 9u8, little)]
struct X040(E<0>, #[br(assert(q.k0, "k0"), args(q.arg ^ self_0.v().1), temp, pad_size_to = q.sz, parse_with = parser_a::<_, 1>, pad_before = q.pb, offset_after = q.offa, align_before = 4, pad_after = q.pa, seek_before = SeekFrom::Start(q.to), offset = q.off, big, map = |x: u32| mapf(x.v().1), if(q.c, q.alt), restore_position, align_after = 8)] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive(BinRead)]
#[br(import(q: Par), assert(q.k2), little, magic = 9u8, pre_assert(q.k3))]
struct X041 {
    a: E<0>,
    #[br(count = q.cnt, is_big = q.big, deref_now, align_after = 8, pad_before = q.pb, seek_before = SeekFrom::Start(q.to), if(q.c), assert(q.k1, Me(1)))] b: E<1>,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X042 { #[br(magic = 9u8, big)]
    V {
        a: E<0>,
        #[br(try, align_before = 3, deref_now, magic = 0x0102u16, big, temp, pad_after = q.pa, parse_with = parser::<_, 1>, align_after = 8, seek_before = SeekFrom::Start(q.to), offset = q.off, count = q.cnt)] b: Option<u32>,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X043 { #[br(magic = 9u8, assert(q.k2))]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, seek_before = SeekFrom::Current(q.rel), try, map = |x: Option<E<1>>| mapo(x), ignore, align_after = 8, if(q.c, q.alt), align_before = 3, pad_after = q.pa, assert(q.k1, Me(1)), temp)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X044 { #[br(big, assert(q.k2), magic = 9u8, pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(align_before = 3, little, try, offset_after = q.offa, pad_before = q.pb, if(q.c), temp, args(q.arg ^ a.v().1), align_after = 8)] b: Option<A<1>>,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), big, assert(q.k2))]
struct X045(E<0>, #[br(try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, parse_with = parser::<_, 1>, offset = q.off, try, is_big = q.big, count = q.cnt, pad_before = q.pb, if(q.c, q.alt), assert(q.k0), temp, assert(q.k1, Me(1)), deref_now)] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive(BinRead)]
#[br(import(q: Par))]
enum X046 { #[br(assert(q.k2), big, pre_assert(q.k3), magic = 9u8)]
    V {
        a: E<0>,
        #[br(assert(q.k0, "k0"), if(q.c), try_map = |x: Option<A<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, is_big = q.big, pad_size_to = q.sz, postprocess_now, align_before = 4, try, count = q.cnt, args_tuple = (q.arg,))] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), big, magic = 9u8, pre_assert(q.k3))]
struct X047(E<0>, #[br(magic = 7u8, align_after = 8, assert(q.k1, Me(1)), args_tuple = (q.arg,), seek_before = SeekFrom::Current(q.rel), deref_now, pad_after = q.pa, map = |x: A<1>| mapf(x.v().1), align_before = 3, is_big = q.big)] u32, E<2>);
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X048 { #[br(pre_assert(q.k3), magic = 9u8, assert(q.k2))]
    V {
        a: E<0>,
        #[br(assert(q.k1, Me(1)), deref_now, if(q.c), pad_after = q.pa, try_map = |x: E<1>| tmapf(x.v().1, &q), align_after = 8, temp, align_before = 3, offset = q.off, restore_position, is_little = q.big)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X049 { #[br(pre_assert(q.k3), assert(q.k2), magic = 9u8)]
    V {
        a: E<0>,
        #[br(temp, seek_before = SeekFrom::Current(q.rel), try_map = |x: E<1>| tmapf(x.v().1, &q), count = q.cnt, magic = 0x0102u16, assert(q.k0), align_before = 4, postprocess_now, assert(q.k1, Me(1)), little)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3))]
struct X050(E<0>, #[br(map = |x: Option<u32>| mapo(x), temp, calc = self_0.v().1 ^ q.arg, align_before = 3, try, assert(q.k0, "k0"), pad_size_to = q.sz, if(q.c), align_after = 8)] u32, E<2>);
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), big)]
struct X051 {
    a: E<0>,
    #[br(magic = 7u8, temp, assert(q.k1, Me(1)), args(q.arg ^ a.v().1), pad_after = q.pa, pad_before = q.pb, big, offset_after = q.offa, parse_with = parser_a::<_, 1>, seek_before = SeekFrom::Start(q.to), map = |x: u32| mapf(x.v().1))] b: u32,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), big, pre_assert(q.k3))]
struct X052(E<0>, #[br(try_map = |x: u32| tmapf(x.v().1, &q), if(q.c, q.alt), pad_size_to = q.sz, restore_position, args(q.arg ^ self_0.v().1), assert(q.k0, "k0"), assert(q.k1, Me(1)), align_before = 3, parse_with = parser_a::<_, 1>, is_little = q.big, deref_now)] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive(BinRead)]
#[br(import(q: Par), big, magic = 9u8, pre_assert(q.k3), assert(q.k2))]
struct X053(E<0>, #[br(align_after = 8, pad_after = q.pa, seek_before = SeekFrom::Current(q.rel), pad_size_to = q.sz, assert(q.k0), assert(q.k1, Me(1)), args(q.arg ^ self_0.v().1), big, try, align_before = 4, magic = 0x0102u16, try_map = |x: Option<A<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, deref_now, pad_before = q.pb)] u32, E<2>);
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X054 { #[br(magic = 9u8, little)]
    V {
        a: E<0>,
        #[br(offset = q.off, magic = 0x0102u16, little, postprocess_now, args(q.arg ^ a.v().1), parse_with = parser_a::<_, 1>, try_map = |x: u32| tmapf(x.v().1, &q), count = q.cnt, assert(q.k0, "k0"))] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X055 { #[br(magic = 9u8, pre_assert(q.k3), assert(q.k2))]
    V {
        a: E<0>,
        #[br(map = |x: Option<E<1>>| mapo(x), assert(q.k0), seek_before = SeekFrom::Current(q.rel), try, restore_position, align_after = 8, ignore, pad_before = q.pb)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), big, magic = 9u8, assert(q.k2))]
struct X056 {
    a: E<0>,
    #[br(temp, magic = 7u8, count = q.cnt, align_before = 4, little, map = |x: A<1>| mapf(x.v().1), pad_size_to = q.sz, pad_before = q.pb, args(q.arg ^ a.v().1), seek_before = SeekFrom::Start(q.to), align_after = 8, postprocess_now)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X057 { #[br(pre_assert(q.k3), little)]
    V {
        a: E<0>,
        #[br(parse_with = parser_a::<_, 1>, try, pad_size_to = q.sz, is_big = q.big, deref_now, align_after = 8, seek_before = SeekFrom::Current(q.rel), offset = q.off, pad_after = q.pa, args(q.arg ^ a.v().1), restore_position, align_before = 4, assert(q.k1, Me(1)))] b: Option<u32>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X058 {
    V {
        a: E<0>,
        #[br(offset = q.off, assert(q.k0, "k0"), pad_after = q.pa, if(q.c, E(q.alt)), align_before = 4, is_little = q.big, pad_size_to = q.sz, align_after = 8, assert(q.k1, Me(1)), pad_before = q.pb, offset_after = q.offa)] b: E<1>,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), big, pre_assert(q.k3))]
struct X059 {
    a: E<0>,
    #[br(if(q.c), try, ignore, restore_position, assert(q.k1, Me(1)), seek_before = SeekFrom::Start(q.to), align_before = 4)] b: Option<E<1>>,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X060 { #[br(assert(q.k2), pre_assert(q.k3), big)]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, pad_after = q.pa, pad_size_to = q.sz, assert(q.k1, Me(1)), try, calc = a.v().1 ^ q.arg)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), pre_assert(q.k3))]
struct X061 {
    a: E<0>,
    #[br(count = q.cnt, pad_before = q.pb, seek_before = SeekFrom::Current(q.rel), magic = 7u8, assert(q.k0), try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, deref_now, try, little, parse_with = parser::<_, 1>, align_before = 4, offset = q.off, align_after = 8)] b: u32,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X062 { #[br(assert(q.k2), pre_assert(q.k3), big)]
    V {
        a: E<0>,
        #[br(map = |x: Option<A<1>>| mapo(x), restore_position, args_tuple = (q.arg,), pad_size_to = q.sz, assert(q.k0, "k0"), align_after = 8, pad_before = q.pb, offset_after = q.offa, count = q.cnt, assert(q.k1, Me(1)), pad_after = q.pa, if(q.c), big, offset = q.off, seek_before = SeekFrom::Current(q.rel), try)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X063 { #[br(pre_assert(q.k3), magic = 9u8)]
    V {
        a: E<0>,
        #[br(try, pad_before = q.pb, big, magic = 7u8, parse_with = parser::<_, 1>, count = q.cnt, temp, deref_now, pad_size_to = q.sz, seek_before = SeekFrom::Current(q.rel))] b: Option<u32>,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X064 { #[br(big, magic = 9u8, pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, try, if(q.c), pad_after = q.pa, temp, is_big = q.big, seek_before = SeekFrom::Start(q.to), assert(q.k0, "k0"), offset = q.off, assert(q.k1, Me(1)), restore_position, parse_with = parser::<_, 1>, align_before = 3, offset_after = q.offa)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
struct X065 {
    a: E<0>,
    #[br(try_map = |x: A<1>| tmapf(x.v().1, &q), assert(q.k1, Me(1)), offset_after = q.offa, offset = q.off, args(q.arg ^ a.v().1), pad_size_to = q.sz, align_after = 8, magic = 0x0102u16, align_before = 4, count = q.cnt, pad_before = q.pb)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), big)]
struct X066(E<0>, #[br(if(q.c, E(q.alt)), pad_before = q.pb, temp, align_after = 8, default, assert(q.k0, "k0"), seek_before = SeekFrom::Start(q.to), align_before = 3)] E<1>, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive_binread]
#[br(import(q: Par), magic = 9u8, little, assert(q.k2), pre_assert(q.k3))]
struct X067(E<0>, #[br(little, postprocess_now, magic = 7u8, args_tuple = (q.arg,), temp, pad_before = q.pb, offset = q.off, assert(q.k0), align_before = 4, assert(q.k1, Me(1)), pad_after = q.pa, try)] Option<A<1>>, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive_binread]
#[br(import(q: Par), assert(q.k2), magic = 9u8)]
struct X068(E<0>, #[br(offset = q.off, map = |x: A<1>| mapf(x.v().1), align_after = 8, magic = 0x0102u16, assert(q.k0, "k0"), temp, seek_before = SeekFrom::Current(q.rel), args(q.arg ^ self_0.v().1), offset_after = q.offa, assert(q.k1, Me(1)), is_little = q.big)] u32, E<2>);
#[derive_binread]
#[br(import(q: Par), magic = 9u8, little)]
struct X069(E<0>, #[br(temp, offset = q.off, postprocess_now, align_after = 8, magic = 0x0102u16, assert(q.k1, Me(1)), map = |x: E<1>| mapf(x.v().1), big, pad_after = q.pa)] u32, E<2>);
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X070 { #[br(big)]
    V {
        a: E<0>,
        #[br(count = q.cnt, offset = q.off, try, assert(q.k0, "k0"), pad_size_to = q.sz, seek_before = SeekFrom::Start(q.to), postprocess_now, is_big = q.big, pad_after = q.pa, map = |x: Option<E<1>>| mapo(x), restore_position, if(q.c), align_before = 3, align_after = 8)] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), assert(q.k2))]
struct X071(E<0>, #[br(pad_size_to = q.sz, args(q.arg ^ self_0.v().1), is_little = q.big, count = q.cnt, align_before = 3, restore_position, postprocess_now, align_after = 8, try, if(q.c), parse_with = parser_a::<_, 1>, seek_before = SeekFrom::Start(q.to))] Option<u32>, E<2>);
#[derive_binread]
#[br(import(q: Par))]
enum X072 { #[br(little)]
    V {
        a: E<0>,
        #[br(align_after = 8, default, restore_position, seek_before = SeekFrom::Current(q.rel), if(q.c, q.alt), try_map = |x: E<1>| tmapf(x.v().1, &q), align_before = 3, pad_size_to = q.sz, pad_after = q.pa, assert(q.k0, "k0"), temp)] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), assert(q.k2), big)]
struct X073(E<0>, #[br(pad_before = q.pb, postprocess_now, magic = 7u8, assert(q.k0), seek_before = SeekFrom::Start(q.to), assert(q.k1, Me(1)), is_little = q.big, offset = q.off, parse_with = parser::<_, 1>)] u32, E<2>);
#[derive(BinRead)]
#[br(import(q: Par), magic = 9u8, pre_assert(q.k3), assert(q.k2))]
struct X074 {
    a: E<0>,
    #[br(is_big = q.big, restore_position, align_before = 4, pad_before = q.pb, align_after = 8, count = q.cnt, args_tuple = (q.arg,), postprocess_now)] b: A<1>,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive_binread]
#[br(import(q: Par))]
enum X075 { #[br(big)]
    V {
        a: E<0>,
        #[br(seek_before = SeekFrom::Start(q.to), temp, pad_size_to = q.sz, calc = a.v().1 ^ q.arg, align_before = 3, restore_position, pad_before = q.pb, pad_after = q.pa)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), big, magic = 9u8, pre_assert(q.k3), assert(q.k2))]
struct X076 {
    a: E<0>,
    #[br(assert(q.k1, Me(1)), map = |x: Option<u32>| mapo(x), offset_after = q.offa, parse_with = parser::<_, 1>, little, magic = 0x0102u16, temp, align_after = 8, try, pad_before = q.pb)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X077 {
    V {
        a: E<0>,
        #[br(offset = q.off, pad_after = q.pa, try_map = |x: A<1>| tmapf(x.v().1, &q), seek_before = SeekFrom::Current(q.rel), if(q.c, q.alt), assert(q.k1, Me(1)), little, args_tuple = (q.arg,), align_before = 3, restore_position, offset_after = q.offa)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X078 { #[br(assert(q.k2))]
    V {
        a: E<0>,
        #[br(count = q.cnt, magic = 7u8, assert(q.k0, "k0"), offset = q.off, pad_before = q.pb, temp, is_big = q.big, pad_size_to = q.sz, pad_after = q.pa, deref_now, align_before = 3, align_after = 8)] b: E<1>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), big, pre_assert(q.k3))]
struct X079 {
    a: E<0>,
    #[br(map = |x: Option<A<1>>| mapo(x), assert(q.k0), pad_after = q.pa, if(q.c, q.alt), args_tuple = (q.arg,), count = q.cnt, align_after = 8, assert(q.k1, Me(1)), seek_before = SeekFrom::Current(q.rel), try, restore_position, postprocess_now, pad_size_to = q.sz)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), big)]
struct X080 {
    a: E<0>,
    #[br(parse_with = parser_a::<_, 1>, args(q.arg ^ a.v().1), align_before = 4, count = q.cnt, pad_before = q.pb, offset_after = q.offa, try, is_big = q.big, seek_before = SeekFrom::Current(q.rel), try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, magic = 0x0102u16)] b: u32,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par), big, magic = 9u8, assert(q.k2), pre_assert(q.k3))]
struct X081 {
    a: E<0>,
    #[br(args(q.arg ^ a.v().1), pad_size_to = q.sz, temp, try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, parse_with = parser_a::<_, 1>, try, seek_before = SeekFrom::Current(q.rel), restore_position, little, pad_before = q.pb, if(q.c), deref_now, count = q.cnt, offset = q.off, align_after = 8, pad_after = q.pa)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X082 { #[br(assert(q.k2), big)]
    V {
        a: E<0>,
        #[br(assert(q.k0, "k0"), calc = a.v().1 ^ q.arg, seek_before = SeekFrom::Current(q.rel), restore_position, align_after = 8, assert(q.k1, Me(1)), align_before = 4, map = |x: u32| mapf(x.v().1), pad_size_to = q.sz)] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X083 { #[br(little)]
    V {
        a: E<0>,
        #[br(try, assert(q.k0), deref_now, args(q.arg ^ a.v().1), seek_before = SeekFrom::Start(q.to), align_after = 8, big, if(q.c, q.alt), offset = q.off, align_before = 3, restore_position, pad_size_to = q.sz, try_map = |x: Option<A<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) })] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X084 { #[br(pre_assert(q.k3), little)]
    V {
        a: E<0>,
        #[br(try, pad_size_to = q.sz, count = q.cnt, temp, offset = q.off, map = |x: Option<u32>| mapo(x), deref_now, align_after = 8, assert(q.k0, "k0"), align_before = 4, assert(q.k1, Me(1)), magic = 0x0102u16, parse_with = parser_a::<_, 1>, args(q.arg ^ a.v().1))] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), big, pre_assert(q.k3), magic = 9u8)]
struct X085 {
    a: E<0>,
    #[br(seek_before = SeekFrom::Current(q.rel), align_before = 4, try, pad_after = q.pa, restore_position, temp, deref_now, map = |x: Option<E<1>>| mapo(x), align_after = 8, if(q.c, q.alt), assert(q.k0), is_little = q.big, count = q.cnt)] b: u32,
    #[br(args(b.v().1 ^ q.arg))] z: A<2>,
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X086 { #[br(magic = 9u8, little)]
    V {
        a: E<0>,
        #[br(args(q.arg ^ a.v().1), offset_after = q.offa, count = q.cnt, magic = 7u8, assert(q.k0, "k0"), map = |x: A<1>| mapf(x.v().1), offset = q.off)] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), assert(q.k2), big)]
struct X087(E<0>, #[br(try_map = |x: E<1>| tmapf(x.v().1, &q), assert(q.k0), pad_size_to = q.sz, ignore, assert(q.k1, Me(1)), restore_position)] u32, #[br(args(self_1.v().1 ^ q.arg))] A<2>);
#[derive(BinRead)]
#[br(import(q: Par))]
enum X088 { #[br(pre_assert(q.k3), magic = 9u8, assert(q.k2), big)]
    V {
        a: E<0>,
        #[br(align_before = 3, pad_before = q.pb, offset_after = q.offa, assert(q.k0, "k0"), parse_with = parser::<_, 1>, is_little = q.big, map = |x: u32| mapf(x.v().1), count = q.cnt, pad_size_to = q.sz, magic = 0x0102u16, seek_before = SeekFrom::Start(q.to))] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X089 { #[br(assert(q.k2))]
    V {
        a: E<0>,
        #[br(align_before = 4, offset_after = q.offa, try_map = |x: Option<E<1>>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, temp, is_big = q.big, try, offset = q.off, seek_before = SeekFrom::Start(q.to), pad_before = q.pb, magic = 0x0102u16)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X090 { #[br(assert(q.k2), magic = 9u8)]
    V {
        a: E<0>,
        #[br(deref_now, if(q.c), little, align_before = 4, pad_before = q.pb, restore_position, seek_before = SeekFrom::Current(q.rel), align_after = 8, try, parse_with = parser::<_, 1>, assert(q.k0, "k0"), temp)] b: Option<u32>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X091 { #[br(magic = 9u8)]
    V {
        a: E<0>,
        #[br(restore_position, pad_before = q.pb, try, if(q.c), align_before = 4, align_after = 8, calc = a.v().1 ^ q.arg, pad_size_to = q.sz, seek_before = SeekFrom::Start(q.to), temp, assert(q.k1, Me(1)))] b: Option<u32>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), pre_assert(q.k3), assert(q.k2))]
struct X092(E<0>, #[br(map = |x: E<1>| mapf(x.v().1), deref_now, seek_before = SeekFrom::Current(q.rel), temp, align_before = 3, pad_before = q.pb, assert(q.k1, Me(1)), if(q.c))] u32, E<2>);
#[derive_binread]
#[br(import(q: Par))]
enum X093 { #[br(magic = 9u8, assert(q.k2), little)]
    V {
        a: E<0>,
        #[br(assert(q.k1, Me(1)), args(q.arg ^ a.v().1), pad_size_to = q.sz, restore_position, if(q.c, Some(q.alt)), parse_with = parser_a::<_, 1>, offset = q.off, try, is_big = q.big, seek_before = SeekFrom::Start(q.to), temp, postprocess_now)] b: Option<u32>,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), magic = 9u8, little)]
struct X094 {
    a: E<0>,
    #[br(if(q.c, Some(A(q.alt))), args(q.arg ^ a.v().1), big, count = q.cnt, seek_before = SeekFrom::Current(q.rel), pad_before = q.pb, restore_position, try, temp, assert(q.k1, Me(1)), deref_now, align_before = 3, pad_after = q.pa)] b: Option<A<1>>,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X095 { #[br(assert(q.k2))]
    V {
        a: E<0>,
        #[br(big, offset_after = q.offa, temp, assert(q.k1, Me(1)), seek_before = SeekFrom::Current(q.rel), pad_before = q.pb, align_before = 4, restore_position, parse_with = parser::<_, 1>, align_after = 8, pad_size_to = q.sz, try_map = |x: u32| tmapf(x.v().1, &q), if(q.c, q.alt))] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X096 {
    V {
        a: E<0>,
        #[br(pad_size_to = q.sz, assert(q.k0, "k0"), pad_before = q.pb, align_after = 8, map = |x: E<1>| mapf(x.v().1), if(q.c, q.alt), count = q.cnt, pad_after = q.pa, little, seek_before = SeekFrom::Start(q.to), deref_now)] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), magic = 9u8, pre_assert(q.k3), little)]
struct X097 {
    a: E<0>,
    #[br(pad_after = q.pa, if(q.c), assert(q.k0), ignore, seek_before = SeekFrom::Current(q.rel), restore_position, assert(q.k1, Me(1)))] b: E<1>,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X098 { #[br(little)]
    V {
        a: E<0>,
        #[br(try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, try, align_before = 4, count = q.cnt, temp, pad_after = q.pa, parse_with = parser::<_, 1>, postprocess_now, assert(q.k0, "k0"), if(q.c))] b: u32,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X099 { #[br(assert(q.k2), magic = 9u8, pre_assert(q.k3), little)]
    V {
        a: E<0>,
        #[br(restore_position, pad_before = q.pb, try, args_tuple = (q.arg,), deref_now, offset = q.off, pad_size_to = q.sz, assert(q.k1, Me(1)), count = q.cnt, if(q.c, Some(A(q.alt))), is_little = q.big, seek_before = SeekFrom::Start(q.to))] b: Option<A<1>>,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), magic = 9u8, little, assert(q.k2))]
struct X100 {
    a: E<0>,
    #[br(try_map = |x: Option<u32>| if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }, pad_before = q.pb, calc = a.v().1 ^ q.arg, if(q.c, q.alt), temp, try, pad_size_to = q.sz, restore_position)] b: u32,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par))]
enum X101 { #[br(pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(count = q.cnt, offset = q.off, postprocess_now, map = |x: Option<A<1>>| mapo(x), pad_size_to = q.sz, magic = 0x0102u16, seek_before = SeekFrom::Start(q.to), try, temp, args_tuple = (q.arg,), align_before = 4)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X102 { #[br(little, pre_assert(q.k3), assert(q.k2))]
    V {
        a: E<0>,
        #[br(pad_size_to = q.sz, if(q.c), align_before = 4, temp, map = |x: Option<E<1>>| mapo(x), try, default, seek_before = SeekFrom::Start(q.to), align_after = 8)] b: u32,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par), return_unexpected_error)]
enum X103 { #[br(assert(q.k2), little)]
    V {
        a: E<0>,
        #[br(pad_size_to = q.sz, temp, magic = 7u8, seek_before = SeekFrom::Current(q.rel), is_big = q.big, try, count = q.cnt, pad_before = q.pb, args(q.arg ^ a.v().1), pad_after = q.pa)] b: Option<A<1>>,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), return_unexpected_error)]
enum X104 { #[br(pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(pad_before = q.pb, count = q.cnt, big, parse_with = parser_a::<_, 1>, assert(q.k0, "k0"), align_after = 8, args(q.arg ^ a.v().1), if(q.c), offset_after = q.offa, pad_size_to = q.sz, map = |x: u32| mapf(x.v().1), offset = q.off, assert(q.k1, Me(1)))] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), pre_assert(q.k3), magic = 9u8, little)]
struct X105 {
    a: E<0>,
    #[br(restore_position, if(q.c, q.alt), seek_before = SeekFrom::Start(q.to), assert(q.k0), map = |x: u32| mapf(x.v().1), pad_before = q.pb, calc = a.v().1 ^ q.arg, align_before = 3)] b: u32,
    z: E<2>,
}
#[derive_binread]
#[br(import(q: Par))]
enum X106 { #[br(assert(q.k2), pre_assert(q.k3), little)]
    V {
        a: E<0>,
        #[br(pad_size_to = q.sz, try, if(q.c), align_after = 8, align_before = 3, seek_before = SeekFrom::Current(q.rel), pad_after = q.pa, restore_position, args_tuple = (q.arg,), offset_after = q.offa, assert(q.k0, "k0"), temp)] b: Option<A<1>>,
        z: E<2>,
    },
}
#[derive_binread]
#[br(import(q: Par))]
enum X107 { #[br(assert(q.k2), pre_assert(q.k3), little)]
    V {
        a: E<0>,
        #[br(temp, align_before = 3, align_after = 8, pad_size_to = q.sz, args(q.arg ^ a.v().1), postprocess_now, if(q.c), little, map = |x: A<1>| mapf(x.v().1), assert(q.k0), assert(q.k1, Me(1)), pad_after = q.pa)] b: u32,
        #[br(args(b.v().1 ^ q.arg))] z: A<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par))]
enum X108 { #[br(pre_assert(q.k3))]
    V {
        a: E<0>,
        #[br(assert(q.k0, "k0"), parse_with = parser_a::<_, 1>, pad_size_to = q.sz, magic = 7u8, pad_after = q.pa, args(q.arg ^ a.v().1), seek_before = SeekFrom::Current(q.rel), offset_after = q.offa, count = q.cnt, assert(q.k1, Me(1)), align_before = 4, big, try)] b: Option<u32>,
        z: E<2>,
    },
}
#[derive(BinRead)]
#[br(import(q: Par), little, magic = 9u8)]
struct X109(E<0>, #[br(align_before = 4, pad_after = q.pa, seek_before = SeekFrom::Start(q.to), offset = q.off, try, if(q.c, q.alt), parse_with = parser::<_, 1>, map = |x: Option<u32>| mapo(x), pad_before = q.pb, restore_position, big, pad_size_to = q.sz)] u32, E<2>);

crate::contracts! { TAB;
    x000_pwa_opt_mag_pos_cond [10] { combo::<X000>(F { mode: PARSERA, en: 0, cnt: true, off: false, offa: false, now: false, mag: 0, sb: 0, pb: true, ab: 3, sz: false, pa: true, aa: 0, cond: 2, map: 0, tri: false, asr: 0, rp: true, temp: false, zarg: false, sen: 2, smag: 1, spre: false, sas: false, shape: 2 }, |x: &X000| match x { X000::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x001_pwa_opt_pos_cond_map_asr [10] { combo::<X001>(F { mode: PARSERA, en: 3, cnt: false, off: true, offa: true, now: false, mag: 0, sb: 2, pb: false, ab: 0, sz: false, pa: false, aa: 0, cond: 1, map: 1, tri: true, asr: 1, rp: false, temp: true, zarg: false, sen: 0, smag: 0, spre: true, sas: true, shape: 1 }, |x: &X001| (x.0.0, (true, 0), x.1.0)) }
    x002_pw_opt_mag_pos_map_asr [10] { combo::<X002>(F { mode: PARSER, en: 4, cnt: true, off: false, offa: false, now: true, mag: 1, sb: 0, pb: false, ab: 4, sz: true, pa: false, aa: 8, cond: 0, map: 1, tri: false, asr: 3, rp: false, temp: true, zarg: true, sen: 2, smag: 1, spre: true, sas: true, shape: 2 }, |x: &X002| match x { X002::V { a, z } => (a.0, (true, 0), z.0) }) }
    x003_n_opt_mag_pos_cond_asr_post [10] { combo::<X003>(F { mode: NORMAL, en: 0, cnt: false, off: false, offa: false, now: true, mag: 2, sb: 2, pb: true, ab: 0, sz: true, pa: false, aa: 0, cond: 0, map: 0, tri: true, asr: 2, rp: false, temp: false, zarg: true, sen: 1, smag: 1, spre: true, sas: true, shape: 3 }, |x: &X003| match x { X003::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x004_nt_opt_pos_cond_map_asr [10] { combo::<X004>(F { mode: TUPLE, en: 2, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 4, sz: true, pa: true, aa: 8, cond: 2, map: 2, tri: false, asr: 0, rp: true, temp: true, zarg: true, sen: 1, smag: 0, spre: true, sas: true, shape: 3 }, |x: &X004| match x { X004::V { a, z } => (a.0, (true, 0), z.0) }) }
    x005_pw_opt_mag_pos_cond_asr [10] { combo::<X005>(F { mode: PARSER, en: 3, cnt: false, off: true, offa: true, now: false, mag: 2, sb: 2, pb: true, ab: 4, sz: true, pa: true, aa: 8, cond: 0, map: 0, tri: true, asr: 3, rp: false, temp: true, zarg: false, sen: 0, smag: 1, spre: false, sas: false, shape: 0 }, |x: &X005| (x.a.0, (true, 0), x.z.0)) }
    x006_nt_opt_pos_cond_map_asr [10] { combo::<X006>(F { mode: TUPLE, en: 1, cnt: true, off: false, offa: true, now: false, mag: 0, sb: 2, pb: false, ab: 0, sz: true, pa: false, aa: 0, cond: 1, map: 2, tri: false, asr: 1, rp: true, temp: false, zarg: true, sen: 0, smag: 0, spre: false, sas: false, shape: 1 }, |x: &X006| (x.0.0, x.1.v(), x.2.0)) }
    x007_n_opt_pos_cond_map_asr [10] { combo::<X007>(F { mode: NORMAL, en: 1, cnt: false, off: false, offa: false, now: true, mag: 0, sb: 0, pb: true, ab: 3, sz: false, pa: false, aa: 8, cond: 1, map: 2, tri: true, asr: 2, rp: true, temp: true, zarg: true, sen: 1, smag: 0, spre: false, sas: false, shape: 2 }, |x: &X007| match x { X007::V { a, z } => (a.0, (true, 0), z.0) }) }
    x008_na_opt_mag_pos_cond_map_asr [10] { combo::<X008>(F { mode: ARGS, en: 1, cnt: true, off: false, offa: false, now: true, mag: 1, sb: 2, pb: true, ab: 3, sz: false, pa: false, aa: 8, cond: 0, map: 1, tri: true, asr: 0, rp: false, temp: false, zarg: false, sen: 2, smag: 0, spre: false, sas: true, shape: 3 }, |x: &X008| match x { X008::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x009_pwa_opt_mag_pos_map_asr [10] { combo::<X009>(F { mode: PARSERA, en: 1, cnt: true, off: true, offa: false, now: true, mag: 2, sb: 1, pb: false, ab: 3, sz: false, pa: true, aa: 8, cond: 0, map: 2, tri: false, asr: 2, rp: false, temp: true, zarg: true, sen: 1, smag: 0, spre: false, sas: true, shape: 0 }, |x: &X009| (x.a.0, (true, 0), x.z.0)) }
    x010_na_opt_pos_cond_map_asr [10] { combo::<X010>(F { mode: ARGS, en: 3, cnt: true, off: true, offa: true, now: false, mag: 0, sb: 1, pb: false, ab: 3, sz: true, pa: false, aa: 8, cond: 2, map: 1, tri: true, asr: 2, rp: true, temp: false, zarg: false, sen: 1, smag: 0, spre: true, sas: false, shape: 3 }, |x: &X010| match x { X010::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x011_na_opt_mag_pos_cond_map_asr [10] { combo::<X011>(F { mode: ARGS, en: 3, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 0, sz: false, pa: true, aa: 8, cond: 2, map: 2, tri: false, asr: 3, rp: false, temp: false, zarg: true, sen: 0, smag: 1, spre: false, sas: false, shape: 1 }, |x: &X011| (x.0.0, x.1.v(), x.2.0)) }
    x012_nt_opt_mag_pos_map [10] { combo::<X012>(F { mode: TUPLE, en: 4, cnt: false, off: true, offa: false, now: true, mag: 2, sb: 0, pb: true, ab: 0, sz: false, pa: true, aa: 0, cond: 0, map: 2, tri: false, asr: 0, rp: false, temp: true, zarg: false, sen: 2, smag: 0, spre: false, sas: false, shape: 2 }, |x: &X012| match x { X012::V { a, z } => (a.0, (true, 0), z.0) }) }
    x013_pwa_opt_mag_pos_asr [10] { combo::<X013>(F { mode: PARSERA, en: 2, cnt: false, off: false, offa: true, now: false, mag: 2, sb: 1, pb: true, ab: 4, sz: false, pa: true, aa: 8, cond: 0, map: 0, tri: false, asr: 3, rp: false, temp: false, zarg: true, sen: 2, smag: 0, spre: true, sas: false, shape: 2 }, |x: &X013| match x { X013::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x014_calc_opt_mag_pos_cond_map_asr [10] { combo::<X014>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: false, ab: 4, sz: false, pa: true, aa: 0, cond: 1, map: 2, tri: false, asr: 1, rp: false, temp: true, zarg: false, sen: 1, smag: 1, spre: false, sas: true, shape: 1 }, |x: &X014| (x.0.0, (true, 0), x.1.0)) }
    x015_na_opt_pos_cond_asr_post [10] { combo::<X015>(F { mode: ARGS, en: 4, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 2, pb: true, ab: 4, sz: false, pa: false, aa: 8, cond: 1, map: 0, tri: true, asr: 1, rp: true, temp: false, zarg: false, sen: 0, smag: 0, spre: true, sas: false, shape: 0 }, |x: &X015| (x.a.0, x.b.v(), x.z.0)) }
    x016_def_pos_cond_map_asr [10] { combo::<X016>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: true, ab: 0, sz: true, pa: true, aa: 0, cond: 0, map: 2, tri: true, asr: 0, rp: true, temp: true, zarg: true, sen: 0, smag: 0, spre: true, sas: false, shape: 0 }, |x: &X016| (x.a.0, (true, 0), x.z.0)) }
    x017_n_opt_mag_pos_cond_asr_post [10] { combo::<X017>(F { mode: NORMAL, en: 2, cnt: true, off: false, offa: true, now: false, mag: 1, sb: 2, pb: false, ab: 4, sz: false, pa: false, aa: 0, cond: 0, map: 0, tri: true, asr: 2, rp: false, temp: false, zarg: false, sen: 2, smag: 0, spre: false, sas: false, shape: 1 }, |x: &X017| (x.0.0, x.1.v(), x.2.0)) }
    x018_pw_mag_pos_cond_map_asr [10] { combo::<X018>(F { mode: PARSER, en: 0, cnt: false, off: false, offa: false, now: true, mag: 0, sb: 2, pb: false, ab: 3, sz: true, pa: true, aa: 0, cond: 2, map: 1, tri: false, asr: 0, rp: true, temp: false, zarg: true, sen: 0, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X018| (x.a.0, x.b.v(), x.z.0)) }
    x019_pw_opt_mag_pos_cond_map_asr [10] { combo::<X019>(F { mode: PARSER, en: 2, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 0, sz: true, pa: true, aa: 0, cond: 1, map: 1, tri: true, asr: 2, rp: true, temp: false, zarg: false, sen: 0, smag: 1, spre: false, sas: false, shape: 3 }, |x: &X019| match x { X019::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x020_nt_opt_mag_pos_asr_post [10] { combo::<X020>(F { mode: TUPLE, en: 1, cnt: false, off: true, offa: false, now: false, mag: 1, sb: 0, pb: true, ab: 3, sz: true, pa: false, aa: 0, cond: 0, map: 0, tri: false, asr: 1, rp: false, temp: true, zarg: true, sen: 1, smag: 0, spre: false, sas: true, shape: 3 }, |x: &X020| match x { X020::V { a, z } => (a.0, (true, 0), z.0) }) }
    x021_nt_opt_mag_pos_cond_map_asr [10] { combo::<X021>(F { mode: TUPLE, en: 4, cnt: true, off: true, offa: true, now: false, mag: 1, sb: 0, pb: true, ab: 4, sz: false, pa: true, aa: 0, cond: 0, map: 2, tri: true, asr: 2, rp: false, temp: false, zarg: true, sen: 0, smag: 1, spre: true, sas: false, shape: 3 }, |x: &X021| match x { X021::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x022_n_opt_pos_cond_asr_post [10] { combo::<X022>(F { mode: NORMAL, en: 1, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 2, pb: true, ab: 4, sz: false, pa: true, aa: 0, cond: 2, map: 0, tri: true, asr: 0, rp: true, temp: false, zarg: false, sen: 2, smag: 0, spre: true, sas: true, shape: 2 }, |x: &X022| match x { X022::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x023_nt_opt_mag_pos_cond_map_asr [10] { combo::<X023>(F { mode: TUPLE, en: 3, cnt: true, off: false, offa: false, now: true, mag: 2, sb: 0, pb: true, ab: 4, sz: true, pa: true, aa: 0, cond: 0, map: 1, tri: true, asr: 1, rp: false, temp: true, zarg: false, sen: 0, smag: 1, spre: true, sas: true, shape: 1 }, |x: &X023| (x.0.0, (true, 0), x.1.0)) }
    x024_pwa_opt_mag_pos_map_asr [10] { combo::<X024>(F { mode: PARSERA, en: 0, cnt: false, off: true, offa: false, now: true, mag: 1, sb: 1, pb: true, ab: 3, sz: true, pa: false, aa: 0, cond: 0, map: 1, tri: false, asr: 3, rp: false, temp: false, zarg: true, sen: 0, smag: 1, spre: false, sas: false, shape: 3 }, |x: &X024| match x { X024::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x025_pw_opt_pos_cond_map_asr [10] { combo::<X025>(F { mode: PARSER, en: 2, cnt: true, off: true, offa: true, now: false, mag: 0, sb: 2, pb: true, ab: 3, sz: true, pa: false, aa: 8, cond: 2, map: 1, tri: true, asr: 3, rp: true, temp: true, zarg: false, sen: 2, smag: 0, spre: false, sas: true, shape: 2 }, |x: &X025| match x { X025::V { a, z } => (a.0, (true, 0), z.0) }) }
    x026_na_opt_mag_pos_cond_asr_post [10] { combo::<X026>(F { mode: ARGS, en: 2, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 0, pb: false, ab: 0, sz: true, pa: false, aa: 0, cond: 2, map: 0, tri: false, asr: 1, rp: true, temp: false, zarg: true, sen: 1, smag: 1, spre: false, sas: false, shape: 0 }, |x: &X026| (x.a.0, x.b.v(), x.z.0)) }
    x027_pw_opt_pos_cond_map_asr [10] { combo::<X027>(F { mode: PARSER, en: 0, cnt: true, off: false, offa: true, now: false, mag: 0, sb: 0, pb: false, ab: 0, sz: true, pa: false, aa: 8, cond: 1, map: 1, tri: true, asr: 3, rp: true, temp: true, zarg: false, sen: 1, smag: 0, spre: true, sas: false, shape: 3 }, |x: &X027| match x { X027::V { a, z } => (a.0, (true, 0), z.0) }) }
    x028_na_opt_pos_cond_asr_post [10] { combo::<X028>(F { mode: ARGS, en: 4, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 0, sz: true, pa: true, aa: 0, cond: 1, map: 0, tri: false, asr: 2, rp: true, temp: true, zarg: true, sen: 0, smag: 0, spre: true, sas: true, shape: 2 }, |x: &X028| match x { X028::V { a, z } => (a.0, (true, 0), z.0) }) }
    x029_calc_opt_mag_pos_cond_map_asr [10] { combo::<X029>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: false, ab: 4, sz: false, pa: false, aa: 0, cond: 2, map: 2, tri: true, asr: 3, rp: true, temp: true, zarg: true, sen: 2, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X029| (x.a.0, (true, 0), x.z.0)) }
    x030_pwa_opt_mag_pos_cond_map [10] { combo::<X030>(F { mode: PARSERA, en: 4, cnt: false, off: false, offa: false, now: true, mag: 1, sb: 0, pb: true, ab: 0, sz: true, pa: true, aa: 8, cond: 0, map: 1, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 1, smag: 1, spre: false, sas: false, shape: 2 }, |x: &X030| match x { X030::V { a, z } => (a.0, (true, 0), z.0) }) }
    x031_n_opt_mag_pos_map_asr [10] { combo::<X031>(F { mode: NORMAL, en: 3, cnt: false, off: true, offa: false, now: false, mag: 2, sb: 0, pb: true, ab: 3, sz: true, pa: false, aa: 0, cond: 0, map: 1, tri: false, asr: 1, rp: false, temp: true, zarg: true, sen: 2, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X031| (x.a.0, (true, 0), x.z.0)) }
    x032_def_opt_mag_pos_cond_map_asr [10] { combo::<X032>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 0, pb: false, ab: 4, sz: true, pa: false, aa: 8, cond: 1, map: 2, tri: true, asr: 2, rp: false, temp: false, zarg: true, sen: 2, smag: 1, spre: false, sas: true, shape: 1 }, |x: &X032| (x.0.0, x.1.v(), x.2.0)) }
    x033_na_opt_mag_pos_cond_asr_post [10] { combo::<X033>(F { mode: ARGS, en: 0, cnt: false, off: true, offa: true, now: false, mag: 2, sb: 2, pb: false, ab: 3, sz: false, pa: true, aa: 0, cond: 0, map: 0, tri: true, asr: 0, rp: false, temp: false, zarg: true, sen: 1, smag: 0, spre: true, sas: true, shape: 1 }, |x: &X033| (x.0.0, x.1.v(), x.2.0)) }
    x034_pw_opt_mag_pos_map_asr [10] { combo::<X034>(F { mode: PARSER, en: 4, cnt: true, off: false, offa: true, now: false, mag: 1, sb: 2, pb: false, ab: 3, sz: false, pa: false, aa: 8, cond: 0, map: 2, tri: false, asr: 1, rp: false, temp: false, zarg: false, sen: 2, smag: 0, spre: true, sas: true, shape: 1 }, |x: &X034| (x.0.0, x.1.v(), x.2.0)) }
    x035_nt_opt_pos_cond_asr_post [10] { combo::<X035>(F { mode: TUPLE, en: 1, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 3, sz: false, pa: false, aa: 0, cond: 1, map: 0, tri: false, asr: 3, rp: false, temp: true, zarg: false, sen: 2, smag: 0, spre: false, sas: true, shape: 0 }, |x: &X035| (x.a.0, (true, 0), x.z.0)) }
    x036_n_opt_pos_map_asr [10] { combo::<X036>(F { mode: NORMAL, en: 3, cnt: true, off: true, offa: true, now: false, mag: 0, sb: 2, pb: true, ab: 0, sz: true, pa: false, aa: 8, cond: 0, map: 1, tri: false, asr: 0, rp: true, temp: true, zarg: false, sen: 1, smag: 0, spre: true, sas: false, shape: 1 }, |x: &X036| (x.0.0, (true, 0), x.1.0)) }
    x037_n_opt_mag_pos_cond_map_asr [10] { combo::<X037>(F { mode: NORMAL, en: 0, cnt: true, off: true, offa: true, now: false, mag: 1, sb: 1, pb: false, ab: 0, sz: true, pa: false, aa: 8, cond: 0, map: 2, tri: true, asr: 1, rp: false, temp: true, zarg: true, sen: 2, smag: 0, spre: false, sas: true, shape: 0 }, |x: &X037| (x.a.0, (true, 0), x.z.0)) }
    x038_nt_opt_mag_pos_cond_map_asr [10] { combo::<X038>(F { mode: TUPLE, en: 4, cnt: false, off: false, offa: true, now: false, mag: 0, sb: 1, pb: true, ab: 4, sz: false, pa: true, aa: 0, cond: 1, map: 1, tri: true, asr: 0, rp: true, temp: false, zarg: true, sen: 2, smag: 1, spre: false, sas: true, shape: 0 }, |x: &X038| (x.a.0, x.b.v(), x.z.0)) }
    x039_calc_opt_mag_pos_cond_asr [10] { combo::<X039>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: false, ab: 0, sz: false, pa: true, aa: 8, cond: 2, map: 0, tri: false, asr: 0, rp: true, temp: false, zarg: true, sen: 2, smag: 1, spre: true, sas: false, shape: 3 }, |x: &X039| match x { X039::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x040_pwa_opt_mag_pos_cond_map_asr [10] { combo::<X040>(F { mode: PARSERA, en: 1, cnt: false, off: true, offa: true, now: false, mag: 0, sb: 1, pb: true, ab: 4, sz: true, pa: true, aa: 8, cond: 2, map: 1, tri: false, asr: 1, rp: true, temp: true, zarg: true, sen: 2, smag: 1, spre: false, sas: false, shape: 1 }, |x: &X040| (x.0.0, (true, 0), x.1.0)) }
    x041_n_opt_mag_pos_cond_asr_post [10] { combo::<X041>(F { mode: NORMAL, en: 3, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 1, pb: true, ab: 0, sz: false, pa: false, aa: 8, cond: 1, map: 0, tri: false, asr: 2, rp: false, temp: false, zarg: false, sen: 2, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X041| (x.a.0, x.b.v(), x.z.0)) }
    x042_pw_opt_mag_pos_cond [10] { combo::<X042>(F { mode: PARSER, en: 1, cnt: true, off: true, offa: false, now: true, mag: 2, sb: 1, pb: false, ab: 3, sz: false, pa: true, aa: 8, cond: 0, map: 0, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 1, smag: 1, spre: false, sas: false, shape: 3 }, |x: &X042| match x { X042::V { a, z } => (a.0, (true, 0), z.0) }) }
    x043_def_mag_pos_cond_map_asr [10] { combo::<X043>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: true, ab: 3, sz: false, pa: true, aa: 8, cond: 2, map: 1, tri: true, asr: 2, rp: false, temp: true, zarg: true, sen: 0, smag: 1, spre: false, sas: true, shape: 3 }, |x: &X043| match x { X043::V { a, z } => (a.0, (true, 0), z.0) }) }
    x044_na_opt_mag_pos_cond_asr_post [10] { combo::<X044>(F { mode: ARGS, en: 2, cnt: false, off: false, offa: true, now: false, mag: 0, sb: 0, pb: true, ab: 3, sz: false, pa: false, aa: 8, cond: 1, map: 0, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 1, smag: 1, spre: true, sas: true, shape: 2 }, |x: &X044| match x { X044::V { a, z } => (a.0, (true, 0), z.0) }) }
    x045_pw_opt_pos_cond_map_asr [10] { combo::<X045>(F { mode: PARSER, en: 3, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 0, pb: true, ab: 0, sz: false, pa: false, aa: 0, cond: 2, map: 2, tri: true, asr: 3, rp: false, temp: true, zarg: true, sen: 1, smag: 0, spre: false, sas: true, shape: 1 }, |x: &X045| (x.0.0, (true, 0), x.1.0)) }
    x046_nt_opt_mag_pos_cond_map_asr [10] { combo::<X046>(F { mode: TUPLE, en: 3, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 0, pb: false, ab: 4, sz: true, pa: false, aa: 0, cond: 1, map: 2, tri: true, asr: 1, rp: false, temp: false, zarg: false, sen: 1, smag: 1, spre: true, sas: true, shape: 2 }, |x: &X046| match x { X046::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x047_nt_opt_mag_pos_map_asr [10] { combo::<X047>(F { mode: TUPLE, en: 3, cnt: false, off: false, offa: false, now: true, mag: 1, sb: 2, pb: false, ab: 3, sz: false, pa: true, aa: 8, cond: 0, map: 1, tri: false, asr: 2, rp: false, temp: false, zarg: false, sen: 1, smag: 1, spre: true, sas: false, shape: 1 }, |x: &X047| (x.0.0, x.1.v(), x.2.0)) }
    x048_n_opt_mag_pos_cond_map_asr [10] { combo::<X048>(F { mode: NORMAL, en: 4, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 0, pb: false, ab: 3, sz: false, pa: true, aa: 8, cond: 1, map: 2, tri: false, asr: 2, rp: true, temp: true, zarg: false, sen: 0, smag: 1, spre: true, sas: true, shape: 3 }, |x: &X048| match x { X048::V { a, z } => (a.0, (true, 0), z.0) }) }
    x049_n_opt_mag_pos_map_asr [10] { combo::<X049>(F { mode: NORMAL, en: 2, cnt: true, off: false, offa: false, now: true, mag: 2, sb: 2, pb: false, ab: 4, sz: false, pa: false, aa: 0, cond: 0, map: 2, tri: false, asr: 3, rp: false, temp: true, zarg: true, sen: 0, smag: 1, spre: true, sas: true, shape: 3 }, |x: &X049| match x { X049::V { a, z } => (a.0, (true, 0), z.0) }) }
    x050_calc_pos_cond_map_asr [10] { combo::<X050>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 0, pb: false, ab: 3, sz: true, pa: false, aa: 8, cond: 1, map: 1, tri: true, asr: 1, rp: false, temp: true, zarg: false, sen: 0, smag: 0, spre: true, sas: false, shape: 1 }, |x: &X050| (x.0.0, (true, 0), x.1.0)) }
    x051_pwa_opt_mag_pos_map_asr [10] { combo::<X051>(F { mode: PARSERA, en: 1, cnt: false, off: false, offa: true, now: false, mag: 1, sb: 1, pb: true, ab: 0, sz: false, pa: true, aa: 0, cond: 0, map: 1, tri: false, asr: 2, rp: false, temp: true, zarg: false, sen: 1, smag: 0, spre: true, sas: false, shape: 0 }, |x: &X051| (x.a.0, (true, 0), x.z.0)) }
    x052_pwa_opt_pos_cond_map_asr [10] { combo::<X052>(F { mode: PARSERA, en: 4, cnt: false, off: false, offa: false, now: true, mag: 0, sb: 0, pb: false, ab: 3, sz: true, pa: false, aa: 0, cond: 2, map: 2, tri: false, asr: 3, rp: true, temp: false, zarg: true, sen: 1, smag: 0, spre: true, sas: false, shape: 1 }, |x: &X052| (x.0.0, x.1.v(), x.2.0)) }
    x053_na_opt_mag_pos_cond_map_asr [10] { combo::<X053>(F { mode: ARGS, en: 1, cnt: false, off: false, offa: false, now: true, mag: 2, sb: 2, pb: true, ab: 4, sz: true, pa: true, aa: 8, cond: 0, map: 2, tri: true, asr: 3, rp: false, temp: false, zarg: false, sen: 1, smag: 1, spre: true, sas: true, shape: 1 }, |x: &X053| (x.0.0, x.1.v(), x.2.0)) }
    x054_pwa_opt_mag_map_asr [10] { combo::<X054>(F { mode: PARSERA, en: 2, cnt: true, off: true, offa: false, now: true, mag: 2, sb: 0, pb: false, ab: 0, sz: false, pa: false, aa: 0, cond: 0, map: 2, tri: false, asr: 1, rp: false, temp: false, zarg: true, sen: 2, smag: 1, spre: false, sas: false, shape: 3 }, |x: &X054| match x { X054::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x055_def_mag_pos_cond_map_asr [10] { combo::<X055>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: true, ab: 0, sz: false, pa: false, aa: 8, cond: 0, map: 1, tri: true, asr: 1, rp: true, temp: false, zarg: false, sen: 0, smag: 1, spre: true, sas: true, shape: 2 }, |x: &X055| match x { X055::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x056_na_opt_mag_pos_map_asr [10] { combo::<X056>(F { mode: ARGS, en: 2, cnt: true, off: false, offa: false, now: true, mag: 1, sb: 1, pb: true, ab: 4, sz: true, pa: false, aa: 8, cond: 0, map: 1, tri: false, asr: 0, rp: false, temp: true, zarg: true, sen: 1, smag: 1, spre: false, sas: true, shape: 0 }, |x: &X056| (x.a.0, (true, 0), x.z.0)) }
    x057_pwa_opt_pos_cond_asr [10] { combo::<X057>(F { mode: PARSERA, en: 3, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 2, pb: false, ab: 4, sz: true, pa: true, aa: 8, cond: 0, map: 0, tri: true, asr: 2, rp: true, temp: false, zarg: true, sen: 2, smag: 0, spre: true, sas: false, shape: 3 }, |x: &X057| match x { X057::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x058_n_opt_pos_cond_asr_post [10] { combo::<X058>(F { mode: NORMAL, en: 4, cnt: false, off: true, offa: true, now: false, mag: 0, sb: 0, pb: true, ab: 4, sz: true, pa: true, aa: 8, cond: 2, map: 0, tri: false, asr: 3, rp: false, temp: false, zarg: false, sen: 0, smag: 0, spre: false, sas: false, shape: 2 }, |x: &X058| match x { X058::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x059_def_opt_pos_cond_asr [10] { combo::<X059>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: false, ab: 4, sz: false, pa: false, aa: 0, cond: 1, map: 0, tri: true, asr: 2, rp: true, temp: false, zarg: false, sen: 1, smag: 0, spre: true, sas: false, shape: 0 }, |x: &X059| (x.a.0, x.b.v(), x.z.0)) }
    x060_calc_opt_pos_cond_map_asr [10] { combo::<X060>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 0, pb: true, ab: 0, sz: true, pa: true, aa: 0, cond: 0, map: 2, tri: true, asr: 2, rp: false, temp: false, zarg: true, sen: 1, smag: 0, spre: true, sas: true, shape: 2 }, |x: &X060| match x { X060::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x061_pw_opt_mag_pos_cond_map_asr [10] { combo::<X061>(F { mode: PARSER, en: 2, cnt: true, off: true, offa: false, now: true, mag: 1, sb: 2, pb: true, ab: 4, sz: false, pa: false, aa: 8, cond: 0, map: 2, tri: true, asr: 1, rp: false, temp: false, zarg: false, sen: 0, smag: 0, spre: true, sas: false, shape: 0 }, |x: &X061| (x.a.0, x.b.v(), x.z.0)) }
    x062_nt_opt_pos_cond_map_asr [10] { combo::<X062>(F { mode: TUPLE, en: 1, cnt: true, off: true, offa: true, now: false, mag: 0, sb: 2, pb: true, ab: 0, sz: true, pa: true, aa: 8, cond: 1, map: 1, tri: true, asr: 3, rp: true, temp: false, zarg: true, sen: 1, smag: 0, spre: true, sas: true, shape: 2 }, |x: &X062| match x { X062::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x063_pw_opt_mag_pos_cond_asr [10] { combo::<X063>(F { mode: PARSER, en: 1, cnt: true, off: false, offa: false, now: true, mag: 1, sb: 2, pb: true, ab: 0, sz: true, pa: false, aa: 0, cond: 0, map: 0, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 0, smag: 1, spre: true, sas: false, shape: 2 }, |x: &X063| match x { X063::V { a, z } => (a.0, (true, 0), z.0) }) }
    x064_pw_opt_mag_pos_cond_map_asr [10] { combo::<X064>(F { mode: PARSER, en: 3, cnt: false, off: true, offa: true, now: false, mag: 0, sb: 1, pb: false, ab: 3, sz: false, pa: true, aa: 0, cond: 1, map: 2, tri: true, asr: 3, rp: true, temp: true, zarg: true, sen: 1, smag: 1, spre: true, sas: false, shape: 2 }, |x: &X064| match x { X064::V { a, z } => (a.0, (true, 0), z.0) }) }
    x065_na_opt_mag_pos_map_asr [10] { combo::<X065>(F { mode: ARGS, en: 0, cnt: true, off: true, offa: true, now: false, mag: 2, sb: 0, pb: true, ab: 4, sz: true, pa: false, aa: 8, cond: 0, map: 2, tri: false, asr: 2, rp: false, temp: false, zarg: true, sen: 0, smag: 0, spre: false, sas: false, shape: 0 }, |x: &X065| (x.a.0, x.b.v(), x.z.0)) }
    x066_def_opt_pos_cond_asr [10] { combo::<X066>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: true, ab: 3, sz: false, pa: false, aa: 8, cond: 2, map: 0, tri: false, asr: 1, rp: false, temp: true, zarg: true, sen: 1, smag: 0, spre: true, sas: false, shape: 1 }, |x: &X066| (x.0.0, (true, 0), x.1.0)) }
    x067_nt_opt_mag_pos_cond_asr_post [10] { combo::<X067>(F { mode: TUPLE, en: 2, cnt: false, off: true, offa: false, now: true, mag: 1, sb: 0, pb: true, ab: 4, sz: false, pa: true, aa: 0, cond: 0, map: 0, tri: true, asr: 3, rp: false, temp: true, zarg: true, sen: 2, smag: 1, spre: true, sas: true, shape: 1 }, |x: &X067| (x.0.0, (true, 0), x.1.0)) }
    x068_na_opt_mag_pos_map_asr [10] { combo::<X068>(F { mode: ARGS, en: 4, cnt: false, off: true, offa: true, now: false, mag: 2, sb: 2, pb: false, ab: 0, sz: false, pa: false, aa: 8, cond: 0, map: 1, tri: false, asr: 3, rp: false, temp: true, zarg: false, sen: 0, smag: 1, spre: false, sas: true, shape: 1 }, |x: &X068| (x.0.0, (true, 0), x.1.0)) }
    x069_n_opt_mag_pos_map_asr [10] { combo::<X069>(F { mode: NORMAL, en: 1, cnt: false, off: true, offa: false, now: true, mag: 2, sb: 0, pb: false, ab: 0, sz: false, pa: true, aa: 8, cond: 0, map: 1, tri: false, asr: 2, rp: false, temp: true, zarg: false, sen: 2, smag: 1, spre: false, sas: false, shape: 1 }, |x: &X069| (x.0.0, (true, 0), x.1.0)) }
    x070_n_opt_pos_cond_map_asr [10] { combo::<X070>(F { mode: NORMAL, en: 3, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 3, sz: true, pa: true, aa: 8, cond: 1, map: 1, tri: true, asr: 1, rp: true, temp: false, zarg: false, sen: 1, smag: 0, spre: false, sas: false, shape: 3 }, |x: &X070| match x { X070::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x071_pwa_opt_pos_cond_asr [10] { combo::<X071>(F { mode: PARSERA, en: 4, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 3, sz: true, pa: false, aa: 8, cond: 1, map: 0, tri: true, asr: 0, rp: true, temp: false, zarg: false, sen: 0, smag: 0, spre: false, sas: true, shape: 1 }, |x: &X071| (x.0.0, x.1.v(), x.2.0)) }
    x072_def_opt_pos_cond_map_asr [10] { combo::<X072>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: false, ab: 3, sz: true, pa: true, aa: 8, cond: 2, map: 2, tri: false, asr: 1, rp: true, temp: true, zarg: false, sen: 2, smag: 0, spre: false, sas: false, shape: 2 }, |x: &X072| match x { X072::V { a, z } => (a.0, (true, 0), z.0) }) }
    x073_pw_opt_mag_pos_asr [10] { combo::<X073>(F { mode: PARSER, en: 4, cnt: false, off: true, offa: false, now: true, mag: 1, sb: 1, pb: true, ab: 0, sz: false, pa: false, aa: 0, cond: 0, map: 0, tri: false, asr: 3, rp: false, temp: false, zarg: false, sen: 1, smag: 0, spre: false, sas: true, shape: 1 }, |x: &X073| (x.0.0, x.1.v(), x.2.0)) }
    x074_nt_opt_mag_pos_asr_post [10] { combo::<X074>(F { mode: TUPLE, en: 3, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 0, pb: true, ab: 4, sz: false, pa: false, aa: 8, cond: 0, map: 0, tri: false, asr: 0, rp: true, temp: false, zarg: true, sen: 0, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X074| (x.a.0, x.b.v(), x.z.0)) }
    x075_calc_opt_pos [10] { combo::<X075>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: true, ab: 3, sz: true, pa: true, aa: 0, cond: 0, map: 0, tri: false, asr: 0, rp: true, temp: true, zarg: true, sen: 1, smag: 0, spre: false, sas: false, shape: 2 }, |x: &X075| match x { X075::V { a, z } => (a.0, (true, 0), z.0) }) }
    x076_pw_opt_mag_pos_cond_map_asr [10] { combo::<X076>(F { mode: PARSER, en: 2, cnt: false, off: false, offa: true, now: false, mag: 2, sb: 0, pb: true, ab: 0, sz: false, pa: false, aa: 8, cond: 0, map: 1, tri: true, asr: 2, rp: false, temp: true, zarg: true, sen: 1, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X076| (x.a.0, (true, 0), x.z.0)) }
    x077_nt_opt_pos_cond_map_asr [10] { combo::<X077>(F { mode: TUPLE, en: 2, cnt: false, off: true, offa: true, now: false, mag: 0, sb: 2, pb: false, ab: 3, sz: false, pa: true, aa: 0, cond: 2, map: 2, tri: false, asr: 2, rp: true, temp: false, zarg: true, sen: 0, smag: 0, spre: false, sas: false, shape: 3 }, |x: &X077| match x { X077::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x078_n_opt_mag_pos_asr_post [10] { combo::<X078>(F { mode: NORMAL, en: 3, cnt: true, off: true, offa: false, now: true, mag: 1, sb: 0, pb: true, ab: 3, sz: true, pa: true, aa: 8, cond: 0, map: 0, tri: false, asr: 1, rp: false, temp: true, zarg: true, sen: 0, smag: 0, spre: false, sas: true, shape: 2 }, |x: &X078| match x { X078::V { a, z } => (a.0, (true, 0), z.0) }) }
    x079_nt_opt_pos_cond_map_asr [10] { combo::<X079>(F { mode: TUPLE, en: 0, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 2, pb: false, ab: 0, sz: true, pa: true, aa: 8, cond: 2, map: 1, tri: true, asr: 3, rp: true, temp: false, zarg: true, sen: 1, smag: 0, spre: true, sas: false, shape: 0 }, |x: &X079| (x.a.0, x.b.v(), x.z.0)) }
    x080_pwa_opt_mag_pos_cond_map [10] { combo::<X080>(F { mode: PARSERA, en: 3, cnt: true, off: false, offa: true, now: false, mag: 2, sb: 2, pb: true, ab: 4, sz: false, pa: false, aa: 0, cond: 0, map: 2, tri: true, asr: 0, rp: false, temp: false, zarg: false, sen: 1, smag: 0, spre: false, sas: false, shape: 0 }, |x: &X080| (x.a.0, x.b.v(), x.z.0)) }
    x081_pwa_opt_mag_pos_cond_map_asr [10] { combo::<X081>(F { mode: PARSERA, en: 2, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 2, pb: true, ab: 0, sz: true, pa: true, aa: 8, cond: 1, map: 2, tri: true, asr: 0, rp: true, temp: true, zarg: true, sen: 1, smag: 1, spre: true, sas: true, shape: 0 }, |x: &X081| (x.a.0, (true, 0), x.z.0)) }
    x082_calc_opt_pos_map_asr [10] { combo::<X082>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: false, ab: 4, sz: true, pa: false, aa: 8, cond: 0, map: 1, tri: false, asr: 3, rp: true, temp: false, zarg: false, sen: 1, smag: 0, spre: false, sas: true, shape: 3 }, |x: &X082| match x { X082::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x083_na_opt_pos_cond_map_asr [10] { combo::<X083>(F { mode: ARGS, en: 1, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 3, sz: true, pa: false, aa: 8, cond: 2, map: 2, tri: true, asr: 1, rp: true, temp: false, zarg: false, sen: 2, smag: 0, spre: false, sas: false, shape: 3 }, |x: &X083| match x { X083::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x084_pwa_opt_mag_pos_cond_map_asr [10] { combo::<X084>(F { mode: PARSERA, en: 0, cnt: true, off: true, offa: false, now: true, mag: 2, sb: 0, pb: false, ab: 4, sz: true, pa: false, aa: 8, cond: 0, map: 1, tri: true, asr: 3, rp: false, temp: true, zarg: true, sen: 2, smag: 0, spre: true, sas: false, shape: 2 }, |x: &X084| match x { X084::V { a, z } => (a.0, (true, 0), z.0) }) }
    x085_n_opt_mag_pos_cond_map_asr [10] { combo::<X085>(F { mode: NORMAL, en: 4, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 2, pb: false, ab: 4, sz: false, pa: true, aa: 8, cond: 2, map: 1, tri: true, asr: 1, rp: true, temp: true, zarg: true, sen: 1, smag: 1, spre: true, sas: false, shape: 0 }, |x: &X085| (x.a.0, (true, 0), x.z.0)) }
    x086_na_opt_mag_map_asr [10] { combo::<X086>(F { mode: ARGS, en: 0, cnt: true, off: true, offa: true, now: false, mag: 1, sb: 0, pb: false, ab: 0, sz: false, pa: false, aa: 0, cond: 0, map: 1, tri: false, asr: 1, rp: false, temp: false, zarg: false, sen: 2, smag: 1, spre: false, sas: false, shape: 3 }, |x: &X086| match x { X086::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x087_def_opt_pos_map_asr [10] { combo::<X087>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 0, pb: false, ab: 0, sz: true, pa: false, aa: 0, cond: 0, map: 2, tri: false, asr: 3, rp: true, temp: false, zarg: true, sen: 1, smag: 0, spre: false, sas: true, shape: 1 }, |x: &X087| (x.0.0, x.1.v(), x.2.0)) }
    x088_pw_opt_mag_pos_map_asr [10] { combo::<X088>(F { mode: PARSER, en: 4, cnt: true, off: false, offa: true, now: false, mag: 2, sb: 1, pb: true, ab: 3, sz: true, pa: false, aa: 0, cond: 0, map: 1, tri: false, asr: 1, rp: false, temp: false, zarg: true, sen: 1, smag: 1, spre: true, sas: true, shape: 2 }, |x: &X088| match x { X088::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x089_n_opt_mag_pos_cond_map_asr [10] { combo::<X089>(F { mode: NORMAL, en: 3, cnt: false, off: true, offa: true, now: false, mag: 2, sb: 1, pb: true, ab: 4, sz: false, pa: false, aa: 0, cond: 0, map: 2, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 0, smag: 0, spre: false, sas: true, shape: 3 }, |x: &X089| match x { X089::V { a, z } => (a.0, (true, 0), z.0) }) }
    x090_pw_opt_mag_pos_cond_asr [10] { combo::<X090>(F { mode: PARSER, en: 2, cnt: false, off: false, offa: false, now: true, mag: 0, sb: 2, pb: true, ab: 4, sz: false, pa: false, aa: 8, cond: 1, map: 0, tri: true, asr: 1, rp: true, temp: true, zarg: true, sen: 0, smag: 1, spre: false, sas: true, shape: 3 }, |x: &X090| match x { X090::V { a, z } => (a.0, (true, 0), z.0) }) }
    x091_calc_mag_pos_cond_asr [10] { combo::<X091>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: true, ab: 4, sz: true, pa: false, aa: 8, cond: 1, map: 0, tri: true, asr: 2, rp: true, temp: true, zarg: true, sen: 0, smag: 1, spre: false, sas: false, shape: 2 }, |x: &X091| match x { X091::V { a, z } => (a.0, (true, 0), z.0) }) }
    x092_n_pos_cond_map_asr [10] { combo::<X092>(F { mode: NORMAL, en: 0, cnt: false, off: false, offa: false, now: true, mag: 0, sb: 2, pb: true, ab: 3, sz: false, pa: false, aa: 0, cond: 1, map: 1, tri: false, asr: 2, rp: false, temp: true, zarg: false, sen: 0, smag: 0, spre: true, sas: true, shape: 1 }, |x: &X092| (x.0.0, (true, 0), x.1.0)) }
    x093_pwa_opt_mag_pos_cond_asr [10] { combo::<X093>(F { mode: PARSERA, en: 3, cnt: false, off: true, offa: false, now: true, mag: 0, sb: 1, pb: false, ab: 0, sz: true, pa: false, aa: 0, cond: 2, map: 0, tri: true, asr: 2, rp: true, temp: true, zarg: true, sen: 2, smag: 1, spre: false, sas: true, shape: 2 }, |x: &X093| match x { X093::V { a, z } => (a.0, (true, 0), z.0) }) }
    x094_na_opt_mag_pos_cond_asr_post [10] { combo::<X094>(F { mode: ARGS, en: 1, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 2, pb: true, ab: 3, sz: false, pa: true, aa: 0, cond: 2, map: 0, tri: true, asr: 2, rp: true, temp: true, zarg: false, sen: 2, smag: 1, spre: false, sas: false, shape: 0 }, |x: &X094| (x.a.0, (true, 0), x.z.0)) }
    x095_pw_opt_pos_cond_map_asr [10] { combo::<X095>(F { mode: PARSER, en: 1, cnt: false, off: false, offa: true, now: false, mag: 0, sb: 2, pb: true, ab: 4, sz: true, pa: false, aa: 8, cond: 2, map: 2, tri: false, asr: 2, rp: true, temp: true, zarg: true, sen: 0, smag: 0, spre: false, sas: true, shape: 3 }, |x: &X095| match x { X095::V { a, z } => (a.0, (true, 0), z.0) }) }
    x096_n_opt_pos_cond_map_asr [10] { combo::<X096>(F { mode: NORMAL, en: 2, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 1, pb: true, ab: 0, sz: true, pa: true, aa: 8, cond: 2, map: 1, tri: false, asr: 1, rp: false, temp: false, zarg: false, sen: 0, smag: 0, spre: false, sas: false, shape: 2 }, |x: &X096| match x { X096::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x097_def_opt_mag_pos_cond_asr [10] { combo::<X097>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 2, pb: false, ab: 0, sz: false, pa: true, aa: 0, cond: 1, map: 0, tri: false, asr: 3, rp: true, temp: false, zarg: false, sen: 2, smag: 1, spre: true, sas: false, shape: 0 }, |x: &X097| (x.a.0, x.b.v(), x.z.0)) }
    x098_pw_opt_pos_cond_map_asr [10] { combo::<X098>(F { mode: PARSER, en: 0, cnt: true, off: false, offa: false, now: true, mag: 0, sb: 0, pb: false, ab: 4, sz: false, pa: true, aa: 0, cond: 1, map: 2, tri: true, asr: 1, rp: false, temp: true, zarg: false, sen: 2, smag: 0, spre: false, sas: false, shape: 3 }, |x: &X098| match x { X098::V { a, z } => (a.0, (true, 0), z.0) }) }
    x099_nt_opt_mag_pos_cond_asr_post [10] { combo::<X099>(F { mode: TUPLE, en: 4, cnt: true, off: true, offa: false, now: true, mag: 0, sb: 1, pb: true, ab: 0, sz: true, pa: false, aa: 0, cond: 2, map: 0, tri: true, asr: 2, rp: true, temp: false, zarg: false, sen: 2, smag: 1, spre: true, sas: true, shape: 3 }, |x: &X099| match x { X099::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x100_calc_opt_mag_pos_cond_map_asr [10] { combo::<X100>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 0, pb: true, ab: 0, sz: true, pa: false, aa: 0, cond: 2, map: 2, tri: true, asr: 0, rp: true, temp: true, zarg: false, sen: 2, smag: 1, spre: false, sas: true, shape: 0 }, |x: &X100| (x.a.0, (true, 0), x.z.0)) }
    x101_nt_opt_mag_pos_cond_map_asr [10] { combo::<X101>(F { mode: TUPLE, en: 0, cnt: true, off: true, offa: false, now: true, mag: 2, sb: 1, pb: false, ab: 4, sz: true, pa: false, aa: 0, cond: 0, map: 1, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 0, smag: 0, spre: true, sas: false, shape: 2 }, |x: &X101| match x { X101::V { a, z } => (a.0, (true, 0), z.0) }) }
    x102_def_opt_pos_cond_map_asr [10] { combo::<X102>(F { mode: DEFAULT, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: false, ab: 4, sz: true, pa: false, aa: 8, cond: 1, map: 1, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 2, smag: 0, spre: true, sas: true, shape: 3 }, |x: &X102| match x { X102::V { a, z } => (a.0, (true, 0), z.0) }) }
    x103_na_opt_mag_pos_cond_asr_post [10] { combo::<X103>(F { mode: ARGS, en: 3, cnt: true, off: false, offa: false, now: false, mag: 1, sb: 2, pb: true, ab: 0, sz: true, pa: true, aa: 0, cond: 0, map: 0, tri: true, asr: 0, rp: false, temp: true, zarg: false, sen: 2, smag: 0, spre: false, sas: true, shape: 3 }, |x: &X103| match x { X103::V { a, z } => (a.0, (true, 0), z.0) }) }
    x104_pwa_opt_pos_cond_map_asr [10] { combo::<X104>(F { mode: PARSERA, en: 1, cnt: true, off: true, offa: true, now: false, mag: 0, sb: 0, pb: true, ab: 0, sz: true, pa: false, aa: 8, cond: 1, map: 1, tri: false, asr: 3, rp: false, temp: false, zarg: true, sen: 0, smag: 0, spre: true, sas: false, shape: 3 }, |x: &X104| match x { X104::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x105_calc_opt_mag_pos_cond_map_asr [10] { combo::<X105>(F { mode: CALC, en: 0, cnt: false, off: false, offa: false, now: false, mag: 0, sb: 1, pb: true, ab: 3, sz: false, pa: false, aa: 0, cond: 2, map: 1, tri: false, asr: 1, rp: true, temp: false, zarg: false, sen: 2, smag: 1, spre: true, sas: false, shape: 0 }, |x: &X105| (x.a.0, x.b.v(), x.z.0)) }
    x106_nt_opt_pos_cond_asr_post [10] { combo::<X106>(F { mode: TUPLE, en: 0, cnt: false, off: false, offa: true, now: false, mag: 0, sb: 2, pb: false, ab: 3, sz: true, pa: true, aa: 8, cond: 1, map: 0, tri: true, asr: 1, rp: true, temp: true, zarg: false, sen: 2, smag: 0, spre: true, sas: true, shape: 2 }, |x: &X106| match x { X106::V { a, z } => (a.0, (true, 0), z.0) }) }
    x107_na_opt_pos_cond_map_asr [10] { combo::<X107>(F { mode: ARGS, en: 2, cnt: false, off: false, offa: false, now: true, mag: 0, sb: 0, pb: false, ab: 3, sz: true, pa: true, aa: 8, cond: 1, map: 1, tri: false, asr: 3, rp: false, temp: true, zarg: true, sen: 2, smag: 0, spre: true, sas: true, shape: 2 }, |x: &X107| match x { X107::V { a, z } => (a.0, (true, 0), z.0) }) }
    x108_pwa_opt_mag_pos_cond_asr [10] { combo::<X108>(F { mode: PARSERA, en: 1, cnt: true, off: false, offa: true, now: false, mag: 1, sb: 2, pb: false, ab: 4, sz: true, pa: true, aa: 0, cond: 0, map: 0, tri: true, asr: 3, rp: false, temp: false, zarg: false, sen: 0, smag: 0, spre: true, sas: false, shape: 2 }, |x: &X108| match x { X108::V { a, b, z } => (a.0, b.v(), z.0) }) }
    x109_pw_opt_mag_pos_cond_map [10] { combo::<X109>(F { mode: PARSER, en: 1, cnt: false, off: true, offa: false, now: false, mag: 0, sb: 1, pb: true, ab: 4, sz: true, pa: true, aa: 0, cond: 2, map: 1, tri: true, asr: 0, rp: true, temp: false, zarg: false, sen: 2, smag: 1, spre: false, sas: false, shape: 1 }, |x: &X109| (x.0.0, x.1.v(), x.2.0)) }
}
