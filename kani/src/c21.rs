//! C21: hostile data. The obligations here are the implicit ones: no panic, no overflow, no
//! out-of-bounds access, on any data and any reader behaviour; a failure is an error value. The
//! native harnesses run under an allocator that refuses allocations out of proportion.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::io::SeekFrom;
use binread::punctuated::Punctuated;
use binread::{helpers, BinRead, BinReaderExt, BinResult, FilePtr, FilePtr16, FilePtr32, FilePtr64, NullString, NullWideString};
use core::num::NonZeroU8;

#[derive(BinRead)]
#[br(magic = 0x5Au8)]
struct Rec {
    tag: u8,
    #[br(count = tag & 1)]
    v: Vec<u8>,
    k: Jump,
    e: Padded,
}
#[derive(BinRead)]
#[br(magic = 0x5Au8)]
struct Counted {
    tag: u8,
    #[br(count = tag & 1)]
    v: Vec<u8>,
}
#[derive(BinRead)]
struct Jump {
    d: i8,
    #[br(if(d != 9), pad_before = d as i64 - 12, align_after = 8)]
    k: u16,
}
#[derive(BinRead)]
struct Padded {
    tag: u64,
    #[br(align_before = 4, pad_size_to = tag)]
    e: Op,
}
#[derive(BinRead)]
#[br(repr = u8)]
enum Op {
    A = 1,
    B = 0xFF,
}
#[derive(BinRead)]
enum Any {
    #[br(magic = 1u8)]
    P(FilePtr<i64, u8>),
    Q {
        #[br(try)]
        a: Option<u16>,
        #[br(assert(b != 0))]
        b: u8,
    },
    #[br(magic = b"xy")]
    U,
}
#[derive(BinRead)]
struct Ptr {
    p: FilePtr<u64, Op>,
    #[br(restore_position, seek_before = SeekFrom::Start(p.ptr))]
    q: u8,
}

macro_rules! survives { ($t:ty) => {{
    init();
    let o = O::nd();
    let r = <$t>::read_options(&mut Rd, &o.real(), ());
    oblige!("C21", true, "hostile data yields a value or an error");
    reach!(r.is_ok(), "value");
    reach!(r.is_err(), "error");
    forget(r);
}} }

contracts! { TAB;
    c21_counted [6] { survives!(Counted) }
    c21_jump [6] { survives!(Jump) }
    c21_sized [6] { survives!(Padded) }
    c21_enum [6] { survives!(Any) }
    c21_unit [6] { survives!(Op) }
    c21_ptr [6] { survives!(Ptr) }
    c21_ptr_i128 [6] { survives!(FilePtr<i128, ()>) }
    c21_resolve [6] {
        init();
        let o = O::nd();
        let mut p = FilePtr::<u64, Op> { ptr: nd_u64(), value: None };
        let r = p.after_parse(&mut Rd, &o.real(), ());
        oblige!("C21", r.is_err() || p.value.is_some(), "a pointer is resolved or an error is returned");
        reach!(r.is_err() && o.off > MAXPOS, "unreachable");
        reach!(r.is_ok(), "resolved");
        forget(r);
        forget(p);
    }
    /*native*/ c21_claims [6] {
        // the data merely claims to contain this much
        let n = nd_usize();
        let p0 = init();
        g().len = p0.saturating_add(nd_below(64) as u64);
        g().faults_on = nd_below(8) == 0;
        g().el_move = false;
        let o = O::nd().cnt(n).real();
        let bad = match nd_below(11) {
            0 => Vec::<u8>::read_options(&mut Rd, &o, ()).is_ok() && n > 64,
            1 => Vec::<u128>::read_options(&mut Rd, &o, ()).is_ok() && n > 64,
            2 => helpers::read_bytes(&mut Rd, &o, ()).is_ok() && n > 64,
            3 => helpers::count::<Rd, u64, (), Vec<u64>>(n)(&mut Rd, &o, ()).is_ok() && n > 64,
            4 => Punctuated::<u8, u8>::separated(&mut Rd, &o, ()).is_ok() && n > 64,
            5 => Punctuated::<u16, u8>::separated_trailing(&mut Rd, &o, ()).is_ok() && n > 64,
            6 => Vec::<FilePtr32<u8>>::read_options(&mut Rd, &o, ()).is_ok() && n > 64,
            7 => Vec::<(u8, [u32; 4])>::read_options(&mut Rd, &o, ()).is_ok() && n > 64,
            8 => { let _ = NullString::read_options(&mut Rd, &o, ()); false }
            9 => { let _ = NullWideString::read_options(&mut Rd, &o, ()); false }
            _ => { let r: BinResult<Vec<u16>> = helpers::until_eof(&mut Rd, &o, ()); let _ = r; false }
        };
        oblige!("C21", !bad, "data that is not there is not returned");
    }
    /*native*/ c21_native [6] {
        init();
        let o = O::nd().cnt(nd_below(4) as usize).real();
        match nd_below(12) {
            0 => { let _ = Rec::read_options(&mut Rd, &o, ()); }
            1 => { let _ = Any::read_options(&mut Rd, &o, ()); }
            2 => { let _ = Ptr::read_options(&mut Rd, &o, ()); }
            3 => { let _ = Rd.read_be::<FilePtr64<Vec<NonZeroU8>>>(); }
            4 => { let _ = Rd.read_le::<FilePtr16<Rec>>(); }
            5 => { let _ = Vec::<Any>::read_options(&mut Rd, &o, ()); }
            6 => { let _ = <[(u16, u8); 3]>::read_options(&mut Rd, &o, ()); }
            7 => { let _ = FilePtr::<i8, Rec>::parse(&mut Rd, &o, ()); }
            8 => { let _ = FilePtr::<u128, Any>::parse(&mut Rd, &o, ()); }
            9 => {
                // a string of any bytes can be shown
                let n = nd_below(9) as usize;
                let s = NullString((0..n).map(|_| nd_u8()).collect());
                let w = NullWideString((0..n).map(|_| nd_u16()).collect());
                let _ = (s.to_string(), format!("{:?} {:?}", s, w), s.into_string(), w.to_string());
            }
            10 => {
                if let Err(e) = Any::read_options(&mut Rd, &o, ()) { let _ = format!("{:?} {}", e, e); }
            }
            _ => { let _ = Rd.read_ne::<(Rec, Option<Any>, Box<Op>, char)>(); }
        }
        oblige!("C21", true, "hostile data yields a value or an error");
    }
}
