//! C15: padding, alignment and positioning.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::io::SeekFrom;
use binread::{BinRead, BinResult};

/// Specification of one relative move, over mathematical integers: None if the reader rejects it.
fn mv(p: &mut i128, d: i128) -> Option<()> {
    let t = *p + d;
    if t < 0 || t > MAXPOS as i128 {
        return None;
    }
    *p = t;
    Some(())
}
fn align_up(p: i128, a: i128) -> i128 {
    let r = p % a;
    if r == 0 { 0 } else { a - r }
}
/// The calls of one read: `Ok(trace index, position)`; Err: a failing element, or a rejected move.
struct P {
    c: Chk,
    pos: i128,
    reject: bool,
}
impl P {
    fn new(p0: u64) -> P {
        P { c: Chk::new(p0), pos: p0 as i128, reject: false }
    }
    fn el(&mut self, id: u8, o: &O) -> Option<u32> {
        self.c.pos = self.pos as u64;
        let v = self.c.rd(id, o).ok();
        self.pos = self.c.pos as i128;
        v
    }
    fn go(&mut self, d: i128) -> Option<()> {
        let r = mv(&mut self.pos, d);
        self.reject = r.is_none();
        r
    }
    fn to(&mut self, t: i128) -> Option<()> {
        let d = t - self.pos;
        self.go(d)
    }
}
macro_rules! placed { ($t:ty, $args:expr, |$p:ident, $o:ident| $body:block) => {{
    let p0 = init();
    g().faults_on = false;
    let $o = O::nd();
    let r = <$t>::read_options(&mut Rd, &$o.real(), $args);
    let mut st = P::new(p0);
    let s = {
        let $p = &mut st;
        let $o = &$o;
        (|| -> Option<()> { $body; Some(()) })()
    };
    oblige!("C15", st.c.order && st.c.place, "every field is read where the directives put the reader");
    match s {
        Some(()) => {
            oblige!("C15", !faulted(), "no other position is visited");
            // what is left are the postprocessing steps
            oblige!("C15", r.is_err() || g().pos as i128 == st.pos, "the reader ends where the directives put it");
            reach!(r.is_ok(), "success");
        }
        None => {
            oblige!("C15", r.is_err() && g().n == st.c.i, "nothing is read after a failure");
            if st.reject {
                oblige!("C15", matches!(&r, Err(e) if err_is(e, &Se::Io(3))), "a position the reader rejects is reported");
            } else {
                oblige!("C15", !faulted(), "no other position is visited");
            }
            reach!(!st.reject, "failing element");
        }
    }
    forget(r);
    st.reject
}} }

#[derive(BinRead)]
#[br(import(pb: i64, pa: i64))]
struct Pad {
    a: E<0>,
    #[br(pad_before = pb, pad_after = pa)]
    b: E<1>,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(to: SeekFrom))]
struct Skb {
    #[br(seek_before = to)]
    b: E<1>,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(n: i64))]
struct Siz {
    #[br(pad_size_to = n)]
    b: E<1>,
    z: E<2>,
}
#[derive(BinRead)]
#[br(import(n: u32))]
struct SizP {
    #[br(pad_before = 3, pad_size_to = n, pad_after = 1)]
    b: E<1>,
    z: E<2>,
}
#[derive(BinRead)]
struct Rest {
    a: E<0>,
    #[br(restore_position)]
    b: E<1>,
    #[br(restore_position, seek_before = SeekFrom::Start(3), pad_after = 5)]
    c: E<2>,
    z: E<3>,
}
#[derive(BinRead)]
#[br(import(to: u64, pb: i64))]
struct All {
    a: E<0>,
    #[br(seek_before = SeekFrom::Start(to), pad_before = pb, align_before = 16, pad_size_to = 24, pad_after = 2, align_after = 4)]
    b: E<1>,
    z: E<2>,
}
#[derive(BinRead)]
enum Var {
    V {
        #[br(align_before = 4, pad_after = 7)]
        b: E<1>,
        #[br(pad_before = -2)]
        z: E<2>,
    },
}
macro_rules! aligns { ($($t:ident $h:ident $a:literal,)*) => {
    $(
        #[derive(BinRead)]
        struct $t {
            #[br(align_before = $a)]
            b: E<1>,
            #[br(align_after = $a)]
            c: E<2>,
            z: E<3>,
        }
        fn $h() -> bool {
            placed!($t, (), |p, o| {
                let d = align_up(p.pos, $a);
                p.go(d)?;
                p.el(1, o)?;
                p.el(2, o)?;
                let d = align_up(p.pos, $a);
                p.go(d)?;
                p.el(3, o)?;
            })
        }
    )*
} }
aligns! {
    A1 align1 1,
    A2 align2 2,
    A3 align3 3,
    A4 align4 4,
    A7 align7 7,
    A8 align8 8,
    A16 align16 16,
    A256 align256 256,
    A512 align512 0x200,
    A4096 align4096 4096,
    A40 align40 0x100_0000_0000,
    Amax alignmax 0x7FFF_FFFF_FFFF_FFFF,
}
#[derive(BinRead)]
#[br(import(n: i64))]
struct AlignAny {
    #[br(align_before = n)]
    b: E<1>,
    #[br(align_after = n)]
    c: E<2>,
    z: E<3>,
}

contracts! { TAB;
    c15_pad [8] {
        let (pb, pa) = (nd_i64(), nd_i64());
        let rej = placed!(Pad, (pb, pa), |p, o| {
            p.el(0, o)?;
            p.go(pb as i128)?;
            p.el(1, o)?;
            p.go(pa as i128)?;
            p.el(2, o)?;
        });
        reach!(rej && pb < 0, "position before the start");
        reach!(rej && pa > 0, "position beyond the end");
    }
    c15_seek_before [8] {
        let (k, s, d) = (nd_below(3), nd_u64(), nd_i64());
        let to = if k == 0 { SeekFrom::Start(s) } else if k == 1 { SeekFrom::Current(d) } else { SeekFrom::End(d) };
        let rej = placed!(Skb, (to,), |p, o| {
            let t = if k == 0 { s as i128 } else if k == 1 { p.pos + d as i128 } else { g().len as i128 + d as i128 };
            p.to(t)?;
            p.el(1, o)?;
            p.el(2, o)?;
        });
        reach!(rej, "rejected position");
    }
    c15_size [8] {
        let n = nd_i64();
        let rej = placed!(Siz, (n,), |p, o| {
            let p1 = p.pos;
            p.el(1, o)?;
            if p.pos - p1 < n as i128 {
                p.to(p1 + n as i128)?;
            }
            p.el(2, o)?;
        });
        reach!(rej, "rejected position");
    }
    c15_size_placed [8] {
        // the size counts from where the field itself starts, after its padding
        let n = nd_u32();
        let rej = placed!(SizP, (n,), |p, o| {
            p.go(3)?;
            let p1 = p.pos;
            p.el(1, o)?;
            if p.pos - p1 < n as i128 {
                p.to(p1 + n as i128)?;
            }
            p.go(1)?;
            p.el(2, o)?;
        });
        reach!(rej, "rejected position");
    }
    c15_restore [8] {
        let rej = placed!(Rest, (), |p, o| {
            p.el(0, o)?;
            let p1 = p.pos;
            p.el(1, o)?;
            p.to(p1)?;
            p.to(3)?;
            p.el(2, o)?;
            p.go(5)?;
            p.to(p1)?;
            p.el(3, o)?;
        });
        reach!(rej, "rejected position");
    }
    c15_combined [8] {
        let (to, pb) = (nd_u64(), nd_i64());
        let rej = placed!(All, (to, pb), |p, o| {
            p.el(0, o)?;
            p.to(to as i128)?;
            p.go(pb as i128)?;
            let d = align_up(p.pos, 16);
            p.go(d)?;
            let p1 = p.pos;
            p.el(1, o)?;
            if p.pos - p1 < 24 {
                p.to(p1 + 24)?;
            }
            p.go(2)?;
            let d = align_up(p.pos, 4);
            p.go(d)?;
            p.el(2, o)?;
        });
        reach!(rej, "rejected position");
    }
    c15_variant [8] {
        let p0 = init();
        g().faults_on = false;
        g().el_err = false;
        let o = O::nd();
        let r = Var::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let (b, z) = (g().ev[0], g().ev[1]);
            oblige!("C15", r.is_ok() && b.p0 % 4 == 0 && b.p0 >= p0 && b.p0 - p0 < 4, "fields of variants are aligned");
            oblige!("C15", z.p0 as i128 == b.p1 as i128 + 7 - 2 && g().pos == z.p1, "fields of variants are padded");
            reach!(true, "success");
        }
        forget(r);
    }
    c15_align1 [8] { reach!(!align1(), "aligned"); }
    c15_align2 [8] { reach!(align2(), "rejected position"); }
    c15_align3 [8] { reach!(align3(), "rejected position"); }
    c15_align4 [8] { reach!(align4(), "rejected position"); }
    /*thorough*/ c15_align7 [8] { reach!(align7(), "rejected position"); }
    c15_align8 [8] { reach!(align8(), "rejected position"); }
    c15_align16 [8] { reach!(align16(), "rejected position"); }
    c15_align256 [8] { reach!(align256(), "rejected position"); }
    c15_align512 [8] { reach!(align512(), "rejected position"); }
    c15_align4096 [8] { reach!(align4096(), "rejected position"); }
    c15_align40 [8] { reach!(align40(), "rejected position"); }
    c15_alignmax [8] { reach!(!alignmax(), "aligned"); }
    /*native*/ c15_align_any [8] {
        // every alignment at once: out of the solver's reach, sampled
        let n = (nd_i64() >> (nd_u8() & 63)).saturating_abs().max(1);
        placed!(AlignAny, (n,), |p, o| {
            let d = align_up(p.pos, n as i128);
            p.go(d)?;
            p.el(1, o)?;
            p.el(2, o)?;
            let d = align_up(p.pos, n as i128);
            p.go(d)?;
            p.el(3, o)?;
        });
    }
}
