//! C16: conditional and fallible fields.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::{derive_binread, BinRead, Error};

#[derive(BinRead)]
struct Iff {
    a: E<0>,
    #[br(if(a.0 & 1 == 1))]
    b: E<1>,
    #[br(if(a.0 & 4 == 4), map = |x: E<3>| Some(x.0))]
    d: Option<u32>,
    e: E<4>,
}
#[derive(BinRead)]
struct IfAlt {
    a: E<0>,
    #[br(if(a.0 & 2 == 2, E(eval(a.0 ^ 5))), pad_before = 4, align_after = 4)]
    c: E<2>,
    e: E<4>,
}
#[derive(BinRead)]
struct Tr {
    a: E<0>,
    #[br(try)]
    t: Option<E<1>>,
    #[br(try, parse_with = parser::<_, 5>)]
    p: Option<u32>,
    z: E<2>,
}
fn spec_tr(c: &mut Chk, o: &O) -> Sr<(u32, Option<u32>, Option<u32>, u32)> {
    let a = c.rd(0, o)?;
    let p1 = c.pos;
    let t = c.rd(1, o).ok();
    if t.is_none() {
        c.pos = p1;
    }
    let p2 = c.pos;
    let p = c.call(5, o).ok();
    if p.is_none() {
        c.pos = p2;
    }
    let z = c.rd(2, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    if let Some(v) = t {
        c.after(1, o, v)?;
    }
    c.after(2, o, z)?;
    c.pos = end;
    Ok((a, t, p, z))
}
#[derive(BinRead)]
struct TrIf {
    a: E<0>,
    #[br(if(a.0 == 1), try, pad_before = 2)]
    t: Option<E<1>>,
    #[br(try, map = |x: Option<E<2>>| x.map(|e| e.0 ^ 1))]
    m: Option<u32>,
    z: E<3>,
}
#[derive(BinRead)]
struct TrPrim {
    #[br(try)]
    t: Option<u32>,
    #[br(calc = 3)]
    k: u8,
}

contracts! { TAB;
    c16_if [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Iff::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut s = || -> Sr<(u32, u32, Option<u32>, u32)> {
                let a = c.rd(0, &o)?;
                let b = if a & 1 == 1 { c.rd(1, &o)? } else { 0 };
                let m = if a & 4 == 4 { Some(c.rd(3, &o)?) } else { None };
                let e = c.rd(4, &o)?;
                let end = c.pos;
                c.after(0, &o, a)?;
                // (whether an alternate that was not read is postprocessed is not specified)
                if a & 1 == 1 || g().ev[c.i % MAXEV].id == 1 { c.after(1, &o, b)?; }
                c.after(4, &o, e)?;
                c.pos = end;
                Ok((a, b, m, e))
            };
            let s = s();
            judge!("C16", &r, c, &s, |v, x| (v.a.0, v.b.0, v.d, v.e.0) == *x);
            reach!(r.is_ok() && s.is_ok_and(|x| x.2.is_none()), "field skipped");
        }
        forget(r);
    }
    c16_if_alternate [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = IfAlt::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut read = false;
            let mut s = || -> Sr<(u32, u32, u32)> {
                let a = c.rd(0, &o)?;
                read = a & 2 == 2;
                let d = if read {
                    c.pos += 4;
                    let d = c.rd(2, &o)?;
                    c.pos = (c.pos + 3) & !3;
                    d
                } else {
                    a ^ 5
                };
                let e = c.rd(4, &o)?;
                let end = c.pos;
                c.after(0, &o, a)?;
                if read || g().ev[c.i % MAXEV].id == 2 { c.after(2, &o, d)?; }
                c.after(4, &o, e)?;
                c.pos = end;
                Ok((a, d, e))
            };
            let s = s();
            judge!("C16", &r, c, &s, |v, x| (v.a.0, v.c.0, v.e.0) == *x);
            oblige!("C16", s.is_err() || g().evals == !read as u32, "the alternate is evaluated exactly when the field is not read");
            reach!(r.is_ok() && !read, "field skipped");
        }
        forget(r);
    }
    c16_try [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Tr::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let s = spec_tr(&mut c, &o);
            judge!("C16", &r, c, &s, |v, x| (v.a.0, v.t.map(|e| e.0), v.p, v.z.0) == *x);
            reach!(matches!(&s, Ok((_, None, Some(_), _))), "the first fails, the second does not");
            reach!(matches!(&s, Ok((_, Some(_), None, _))), "the second fails");
        }
        forget(r);
    }
    c16_try_mixed [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = TrIf::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut s = || -> Sr<(u32, Option<u32>, Option<u32>, u32)> {
                let a = c.rd(0, &o)?;
                let mut t = None;
                if a == 1 {
                    c.pos += 2;
                    let p = c.pos;
                    t = c.rd(1, &o).ok();
                    if t.is_none() { c.pos = p; }
                }
                let p = c.pos;
                let m = c.rd(2, &o).ok();
                if m.is_none() { c.pos = p; }
                let z = c.rd(3, &o)?;
                let end = c.pos;
                c.after(0, &o, a)?;
                if let Some(v) = t { c.after(1, &o, v)?; }
                c.after(3, &o, z)?;
                c.pos = end;
                Ok((a, t, m.map(|x| x ^ 1), z))
            };
            let s = s();
            judge!("C16", &r, c, &s, |v, x| (v.a.0, v.t.map(|e| e.0), v.m, v.z.0) == *x);
            reach!(matches!(&s, Ok((1, None, _, _))), "tried and failed");
            reach!(matches!(&s, Ok((1, Some(_), _, _))), "tried and succeeded");
        }
        forget(r);
    }
    c16_try_faults [8] {
        // real bytes, any reader
        let p0 = init();
        let o = O::nd();
        let le = g().win as u32;
        let v = if o.en == BIG { le.swap_bytes() } else { le };
        let r = TrPrim::read_options(&mut Rd, &o.real(), ());
        match &r {
            Ok(x) => {
                oblige!("C16", x.k == 3, "parsing continues");
                match x.t {
                    Some(t) => oblige!("C16", t == v && g().pos == p0 + 4, "what was read"),
                    None => oblige!("C16", faulted() && g().pos == p0, "None only if the read failed, with the reader back where the field started"),
                }
                reach!(x.t.is_none(), "None");
                reach!(x.t.is_some(), "Some");
            }
            Err(_) => {
                oblige!("C16", reported(&r), "only an error of the reader outside the fallible read is reported");
            }
        }
        forget(r);
    }
}
