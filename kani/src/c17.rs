//! C17: map and try_map.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::io::{Error as IoError, ErrorKind};
use binread::{derive_binread, BinRead, BinResult, Error};

#[derive(Debug, PartialEq)]
struct Bad(u32);

#[derive(BinRead)]
struct Mp {
    a: E<0>,
    #[br(map = |x: E<1>| eval(x.0 ^ a.0), little, count = 6)]
    m: u32,
    #[br(map = |x: A<2>| (eval(x.0), m), args(m))]
    n: (u32, u32),
    z: E<3>,
}
fn spec_mp(c: &mut Chk, o: &O) -> Sr<(u32, u32, (u32, u32), u32)> {
    let a = c.rd(0, o)?;
    let m = c.rd(1, &o.en(LITTLE).cnt(6))? ^ a;
    let n = c.rda(2, o, m)?;
    let z = c.rd(3, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(3, o, z)?;
    c.pos = end;
    Ok((a, m, (n, m), z))
}
#[derive(BinRead)]
struct Tm {
    a: E<0>,
    #[br(pad_before = 1, try_map = |x: E<1>| if eval(x.0) < 9 { Ok(x.0 + 1) } else { Err(Bad(x.0)) })]
    m: u32,
    z: E<2>,
}
#[derive(BinRead)]
struct TmIo {
    #[br(try_map = |x: E<1>| if eval(x.0) < 9 { Ok(x.0 + 1) } else { Err(mk_io(if x.0 == 9 { 1 } else { 4 })) })]
    m: u32,
}
#[derive(BinRead)]
#[br(map = top_map, little)]
struct TopM(u32, u8);
fn top_map(x: E<0>) -> TopM {
    TopM(eval(x.0), 3)
}
#[derive(BinRead)]
#[br(try_map = top_try)]
struct TopT(u32);
fn top_try(x: E<0>) -> Result<TopT, Bad> {
    if eval(x.0) < 9 { Ok(TopT(x.0)) } else { Err(Bad(x.0 ^ 1)) }
}
#[derive(BinRead)]
#[br(try_map = top_try_io)]
enum TopTio {
    V(#[br(ignore)] u32),
    W,
}
fn top_try_io(x: E<0>) -> Result<TopTio, IoError> {
    if eval(x.0) < 9 { Ok(TopTio::V(x.0)) } else { Err(mk_io(5)) }
}
#[derive(BinRead)]
#[br(map = |x: E<0>| if x.0 == 1 { MEn::A } else { MEn::B })]
enum MEn {
    #[br(magic = 1u8)]
    A,
    #[br(magic = 2u8)]
    B,
}
#[derive(BinRead)]
#[br(magic = 0x55u8, import(k: u32), pre_assert(k == 4), map = |x: A<0>| TopDir(x.0))]
struct TopDir(u32);

fn custom(e: &Error, p: u64, v: u32) -> bool {
    match e {
        Error::Custom { pos, err } => *pos == p && err.downcast_ref::<Bad>().map_or(false, |b| b.0 == v),
        _ => false,
    }
}
fn ev_ok(i: usize) -> bool {
    g().n > i && g().ev[i].out == 0
}

contracts! { TAB;
    c17_map [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Mp::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let s = spec_mp(&mut c, &o);
            judge!("C17", &r, c, &s, |v, x| (v.a.0, v.m, v.n, v.z.0) == *x);
            oblige!("C17", g().evals == ev_ok(1) as u32 + ev_ok(2) as u32, "each function is applied exactly once to what was read, and not at all if the read fails");
            reach!(r.is_err(), "failure");
        }
        forget(r);
    }
    c17_try_map [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Tm::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut s = || -> Sr<(u32, u32, u32)> {
                let a = c.rd(0, &o)?;
                c.pos += 1;
                let at = c.pos;
                let m = c.rd(1, &o)?;
                if m >= 9 {
                    return Err(Se::Custom(at));
                }
                let z = c.rd(2, &o)?;
                let end = c.pos;
                c.after(0, &o, a)?;
                c.after(2, &o, z)?;
                c.pos = end;
                Ok((a, m + 1, z))
            };
            let s = s();
            judge!("C17", &r, c, &s, |v, x| (v.a.0, v.m, v.z.0) == *x);
            oblige!("C17", g().evals == ev_ok(1) as u32, "the function is applied exactly once to what was read, and not at all if the read fails");
            if let (Err(e), Err(Se::Custom(at))) = (&r, &s) {
                oblige!("C17", custom(e, *at, g().ev[1].val), "an error of the function is carried by Error::Custom");
                reach!(true, "the function fails");
            }
        }
        forget(r);
    }
    c17_try_map_io [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = TmIo::read_options(&mut Rd, &o.real(), ());
        if !faulted() && ev_ok(0) {
            let v = g().ev[0].val;
            oblige!("C17", g().evals == 1 && g().n == 1, "the function is applied exactly once");
            if v < 9 {
                oblige!("C17", matches!(&r, Ok(x) if x.m == v + 1), "the function's result is the value");
                reach!(true, "success");
            } else {
                oblige!("C17", matches!(&r, Err(e) if err_is(e, &Se::Io(if v == 9 { 1 } else { 4 }))), "an I/O error of the function is an Error::Io");
                reach!(true, "the function fails");
            }
        }
        forget(r);
    }
    c17_top_map [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = TopM::read_options(&mut Rd, &o.real(), ());
        let mut c = Chk::new(p0);
        let s = c.rd(0, &o.en(LITTLE));
        judge!("C17", &r, c, &s, |v, x| v.0 == *x && v.1 == 3);
        oblige!("C17", g().evals == ev_ok(0) as u32, "the function is applied exactly once to what was read, and not at all if the read fails");
        reach!(r.is_err(), "failure");
        forget(r);
    }
    c17_top_try_map [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = TopT::read_options(&mut Rd, &o.real(), ());
        oblige!("C17", g().n == 1 && g().ev[0].p0 == p0 && g().ev[0].en == o.en && g().ev[0].cnt == o.cnt && g().ev[0].off == o.off, "the argument is read, with the caller's options");
        oblige!("C17", g().evals == ev_ok(0) as u32, "the function is applied exactly once to what was read, and not at all if the read fails");
        let v = g().ev[0].val;
        match &r {
            Ok(x) => oblige!("C17", ev_ok(0) && v < 9 && x.0 == v && g().pos == g().ev[0].p1, "the function's result is the value"),
            Err(e) => oblige!("C17", if ev_ok(0) { v >= 9 && custom(e, p0, v ^ 1) } else { err_is(e, &Se::El(0)) }, "the function's error with the item's position, or the read's unchanged"),
        }
        reach!(r.is_ok(), "success");
        reach!(ev_ok(0) && r.is_err(), "the function fails");
        reach!(!ev_ok(0), "the read fails");
        forget(r);
    }
    c17_top_try_map_io [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = TopTio::read_options(&mut Rd, &o.real(), ());
        oblige!("C17", g().n == 1, "the argument is read");
        oblige!("C17", g().evals == ev_ok(0) as u32, "the function is applied exactly once to what was read, and not at all if the read fails");
        let v = g().ev[0].val;
        match &r {
            Ok(x) => oblige!("C17", ev_ok(0) && v < 9 && matches!(x, TopTio::V(y) if *y == v), "the function's result is the value"),
            Err(e) => oblige!("C17", if ev_ok(0) { v >= 9 && err_is(e, &Se::Io(5)) } else { err_is(e, &Se::El(0)) }, "the function's I/O error, or the read's unchanged"),
        }
        reach!(r.is_ok(), "success");
        reach!(ev_ok(0) && r.is_err(), "the function fails");
        forget(r);
    }
    c17_top_map_enum [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = MEn::read_options(&mut Rd, &o.real(), ());
        let mut c = Chk::new(p0);
        let s = c.rd(0, &o);
        judge!("C17", &r, c, &s, |v, x| matches!(v, MEn::A) == (*x == 1));
        forget(r);
    }
    c17_top_directives [8] {
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let m = g().win as u8;
        let r = TopDir::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            if m != 0x55 {
                oblige!("C17", g().n == 0 && matches!(&r, Err(Error::BadMagic { .. })), "the type's own magic applies");
                reach!(true, "magic");
            } else if k != 4 {
                oblige!("C17", g().n == 0 && matches!(&r, Err(Error::AssertFail { .. })), "the type's own pre_assert applies");
                reach!(true, "pre_assert");
            } else {
                oblige!("C17", g().n == 1 && g().ev[0].p0 == p0 + 1, "the argument follows the magic");
                oblige!("C17", match &r { Ok(x) => ev_ok(0) && x.0 == g().ev[0].val, Err(e) => err_is(e, &Se::El(0)) }, "the function's result is the value");
                reach!(r.is_ok(), "success");
            }
        }
        forget(r);
    }
}
