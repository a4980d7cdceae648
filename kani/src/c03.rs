//! C03: fields of a derived type are read in declaration order, each where the previous one ended,
//! and each value lands in its own field; expressions and arguments see the earlier fields.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::{derive_binread, BinRead, BinResult, Error, ReadOptions};
use core::marker::PhantomData;

#[derive(BinRead)]
struct S3 {
    a: E<0>,
    b: E<1>,
    c: E<2>,
}
fn spec_s3(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32)> {
    let a = c.rd(0, o)?;
    let b = c.rd(1, o)?;
    let d = c.rd(2, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, o, b)?;
    c.after(2, o, d)?;
    c.pos = end;
    Ok((a, b, d))
}

#[derive(BinRead)]
struct Tup(E<0>, E<1>, #[br(calc = self_0.0 ^ self_1.0)] u32, PhantomData<u8>);
fn spec_tup(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32)> {
    let a = c.rd(0, o)?;
    let b = c.rd(1, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, o, b)?;
    c.pos = end;
    Ok((a, b, a ^ b))
}

#[derive_binread]
struct Temp {
    #[br(temp)]
    a: E<0>,
    b: E<1>,
    #[br(temp, args(a.0))]
    c: A<2>,
    #[br(args(c.0 ^ a.0))]
    d: A<3>,
}
fn spec_temp(c: &mut Chk, o: &O) -> Sr<(u32, u32)> {
    let a = c.rd(0, o)?;
    let b = c.rd(1, o)?;
    let t = c.rda(2, o, a)?;
    let d = c.rda(3, o, t ^ a)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, o, b)?;
    c.aftera(2, o, t, a)?;
    c.aftera(3, o, d, t ^ a)?;
    c.pos = end;
    Ok((b, d))
}

#[derive_binread]
struct TempTuple(E<0>, #[br(temp)] E<1>, #[br(args(self_1.0))] A<2>);
fn spec_temptuple(c: &mut Chk, o: &O) -> Sr<(u32, u32)> {
    let a = c.rd(0, o)?;
    let t = c.rd(1, o)?;
    let d = c.rda(2, o, t)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, o, t)?;
    c.aftera(2, o, d, t)?;
    c.pos = end;
    Ok((a, d))
}

#[derive(BinRead)]
#[br(import(x: u32, y: u32))]
struct Imp {
    #[br(calc = x.wrapping_mul(3))]
    p: u32,
    #[br(args(y))]
    a: A<0>,
    #[br(default)]
    d: E<9>,
    #[br(ignore)]
    i: E<8>,
    #[br(calc = a.0.wrapping_add(p))]
    q: u32,
    #[br(args_tuple = (q,))]
    b: A<1>,
}
fn spec_imp(c: &mut Chk, o: &O, x: u32, y: u32) -> Sr<(u32, u32, u32, u32, u32, u32)> {
    let p = x.wrapping_mul(3);
    let a = c.rda(0, o, y)?;
    let q = a.wrapping_add(p);
    let b = c.rda(1, o, q)?;
    let end = c.pos;
    c.aftera(0, o, a, y)?;
    c.aftera(1, o, b, q)?;
    c.pos = end;
    Ok((p, a, 0, 0, q, b))
}

#[derive(BinRead)]
#[br(import_tuple(z: (u32, u32)))]
struct ImpTuple {
    #[br(args(z.1))]
    a: A<0>,
    #[br(args_tuple = (z.0,))]
    b: A<1>,
}
fn spec_imptuple(c: &mut Chk, o: &O, z: (u32, u32)) -> Sr<(u32, u32)> {
    let a = c.rda(0, o, z.1)?;
    let b = c.rda(1, o, z.0)?;
    let end = c.pos;
    c.aftera(0, o, a, z.1)?;
    c.aftera(1, o, b, z.0)?;
    c.pos = end;
    Ok((a, b))
}

#[derive(BinRead)]
struct Pw {
    a: E<0>,
    #[br(parse_with = parser_a::<_, 4>, args(a.0))]
    b: u32,
    #[br(parse_with = parser::<_, 5>)]
    c: u32,
    d: E<1>,
}
fn spec_pw(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32, u32)> {
    let a = c.rd(0, o)?;
    let b = c.calla(4, o, a)?;
    let d = c.call(5, o)?;
    let e = c.rd(1, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, o, e)?;
    c.pos = end;
    Ok((a, b, d, e))
}

#[derive(BinRead)]
struct Gen<X: BinRead<Args = ()>, Y: BinRead<Args = (u32,)>> {
    x: X,
    #[br(args(77))]
    y: Y,
}
fn spec_gen(c: &mut Chk, o: &O) -> Sr<(u32, u32)> {
    let a = c.rd(0, o)?;
    let b = c.rda(1, o, 77)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.aftera(1, o, b, 77)?;
    c.pos = end;
    Ok((a, b))
}

#[derive(BinRead)]
struct Inner {
    a: E<0>,
}
#[derive(BinRead)]
#[br(import(k: u32))]
struct Inner2 {
    #[br(args(k))]
    a: A<1>,
}
#[derive(BinRead)]
struct Outer {
    i: Inner,
    #[br(args(i.a.0))]
    j: Inner2,
    e: E<2>,
}
/// a derived type resolves its own fields within its own read
fn spec_outer(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32)> {
    let a = c.rd(0, o)?;
    let e1 = c.pos;
    c.after(0, o, a)?;
    c.pos = e1;
    let b = c.rda(1, o, a)?;
    let e2 = c.pos;
    c.aftera(1, o, b, a)?;
    c.pos = e2;
    let d = c.rd(2, o)?;
    let e3 = c.pos;
    c.after(2, o, d)?;
    c.pos = e3;
    Ok((a, b, d))
}

// all kinds of variants of a data enum follow the same rules
#[derive_binread]
#[br(import(k: u32))]
enum Var {
    A {
        #[br(temp, args(k))]
        t: A<0>,
        #[br(args(t.0))]
        a: A<1>,
        #[br(calc = a.0 ^ k)]
        c: u32,
    },
    B(E<2>),
}

// more fields than a single-digit index counts: the tuple's places are numbers, not strings
#[derive_binread]
struct Wide(
    u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8,
    #[br(temp)] u8,
    u8,
    #[br(calc = self_2 ^ self_10 ^ self_11)] u8,
);
#[derive_binread]
enum WideVar {
    #[br(magic = 7u8)]
    A(
        u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8,
        #[br(temp)] u8,
        u8,
        #[br(calc = self_2 ^ self_10 ^ self_11)] u8,
    ),
    #[br(magic = 9u8)]
    B { z: u8, y: u8, #[br(temp)] t: u8, x: u8, a: u8, #[br(calc = y ^ t)] c: u8 },
}
fn byte(i: u32) -> u8 {
    (g().win >> (8 * i)) as u8
}

macro_rules! trace { ($p:literal, $t:ty, $args:expr, |$c:ident, $o:ident| $spec:expr, $same:expr) => {{
    let p0 = init();
    g().faults_on = false;
    let $o = O::nd();
    let r = <$t>::read_options(&mut Rd, &$o.real(), $args);
    if !faulted() {
        let mut c = Chk::new(p0);
        let s = { let $c = &mut c; let $o = &$o; $spec };
        judge!($p, &r, c, &s, $same);
        reach!(r.is_err(), "failure");
    }
    forget(r);
}} }

contracts! { TAB;
    c03_struct3 [8] {
        let p0 = init();
        let o = O::nd();
        let r = S3::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let s = spec_s3(&mut c, &o);
            judge!("C03", &r, c, &s, |v, x| (v.a.0, v.b.0, v.c.0) == *x);
            reach!(r.is_err(), "failure");
        } else {
            oblige!("C03", reported(&r), "a reader error is reported");
            reach!(true, "reader fault");
        }
        forget(r);
    }
    c03_tuple [8] { trace!("C03", Tup, (), |c, o| spec_tup(c, o), |v: &Tup, x| (v.0.0, v.1.0, v.2) == *x); }
    c03_temp [8] { trace!("C03", Temp, (), |c, o| spec_temp(c, o), |v: &Temp, x| (v.b.0, v.d.0) == *x); }
    c03_temp_tuple [8] { trace!("C03", TempTuple, (), |c, o| spec_temptuple(c, o), |v: &TempTuple, x| (v.0.0, v.1.0) == *x); }
    c03_imports [8] {
        let (x, y) = (nd_u32(), nd_u32());
        trace!("C03", Imp, (x, y), |c, o| spec_imp(c, o, x, y), |v: &Imp, x| (v.p, v.a.0, v.d.0, v.i.0, v.q, v.b.0) == *x);
    }
    c03_import_tuple [8] {
        let z = (nd_u32(), nd_u32());
        trace!("C03", ImpTuple, z, |c, o| spec_imptuple(c, o, z), |v: &ImpTuple, x| (v.a.0, v.b.0) == *x);
    }
    c03_parse_with [8] { trace!("C03", Pw, (), |c, o| spec_pw(c, o), |v: &Pw, x| (v.a.0, v.b, v.c, v.d.0) == *x); }
    c03_generic [8] { trace!("C03", Gen<E<0>, A<1>>, (), |c, o| spec_gen(c, o), |v: &Gen<E<0>, A<1>>, x| (v.x.0, v.y.0) == *x); }
    c03_nested [8] { trace!("C03", Outer, (), |c, o| spec_outer(c, o), |v: &Outer, x| (v.i.a.0, v.j.a.0, v.e.0) == *x); }
    c03_wide_tuple [18] {
        init();
        // sixteen bytes of any content; other places and failures are the business of the other contracts
        let p0 = 0;
        let h = g();
        h.faults_on = false;
        h.pos = 0;
        h.base = 0;
        h.len = 16;
        let o = O::nd();
        let r = Wide::read_options(&mut Rd, &o.real(), ());
        match &r {
            Ok(v) => {
                let got = [v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11];
                let mut i = 0;
                while i < 11 {
                    oblige!("C03", got[i] == byte(i as u32), "each value lands in its own place");
                    i += 1;
                }
                oblige!("C03", got[11] == byte(12), "temporary fields take no place");
                oblige!("C03", v.12 == byte(2) ^ byte(10) ^ byte(11), "expressions see the fields they name");
                oblige!("C03", g().pos == p0 + 13, "every field is read once, one after the other");
                reach!(true, "success");
            }
            Err(_) => oblige!("C03", false, "a reader that has the bytes is read"),
        }
        forget(r);
    }
    c03_wide_variant [18] {
        init();
        // sixteen bytes of any content; other places and failures are the business of the other contracts
        let p0 = 0;
        let h = g();
        h.faults_on = false;
        h.pos = 0;
        h.base = 0;
        h.len = 16;
        let o = O::nd();
        let r = WideVar::read_options(&mut Rd, &o.real(), ());
        match &r {
            Ok(WideVar::A(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)) => {
                let got = [*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11];
                let mut i = 0;
                while i < 11 {
                    oblige!("C03", got[i] == byte(i as u32 + 1), "each value lands in its own place");
                    i += 1;
                }
                oblige!("C03", byte(0) == 7 && got[11] == byte(13), "temporary fields take no place");
                oblige!("C03", *a12 == byte(3) ^ byte(11) ^ byte(12), "expressions see the fields they name");
                oblige!("C03", g().pos == p0 + 14, "every field is read once, one after the other");
                reach!(true, "tuple variant");
            }
            Ok(WideVar::B { z, y, x, a, c }) => {
                oblige!("C03", byte(0) == 9 && (*z, *y, *x, *a) == (byte(1), byte(2), byte(4), byte(5)), "each value lands in its own field");
                oblige!("C03", *c == byte(2) ^ byte(3), "expressions see the fields they name");
                oblige!("C03", g().pos == p0 + 6, "every field is read once, one after the other");
                reach!(true, "struct variant");
            }
            Err(_) => oblige!("C03", byte(0) != 7 && byte(0) != 9, "the variant of the magic is read"),
        }
        forget(r);
    }
    c03_variant [8] {
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        g().el_err = false;
        let o = O::nd();
        let r = Var::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut s = || -> Sr<(u32, u32)> {
                let t = c.rda(0, &o, k)?;
                let a = c.rda(1, &o, t)?;
                let end = c.pos;
                c.aftera(0, &o, t, k)?;
                c.aftera(1, &o, a, t)?;
                c.pos = end;
                Ok((a, a ^ k))
            };
            let s = s();
            judge!("C03", &r, c, &s, |v, x| match v { Var::A { a, c } => (a.0, *c) == *x, _ => false });
        }
        forget(r);
    }
}
