//! C04: byte order precedence, and how the other options reach nested reads.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::{derive_binread, BinRead, BinReaderExt, Endian};

#[derive(BinRead)]
struct Pass {
    a: E<0>,
    #[br(count = a.0)]
    b: E<1>,
    #[br(offset = 9)]
    c: E<2>,
    d: E<3>,
}
fn spec_pass(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32, u32)> {
    let a = c.rd(0, o)?;
    let ob = o.cnt(a as usize);
    let b = c.rd(1, &ob)?;
    let oc = o.off(9);
    let d = c.rd(2, &oc)?;
    let e = c.rd(3, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, &ob, b)?;
    c.after(2, &oc, d)?;
    c.after(3, o, e)?;
    c.pos = end;
    Ok((a, b, d, e))
}

#[derive(BinRead)]
#[br(big)]
struct Bg {
    a: E<0>,
    #[br(little)]
    b: E<1>,
    #[br(is_big = a.0 == 1)]
    c: E<2>,
    d: E<3>,
}
#[derive(BinRead)]
#[br(little)]
struct Lt(E<0>, #[br(big, count = 5)] E<1>, #[br(is_little = self_0.0 == 1)] E<2>, E<3>);
fn spec_bl(c: &mut Chk, o: &O, top: u8, cnt: Option<usize>, cond: u8) -> Sr<(u32, u32, u32, u32)> {
    let o = &o.en(top);
    let inv = |e: u8| if e == BIG { LITTLE } else { BIG };
    let a = c.rd(0, o)?;
    let mut ob = o.en(inv(top));
    if let Some(n) = cnt {
        ob = ob.cnt(n);
    }
    let b = c.rd(1, &ob)?;
    let oc = o.en(if a == 1 { cond } else { inv(cond) });
    let d = c.rd(2, &oc)?;
    let e = c.rd(3, o)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(1, &ob, b)?;
    c.after(2, &oc, d)?;
    c.after(3, o, e)?;
    c.pos = end;
    Ok((a, b, d, e))
}

#[derive(BinRead)]
struct Inh {
    #[br(is_big = true)]
    a: E<0>,
    #[br(is_little = a.0 > 7)]
    b: E<1>,
    c: E<2>,
}
fn spec_inh(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32)> {
    let oa = o.en(BIG);
    let a = c.rd(0, &oa)?;
    let ob = o.en(if a > 7 { LITTLE } else { BIG });
    let b = c.rd(1, &ob)?;
    let d = c.rd(2, o)?;
    let end = c.pos;
    c.after(0, &oa, a)?;
    c.after(1, &ob, b)?;
    c.after(2, o, d)?;
    c.pos = end;
    Ok((a, b, d))
}

#[derive(BinRead)]
#[br(big)]
enum EnB {
    #[br(little)]
    A {
        a: E<0>,
        #[br(big)]
        b: E<1>,
    },
    B(E<2>),
}
fn spec_enb(c: &mut Chk, o: &O, p0: u64) -> Sr<(u8, u32, u32)> {
    let l = o.en(LITTLE);
    let b = o.en(BIG);
    let mut va = || -> Sr<(u8, u32, u32)> {
        let x = c.rd(0, &l)?;
        let y = c.rd(1, &b)?;
        let end = c.pos;
        c.after(0, &l, x)?;
        c.after(1, &b, y)?;
        c.pos = end;
        Ok((0, x, y))
    };
    if let Ok(v) = va() {
        return Ok(v);
    }
    c.pos = p0;
    let mut vb = || -> Sr<(u8, u32, u32)> {
        let x = c.rd(2, &b)?;
        let end = c.pos;
        c.after(2, &b, x)?;
        c.pos = end;
        Ok((1, x, 0))
    };
    vb().or(Err(Se::EnumErrors(p0)))
}

#[derive(BinRead)]
#[br(little)]
struct InnerL {
    a: E<0>,
}
#[derive(BinRead)]
struct InnerI {
    a: E<1>,
}
#[derive(BinRead)]
struct Out {
    #[br(big)]
    l: InnerL,
    #[br(big, count = 4)]
    i: InnerI,
    #[br(little, parse_with = parser::<_, 5>)]
    p: u32,
    #[br(big, map = |x: E<2>| x.0)]
    m: u32,
}
fn spec_out(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32, u32)> {
    let l = o.en(LITTLE);
    let a = c.rd(0, &l)?;
    let e = c.pos;
    c.after(0, &l, a)?;
    c.pos = e;
    let bc = o.en(BIG).cnt(4);
    let b = c.rd(1, &bc)?;
    let e = c.pos;
    c.after(1, &bc, b)?;
    c.pos = e;
    let p = c.call(5, &l)?;
    let m = c.rd(2, &o.en(BIG))?;
    Ok((a, b, p, m))
}
#[derive(BinRead)]
#[br(little, map = |x: A<0>| TopM(x.0), import(k: u32))]
struct TopM(u32);

macro_rules! entry { ($call:expr, $o:expr, $arg:expr, $isa:literal) => {{
    let p0 = init();
    g().faults_on = false;
    let r = $call;
    let mut c = Chk::new(p0);
    let o: O = $o;
    let s = (|| -> Sr<u32> {
        let v = c.rda(0, &o, $arg)?;
        c.aftera(0, &o, v, $arg)?;
        Ok(v)
    })();
    judge!("C04", &r, c, &s, |v, x| v.0 == *x);
    reach!(r.is_err(), "failure");
    forget(r);
}} }
macro_rules! trace { ($t:ty, $args:expr, |$c:ident, $o:ident, $p0:ident| $spec:expr, $same:expr) => {{
    let $p0 = init();
    g().faults_on = false;
    let $o = O::nd();
    let r = <$t>::read_options(&mut Rd, &$o.real(), $args);
    if !faulted() {
        let mut c = Chk::new($p0);
        let s = { let $c = &mut c; let $o = &$o; $spec };
        judge!("C04", &r, c, &s, $same);
        reach!(r.is_err(), "failure");
    }
    forget(r);
}} }

contracts! { TAB;
    c04_pass_through [8] { trace!(Pass, (), |c, o, p0| spec_pass(c, o), |v: &Pass, x| (v.a.0, v.b.0, v.c.0, v.d.0) == *x); }
    c04_big [8] { trace!(Bg, (), |c, o, p0| spec_bl(c, o, BIG, None, BIG), |v: &Bg, x| (v.a.0, v.b.0, v.c.0, v.d.0) == *x); }
    c04_little [8] { trace!(Lt, (), |c, o, p0| spec_bl(c, o, LITTLE, Some(5), LITTLE), |v: &Lt, x| (v.0.0, v.1.0, v.2.0, v.3.0) == *x); }
    c04_inherited [8] { trace!(Inh, (), |c, o, p0| spec_inh(c, o), |v: &Inh, x| (v.a.0, v.b.0, v.c.0) == *x); }
    c04_variant [8] { trace!(EnB, (), |c, o, p0| spec_enb(c, o, p0), |v: &EnB, x| match v { EnB::A { a, b } => (0, a.0, b.0) == *x, EnB::B(a) => (1, a.0, 0) == *x }); }
    c04_nested [8] { trace!(Out, (), |c, o, p0| spec_out(c, o), |v: &Out, x| (v.l.a.0, v.i.a.0, v.p, v.m) == *x); }
    c04_top_map [8] { let k = nd_u32(); trace!(A<0>, (k,), |c, o, p0| c.rda(0, o, k), |v: &A<0>, x| v.0 == *x); }
    c04_read_be [8] { entry!(Rd.read_be::<E<0>>(), O::DEF.en(BIG), 0, 0) }
    c04_read_le [8] { entry!(Rd.read_le::<E<0>>(), O::DEF.en(LITTLE), 0, 0) }
    c04_read_ne [8] { entry!(Rd.read_ne::<E<0>>(), O::DEF.en(NATIVE), 0, 0) }
    c04_read_type [8] { let e = nd_below(3); entry!(Rd.read_type::<E<0>>(en_of(e)), O::DEF.en(e), 0, 0) }
    c04_read_be_args [8] { let a = nd_u32(); entry!(Rd.read_be_args::<A<0>>((a,)), O::DEF.en(BIG), a, 0) }
    c04_read_le_args [8] { let a = nd_u32(); entry!(Rd.read_le_args::<A<0>>((a,)), O::DEF.en(LITTLE), a, 0) }
    c04_read_ne_args [8] { let a = nd_u32(); entry!(Rd.read_ne_args::<A<0>>((a,)), O::DEF.en(NATIVE), a, 0) }
    c04_read_type_args [8] { let a = nd_u32(); let e = nd_below(3); entry!(Rd.read_type_args::<A<0>>(en_of(e), (a,)), O::DEF.en(e), a, 0) }
    c04_read [8] {
        let p0 = init();
        g().faults_on = false;
        let r = E::<0>::read(&mut Rd);
        let mut c = Chk::new(p0);
        let s = c.rd(0, &O::DEF);
        judge!("C04", &r, c, &s, |v, x| v.0 == *x);
        forget(r);
    }
    c04_read_args [8] {
        let a = nd_u32();
        let p0 = init();
        g().faults_on = false;
        let r = A::<0>::read_args(&mut Rd, (a,));
        let mut c = Chk::new(p0);
        let s = c.rda(0, &O::DEF, a);
        judge!("C04", &r, c, &s, |v, x| v.0 == *x);
        forget(r);
    }
}
