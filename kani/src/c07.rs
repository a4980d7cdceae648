//! C07: data enums.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{derive_binread, BinRead, BinResult, Error};

#[derive(BinRead)]
enum All {
    A(E<0>),
    Bee { x: E<1> },
    C(E<3>),
}
#[derive(BinRead)]
enum Two {
    A { x: E<1>, y: E<2> },
    B(E<3>),
}
#[derive(BinRead)]
#[br(return_all_errors)]
enum AllX {
    A(E<0>),
    B { x: E<1> },
}
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum Une {
    A(E<0>),
    B { x: E<1> },
    C(E<2>),
}
#[derive(BinRead)]
#[br(import(k: u32))]
enum Mix {
    #[br(magic = 1u8)]
    Unit,
    #[br(pre_assert(k == 3))]
    Named {
        #[br(assert(x.0 != 5))]
        x: E<1>,
    },
    Last(#[br(args(k))] A<2>),
}
#[derive(BinRead)]
enum Mag {
    #[br(magic = 2u8)]
    Tup(E<0>),
    Last(E<2>),
}

/// One attempt of a variant consisting of the reads `ids`, from `p0`: Ok(values), or the failing
/// trace index.
fn attempt1(c: &mut Chk, o: &O, p0: u64, id: u8) -> Result<u32, usize> {
    c.pos = p0;
    let v = c.rd(id, o).map_err(|_| c.i - 1)?;
    let end = c.pos;
    c.after(id, o, v).map_err(|_| c.i - 1)?;
    c.pos = end;
    Ok(v)
}
fn attempt2(c: &mut Chk, o: &O, p0: u64, x: u8, y: u8) -> Result<(u32, u32), usize> {
    c.pos = p0;
    let v = c.rd(x, o).map_err(|_| c.i - 1)?;
    let w = c.rd(y, o).map_err(|_| c.i - 1)?;
    let end = c.pos;
    c.after(x, o, v).map_err(|_| c.i - 1)?;
    c.after(y, o, w).map_err(|_| c.i - 1)?;
    c.pos = end;
    Ok((v, w))
}
fn str_is(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

macro_rules! ends { ($r:expr, $c:ident) => {
    oblige!("C07", $c.done(), "variants are tried in order, until the first that succeeds, and nothing else is read");
    oblige!("C07", $c.place, "every variant is tried from the start of the enum");
    oblige!("C07", $c.endian && $c.opts && $c.args, "every variant gets the caller's options");
    oblige!("C07", $r.is_err() || g().pos == $c.pos, "the reader ends where the variant ended");
} }

contracts! { TAB;
    c07_three [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = All::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            match attempt1(&mut c, &o, p0, 0) {
                Ok(v) => {
                    ends!(&r, c);
                    oblige!("C07", matches!(&r, Ok(All::A(x)) if x.0 == v), "the first variant that parses is the result");
                    reach!(true, "first");
                }
                Err(e0) => match attempt1(&mut c, &o, p0, 1) {
                    Ok(v) => {
                        ends!(&r, c);
                        oblige!("C07", matches!(&r, Ok(All::Bee { x }) if x.0 == v), "the first variant that parses is the result");
                        reach!(true, "second");
                    }
                    Err(e1) => match attempt1(&mut c, &o, p0, 3) {
                        Ok(v) => {
                            ends!(&r, c);
                            oblige!("C07", matches!(&r, Ok(All::C(x)) if x.0 == v), "the first variant that parses is the result");
                            reach!(true, "third");
                        }
                        Err(e2) => {
                            ends!(&r, c);
                            oblige!("C07", matches!(&r, Err(Error::EnumErrors { pos, .. }) if *pos == p0), "the failure carries the enum's position");
                            if let Err(Error::EnumErrors { variant_errors: v, .. }) = &r {
                                oblige!("C07", v.len() == 3, "one error per variant");
                                oblige!("C07", err_is(&v[0].1, &Se::El(e0)) && err_is(&v[1].1, &Se::El(e1)) && err_is(&v[2].1, &Se::El(e2)), "each variant's own error, in order");
                            }
                            reach!(true, "none");
                        }
                    },
                },
            }
        }
        forget(r);
    }
    c07_two [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Two::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            match attempt2(&mut c, &o, p0, 1, 2) {
                Ok((v, w)) => {
                    ends!(&r, c);
                    oblige!("C07", matches!(&r, Ok(Two::A { x, y }) if x.0 == v && y.0 == w), "the first variant that parses is the result");
                    reach!(true, "first");
                }
                Err(e0) => match attempt1(&mut c, &o, p0, 3) {
                    Ok(v) => {
                        ends!(&r, c);
                        oblige!("C07", matches!(&r, Ok(Two::B(x)) if x.0 == v), "the first variant that parses is the result");
                        reach!(true, "second");
                    }
                    Err(e1) => {
                        ends!(&r, c);
                        oblige!("C07", matches!(&r, Err(Error::EnumErrors { pos, .. }) if *pos == p0), "the failure carries the enum's position");
                        if let Err(Error::EnumErrors { variant_errors: v, .. }) = &r {
                            oblige!("C07", v.len() == 2, "one error per variant");
                            oblige!("C07", err_is(&v[0].1, &Se::El(e0)) && err_is(&v[1].1, &Se::El(e1)), "each variant's own error, in order");
                        }
                        reach!(true, "none");
                    }
                },
            }
        }
        forget(r);
    }
    c07_magic [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let m = g().win as u8;
        let r = Mag::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut fin = false;
            if m == 2 {
                if let Ok(v) = attempt1(&mut c, &o, p0 + 1, 0) {
                    oblige!("C07", matches!(&r, Ok(Mag::Tup(x)) if x.0 == v), "a variant with a matching magic is the result");
                    reach!(true, "tuple");
                    fin = true;
                }
            }
            if !fin {
                match attempt1(&mut c, &o, p0, 2) {
                    Ok(v) => {
                        oblige!("C07", matches!(&r, Ok(Mag::Last(x)) if x.0 == v), "the first variant that parses is the result");
                        reach!(true, "last");
                    }
                    Err(e) => {
                        oblige!("C07", matches!(&r, Err(Error::EnumErrors { pos, .. }) if *pos == p0), "the failure carries the enum's position");
                        if let Err(Error::EnumErrors { variant_errors: v, .. }) = &r {
                            oblige!("C07", v.len() == 2 && err_is(&v[1].1, &Se::El(e)), "each variant's own error, in order");
                            oblige!("C07", m == 2 || matches!(&v[0].1, Error::BadMagic { pos, .. } if *pos == p0), "each variant's own error, in order");
                        }
                        reach!(true, "none");
                    }
                }
            }
            ends!(&r, c);
        }
        forget(r);
    }
    c07_names [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = AllX::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            if let Err(e) = &r {
                oblige!("C07", matches!(e, Error::EnumErrors { pos, .. } if *pos == p0), "the failure carries the enum's position");
                if let Error::EnumErrors { variant_errors: v, .. } = e {
                    oblige!("C07", v.len() == 2, "one error per variant");
                    oblige!("C07", str_is(v[0].0, "A") && str_is(v[1].0, "B"), "each error comes with its variant's name");
                    reach!(true, "none");
                }
            }
            reach!(r.is_ok(), "success");
        }
        forget(r);
    }
    c07_unexpected [8] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Une::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            if let Ok(v) = attempt1(&mut c, &o, p0, 0) {
                oblige!("C07", matches!(&r, Ok(Une::A(x)) if x.0 == v), "the first variant that parses is the result");
                reach!(true, "first");
            } else if let Ok(v) = attempt1(&mut c, &o, p0, 1) {
                oblige!("C07", matches!(&r, Ok(Une::B { x }) if x.0 == v), "the first variant that parses is the result");
                reach!(true, "second");
            } else if let Ok(v) = attempt1(&mut c, &o, p0, 2) {
                oblige!("C07", matches!(&r, Ok(Une::C(x)) if x.0 == v), "the first variant that parses is the result");
                reach!(true, "third");
            } else {
                oblige!("C07", matches!(&r, Err(Error::NoVariantMatch { pos }) if *pos == p0), "the failure is NoVariantMatch with the enum's position");
                reach!(true, "none");
            }
            ends!(&r, c);
        }
        forget(r);
    }
    c07_mixed [8] {
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let m = g().win as u8;
        let r = Mix::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut fin = false;
            if m == 1 {
                oblige!("C07", matches!(&r, Ok(Mix::Unit)) && g().n == 0 && g().pos == p0 + 1, "a unit variant with a matching magic is the result");
                reach!(true, "unit");
                c.pos = p0 + 1;
                fin = true;
            }
            if !fin && k == 3 {
                c.pos = p0;
                if let Ok(v) = c.rd(1, &o) {
                    if v != 5 {
                        let end = c.pos;
                        if c.after(1, &o, v).is_ok() {
                            c.pos = end;
                            oblige!("C07", matches!(&r, Ok(Mix::Named { x }) if x.0 == v), "a variant whose assertions hold is the result");
                            reach!(true, "named");
                            fin = true;
                        }
                    }
                }
            }
            if !fin {
                c.pos = p0;
                let mut last = || -> Sr<u32> {
                    let v = c.rda(2, &o, k)?;
                    let end = c.pos;
                    c.aftera(2, &o, v, k)?;
                    c.pos = end;
                    Ok(v)
                };
                match last() {
                    Ok(v) => {
                        oblige!("C07", matches!(&r, Ok(Mix::Last(x)) if x.0 == v), "the first variant that parses is the result");
                        reach!(true, "last");
                    }
                    Err(_) => {
                        oblige!("C07", matches!(&r, Err(Error::EnumErrors { pos, variant_errors }) if *pos == p0 && variant_errors.len() == 3), "all failures are reported");
                        reach!(true, "none");
                    }
                }
            }
            ends!(&r, c);
        }
        forget(r);
    }
    c07_faults [8] {
        // a reader that fails: either a variant succeeds all the same, or it is reported
        let p0 = init();
        g().el_err = false;
        let o = O::nd();
        let r = Une::read_options(&mut Rd, &o.real(), ());
        if faulted() {
            let mut i = 0;
            let mut placed = true;
            while i < g().n && i < MAXEV {
                if g().ev[i].kind == READ {
                    placed &= g().ev[i].p0 == p0;
                }
                i += 1;
            }
            oblige!("C07", placed, "no variant is tried from anywhere but the start of the enum");
            reach!(r.is_err(), "the reader's failure");
            reach!(r.is_ok(), "a later variant succeeds");
        }
        forget(r);
    }
}
