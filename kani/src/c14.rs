//! C14: postprocessing.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::{derive_binread, BinRead, BinReaderExt, PosValue};

#[derive(BinRead)]
struct D {
    a: E<0>,
    #[br(deref_now, count = 3, args(a.0))]
    b: A<1>,
    #[br(offset = 5, offset_after = z.0 as u64, big)]
    c: E<2>,
    #[br(args(b.0), count = 7)]
    z: A<3>,
}
fn spec_d(c: &mut Chk, o: &O) -> Sr<(u32, u32, u32, u32)> {
    let a = c.rd(0, o)?;
    let ob = o.cnt(3);
    let b = c.rda(1, &ob, a)?;
    // deref_now: right after its own read, and the next field follows from wherever that leaves off
    c.aftera(1, &ob, b, a)?;
    let oc = o.off(5).en(BIG);
    let d = c.rd(2, &oc)?;
    let oz = o.cnt(7);
    let z = c.rda(3, &oz, b)?;
    let end = c.pos;
    c.after(0, o, a)?;
    c.after(2, &oc.off(z as u64), d)?;
    c.aftera(3, &oz, z, b)?;
    c.pos = end;
    Ok((a, b, d, z))
}

#[derive_binread]
struct Sel {
    #[br(temp)]
    t: E<0>,
    #[br(map = |x: E<1>| x.0)]
    m: u32,
    #[br(parse_with = parser::<_, 5>)]
    p: u32,
    #[br(calc = E(7))]
    k: E<6>,
    #[br(try)]
    o: Option<E<2>>,
    #[br(postprocess_now)]
    n: E<3>,
}
fn spec_sel(c: &mut Chk, o: &O) -> Sr<(u32, u32, Option<u32>, u32)> {
    let t = c.rd(0, o)?;
    let m = c.rd(1, o)?;
    let p = c.call(5, o)?;
    let p0 = c.pos;
    let v = match c.rd(2, o) {
        Ok(v) => Some(v),
        Err(_) => {
            c.pos = p0;
            None
        }
    };
    let n = c.rd(3, o)?;
    c.after(3, o, n)?;
    let end = c.pos;
    c.after(0, o, t)?;
    if let Some(v) = v {
        c.after(2, o, v)?;
    }
    c.pos = end;
    Ok((m, p, v, n))
}
#[derive(BinRead)]
#[br(import(k: u32))]
enum En {
    V {
        #[br(args(k))]
        a: A<0>,
        #[br(offset_after = 3)]
        b: E<1>,
    },
}
#[derive(BinRead)]
struct Cond {
    a: E<0>,
    #[br(if(a.0 == 1))]
    b: Option<E<1>>,
    #[br(count = a.0, if(a.0 > 1, E(9)))]
    c: E<2>,
}

macro_rules! trace { ($t:ty, $args:expr, |$c:ident, $o:ident| $spec:expr, $same:expr) => {{
    let p0 = init();
        no_faults_in_debug();
    g().faults_on = false;
    let $o = O::nd();
    let r = <$t>::read_options(&mut Rd, &$o.real(), $args);
    if !faulted() {
        let mut c = Chk::new(p0);
        let s = { let $c = &mut c; let $o = &$o; $spec };
        judge!("C14", &r, c, &s, $same);
        reach!(r.is_err(), "failure");
    }
    forget(r);
}} }
/// after_parse of a container holding `n` run elements 0..n
macro_rules! cont { ($x:expr, $n:literal, $args:expr, $arg:expr, $intact:expr) => {{
    let p0 = init();
        no_faults_in_debug();
    let o = O::nd();
    let mut x = $x;
    expect_run(p0, o, $arg, $n + 2);
    let r = x.after_parse(&mut Rd, &o.real(), $args);
    let u = run();
    oblige!("C14", u.order && u.n == 0, "items are postprocessed once each, in order");
    oblige!("C14", u.opts, "items are postprocessed with the same options and arguments");
    reach!($n == 0 || u.afail_at + 1 == $n, "failure");
    if u.afail_at < $n {
        oblige!("C14", is_tok(&r) && u.an == u.afail_at + 1, "a failing item ends the step with its error");
    } else {
        oblige!("C14", r.is_ok() && u.an == $n, "every item is postprocessed");
        reach!(true, "success");
    }
    oblige!("C14", !faulted(), "no reader operation is needed");
    oblige!("C14", ($intact)(&x), "the items stay");
    forget(r);
    forget(x);
}} }
macro_rules! arr { ($n:literal) => {{
    let mut a = [QA(0); $n];
    let mut i = 0;
    while i < $n { a[i] = QA(i as u32); i += 1; }
    let k = nd_u32();
    cont!(a, $n, (k,), k, |x: &[QA; $n]| { let mut i = 0; let mut ok = true; while i < $n { ok &= x[i].0 == i as u32; i += 1; } ok });
}} }
macro_rules! tup { ($n:literal, $($i:literal)*) => { cont!(($(Q($i),)*), $n, (), 0, |_: &_| true) } }

macro_rules! qt { ($i:tt) => { Q } }
/// every tuple length
macro_rules! tups { ([$($d:tt)*]) => {}; ([$($d:tt)*] $n:tt $($r:tt)*) => { {
    let mut v = ($({ let q: qt!($d) = Q($d); q },)* Q($n),);
    let p0 = init();
    no_faults_in_debug();
    let o = O::nd();
    expect_run(p0, o, 0, 40);
    let r = v.after_parse(&mut Rd, &o.real(), ());
    let u = run();
    oblige!("C14", u.order && u.n == 0, "items are postprocessed once each, in order");
    oblige!("C14", u.opts, "items are postprocessed with the same options and arguments");
    if u.afail_at < $n + 1 {
        oblige!("C14", is_tok(&r) && u.an == u.afail_at + 1, "a failing item ends the step with its error");
    } else {
        oblige!("C14", r.is_ok() && u.an == $n + 1, "every item is postprocessed");
    }
} tups!([$($d)* $n] $($r)*); } }
contracts! { TAB;
    c14_deferred [8] { trace!(D, (), |c, o| spec_d(c, o), |v: &D, x| (v.a.0, v.b.0, v.c.0, v.z.0) == *x); }
    c14_selected [8] { trace!(Sel, (), |c, o| spec_sel(c, o), |v: &Sel, x| (v.m, v.p, v.o.map(|e| e.0), v.n.0) == *x && v.k.0 == 7); }
    c14_variant [8] {
        let k = nd_u32();
        let p0 = init();
        no_faults_in_debug();
        g().faults_on = false;
        let o = O::nd();
        let r = En::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut s = || -> Sr<(u32, u32)> {
                let a = c.rda(0, &o, k)?;
                let b = c.rd(1, &o)?;
                let end = c.pos;
                c.aftera(0, &o, a, k)?;
                c.after(1, &o.off(3), b)?;
                c.pos = end;
                Ok((a, b))
            };
            let s = s().map_err(|_| Se::EnumErrors(p0));
            judge!("C14", &r, c, &s, |v, x| match v { En::V { a, b } => (a.0, b.0) == *x });
        }
        forget(r);
    }
    c14_conditional [8] {
        let p0 = init();
        no_faults_in_debug();
        g().faults_on = false;
        let o = O::nd();
        let r = Cond::read_options(&mut Rd, &o.real(), ());
        if !faulted() {
            let mut c = Chk::new(p0);
            let mut s = || -> Sr<()> {
                let a = c.rd(0, &o)?;
                let oc = o.cnt(a as usize);
                let b = if a == 1 { Some(c.rd(1, &o)?) } else { None };
                let d = if a > 1 { c.rd(2, &oc)? } else { 9 };
                let end = c.pos;
                c.after(0, &o, a)?;
                if let Some(b) = b { c.after(1, &o, b)?; }
                // (whether an alternate that was not read is postprocessed is not specified)
                if a > 1 || c.i < g().n { c.after(2, &oc, d)?; }
                c.pos = end;
                Ok(())
            };
            let s = s();
            judge!("C14", &r, c, &s, |_, _| true);
            reach!(r.is_err(), "failure");
        }
        forget(r);
    }
    c14_faults [8] {
        // the reader fails anywhere: no step is done twice, success implies all were done
        let p0 = init();
        no_faults_in_debug();
        g().el_err = false;
        let o = O::nd();
        let r = D::read_options(&mut Rd, &o.real(), ());
        if r.is_ok() {
            oblige!("C14", g().n == 8, "success means that every step was done");
            reach!(true, "success");
        } else {
            oblige!("C14", reported(&r), "a reader error is reported");
            reach!(g().n == 8, "failure after the last step");
        }
        forget(r);
    }
    c14_box [8] { let k = nd_u32(); cont!(Box::new(QA(0)), 1, (k,), k, |x: &Box<QA>| x.0 == 0) }
    c14_some [8] { let k = nd_u32(); cont!(Some(QA(0)), 1, (k,), k, |x: &Option<QA>| x.map_or(false, |q| q.0 == 0)) }
    c14_none [8] { let k = nd_u32(); cont!(None::<QA>, 0, (k,), k, |x: &Option<QA>| x.is_none()) }
    c14_pos_value [8] { let k = nd_u32(); cont!(PosValue { val: QA(0), pos: 3 }, 1, (k,), k, |x: &PosValue<QA>| x.val.0 == 0 && x.pos == 3) }
    c14_vec [8] {
        let n = nd_below(4) as usize;
        let mut v = Vec::new();
        let mut i = 0;
        while i < n { v.push(QA(i as u32)); i += 1; }
        let k = nd_u32();
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        expect_run(p0, o, k, 5);
        let r = v.after_parse(&mut Rd, &o.real(), (k,));
        let u = run();
        oblige!("C14", u.order && u.n == 0, "items are postprocessed once each, in order");
        oblige!("C14", u.opts, "items are postprocessed with the same options and arguments");
        if (u.afail_at as usize) < n {
            oblige!("C14", is_tok(&r) && u.an == u.afail_at + 1, "a failing item ends the step with its error");
            reach!(true, "failure");
        } else {
            oblige!("C14", r.is_ok() && u.an as usize == n && v.len() == n, "every item is postprocessed");
            reach!(n == 3, "success");
        }
        forget(r);
        forget(v);
    }
    c14_arr0 [34] { arr!(0) }
    c14_arr1 [34] { arr!(1) }
    c14_arr2 [34] { arr!(2) }
    c14_arr3 [34] { arr!(3) }
    c14_arr8 [34] { arr!(8) }
    c14_arr31 [34] { arr!(31) }
    c14_arr32 [34] { arr!(32) }
    c14_tup1 [8] { tup!(1, 0) }
    c14_tup2 [8] { tup!(2, 0 1) }
    c14_tup3 [8] { tup!(3, 0 1 2) }
    c14_tup4 [8] { tup!(4, 0 1 2 3) }
    c14_tup8 [8] { tup!(8, 0 1 2 3 4 5 6 7) }
    c14_tup31 [8] { tup!(31, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30) }
    c14_tup32 [8] { tup!(32, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31) }
    c14_nested [8] { cont!((Box::new(Some(Q(0))), [Q(1), Q(2)], (Q(3),)), 4, (), 0, |_: &_| true) }
    c14_entry [8] {
        let p0 = init();
        no_faults_in_debug();
        g().faults_on = false;
        let en = nd_below(3);
        let r = Rd.read_type::<E<0>>(en_of(en));
        let mut c = Chk::new(p0);
        let o = O::DEF.en(en);
        let s = (|| -> Sr<u32> { let v = c.rd(0, &o)?; c.after(0, &o, v)?; Ok(v) })();
        judge!("C14", &r, c, &s, |v, x| v.0 == *x);
        forget(r);
    }
    c14_entry_args [8] {
        let a = nd_u32();
        let p0 = init();
        no_faults_in_debug();
        g().faults_on = false;
        let en = nd_below(3);
        let r = Rd.read_type_args::<A<0>>(en_of(en), (a,));
        let mut c = Chk::new(p0);
        let o = O::DEF.en(en);
        let s = (|| -> Sr<u32> { let v = c.rda(0, &o, a)?; c.aftera(0, &o, v, a)?; Ok(v) })();
        judge!("C14", &r, c, &s, |v, x| v.0 == *x);
        forget(r);
    }
    /*native*/ c14_long [8] {
        let (k, n) = (nd_u32(), nd_long());
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        macro_rules! check { ($v:ident, $n:expr) => {
            expect_long(p0, o, k, $n);
            let r = $v.after_parse(&mut Rd, &o.real(), (k,));
            let u = run();
            oblige!("C14", u.order && u.n == 0, "items are postprocessed once each, in order");
            oblige!("C14", u.opts, "items are postprocessed with the same options and arguments");
            if u.afail_at < $n {
                oblige!("C14", is_tok(&r) && u.an == u.afail_at + 1, "a failing item ends the step with its error");
            } else {
                oblige!("C14", r.is_ok() && u.an == $n && $v.len() as u32 == $n, "every item is postprocessed");
            }
        } }
        let mut v: Vec<QA> = (0..n).map(QA).collect();
        check!(v, n);
        macro_rules! any_arr { ($i:expr; $($n:literal)*) => { match $i { $( $n => {
            let mut v = [QA(0); $n];
            for (i, x) in v.iter_mut().enumerate() { x.0 = i as u32; }
            check!(v, $n);
        } )* _ => {} } } }
        any_arr!(nd_u8() % 33; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        #[cfg(feature = "const_generics")]
        { any_arr!(33 + nd_below(3) as u32 * 100; 33 133 233); }
    }
    /*native*/ c14_tup_all [8] { tups!([] 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31); }
}
