//! C09: counted collections.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::{helpers, BinRead, Error};

/// a run of `n` reads of type `T` with options `$io` per item
macro_rules! collected { ($n:expr, $max:literal, $o:ident, $io:expr, $p0:ident, $r:expr, $same:expr) => {{
    let u = run();
    let n: usize = $n;
    oblige!("C09", u.order && u.an == 0, "nothing is read after a failure");
    oblige!("C09", u.place, "items are read back to back, the first at the start position");
    oblige!("C09", u.opts, "items get the caller's options, without the count, and the arguments");
    if (u.fail_at as usize) < n {
        oblige!("C09", u.n == u.fail_at + 1, "no further item is read after a failure");
        oblige!("C09", is_tok(&$r), "the failure of an item is returned unchanged");
    } else {
        oblige!("C09", u.n as usize == n, "exactly the requested number of items is read");
        oblige!("C09", match &$r { Ok(v) => ($same)(v), _ => false }, "the items are returned in order");
        oblige!("C09", g().pos == u.next, "the reader ends where the last item ended");
    }
    oblige!("C09", !faulted(), "no reader operation of its own");
    reach!($r.is_ok() && n <= 3 || $max > 4, "success");
    reach!($r.is_err() && u.fail_at + 2 == $max || $max == 2, "failure of the last item");
    forget($r);
}} }
fn in_order(v: &[QA]) -> bool {
    let mut i = 0;
    let mut ok = true;
    while i < v.len() {
        ok &= v[i].0 == i as u32;
        i += 1;
    }
    ok
}
macro_rules! arr { ($n:literal, $max:literal) => {{
    let k = nd_u32();
    let p0 = init();
        no_faults_in_debug();
    let o = O::nd();
    expect_run(p0, o, k, $max);
    let r = <[QA; $n]>::read_options(&mut Rd, &o.real(), (k,));
    collected!($n, $max, o, o, p0, r, |v: &[QA; $n]| in_order(v));
}} }
macro_rules! tup { ($n:expr, $max:literal, $t:ty, $same:expr) => {{
    let p0 = init();
        no_faults_in_debug();
    let o = O::nd();
    expect_run(p0, o, 0, $max);
    let r = <$t>::read_options(&mut Rd, &o.real(), ());
    collected!($n, $max, o, o, p0, r, $same);
}} }

macro_rules! qt { ($i:tt) => { Q } }
/// every tuple length
macro_rules! tups { ([$($d:tt)*]) => {}; ([$($d:tt)*] $n:tt $($r:tt)*) => { {
    type T = ($(qt!($d),)* qt!($n),);
    tup!($n + 1, 33, T, |v: &T| true $(&& v.$d.0 == $d)* && v.$n.0 == $n);
} tups!([$($d)* $n] $($r)*); } }
contracts! { TAB;
    c09_vec [5] {
        // every count, as long as one of the first three items fails; all counts up to three
        let k = nd_u32();
        let n = nd_usize();
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd().cnt(n);
        expect_run(p0, o.no_cnt(), k, 4);
        assume(run().fail_at < 3 || n <= 3);
        let r = Vec::<QA>::read_options(&mut Rd, &o.real(), (k,));
        collected!(n, 4, o, o.no_cnt(), p0, r, |v: &Vec<QA>| v.len() == n && in_order(v));
    }
    c09_arr0 [34] { arr!(0, 2) }
    c09_arr1 [34] { arr!(1, 2) }
    c09_arr2 [34] { arr!(2, 3) }
    c09_arr3 [34] { arr!(3, 4) }
    c09_arr16 [34] { arr!(16, 17) }
    c09_arr31 [34] { arr!(31, 32) }
    c09_arr32 [34] { arr!(32, 33) }
    c09_tup1 [8] { tup!(1, 2, (Q,), |v: &(Q,)| v.0.0 == 0) }
    c09_tup2 [8] { tup!(2, 3, (Q, Q), |v: &(Q, Q)| v.0.0 == 0 && v.1.0 == 1) }
    c09_tup3 [8] { tup!(3, 4, (Q, Q, Q), |v: &(Q, Q, Q)| v.0.0 == 0 && v.1.0 == 1 && v.2.0 == 2) }
    c09_tup12 [8] { tup!(12, 13, (Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q), |v: &(Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q)|
        v.0.0 == 0 && v.1.0 == 1 && v.2.0 == 2 && v.3.0 == 3 && v.4.0 == 4 && v.5.0 == 5 && v.6.0 == 6 && v.7.0 == 7 && v.8.0 == 8 && v.9.0 == 9 && v.10.0 == 10 && v.11.0 == 11) }
    c09_tup32 [8] {
        type T = (Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q, Q);
        tup!(32, 33, T, |v: &T| v.0.0 == 0 && v.1.0 == 1 && v.2.0 == 2 && v.3.0 == 3 && v.4.0 == 4 && v.5.0 == 5 && v.6.0 == 6 && v.7.0 == 7
          && v.8.0 == 8 && v.9.0 == 9 && v.10.0 == 10 && v.11.0 == 11 && v.12.0 == 12 && v.13.0 == 13 && v.14.0 == 14 && v.15.0 == 15
          && v.16.0 == 16 && v.17.0 == 17 && v.18.0 == 18 && v.19.0 == 19 && v.20.0 == 20 && v.21.0 == 21 && v.22.0 == 22 && v.23.0 == 23
          && v.24.0 == 24 && v.25.0 == 25 && v.26.0 == 26 && v.27.0 == 27 && v.28.0 == 28 && v.29.0 == 29 && v.30.0 == 30 && v.31.0 == 31)
    }
    c09_box [8] {
        let k = nd_u32();
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        expect_run(p0, o, k, 2);
        let r = Box::<QA>::read_options(&mut Rd, &o.real(), (k,));
        collected!(1, 2, o, o, p0, r, |v: &Box<QA>| v.0 == 0);
    }
    c09_option [8] {
        let k = nd_u32();
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        expect_run(p0, o, k, 2);
        let r = Option::<QA>::read_options(&mut Rd, &o.real(), (k,));
        collected!(1, 2, o, o, p0, r, |v: &Option<QA>| v.map_or(false, |x| x.0 == 0));
    }
    c09_nested [5] {
        // the count belongs to the outermost vector only
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd().cnt(1);
        expect_run(p0, o.no_cnt(), 0, 4);
        let r = Vec::<(Q, [Q; 1], Option<Q>)>::read_options(&mut Rd, &o.real(), ());
        collected!(3, 4, o, o.no_cnt(), p0, r, |v: &Vec<(Q, [Q; 1], Option<Q>)>| v.len() == 1 && v[0].0.0 == 0 && v[0].1[0].0 == 1 && v[0].2.map_or(false, |q| q.0 == 2));
    }
    c09_unit [8] {
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        let r = <()>::read_options(&mut Rd, &o.real(), ());
        let q = core::marker::PhantomData::<u8>::read_options(&mut Rd, &o.real(), ());
        oblige!("C09", r.is_ok() && q.is_ok() && g().pos == p0 && !faulted(), "reading nothing does not use the reader");
        reach!(true, "reached");
        forget(r);
        forget(q);
    }
    c09_helper_count [5] {
        // every count, as long as one of the first items fails; all counts up to three
        let k = nd_u32();
        let n = nd_usize();
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        expect_run(p0, O::DEF.en(o.en), k, 5);
        let u = run();
        u.eager = true;
        let stop = u.fail_at.min(u.afail_at);
        assume(stop < 3 || n <= 3);
        let f = helpers::count::<Rd, QA, (u32,), Vec<QA>>(n);
        let r = f(&mut Rd, &o.real(), (k,));
        oblige!("C09", u.order, "items are read and postprocessed one after the other, nothing after a failure");
        oblige!("C09", u.place, "items are read back to back, the first at the start position");
        oblige!("C09", u.opts, "items get the caller's byte order and the arguments");
        if (stop as usize) < n {
            oblige!("C09", u.n == stop + 1, "no further item is read after a failure");
            oblige!("C09", is_tok(&r), "the failure of an item is returned unchanged");
            reach!(n > 1000, "failure");
        } else {
            oblige!("C09", u.n as usize == n, "exactly the requested number of items is read");
            oblige!("C09", match &r { Ok(v) => v.len() == n && in_order(v), _ => false }, "the items are returned in order");
            oblige!("C09", g().pos == u.next, "the reader ends where the last item ended");
            reach!(n == 3, "success");
        }
        forget(r);
    }
    /*native*/ c09_read_bytes [5] {
        let p0 = init();
        no_faults_in_debug();
        let n = (nd_u16() as usize) << nd_below(4);
        g().pos &= 0xFFFF_FFFF;
        let p0 = g().pos;
        let r = helpers::read_bytes(&mut Lr { f: nd_below(4) == 0 }, &O::nd().cnt(n).real(), ());
        if faulted() {
            oblige!("C09", reported(&r), "a reader error is returned");
        } else {
            let ok = match &r { Ok(v) => v.len() == n && v.iter().enumerate().all(|(i, b)| *b == byte_at(p0 + i as u64)), _ => false };
            oblige!("C09", ok, "exactly the next bytes are returned");
            oblige!("C09", g().pos == p0 + n as u64, "exactly the requested bytes are consumed");
        }
        forget(r);
    }
    /*native*/ c09_vec_long [5] {
        let (k, n) = (nd_u32(), nd_long() as usize);
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd().cnt(n);
        expect_long(p0, o.no_cnt(), k, n as u32);
        let r = Vec::<QA>::read_options(&mut Rd, &o.real(), (k,));
        collected!(n, 9, o, o.no_cnt(), p0, r, |v: &Vec<QA>| v.len() == n && in_order(v));
    }
    /*native*/ c09_count_long [5] {
        let (k, n) = (nd_u32(), nd_long() as usize);
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        expect_long(p0, O::DEF.en(o.en), k, n as u32);
        let u = run();
        u.eager = true;
        let stop = u.fail_at.min(u.afail_at) as usize;
        let r: binread::BinResult<Vec<QA>> = helpers::count(n)(&mut Rd, &o.real(), (k,));
        oblige!("C09", u.order && u.place && u.opts && !faulted(), "items are read and postprocessed one after the other, with the caller's byte order and the arguments");
        if stop < n {
            oblige!("C09", u.n as usize == stop + 1 && is_tok(&r), "the failure of an item ends it and is returned unchanged");
        } else {
            oblige!("C09", u.n as usize == n && g().pos == u.next, "exactly the requested number of items is read");
            oblige!("C09", match &r { Ok(v) => v.len() == n && in_order(v), _ => false }, "the items are returned in order");
        }
    }
    /*native*/ c09_arr_long [5] {
        // the array lengths the proofs do not instantiate
        macro_rules! any_arr { ($i:expr; $($n:literal)*) => { match $i { $( $n => {
            let k = nd_u32();
            let p0 = init();
            no_faults_in_debug();
            let o = O::nd();
            expect_run(p0, o, k, 40);
            let r = <[QA; $n]>::read_options(&mut Rd, &o.real(), (k,));
            collected!($n, 9, o, o, p0, r, |v: &[QA; $n]| in_order(v));
        } )* _ => {} } } }
        any_arr!(nd_u8() % 33; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        #[cfg(feature = "const_generics")]
        { any_arr!(33 + nd_below(3) as u32 * 100; 33 133 233); }
    }
    /*native*/ c09_tup_all [5] { tups!([] 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31); }
}
