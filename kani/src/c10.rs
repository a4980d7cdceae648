//! C10: until, until_exclusive, until_eof.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::helpers;

/// The run of reads every helper makes: reads (and postprocesses) items until the first that
/// satisfies the condition (`hit`), or fails. All behaviours of the first three items.
fn start(k: u32) -> (u64, O) {
    let p0 = init();
        no_faults_in_debug();
    let o = O::nd();
    expect_run(p0, O::DEF.en(o.en), k, 5);
    let u = run();
    u.eager = true;
    let c = nd_below(3);
    u.fail_io = if c == 0 { 0 } else if c == 1 { 1 } else { 5 };
    (p0, o)
}
fn in_order(v: &[QA]) -> bool {
    let mut i = 0;
    let mut ok = true;
    while i < v.len() {
        ok &= v[i].0 == i as u32;
        i += 1;
    }
    ok
}
macro_rules! reads { ($u:ident, $r:ident, $stop:expr, $len:expr) => {
    oblige!("C10", $u.order, "items are read and postprocessed one after the other, nothing after a failure");
    oblige!("C10", $u.place, "items are read back to back, the first at the start position");
    oblige!("C10", $u.opts, "items get the caller's byte order and the arguments");
    oblige!("C10", $u.n == $stop + 1, "nothing is read after the stop");
    oblige!("C10", !faulted(), "no reader operation of its own");
} }
macro_rules! until { ($f:ident, $incl:literal) => {{
    let k = nd_u32();
    // any condition: which of the first items satisfy it
    let m = nd_u8();
    let (_, o) = start(k);
    let u = run();
    let fail = u.fail_at.min(u.afail_at);
    let hit = (m | 8).trailing_zeros();
    assume(m & 8 == 8);
    let f = helpers::$f::<Rd, QA, _, (u32,), Vec<QA>>(|x: &QA| { g().evals += 1; (m >> (x.0 & 7)) & 1 == 1 });
    let r = f(&mut Rd, &o.real(), (k,));
    let stop = if fail <= hit { fail } else { hit };
    reads!(u, r, stop, 0);
    if fail <= hit {
        oblige!("C10", is_tok(&r), "a failure is returned unchanged");
        reach!(fail == 3, "failure");
        reach!(u.fail_io == 1, "failure at the end of the data");
    } else {
        oblige!("C10", match &r { Ok(v) => v.len() as u32 == hit + $incl && in_order(v), _ => false }, "the items up to the stop are returned, in order");
        oblige!("C10", g().pos == u.next, "the reader ends where the last item ended");
        reach!(hit == 3, "four items");
        reach!(hit == 0, "one item");
    }
    forget(r);
}} }

contracts! { TAB;
    c10_until [6] { until!(until, 1) }
    c10_until_exclusive [6] { until!(until_exclusive, 0) }
    c10_until_eof [6] {
        let k = nd_u32();
        let (_, o) = start(k);
        let u = run();
        let fail = u.fail_at.min(u.afail_at);
        assume(fail < 4);
        let r: binread::BinResult<Vec<QA>> = helpers::until_eof(&mut Rd, &o.real(), (k,));
        reads!(u, r, fail, 0);
        if u.fail_io == 1 {
            oblige!("C10", match &r { Ok(v) => v.len() as u32 == fail && in_order(v), _ => false }, "the items before the end of the data are returned, in order");
            reach!(fail == 3, "three items");
            reach!(fail == 0, "no items");
        } else {
            oblige!("C10", is_tok(&r), "any other failure is returned unchanged");
            reach!(u.fail_io == 5, "I/O error of another kind");
            reach!(u.fail_io == 0, "other error");
        }
        forget(r);
    }
    /*native*/ c10_long [6] {
        let (k, hit) = (nd_u32(), nd_long());
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd();
        expect_long(p0, O::DEF.en(o.en), k, hit);
        let u = run();
        u.eager = true;
        let which = nd_below(3);
        if which == 2 && u.fail_at.min(u.afail_at) > 1 << 17 {
            u.fail_at = hit;
        }
        let fail = u.fail_at.min(u.afail_at);
        let r: binread::BinResult<Vec<QA>> = match which {
            0 => helpers::until(|x: &QA| x.0 == hit)(&mut Rd, &o.real(), (k,)),
            1 => helpers::until_exclusive(|x: &QA| x.0 == hit)(&mut Rd, &o.real(), (k,)),
            _ => helpers::until_eof(&mut Rd, &o.real(), (k,)),
        };
        let stop = if which == 2 || fail <= hit { fail } else { hit };
        reads!(u, r, stop, 0);
        if which < 2 && fail > hit {
            oblige!("C10", match &r { Ok(v) => v.len() as u32 == hit + 1 - which as u32 && in_order(v), _ => false }, "the items up to the stop are returned, in order");
            oblige!("C10", g().pos == u.next, "the reader ends where the last item ended");
        } else if which == 2 && u.fail_io == 1 {
            oblige!("C10", match &r { Ok(v) => v.len() as u32 == fail && in_order(v), _ => false }, "the items before the end of the data are returned, in order");
        } else {
            oblige!("C10", is_tok(&r), "any other failure is returned unchanged");
        }
    }
}
