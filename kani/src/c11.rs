//! C11: Punctuated.
use crate::ghost::*;
use crate::shim::*;
use crate::{judge, oblige, reach};
use binread::punctuated::Punctuated;
use binread::BinRead;

/// items and separators share one run: item k has index 2k, separator k index 2k+1
macro_rules! punct { ($f:ident, $n:ident, $len:expr) => {{
    let k = nd_u32();
    let $n = nd_usize();
    let p0 = init();
        no_faults_in_debug();
    let o = O::nd().cnt($n);
    expect_run(p0, o, k, 6);
    let u = run();
    u.alternate = true;
    // every count, as long as one of the first reads fails; all counts up to two
    assume(u.fail_at < 4 || $n <= 2);
    let r = Punctuated::<QA, Q>::$f(&mut Rd, &o.real(), (k,));
    let len: usize = $len;
    oblige!("C11", u.order && u.alternates && u.an == 0, "items and separators are read alternately, nothing after a failure");
    oblige!("C11", u.place, "items and separators are read back to back");
    oblige!("C11", u.opts, "each item gets the caller's options and the arguments");
    if (u.fail_at as usize) < len {
        oblige!("C11", u.n == u.fail_at + 1, "nothing is read after a failure");
        oblige!("C11", is_tok(&r), "the first failure is returned unchanged");
        reach!($n > 1000 && u.fail_at == 1, "failing separator");
        reach!($n > 1000 && u.fail_at == 2, "failing item");
    } else {
        oblige!("C11", u.n as usize == len, "exactly the counted items and the separators between them are read");
        oblige!("C11", match &r {
            Ok(v) => v.len() == $n && v.seperators.len() == len - $n
                && ($n < 1 || v[0].0 == 0) && ($n < 2 || v[1].0 == 2)
                && (len - $n < 1 || v.seperators[0].0 == 1) && (len - $n < 2 || v.seperators[1].0 == 3),
            _ => false,
        }, "items and separators are returned in order, in their own lists");
        oblige!("C11", g().pos == u.next, "the reader ends where the last read ended");
        reach!($n == 0, "no items");
        reach!($n == 2, "two items");
    }
    oblige!("C11", !faulted(), "no reader operation of its own");
    forget(r);
}} }

contracts! { TAB;
    c11_separated [5] { punct!(separated, n, if n == 0 { 0 } else { n.saturating_mul(2) - 1 }) }
    c11_trailing [5] { punct!(separated_trailing, n, n.saturating_mul(2)) }
    c11_deref [8] {
        let p0 = init();
        no_faults_in_debug();
        expect_run(p0, O::DEF.cnt(1), 0, 1);
        run().fail_at = 9;
        let v = Punctuated::<Q, Q>::separated_trailing(&mut Rd, &O::DEF.cnt(1).real(), ());
        match v {
            Ok(mut v) => {
                oblige!("C11", v[0].0 == 0 && v.seperators[0].0 == 1, "the items are accessible");
                let x = nd_u32();
                v[0] = Q(x);
                oblige!("C11", v[0].0 == x && v.len() == 1 && v.seperators[0].0 == 1, "an item can be changed in place");
                reach!(true, "reached");
                forget(v);
            }
            Err(e) => {
                oblige!("C11", false, "reading succeeds");
                forget(e);
            }
        }
    }
    /*native*/ c11_long [5] {
        let (k, n) = (nd_u32(), nd_long() as usize);
        let p0 = init();
        no_faults_in_debug();
        let o = O::nd().cnt(n);
        expect_long(p0, o, k, 2 * n as u32);
        let u = run();
        u.alternate = true;
        let t = nd_bool();
        let r = if t { Punctuated::<QA, Q>::separated_trailing(&mut Rd, &o.real(), (k,)) } else { Punctuated::<QA, Q>::separated(&mut Rd, &o.real(), (k,)) };
        let len = if t { 2 * n } else { (2 * n).saturating_sub(1) };
        oblige!("C11", u.order && u.alternates && u.an == 0 && u.place && u.opts && !faulted(), "items and separators are read alternately, back to back, with the caller's options");
        if (u.fail_at as usize) < len {
            oblige!("C11", u.n == u.fail_at + 1 && is_tok(&r), "the first failure ends it and is returned unchanged");
        } else {
            oblige!("C11", u.n as usize == len && g().pos == u.next, "exactly the counted items and the separators between them are read");
            oblige!("C11", match &r {
                Ok(v) => v.len() == n && v.seperators.len() == len - n && v.iter().enumerate().all(|(i, x)| x.0 as usize == 2 * i) && v.seperators.iter().enumerate().all(|(i, x)| x.0 as usize == 2 * i + 1),
                _ => false,
            }, "items and separators are returned in order, in their own lists");
        }
    }
}
