//! C22: PosValue.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{BinRead, PosValue};

contracts! { TAB;
    c22_read [8] {
        let p0 = init();
        let o = O::nd();
        let a = nd_u32();
        let r = PosValue::<A<1>>::read_options(&mut Rd, &o.real(), (a,));
        if faulted() {
            oblige!("C22", reported(&r) && g().n == 0, "a reader error is reported");
            reach!(true, "reader fault");
        } else {
            let mut c = Chk::new(p0);
            let s = c.rda(1, &o, a);
            oblige!("C22", c.done() && c.place, "exactly the value is read, at the start position");
            oblige!("C22", c.endian && c.opts && c.args, "with the same options and arguments");
            oblige!("C22", agrees(&r, &s, |v, x| v.val.0 == *x && v.pos == p0), "the value and the position where its read began; a failure unchanged");
            oblige!("C22", g().pos == c.pos, "the reader ends where the value ended");
            reach!(r.is_ok() && p0 > 0, "success");
            reach!(r.is_err(), "failure");
        }
        forget(r);
    }
    c22_after [8] {
        let p0 = init();
        let o = O::nd();
        let a = nd_u32();
        let (v, p) = (nd_u32(), nd_u64());
        let mut x = PosValue { val: A::<1>(v), pos: p };
        let r = x.after_parse(&mut Rd, &o.real(), (a,));
        let mut c = Chk::new(p0);
        let s = c.aftera(1, &o, v, a);
        oblige!("C22", c.done() && c.vals && c.place, "the value is postprocessed, once, where the reader is");
        oblige!("C22", c.endian && c.opts && c.args, "with the same options and arguments");
        oblige!("C22", agrees(&r, &s, |_, _| true), "a failure is returned unchanged");
        oblige!("C22", x.val.0 == v && x.pos == p, "value and position stay");
        reach!(r.is_ok(), "success");
        forget(r);
    }
    c22_transparent [8] {
        let (v, w, p) = (nd_u32(), nd_u32(), nd_u64());
        let mut x = PosValue { val: v, pos: p };
        oblige!("C22", *x == v && (x == w) == (v == w), "dereferencing and comparing act on the value");
        let y = x.clone();
        oblige!("C22", y.val == v && y.pos == p, "a clone has the same value and position");
        *x = w;
        oblige!("C22", x.val == w && x.pos == p, "the value can be changed in place");
        reach!(v != w, "reached");
    }
}
