//! C06: assertions.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{derive_binread, BinRead, BinResult, Error};

#[derive(Debug, PartialEq)]
struct MyErr(u32);

#[derive(BinRead)]
#[br(assert(a.0 < b.0), assert(b.0 != 7, "m7"), assert(eval(c.0) != 9, MyErr(c.0)))]
struct Top {
    a: E<0>,
    b: E<1>,
    c: E<2>,
}
#[derive(BinRead)]
struct Fld {
    #[br(assert(a.0 == 1, MyErr(a.0 ^ 5)))]
    a: E<0>,
    #[br(assert(b.0 > 3), assert(a.0 != b.0, "eq"))]
    b: E<1>,
    c: E<2>,
}
#[derive(BinRead)]
#[br(import(k: u32), pre_assert(k > 2), pre_assert(k != 5, MyErr(k)))]
struct Pre(E<0>);
#[derive(BinRead)]
#[br(import(k: u32), assert(k < 4, "u"))]
struct UnitS;
#[derive(BinRead)]
#[br(import(k: u32), assert(k < 4), pre_assert(k != 2))]
struct TupS(#[br(assert(self_0.0 == k))] E<0>);
#[derive(BinRead)]
#[br(import(k: u32), assert(x.0 != 4, "top"), pre_assert(k != 8))]
enum En {
    #[br(pre_assert(k == 1), assert(x.0 < 100, MyErr(x.0)))]
    A { x: E<0> },
    #[br(pre_assert(k >= 2))]
    B {
        #[br(assert(x.0 != 6))]
        x: E<1>,
    },
}
#[derive(BinRead)]
#[br(assert(x.0 != 4, "top"))]
enum En1 {
    #[br(assert(x.0 < 100, MyErr(x.0)))]
    A { x: E<0> },
}
#[derive(BinRead)]
#[br(import(k: u32), assert(k < 4, "e"))]
enum EnUnit {
    #[br(magic = 1u8)]
    A,
    #[br(magic = 1u8)]
    B { x: u8 },
}
#[derive(BinRead)]
struct Opt {
    #[br(if(true), pad_after = 0, assert(a.0 == 0))]
    a: E<0>,
    #[br(calc = a.0, assert(b != 1))]
    b: u32,
    #[br(map = |x: E<1>| x.0, assert(m == 3, "m"))]
    m: u32,
}

fn text_is(e: &Error, pos0: u64, want: &[u8]) -> bool {
    match e {
        Error::AssertFail { pos, message } => {
            if *pos != pos0 {
                return false;
            }
            // the text is compared up to white space
            let b = message.as_bytes();
            let (mut i, mut j) = (0, 0);
            while i < b.len() {
                if b[i] != b' ' {
                    if j >= want.len() || want[j] != b[i] {
                        return false;
                    }
                    j += 1;
                }
                i += 1;
            }
            j == want.len()
        }
        _ => false,
    }
}
fn custom_is(e: &Error, pos0: u64, v: u32) -> bool {
    match e {
        Error::Custom { pos, err } => *pos == pos0 && err.downcast_ref::<MyErr>().map_or(false, |m| m.0 == v),
        _ => false,
    }
}
fn msg<T>(r: &BinResult<T>, p0: u64, want: &[u8]) -> bool {
    r.as_ref().err().map_or(false, |e| text_is(e, p0, want))
}
fn cust<T>(r: &BinResult<T>, p0: u64, v: u32) -> bool {
    r.as_ref().err().map_or(false, |e| custom_is(e, p0, v))
}
fn val(i: usize) -> u32 {
    g().ev[i].val
}
/// an element call of this trace failed
fn el_failed() -> bool {
    g().n > 0 && g().ev[g().n - 1].out != 0
}

contracts! { TAB;
    c06_struct [30] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Top::read_options(&mut Rd, &o.real(), ());
        if !faulted() && !el_failed() {
            oblige!("C06", g().n >= 3 && g().ev[0].kind == READ && g().ev[1].kind == READ && g().ev[2].kind == READ, "type assertions are decided after all fields");
            let (a, b, c) = (val(0), val(1), val(2));
            if !(a < b) {
                oblige!("C06", msg(&r, p0, b"a.0<b.0"), "the default message is the condition's text");
                oblige!("C06", g().evals == 0, "later assertions are not evaluated");
                reach!(true, "first fails");
            } else if b == 7 {
                oblige!("C06", msg(&r, p0, b"m7"), "the declared message");
                reach!(true, "second fails");
            } else if c == 9 {
                oblige!("C06", cust(&r, p0, c), "the declared error value");
                reach!(true, "third fails");
            } else {
                oblige!("C06", r.is_ok(), "assertions that hold change nothing");
                oblige!("C06", matches!(&r, Ok(v) if (v.a.0, v.b.0, v.c.0) == (a, b, c)), "assertions that hold change no value");
                reach!(true, "all hold");
            }
        }
        forget(r);
    }
    c06_field [30] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Fld::read_options(&mut Rd, &o.real(), ());
        if !faulted() && !el_failed() {
            let a = val(0);
            if a != 1 {
                oblige!("C06", cust(&r, p0, a ^ 5) && g().n == 1, "a field assertion is decided right after its field");
                reach!(true, "first fails");
            } else {
                oblige!("C06", g().n >= 2, "an assertion that holds lets the read go on");
                let b = val(1);
                if !(b > 3) {
                    oblige!("C06", msg(&r, p0, b"b.0>3") && g().n == 2, "a field assertion is decided right after its field");
                    reach!(true, "second fails");
                } else if a == b {
                    oblige!("C06", false, "unreachable: 1 > 3");
                } else {
                    oblige!("C06", r.is_ok(), "assertions that hold change nothing");
                    reach!(true, "all hold");
                }
            }
        }
        forget(r);
    }
    c06_mixed_fields [30] {
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Opt::read_options(&mut Rd, &o.real(), ());
        if !faulted() && !el_failed() {
            if val(0) != 0 {
                oblige!("C06", msg(&r, p0, b"a.0==0") && g().n == 1, "a field assertion is decided right after its field");
            } else {
                oblige!("C06", g().n >= 2 && g().ev[1].kind == READ, "an assertion that holds lets the read go on");
                if val(1) != 3 {
                    oblige!("C06", msg(&r, p0, b"m") && g().n == 2, "the assertion sees the mapped value");
                    reach!(true, "third fails");
                } else {
                    oblige!("C06", r.is_ok(), "assertions that hold change nothing");
                    reach!(true, "all hold");
                }
            }
        }
        forget(r);
    }
    c06_pre [30] {
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = Pre::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            if !(k > 2) {
                oblige!("C06", msg(&r, p0, b"k>2") && g().n == 0, "pre_assert is decided before any field");
                reach!(true, "first fails");
            } else if k == 5 {
                oblige!("C06", cust(&r, p0, 5) && g().n == 0, "pre_assert is decided before any field");
                reach!(true, "second fails");
            } else {
                oblige!("C06", g().n >= 1 && (r.is_ok() || el_failed()), "a pre_assert that holds changes nothing");
                reach!(r.is_ok(), "holds");
            }
        }
        forget(r);
    }
    c06_unit_struct [30] {
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = UnitS::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            if k < 4 {
                oblige!("C06", r.is_ok() && g().pos == p0, "assertions that hold change nothing");
                reach!(true, "holds");
            } else {
                oblige!("C06", msg(&r, p0, b"u"), "assertions of unit structs are checked");
                reach!(true, "fails");
            }
        }
        forget(r);
    }
    c06_tuple [30] {
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        let o = O::nd();
        let r = TupS::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() && !el_failed() {
            if k == 2 {
                oblige!("C06", msg(&r, p0, b"k!=2") && g().n == 0, "pre_assert is decided before any field");
            } else {
                oblige!("C06", g().n >= 1, "the field is read");
                if val(0) != k {
                    oblige!("C06", msg(&r, p0, b"self_0.0==k") && g().n == 1, "field assertions of tuple structs");
                    reach!(true, "field fails");
                } else if !(k < 4) {
                    oblige!("C06", msg(&r, p0, b"k<4"), "type assertions of tuple structs");
                    reach!(true, "type fails");
                } else {
                    oblige!("C06", r.is_ok(), "assertions that hold change nothing");
                    reach!(true, "holds");
                }
            }
        }
        forget(r);
    }
    c06_enum_outcome [8] {
        // with k == 1 only A is allowed, with k >= 2 only B, with 0 and 8 neither
        let k = nd_u32();
        let p0 = init();
        g().faults_on = false;
        g().el_err = false;
        let o = O::nd();
        let r = En::read_options(&mut Rd, &o.real(), (k,));
        if !faulted() {
            let variant = if k == 8 || k == 0 { 2 } else if k == 1 { 0 } else { 1 };
            if variant == 2 {
                oblige!("C06", r.is_err() && g().n == 0, "pre_assert of the enum and of its variants hold for every variant");
                reach!(k == 8, "enum-level");
                reach!(k == 0, "variant-level");
            } else {
                oblige!("C06", g().n >= 1 && g().ev[0].id == variant, "a variant whose pre_assert fails is not read");
                let x = val(0);
                let ok = x != 4 && if variant == 0 { x < 100 } else { x != 6 };
                oblige!("C06", r.is_ok() == ok, "a variant succeeds exactly if the enum's and its own assertions hold");
                reach!(ok, "holds");
                reach!(x == 4, "enum-level fails");
            }
        }
        forget(r);
    }
    c06_variant_error [30] {
        // what a failing variant assertion reports
        let p0 = init();
        g().faults_on = false;
        g().el_err = false;
        let o = O::nd();
        let r = En1::read_options(&mut Rd, &o.real(), ());
        if !faulted() && g().n >= 1 {
            let x = val(0);
            match &r {
                Ok(_) => oblige!("C06", x != 4 && x < 100, "every assertion in force holds"),
                Err(Error::EnumErrors { variant_errors, .. }) => {
                    oblige!("C06", variant_errors.len() == 1, "one error per variant");
                    let e = &variant_errors[0].1;
                    if x == 4 {
                        oblige!("C06", text_is(e, p0, b"top"), "the enum's message");
                    } else {
                        oblige!("C06", x >= 100 && custom_is(e, p0, x), "the variant's error value");
                    }
                    reach!(x == 4, "enum-level fails");
                    reach!(x == 100, "variant-level fails");
                }
                _ => oblige!("C06", false, "a failing assertion is reported as such"),
            }
        }
        forget(r);
    }
    /*known*/ c06_enum_unit_variant [8] {
        let k = nd_u32();
        init();
        g().faults_on = false;
        let r = EnUnit::read_options(&mut Rd, &O::nd().real(), (k,));
        if !faulted() && k >= 4 {
            oblige!("C06", r.is_err(), "assertions of an enum hold for its unit variants");
        }
        forget(r);
    }
}
