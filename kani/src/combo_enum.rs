//! The specification of derived enums as an interpreter over their variants, for the generated
//! declarations of c51.rs (data enums) and c52.rs (unit-only enums).
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{BinRead, Error};

/// What the directives refer to.
#[derive(Clone, Copy)]
pub struct K {
    pub k: [bool; 6],
    pub arg: u32,
}
impl K {
    pub fn nd() -> K {
        let y = || nd_bool() || (!cfg!(kani) && nd_bool());
        K { k: [y(), y(), y(), y(), y(), y()], arg: nd_u32() }
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Me(pub u32);

pub const NONE: u8 = 255;
/// A variant: up to two fields.
#[derive(Clone, Copy)]
pub struct Va {
    pub name: &'static str,
    /// number of element fields; 0 for a unit variant or an empty one
    pub n: u8,
    pub magic: u8,
    /// condition numbers, or NONE
    pub pre: u8,
    pub asr: u8,
    /// the assertion has an error of its own
    pub cus: bool,
    /// 0 none, 1 big, 2 little
    pub en: u8,
    /// a field assertion on the first field
    pub fas: u8,
    /// first field takes an argument
    pub arg: bool,
    /// first field is `try`
    pub tri: bool,
}
#[derive(Clone, Copy)]
pub struct En {
    pub magic: u8,
    pub pre: u8,
    pub asr: u8,
    pub en: u8,
    /// every variant's errors are listed
    pub all: bool,
    pub va: &'static [Va],
}
fn ord(en: u8, how: u8) -> u8 {
    match how {
        1 => BIG,
        2 => LITTLE,
        _ => en,
    }
}
fn cond(q: &K, i: u8) -> bool {
    i == NONE || q.k[i as usize]
}
fn variant(c: &mut Chk, q: &K, o: &O, p0: u64, id: u8, e: &En, v: &Va) -> Sr<[u32; 2]> {
    let mut s = *o;
    s.en = ord(ord(s.en, e.en), v.en);
    c.pos = p0;
    let m = if v.magic != NONE { v.magic } else { e.magic };
    if m != NONE {
        if p0 >= g().len {
            return Err(Se::Io(1));
        }
        if g().win as u8 != m {
            return Err(Se::Magic(p0));
        }
        c.pos = p0 + 1;
    }
    if !cond(q, e.pre) || !cond(q, v.pre) {
        return Err(Se::Assert(p0));
    }
    let mut r = [0u32; 2];
    if v.n > 0 {
        let at = c.pos;
        let x = if v.arg { c.rda(id, &s, q.arg) } else { c.rd(id, &s) };
        let x = match x {
            Err(_) if v.tri => {
                c.pos = at;
                None
            }
            x => Some(x?),
        };
        r[0] = x.unwrap_or(0xDEAD);
        if !cond(q, v.fas) {
            return Err(Se::Assert(p0));
        }
        if v.n > 1 {
            r[1] = c.rd(id + 1, &s)?;
        }
        let end = c.pos;
        if let Some(x) = x {
            c.aftera(id, &s, x, if v.arg { q.arg } else { 0 })?;
        }
        if v.n > 1 {
            c.after(id + 1, &s, r[1])?;
        }
        c.pos = end;
    }
    if !cond(q, v.asr) {
        return Err(if v.cus { Se::Custom(p0) } else { Se::Assert(p0) });
    }
    if !cond(q, e.asr) {
        return Err(Se::Assert(p0));
    }
    Ok(r)
}

pub fn data_enum<T: BinRead<Args = (K,)>>(e: En, get: impl Fn(&T) -> (usize, [u32; 2])) {
    let p0 = init();
    #[cfg(not(kani))]
    {
        if nd_below(4) != 0 {
            g().win = nd_below(5) as u128;
            g().len = MAXPOS;
        }
        g().small = nd_bool();
        g().el_err = nd_below(4) != 0;
        g().el_io = nd_bool();
    }
    let o = O::nd();
    let q = K::nd();
    let faulty = !cfg!(kani) && !DEBUG && nd_below(8) == 0;
    g().faults_on = faulty;
    let r = T::read_options(&mut Rd, &o.real(), (q,));
    oblige!("C02", atomic(&r, p0), "a failure leaves the reader where it was");
    if faulty {
        forget(r);
        return;
    }
    let mut c = Chk::new(p0);
    let mut errs = [Se::Io(0); 8];
    let mut hit = None;
    for (i, v) in e.va.iter().enumerate() {
        match variant(&mut c, &q, &o, p0, 10 * i as u8, &e, v) {
            Ok(x) => {
                hit = Some((i, x));
                break;
            }
            Err(x) => errs[i] = x,
        }
    }
    oblige!("C04", c.endian && c.opts, "each variant's reads get the specified byte order and options");
    oblige!("C03", c.args, "each read gets the specified arguments");
    oblige!("C14", c.vals, "each value is postprocessed with its own options");
    oblige!("C07", c.done() && c.place, "the variants are tried in order, each from the start, until one parses");
    match (&r, hit) {
        (Ok(v), Some((i, x))) => {
            oblige!("C07", get(v) == (i, x), "the first variant that parses is the result");
            oblige!("C07", g().pos == c.pos, "the reader ends where that variant ended");
            reach!(true, "success");
        }
        (Err(Error::EnumErrors { pos, variant_errors }), None) => {
            oblige!("C07", e.all && *pos == p0, "the declared kind of error is returned, with the position");
            oblige!("C07", variant_errors.len() == e.va.len(), "every variant's error is listed");
            for (i, (n, x)) in variant_errors.iter().enumerate() {
                oblige!("C07", *n == e.va[i].name, "the errors are listed in order under the variant's name");
                oblige!("C07", err_is(x, &errs[i]), "each variant's own error is listed");
                oblige!("C05", matches!(errs[i], Se::Magic(_)) == matches!(x, Error::BadMagic { .. }), "a magic decides exactly as declared");
                oblige!("C06", matches!(errs[i], Se::Assert(_)) == matches!(x, Error::AssertFail { .. }), "assertions decide exactly as declared");
            }
        }
        (Err(Error::NoVariantMatch { pos }), None) => {
            oblige!("C07", !e.all && *pos == p0, "the declared kind of error is returned, with the position");
        }
        _ => {
            oblige!("C05", e.magic == NONE && e.va.iter().all(|v| v.magic == NONE), "a magic decides exactly as declared");
            oblige!("C06", false, "assertions decide exactly as declared");
            oblige!("C07", false, "the first variant that parses is the result");
        }
    }
    forget(r);
}

/// A unit-only enum: the reads of one value of `size` bytes, the variants in order.
#[derive(Clone, Copy)]
pub struct Un {
    pub size: u32,
    /// bytes magic (no byte order)
    pub bytes: bool,
    pub magic: u8,
    pub pre: u8,
    pub en: u8,
    /// (bits, conditions)
    pub va: &'static [(u128, u8, u8)],
}
pub fn unit_enum<T: BinRead<Args = (K,)>>(e: Un, get: impl Fn(&T) -> usize) {
    let p0 = init();
    let o = O::nd();
    let q = K::nd();
    let en = ord(o.en, e.en);
    let mask = if e.size == 16 { u128::MAX } else { (1u128 << (8 * e.size)) - 1 };
    let skip = if e.magic == NONE { 0 } else { 1u32 };
    let swap = |x: u128| x.swap_bytes() >> (128 - 8 * e.size);
    let big = !e.bytes && (en == BIG || (en == NATIVE && cfg!(target_endian = "big")));
    #[cfg(not(kani))]
    {
        if nd_below(4) != 0 {
            g().len = MAXPOS;
            let v = e.va[nd_usize() % e.va.len()].0;
            let v = if nd_below(8) == 0 { v ^ (1 << nd_below(8)) } else { v };
            let v = if big != (nd_below(8) == 0) { swap(v) } else { v };
            g().win = v << (8 * skip) | if skip == 1 && nd_below(4) != 0 { e.magic as u128 } else { 0 };
            if skip + e.size > 16 {
                g().win = nd_u128();
            }
        }
    }
    assume(skip + e.size <= 16);
    let faulty = !DEBUG && nd_below(8) == 0;
    g().faults_on = faulty;
    let r = T::read_options(&mut Rd, &o.real(), (q,));
    oblige!("C02", atomic(&r, p0), "a failure leaves the reader where it was");
    if faulted() {
        oblige!("C08", reported(&r), "a reader error is reported");
        forget(r);
        return;
    }
    let raw = (g().win >> (8 * skip)) & mask;
    let raw = if big { swap(raw) } else { raw };
    if skip == 1 && g().win as u8 != e.magic {
        oblige!("C05", matches!(&r, Err(Error::BadMagic { pos, .. }) if *pos == p0), "a magic decides exactly as declared");
        forget(r);
        return;
    }
    oblige!("C05", !matches!(&r, Err(Error::BadMagic { .. })), "a magic decides exactly as declared");
    if !cond(&q, e.pre) {
        oblige!("C06", matches!(&r, Err(Error::AssertFail { pos, .. }) if *pos == p0), "assertions decide exactly as declared");
        forget(r);
        return;
    }
    oblige!("C06", !matches!(&r, Err(Error::AssertFail { .. })), "assertions decide exactly as declared");
    let want = e.va.iter().position(|v| v.0 & mask == raw && cond(&q, v.1) && cond(&q, v.2));
    match (&r, want) {
        (Ok(v), Some(i)) => {
            oblige!("C08", get(v) == i, "the first variant with that value whose pre_assert holds is the result");
            oblige!("C08", g().pos == p0 + (skip + e.size) as u64, "exactly one value is read");
            reach!(true, "success");
        }
        (Err(x), None) => {
            oblige!("C08", err_is(x, &Se::NoVariant(p0)), "any other value is NoVariantMatch at the start");
            reach!(true, "no match");
        }
        _ => oblige!("C08", false, "the first variant with that value whose pre_assert holds is the result"),
    }
    forget(r);
}
