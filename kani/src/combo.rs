//! The specification of a derived read as an interpreter over directives. The declarations in
//! c50.rs combine the directives pairwise and beyond; for each of them this is the contract.
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{BinRead, BinResult, Error};

/// What the directives of a declaration refer to: any values.
#[derive(Clone, Copy)]
pub struct Par {
    pub c: bool,
    pub big: bool,
    pub sbig: bool,
    pub tm: bool,
    pub k0: bool,
    pub k1: bool,
    pub k2: bool,
    pub k3: bool,
    pub cnt: usize,
    pub off: u64,
    pub offa: u64,
    pub arg: u32,
    pub alt: u32,
    pub pb: i64,
    pub pa: i64,
    pub sz: i64,
    pub to: u64,
    pub rel: i64,
}
fn nd_dist(small: bool) -> i64 {
    if small { nd_below(9) as i64 - 2 } else { nd_i64() }
}
impl Par {
    fn nd() -> Par {
        // natively: mostly positions in a small file, so that deep places are reached
        let s = !cfg!(kani) && g().small;
        let y = |b: bool| b || (!cfg!(kani) && nd_below(3) != 0);
        Par {
            c: nd_bool(), big: nd_bool(), sbig: nd_bool(), tm: y(nd_bool()),
            k0: y(nd_bool()), k1: y(nd_bool()), k2: y(nd_bool()), k3: y(nd_bool()),
            cnt: nd_usize(), off: nd_u64(), offa: nd_u64(), arg: nd_u32(), alt: nd_u32(),
            pb: nd_dist(s), pa: nd_dist(s), sz: nd_dist(s), to: if s { nd_below(64) as u64 } else { nd_u64() }, rel: nd_dist(s),
        }
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Me(pub u32);
impl core::fmt::Display for Me {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
pub fn mapf(v: u32) -> u32 {
    v ^ 0x5A5A
}
pub fn tmapf(v: u32, q: &Par) -> Result<u32, Me> {
    if q.tm { Ok(mapf(v)) } else { Err(Me(v)) }
}
pub fn mapo<T: V>(x: Option<T>) -> u32 {
    match x {
        Some(x) => mapf(x.v().1),
        None => 777,
    }
}
/// (present, value)
pub trait V {
    fn v(&self) -> (bool, u32);
}
impl V for u32 {
    fn v(&self) -> (bool, u32) {
        (true, *self)
    }
}
impl<const I: u8> V for E<I> {
    fn v(&self) -> (bool, u32) {
        (true, self.0)
    }
}
impl<const I: u8> V for A<I> {
    fn v(&self) -> (bool, u32) {
        (true, self.0)
    }
}
impl<T: V> V for Option<T> {
    fn v(&self) -> (bool, u32) {
        match self {
            Some(x) => x.v(),
            None => (false, 0),
        }
    }
}

pub const NORMAL: u8 = 0;
pub const ARGS: u8 = 1;
pub const TUPLE: u8 = 2;
pub const PARSER: u8 = 3;
pub const PARSERA: u8 = 4;
pub const CALC: u8 = 5;
pub const DEFAULT: u8 = 6;

/// The directives of a declaration: fields `a` (plain), `b` (all the directives), `z`.
#[derive(Clone, Copy)]
pub struct F {
    pub mode: u8,
    /// 0 none, 1 big, 2 little, 3 is_big, 4 is_little
    pub en: u8,
    pub cnt: bool,
    pub off: bool,
    pub offa: bool,
    pub now: bool,
    /// 0 none, 1 7u8, 2 0x0102u16
    pub mag: u8,
    /// 0 none, 1 Start(to), 2 Current(rel)
    pub sb: u8,
    pub pb: bool,
    pub ab: i64,
    pub sz: bool,
    pub pa: bool,
    pub aa: i64,
    /// 0 none, 1 if(c), 2 if(c, alt)
    pub cond: u8,
    /// 0 none, 1 map, 2 try_map
    pub map: u8,
    pub tri: bool,
    /// 0 none, 1 assert, 2 with an error, 3 both
    pub asr: u8,
    pub rp: bool,
    pub temp: bool,
    pub zarg: bool,
    pub sen: u8,
    pub smag: u8,
    pub spre: bool,
    pub sas: bool,
    /// 0 struct, 1 tuple, 2 enum listing errors, 3 enum with return_unexpected_error
    pub shape: u8,
}
impl F {
    fn moves(&self) -> bool {
        self.sb != 0 || self.pb || self.ab != 0 || self.sz || self.pa || self.aa != 0 || self.rp
    }
}

struct P<'a> {
    c: &'a mut Chk,
    /// magics read so far
    m: usize,
}
fn end(en: u8, how: u8, big: bool) -> u8 {
    match how {
        1 => BIG,
        2 => LITTLE,
        3 => if big { BIG } else { LITTLE },
        4 => if big { LITTLE } else { BIG },
        _ => en,
    }
}
impl<'a> P<'a> {
    /// a relative move over the integers; a target the reader rejects is an error
    fn go(&mut self, d: i128) -> Sr<()> {
        let t = self.c.pos as i128 + d;
        if t < 0 || t > MAXPOS as i128 {
            return Err(Se::Io(3));
        }
        self.c.pos = t as u64;
        Ok(())
    }
    fn to(&mut self, t: i128) -> Sr<()> {
        let d = t - self.c.pos as i128;
        self.go(d)
    }
    fn align(&mut self, a: i64) -> Sr<()> {
        let a = a as i128;
        let r = self.c.pos as i128 % a;
        self.go(if r == 0 { 0 } else { a - r })
    }
    fn magic(&mut self, kind: u8, en: u8) -> Sr<()> {
        if kind == 0 {
            return Ok(());
        }
        let n = if kind == 2 { 2u64 } else { 1 };
        let at = self.c.pos;
        if at > g().len || g().len - at < n {
            return Err(Se::Io(1));
        }
        // the bytes the reader delivered there
        if self.m >= g().rn || g().rl[self.m].0 != at || g().rl[self.m].1 != n as usize {
            return Err(Se::Magic(u64::MAX));
        }
        let raw = g().rl[self.m].2;
        self.m += 1;
        let v = if kind == 2 {
            let b = [raw as u8, (raw >> 8) as u8];
            if en == BIG || (en == NATIVE && cfg!(target_endian = "big")) { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
        } else {
            raw as u8 as u16
        };
        let want = match kind {
            1 => 7,
            2 => 0x0102,
            _ => 9,
        };
        if v != want {
            return Err(Se::Magic(at));
        }
        self.c.pos = at + n;
        Ok(())
    }
}

fn spec(f: &F, q: &Par, o: &O, p0: u64, p: &mut P) -> Sr<(u32, (bool, u32), u32)> {
    let mut s = *o;
    s.en = end(s.en, f.sen, q.sbig);
    p.magic(f.smag * 3, s.en)?;
    if f.spre && !q.k3 {
        return Err(Se::Assert(p0));
    }
    let a = p.c.rd(0, &s)?;
    // b
    let mut t = s;
    t.en = end(t.en, f.en, q.big);
    if f.cnt {
        t.cnt = Some(q.cnt);
    }
    if f.off {
        t.off = q.off;
    }
    let mut u = t;
    if f.offa {
        u.off = q.offa;
    }
    let arg = match f.mode {
        ARGS | PARSERA => q.arg ^ a,
        TUPLE => q.arg,
        _ => 0,
    };
    p.magic(f.mag, t.en)?;
    let save = p.c.pos;
    let post = f.mode <= TUPLE && f.map == 0;
    let taken = f.cond == 0 || q.c;
    let b = if taken {
        match f.sb {
            1 => p.to(q.to as i128)?,
            2 => p.go(q.rel as i128)?,
            _ => (),
        }
        if f.pb {
            p.go(q.pb as i128)?;
        }
        if f.ab != 0 {
            p.align(f.ab)?;
        }
        let start = p.c.pos;
        let raw = match f.mode {
            NORMAL => p.c.rd(1, &t),
            ARGS | TUPLE => p.c.rda(1, &t, arg),
            PARSER => p.c.call(1, &t),
            PARSERA => p.c.calla(1, &t, arg),
            CALC => Ok(a ^ q.arg),
            _ => Ok(0),
        };
        let v = match raw {
            Ok(v) => (true, v),
            Err(_) if f.tri => {
                p.c.pos = start;
                (false, 0)
            }
            Err(e) => return Err(e),
        };
        let v = match f.map {
            0 => v,
            2 if !q.tm => return Err(Se::Custom(start)),
            _ => (true, if v.0 { mapf(v.1) } else { 777 }),
        };
        if f.now && post && v.0 {
            p.c.aftera(1, &t, v.1, arg)?;
        }
        if f.sz && (p.c.pos as i128) < start as i128 + q.sz as i128 {
            p.to(start as i128 + q.sz as i128)?;
        }
        if f.pa {
            p.go(q.pa as i128)?;
        }
        if f.aa != 0 {
            p.align(f.aa)?;
        }
        v
    } else if f.cond == 2 {
        (true, q.alt)
    } else {
        (!f.tri || f.map != 0, 0)
    };
    if f.asr & 1 != 0 && !q.k0 {
        return Err(Se::Assert(p0));
    }
    if f.asr & 2 != 0 && !q.k1 {
        return Err(Se::Custom(p0));
    }
    if f.rp {
        p.c.pos = save;
    }
    let zarg = if f.zarg { b.1 ^ q.arg } else { 0 };
    let z = if f.zarg { p.c.rda(2, &s, zarg)? } else { p.c.rd(2, &s)? };
    let fin = p.c.pos;
    p.c.after(0, &s, a)?;
    if post && !f.now && b.0 {
        // a value that was not read may be postprocessed or not
        let i = p.c.i;
        if taken || (i < g().n && i < MAXEV && g().ev[i].kind == AFTER && g().ev[i].id == 1) {
            p.c.aftera(1, &u, b.1, arg)?;
        }
    }
    p.c.aftera(2, &s, z, zarg)?;
    p.c.pos = fin;
    if f.sas && !q.k2 {
        return Err(Se::Assert(p0));
    }
    Ok((a, b, z))
}

fn same(f: &F, e: &Error, s: &Se) -> bool {
    match (f.shape, e) {
        (2, Error::EnumErrors { variant_errors, .. }) => variant_errors.len() == 1 && err_is(&variant_errors[0].1, s),
        (3, Error::NoVariantMatch { .. }) => true,
        (0, e) | (1, e) => err_is(e, s),
        _ => false,
    }
}

pub fn combo<T: BinRead<Args = (Par,)>>(f: F, get: impl Fn(&T) -> (u32, (bool, u32), u32)) {
    let p0 = init();
    #[cfg(not(kani))]
    {
        g().hint = match nd_below(4) {
            0 => 7,
            1 => 0x0102,
            2 => 0x0201,
            _ => 9,
        };
        g().small = nd_below(4) != 0;
        if g().small {
            g().pos = p0 & 0xff;
            g().base = g().pos;
            g().len = if nd_bool() { 1 << 20 } else { g().len };
        }
        if nd_bool() {
            g().win = g().hint;
        }
        g().el_err = nd_bool();
    }
    let p0 = if cfg!(kani) { p0 } else { g().pos };
    let o = O::nd();
    let q = Par::nd();
    let faulty = !cfg!(kani) && !DEBUG && nd_below(8) == 0;
    g().faults_on = faulty;
    let r = T::read_options(&mut Rd, &o.real(), (q,));
    oblige!("C02", atomic(&r, p0), "a failure leaves the reader where it was");
    if faulty {
        oblige!("C15", !f.moves() || r.is_err() || !faulted(), "an error of the reader is not swallowed");
        forget(r);
        return;
    }
    let mut c = Chk::new(p0);
    let s = spec(&f, &q, &o, p0, &mut P { c: &mut c, m: 0 });
    let in_post = {
        let i = if c.i > 0 { c.i - 1 } else { 0 };
        (i < g().n && i < MAXEV && g().ev[i].kind == AFTER) || (c.i < g().n && c.i < MAXEV && g().ev[c.i].kind == AFTER)
    };
    if f.moves() {
        oblige!("C15", c.place || !c.order, "every field is read where the directives put the reader");
        oblige!("C15", r.is_err() || g().pos == c.pos || !c.order, "the reader ends where the directives put it");
        let m = match &s {
            Err(x @ Se::Io(3)) => matches!(&r, Err(e) if same(&f, e, x)),
            _ => g().fault != 3,
        };
        oblige!("C15", m, "a position the reader rejects is reported, no other is visited");
    } else {
        oblige!("C03", c.place, "each field is read where the previous one ended");
        oblige!("C03", r.is_err() || g().pos == c.pos, "the reader ends where the last field ended");
    }
    if f.mag != 0 || f.smag != 0 {
        let m = match &s {
            Err(x @ Se::Magic(_)) | Err(x @ Se::Io(1)) => matches!(&r, Err(e) if same(&f, e, x)),
            _ => !matches!(&r, Err(Error::BadMagic { .. })),
        };
        oblige!("C05", m, "a magic decides exactly as declared");
        oblige!("C05", c.place || f.moves(), "exactly the magic's bytes are consumed");
    }
    if f.asr != 0 || f.spre || f.sas {
        let m = match &s {
            Err(x @ Se::Assert(_)) | Err(x @ Se::Custom(_)) => matches!(&r, Err(e) if same(&f, e, x)),
            _ => !matches!(&r, Err(Error::AssertFail { .. })),
        };
        oblige!("C06", m, "assertions decide exactly as declared");
    }
    if f.map == 2 {
        let m = match &s {
            Err(x @ Se::Custom(_)) => matches!(&r, Err(e) if same(&f, e, x)),
            _ => !matches!(&r, Err(Error::Custom { .. })),
        };
        oblige!("C17", m, "an error of the function is carried by Error::Custom");
    }
    if f.cond != 0 || f.tri {
        oblige!("C16", c.done() && (c.place || f.moves()) && (c.args || in_post), "the field is read exactly when it should");
    }
    oblige!("C14", !in_post || (c.done() && c.vals && c.opts && c.endian && c.args), "each value is postprocessed once, in order, with its own options and arguments");
    oblige!("C03", in_post || c.done(), "exactly the specified reads happen, in the specified order");
    oblige!("C03", in_post || c.args, "each read gets the specified arguments");
    oblige!("C04", in_post || c.endian, "each read gets the specified byte order");
    oblige!("C04", in_post || c.opts, "each read gets the specified count and offset");
    match (&r, &s) {
        (Ok(v), Ok(x)) => {
            let (a, b, z) = get(v);
            let bv = f.temp || b == x.1 || (!b.0 && !x.1 .0);
            if f.map != 0 {
                oblige!("C17", bv, "the field holds the function's result");
            }
            if f.cond != 0 || f.tri {
                oblige!("C16", bv, "the field holds what was read, or its alternate");
            }
            oblige!("C03", a == x.0 && bv && z == x.2, "each field holds its own value");
            reach!(true, "success");
        }
        (Err(e), Err(x)) => {
            oblige!("C03", same(&f, e, x) || !matches!(x, Se::El(_)), "an error of a nested read is returned unchanged");
        }
        (r, s) => {
            if f.cond != 0 || f.tri {
                oblige!("C16", r.is_ok() == s.is_ok(), "the read succeeds exactly when specified");
            }
            oblige!("C03", r.is_ok() == s.is_ok(), "the read succeeds exactly when specified");
        }
    }
    forget(r);
}
