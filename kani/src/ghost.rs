//! Ghost state, the abstract contract reader and the abstract contract elements.
//!
//! A harness runs the real code with
//! * `Rd` as the reader: only the contract of `Read + Seek` is assumed of it. Every operation may
//!   fail with any error, failed reads leave the position anywhere, the file is any file.
//! * `E<ID>` / `A<ID>` as nested types: only the contract of `BinRead` is assumed of them. A read
//!   may fail with any error, may leave the reader anywhere, and yields any value; every call is
//!   recorded in the ghost trace with the position and the options it was given.
#![allow(dead_code, static_mut_refs)]
use crate::shim::*;
use binread::io::{self, Error as IoError, ErrorKind, Read, Seek, SeekFrom};
use binread::{BinRead, BinResult, Endian, Error, ReadOptions};

pub const MAXEV: usize = if cfg!(kani) { 8 } else { 64 };
/// how many reads of bytes are recorded
pub const RLN: usize = if cfg!(kani) { 2 } else { 32 };
/// No file is longer than this, and no reader position is beyond it (`off_t`).
pub const MAXPOS: u64 = i64::MAX as u64;

pub const READ: u8 = 1;
pub const AFTER: u8 = 2;
pub const CALL: u8 = 3;

#[derive(Clone, Copy)]
pub struct Ev {
    pub kind: u8,
    pub id: u8,
    pub p0: u64,
    pub p1: u64,
    pub en: u8,
    pub cnt: Option<usize>,
    pub off: u64,
    pub arg: u32,
    pub val: u32,
    /// 0: success, 1: failed with `NoVariantMatch { pos: tok }`, 2: failed with `Io(kind tok)`
    pub out: u8,
    pub tok: u64,
}
pub const EV0: Ev = Ev { kind: 0, id: 0, p0: 0, p1: 0, en: 0, cnt: None, off: 0, arg: 0, val: 0, out: 0, tok: 0 };

pub struct Ghost {
    pub pos: u64,
    pub len: u64,
    pub base: u64,
    pub win: u128,
    pub n: usize,
    pub ev: [Ev; MAXEV],
    /// 0: the reader has not reported any error; otherwise the code of the last one
    pub fault: u8,
    /// the last reader operation was a move to this position, and the reader refused it
    pub refused: Option<u64>,
    pub faults_on: bool,
    pub el_err: bool,
    pub el_io: bool,
    pub el_move: bool,
    /// number of side-effecting user expressions evaluated
    pub evals: u32,
    /// the first successful reads of bytes: where, how many, which
    pub rl: [(u64, usize, u128); RLN],
    pub rn: usize,
    /// natively: bytes worth offering, and small positions only
    pub hint: u128,
    pub small: bool,
}
pub static mut GH: Ghost = Ghost {
    pos: 0, len: 0, base: 0, win: 0, n: 0, ev: [EV0; MAXEV], fault: 0, refused: None,
    faults_on: false, el_err: false, el_io: false, el_move: true, evals: 0, rl: [(0, 0, 0); RLN], rn: 0, hint: 0, small: false,
};
#[inline(always)]
pub fn g() -> &'static mut Ghost {
    unsafe { &mut *core::ptr::addr_of_mut!(GH) }
}

pub fn kind_of(code: u8) -> ErrorKind {
    match code {
        1 => ErrorKind::UnexpectedEof,
        2 => ErrorKind::Interrupted,
        3 => ErrorKind::InvalidInput,
        4 => ErrorKind::PermissionDenied,
        _ => ErrorKind::Other,
    }
}
pub fn code_of(k: ErrorKind) -> u8 {
    match k {
        ErrorKind::UnexpectedEof => 1,
        ErrorKind::Interrupted => 2,
        ErrorKind::InvalidInput => 3,
        ErrorKind::PermissionDenied => 4,
        ErrorKind::Other => 5,
        _ => 99,
    }
}
#[cfg(feature = "std")]
pub fn mk_io(code: u8) -> IoError {
    IoError::from(kind_of(code))
}
#[cfg(not(feature = "std"))]
pub fn mk_io(code: u8) -> IoError {
    IoError::new(kind_of(code), "")
}

/// Any ghost state: any file, any start position.
pub fn init() -> u64 {
    let p0 = nd_pos();
    let len = nd_pos();
    init_at(p0, len)
}
/// Start at the file's start position `p0`; the window of known bytes begins there.
pub fn init_at(p0: u64, len: u64) -> u64 {
    let h = g();
    h.pos = p0;
    h.len = len;
    h.base = p0;
    h.win = nd_u128();
    h.n = 0;
    h.fault = 0;
    h.refused = None;
    h.faults_on = true;
    h.el_err = true;
    h.el_io = false;
    h.el_move = true;
    h.evals = 0;
    h.rn = 0;
    h.hint = 0;
    h.small = false;
    p0
}

/// debug_template asks for positions that are not needed otherwise: such a query may fail
pub const DEBUG: bool = cfg!(feature = "debug_template");
pub fn no_faults_in_debug() {
    if DEBUG {
        g().faults_on = false;
    }
}

#[derive(Clone, Copy)]
pub struct Rd;

fn fault(code: u8) -> IoError {
    let h = g();
    h.fault = code;
    h.refused = None;
    mk_io(code)
}
fn maybe_fault() -> Option<IoError> {
    if g().faults_on && nd_bool() {
        let c = nd_below(3);
        Some(fault(if c == 0 { 1 } else if c == 1 { 4 } else { 5 }))
    } else {
        None
    }
}
/// the bytes at the current position (little-endian packed)
pub fn bytes_at(p: u64) -> u128 {
    let h = g();
    if p >= h.base && p - h.base < 16 {
        let off = (p - h.base) as u32;
        // bytes beyond the window are arbitrary
        let hi = nd_u128();
        if off == 0 { h.win } else { (h.win >> (8 * off)) | (hi << (128 - 8 * off)) }
    } else {
        if !cfg!(kani) && h.hint != 0 && nd_bool() {
            return h.hint;
        }
        nd_u128()
    }
}
impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(e) = maybe_fault() {
            return Err(e);
        }
        let h = g();
        h.refused = None;
        if h.pos >= h.len || buf.is_empty() {
            return Ok(0);
        }
        let n = nd_usize();
        assume(n >= 1 && n <= buf.len() && n <= 16 && n as u64 <= h.len - h.pos);
        let b = bytes_at(h.pos).to_le_bytes();
        buf[..n].copy_from_slice(&b[..n]);
        h.pos += n as u64;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if let Some(e) = maybe_fault() {
            g().pos = nd_pos();
            return Err(e);
        }
        let h = g();
        h.refused = None;
        let n = buf.len();
        if n == 0 {
            return Ok(());
        }
        if h.pos > h.len || (n as u64) > h.len - h.pos {
            h.pos = nd_pos();
            return Err(fault(1));
        }
        assume(n <= 16);
        let w = bytes_at(h.pos);
        if h.rn < RLN {
            h.rl[h.rn] = (h.pos, n, w);
            h.rn += 1;
        }
        let b = w.to_le_bytes();
        buf.copy_from_slice(&b[..n]);
        h.pos += n as u64;
        Ok(())
    }
}
impl Seek for Rd {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let h = g();
        let (b, d) = match p {
            SeekFrom::Start(x) => (x, 0i64),
            SeekFrom::Current(d) => (h.pos, d),
            SeekFrom::End(d) => (h.len, d),
        };
        let query = matches!(p, SeekFrom::Current(0));
        if let Some(e) = maybe_fault() {
            if !query {
                g().refused = Some(b.wrapping_add(d as u64));
            }
            return Err(e);
        }
        if b > MAXPOS {
            return Err(fault(3));
        }
        match (b as i64).checked_add(d) {
            Some(t) if t >= 0 => {
                h.pos = t as u64;
                h.refused = None;
                Ok(h.pos)
            }
            _ => Err(fault(3)),
        }
    }
}
#[cfg(kani)]
pub fn nd_pos() -> u64 {
    let p = nd_u64();
    assume(p <= MAXPOS);
    p
}
#[cfg(not(kani))]
pub fn nd_pos() -> u64 {
    if g().small {
        return nd_u8() as u64;
    }
    nd_u64() & MAXPOS
}

// ---------------------------------------------------------------- options
#[derive(Clone, Copy, PartialEq)]
pub struct O {
    pub en: u8,
    pub cnt: Option<usize>,
    pub off: u64,
}
pub const BIG: u8 = 0;
pub const LITTLE: u8 = 1;
pub const NATIVE: u8 = 2;
pub fn en_of(c: u8) -> Endian {
    match c {
        0 => Endian::Big,
        1 => Endian::Little,
        _ => Endian::Native,
    }
}
pub fn en_code(e: Endian) -> u8 {
    match e {
        Endian::Big => 0,
        Endian::Little => 1,
        Endian::Native => 2,
    }
}
impl O {
    /// any caller options
    pub fn nd() -> O {
        O { en: nd_below(3), cnt: if nd_bool() { Some(nd_usize()) } else { None }, off: nd_u64() }
    }
    pub const DEF: O = O { en: NATIVE, cnt: None, off: 0 };
    pub fn en(mut self, e: u8) -> O {
        self.en = e;
        self
    }
    pub fn cnt(mut self, c: usize) -> O {
        self.cnt = Some(c);
        self
    }
    pub fn no_cnt(mut self) -> O {
        self.cnt = None;
        self
    }
    pub fn off(mut self, c: u64) -> O {
        self.off = c;
        self
    }
    pub fn real(&self) -> ReadOptions {
        let mut o = ReadOptions::default();
        o.endian = en_of(self.en);
        o.count = self.cnt;
        o.offset = self.off;
        o
    }
}

// ---------------------------------------------------------------- elements
fn log(kind: u8, id: u8, o: &ReadOptions, arg: u32) -> usize {
    let h = g();
    let i = h.n;
    assume(i < MAXEV);
    h.ev[i] = Ev { kind, id, p0: h.pos, p1: 0, en: en_code(o.endian), cnt: o.count, off: o.offset, arg, val: 0, out: 0, tok: 0 };
    h.n = i + 1;
    i
}
pub fn el(kind: u8, id: u8, o: &ReadOptions, arg: u32, val: u32) -> BinResult<u32> {
    let i = log(kind, id, o, arg);
    let h = g();
    if h.el_move {
        h.pos = nd_pos();
    }
    h.ev[i].p1 = h.pos;
    h.ev[i].val = val;
    if h.el_err && nd_bool() {
        if h.el_io && nd_bool() {
            let c = 1 + nd_below(2) * 4; // 1: UnexpectedEof, 5: Other
            h.ev[i].out = 2;
            h.ev[i].tok = c as u64;
            return Err(Error::Io(mk_io(c)));
        }
        let t = nd_u64();
        h.ev[i].out = 1;
        h.ev[i].tok = t;
        return Err(Error::NoVariantMatch { pos: t });
    }
    Ok(val)
}
/// Abstract element without arguments.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct E<const ID: u8>(pub u32);
impl<const ID: u8> BinRead for E<ID> {
    type Args = ();
    fn read_options<R: Read + Seek>(_: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> {
        let v = nd_u32();
        Ok(E(el(READ, ID, o, 0, v)?))
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, _: ()) -> BinResult<()> {
        el(AFTER, ID, o, 0, self.0)?;
        Ok(())
    }
}
/// Abstract element with one argument.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct A<const ID: u8>(pub u32);
impl<const ID: u8> BinRead for A<ID> {
    type Args = (u32,);
    fn read_options<R: Read + Seek>(_: &mut R, o: &ReadOptions, a: (u32,)) -> BinResult<Self> {
        let v = nd_u32();
        Ok(A(el(READ, ID, o, a.0, v)?))
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, a: (u32,)) -> BinResult<()> {
        el(AFTER, ID, o, a.0, self.0)?;
        Ok(())
    }
}
/// Abstract custom parser (for `parse_with`).
pub fn parser<R: Read + Seek, const ID: u8>(_: &mut R, o: &ReadOptions, _: ()) -> BinResult<u32> {
    let v = nd_u32();
    el(CALL, ID, o, 0, v)
}
pub fn parser_a<R: Read + Seek, const ID: u8>(_: &mut R, o: &ReadOptions, a: (u32,)) -> BinResult<u32> {
    let v = nd_u32();
    el(CALL, ID, o, a.0, v)
}
/// Abstract element that fills its field with a value; used where the trace is not of interest.
/// A user expression with a side effect: counts its evaluations.
pub fn eval<T>(x: T) -> T {
    g().evals += 1;
    x
}

// ---------------------------------------------------------------- specification side
/// What a failure has to be.
#[derive(Clone, Copy, PartialEq)]
pub enum Se {
    /// exactly the error the element at this trace index returned
    El(usize),
    Assert(u64),
    Custom(u64),
    Magic(u64),
    NoVariant(u64),
    Io(u8),
    EnumErrors(u64),
}
pub type Sr<T> = Result<T, Se>;

/// A cursor over the ghost trace with which a specification states, step by step, the calls that
/// must have been made. Deviations are collected per aspect so that each becomes an obligation of
/// the property it belongs to.
pub struct Chk {
    pub i: usize,
    pub pos: u64,
    pub order: bool,
    pub place: bool,
    pub endian: bool,
    pub opts: bool,
    pub args: bool,
    pub vals: bool,
}
impl Chk {
    pub fn new(p0: u64) -> Chk {
        Chk { i: 0, pos: p0, order: true, place: true, endian: true, opts: true, args: true, vals: true }
    }
    fn step(&mut self, kind: u8, id: u8, o: &O, arg: u32) -> Sr<u32> {
        if self.i >= g().n || self.i >= MAXEV {
            self.order = false;
            return Ok(0);
        }
        let e = g().ev[self.i];
        let i = self.i;
        self.i += 1;
        if e.kind != kind || e.id != id {
            self.order = false;
            return Ok(0);
        }
        self.place &= e.p0 == self.pos;
        self.endian &= e.en == o.en;
        self.opts &= e.cnt == o.cnt && e.off == o.off;
        self.args &= e.arg == arg;
        self.pos = e.p1;
        if e.out != 0 {
            return Err(Se::El(i));
        }
        Ok(e.val)
    }
    pub fn rd(&mut self, id: u8, o: &O) -> Sr<u32> {
        self.step(READ, id, o, 0)
    }
    pub fn rda(&mut self, id: u8, o: &O, arg: u32) -> Sr<u32> {
        self.step(READ, id, o, arg)
    }
    pub fn call(&mut self, id: u8, o: &O) -> Sr<u32> {
        self.step(CALL, id, o, 0)
    }
    pub fn calla(&mut self, id: u8, o: &O, arg: u32) -> Sr<u32> {
        self.step(CALL, id, o, arg)
    }
    /// after_parse of the element that was read as `val`; where it happens is up to the code
    pub fn after(&mut self, id: u8, o: &O, val: u32) -> Sr<()> {
        self.aftera(id, o, val, 0)
    }
    pub fn aftera(&mut self, id: u8, o: &O, val: u32, arg: u32) -> Sr<()> {
        let v = {
            if self.i < g().n && self.i < MAXEV {
                self.vals &= g().ev[self.i].val == val;
                self.pos = g().ev[self.i].p0;
            }
            self.step(AFTER, id, o, arg)?
        };
        let _ = v;
        Ok(())
    }
    pub fn done(&self) -> bool {
        self.order && self.i == g().n
    }
}

/// Is `e` the specified failure?
pub fn err_is(e: &Error, s: &Se) -> bool {
    match (s, e) {
        (Se::El(i), Error::NoVariantMatch { pos }) => g().ev[*i].out == 1 && g().ev[*i].tok == *pos,
        (Se::El(i), Error::Io(x)) if g().el_io => g().ev[*i].out == 2 && g().ev[*i].tok == code_of(x.kind()) as u64,
        (Se::Assert(p), Error::AssertFail { pos, .. }) => p == pos,
        (Se::Custom(p), Error::Custom { pos, .. }) => p == pos,
        (Se::Magic(p), Error::BadMagic { pos, .. }) => p == pos,
        (Se::NoVariant(p), Error::NoVariantMatch { pos }) => p == pos,
        (Se::Io(c), Error::Io(x)) => *c == code_of(x.kind()),
        (Se::EnumErrors(p), Error::EnumErrors { pos, .. }) => p == pos,
        _ => false,
    }
}
pub fn is_io(e: &Error) -> bool {
    matches!(e, Error::Io(_))
}
/// "on failure the reader is back at p0, unless the reader itself refused to move there"
pub fn rewound(p0: u64) -> bool {
    g().pos == p0 || g().refused == Some(p0)
}
/// failure atomicity: an error leaves the reader at `p0`; if the reader refused to go back there,
/// that refusal is what is reported
pub fn atomic<T>(r: &BinResult<T>, p0: u64) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => g().pos == p0 || (g().refused == Some(p0) && err_is(e, &Se::Io(g().fault))),
    }
}
/// the reader's own last error is what is reported
pub fn reported<T>(r: &BinResult<T>) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => err_is(e, &Se::Io(g().fault)),
    }
}
pub fn forget<T>(t: T) {
    core::mem::forget(t)
}

/// Outcome of one call against its specification.
pub fn agrees<T, S>(r: &BinResult<T>, s: &Sr<S>, same: impl Fn(&T, &S) -> bool) -> bool {
    match (r, s) {
        (Ok(v), Ok(x)) => same(v, x),
        (Err(e), Err(x)) => err_is(e, x),
        _ => false,
    }
}
pub fn faulted() -> bool {
    g().fault != 0
}

/// Outcome, trace and final position of one call against its specification `$spec` (a function
/// over the trace cursor). Only for executions in which the reader itself reported no error.
#[macro_export]
macro_rules! judge { ($p:literal, $r:expr, $c:ident, $s:expr, $same:expr) => {{
    oblige!($p, $c.done(), "exactly the specified reads happen, in the specified order");
    oblige!($p, $c.place, "each read happens where specified");
    oblige!($p, $c.endian, "each read gets the specified byte order");
    oblige!($p, $c.opts, "each read gets the specified count and offset");
    oblige!($p, $c.args, "each read gets the specified arguments");
    oblige!($p, $c.vals, "each postprocessing step gets the value that was read");
    oblige!($p, agrees($r, $s, $same), "the result is the specified value or error");
    oblige!($p, $r.is_err() || g().pos == $c.pos, "the reader ends where specified");
    reach!($r.is_ok(), "success");
}} }

// ---------------------------------------------------------------- runs of like elements
/// Rolling record of a run of reads (and of a run of postprocessing steps) of one element type:
/// cheap enough for 32 elements.
pub struct Run {
    pub o: O,
    pub arg: u32,
    /// where the next read has to be
    pub next: u64,
    pub n: u32,
    /// the read that fails (none if beyond the run), and with what
    pub fail_at: u32,
    pub tok: u64,
    pub failed: bool,
    pub an: u32,
    pub afail_at: u32,
    pub afailed: bool,
    pub place: bool,
    pub opts: bool,
    pub order: bool,
    /// each read is followed by its postprocessing (reads through BinReaderExt)
    pub eager: bool,
    /// elements with arguments (items) and without (separators) alternate
    pub alternate: bool,
    pub alternates: bool,
    /// the failing item fails with an I/O error of this kind instead (0: no)
    pub fail_io: u8,
}
pub static mut RUN: Run = Run {
    o: O::DEF, arg: 0, next: 0, n: 0, fail_at: 0, tok: 0, failed: false, an: 0, afail_at: 0, afailed: false,
    place: true, opts: true, order: true, eager: false, alternate: false, alternates: true, fail_io: 0,
};
#[inline(always)]
pub fn run() -> &'static mut Run {
    unsafe { &mut *core::ptr::addr_of_mut!(RUN) }
}
/// expect a run of reads with options `o` and argument `arg`, the first at `p0`
pub fn expect_run(p0: u64, o: O, arg: u32, max: u8) {
    *run() = Run {
        o, arg, next: p0, n: 0, fail_at: nd_below(max) as u32, tok: nd_u64(), failed: false, an: 0,
        afail_at: nd_below(max) as u32, afailed: false, place: true, opts: true, order: true, eager: false, alternate: false, alternates: true, fail_io: 0,
    };
}
fn run_opts(o: &ReadOptions, a: u32, item: bool) -> bool {
    let r = run();
    en_code(o.endian) == r.o.en && o.count == r.o.cnt && o.offset == r.o.off && (a == r.arg || r.alternate && !item)
}
fn run_err() -> Error {
    let r = run();
    if r.fail_io != 0 {
        Error::Io(mk_io(r.fail_io))
    } else {
        Error::NoVariantMatch { pos: r.tok }
    }
}
fn run_read(o: &ReadOptions, a: u32, item: bool) -> BinResult<u32> {
    let r = run();
    r.alternates &= item == (r.n & 1 == 0);
    r.order &= !r.failed && !r.afailed && r.an == if r.eager { r.n } else { 0 };
    r.place &= g().pos == r.next;
    r.opts &= run_opts(o, a, item);
    let i = r.n;
    r.n += 1;
    g().pos = nd_pos();
    r.next = g().pos;
    if i == r.fail_at {
        r.failed = true;
        return Err(run_err());
    }
    Ok(i)
}
fn run_after(v: u32, o: &ReadOptions, a: u32) -> BinResult<()> {
    let r = run();
    r.order &= !r.afailed && r.an == v && (!r.eager || (!r.failed && r.n == v + 1));
    r.opts &= run_opts(o, a, true);
    r.an += 1;
    g().pos = nd_pos();
    if r.eager {
        r.next = g().pos;
    }
    if v == r.afail_at {
        r.afailed = true;
        return Err(run_err());
    }
    Ok(())
}
/// Element of a run without arguments; its value is its index.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Q(pub u32);
impl BinRead for Q {
    type Args = ();
    fn read_options<R: Read + Seek>(_: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> {
        Ok(Q(run_read(o, 0, false)?))
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, _: ()) -> BinResult<()> {
        run_after(self.0, o, 0)
    }
}
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct QA(pub u32);
impl BinRead for QA {
    type Args = (u32,);
    fn read_options<R: Read + Seek>(_: &mut R, o: &ReadOptions, a: (u32,)) -> BinResult<Self> {
        Ok(QA(run_read(o, a.0, true)?))
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, a: (u32,)) -> BinResult<()> {
        run_after(self.0, o, a.0)
    }
}
pub fn is_tok<T>(r: &BinResult<T>) -> bool {
    match r {
        Err(Error::NoVariantMatch { pos }) => run().fail_io == 0 && *pos == run().tok,
        Err(Error::Io(e)) => run().fail_io != 0 && code_of(e.kind()) == run().fail_io,
        _ => false,
    }
}

// ---------------------------------------------------------------- long runs, natively
/// byte `i` of a long file (native stand-ins only)
pub fn byte_at(p: u64) -> u8 {
    (p ^ (p >> 7) ^ (p >> 15)) as u8
}
/// Reader over a file whose bytes are `byte_at`; fails now and then if `f`.
pub struct Lr {
    pub f: bool,
}
impl Read for Lr {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.f && nd_below(8) == 0 {
            return Err(fault(5));
        }
        let n = if buf.len() < 2 { buf.len() } else { 1 + nd_usize() % buf.len() };
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = byte_at(g().pos.wrapping_add(i as u64));
        }
        g().pos = g().pos.wrapping_add(n as u64);
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if self.f && nd_below(8) == 0 {
            return Err(fault(5));
        }
        for (i, b) in buf.iter_mut().enumerate() {
            *b = byte_at(g().pos.wrapping_add(i as u64));
        }
        g().pos = g().pos.wrapping_add(buf.len() as u64);
        Ok(())
    }
}
impl Seek for Lr {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        Rd.seek(p)
    }
}
/// a length around a power of two, up to 2^16 (native stand-ins only)
pub fn nd_long() -> u32 {
    let b = 1u32 << nd_below(17);
    (b + nd_below(5) as u32).saturating_sub(2)
}
/// the item of a long run that fails, if any does
pub fn nd_stop(n: u32) -> u32 {
    match nd_below(3) {
        0 => nd_long(),
        1 => nd_u32() % (n + 1),
        _ => u32::MAX,
    }
}
/// expect a long run: some item near a power of two may fail, in either step
pub fn expect_long(p0: u64, o: O, arg: u32, n: u32) {
    expect_run(p0, o, arg, 1);
    let u = run();
    u.fail_at = nd_stop(n);
    u.afail_at = nd_stop(n);
    let c = nd_below(3);
    u.fail_io = if c == 0 { 0 } else if c == 1 { 1 } else { 5 };
}
