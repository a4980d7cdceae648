// Contracts for the code binread_derive emits around the pieces it is given (template units).
use vstd::prelude::*;
use vstd::string::*;
verus! {
#[allow(non_camel_case_types)] #[derive(Clone, Copy)]
pub enum ENDIAN_ENUM { Big, Little, Native }
#[derive(Clone, Copy)]
pub struct ReadOptions { pub endian: ENDIAN_ENUM, pub count: Option<usize>, pub offset: u64 }
impl Default for ReadOptions { #[verifier::external_body] fn default() -> ReadOptions { unimplemented!() } }
pub struct IoError { k: u64 }
#[allow(non_camel_case_types)]
pub enum BIN_ERROR { BadMagic { pos: u64, found: u64 }, AssertFail { pos: u64, message: u64 }, Io(IoError), Custom { pos: u64, err: u64 }, NoVariantMatch { pos: u64 }, EnumErrors { pos: u64, variant_errors: Vec<(&'static str, BIN_ERROR)> } }
pub type BinResult<T> = core::result::Result<T, BIN_ERROR>;
pub trait ToErr: Sized { spec fn to(self) -> BIN_ERROR; fn to_err(self) -> (r: BIN_ERROR) ensures r == self.to(); }
impl ToErr for BIN_ERROR { open spec fn to(self) -> BIN_ERROR { self } fn to_err(self) -> (r: BIN_ERROR) { self } }
impl ToErr for IoError { open spec fn to(self) -> BIN_ERROR { BIN_ERROR::Io(self) } fn to_err(self) -> (r: BIN_ERROR) { BIN_ERROR::Io(self) } }
pub fn err_from<E: ToErr>(e: E) -> (r: BIN_ERROR) ensures r == e.to() { e.to_err() }
pub mod alloc { pub mod vec { pub use std::vec::Vec; } }
/// any value a piece of generated code may produce
pub struct Val { k: u64 }
pub struct Args { k: u64 }
impl Copy for Args {}
impl Clone for Args { #[verifier::external_body] fn clone(&self) -> (r: Args) ensures r == *self { *self } }
#[derive(Clone, Copy)] pub struct Magic { k: u64 }
pub ghost enum Out { V(Val), N(u64), Unit, Err(BIN_ERROR) }
/// what a read may give: a value, or an integer
pub trait IsOut: Sized { spec fn o(self) -> Out; }
impl IsOut for Val { open spec fn o(self) -> Out { Out::V(self) } }
impl IsOut for u64 { open spec fn o(self) -> Out { Out::N(self) } }
pub open spec fn out<T: IsOut>(r: BinResult<T>) -> Out { match r { Ok(v) => v.o(), Err(e) => Out::Err(e) } }
pub trait IsArgs: Sized { spec fn a(self) -> Args; }
impl IsArgs for Args { open spec fn a(self) -> Args { self } }
pub uninterp spec fn no_args() -> Args;
impl IsArgs for () { open spec fn a(self) -> Args { no_args() } }
pub open spec fn out0(r: BinResult<()>) -> Out { match r { Ok(_) => Out::Unit, Err(e) => Out::Err(e) } }
pub ghost enum V2 { V(Val), O(Option<Val>) }
pub trait IsVal: Sized { spec fn v(self) -> V2; }
impl IsVal for Val { open spec fn v(self) -> V2 { V2::V(self) } }
impl IsVal for Option<Val> { open spec fn v(self) -> V2 { V2::O(self) } }
/// a mapping function's own error, and what becomes of it
pub struct MapErr { k: u64 }
pub uninterp spec fn map_error(pos: int, e: MapErr) -> BIN_ERROR;
#[allow(non_snake_case)] #[verifier::external_body] pub fn MAP_ERROR(pos: u64, e: MapErr) -> (r: BIN_ERROR) ensures r == map_error(pos as int, e) { unimplemented!() }
/// what was done with the reader, in order: the pieces put in (by name and number), reads, magics and
/// postprocessing steps, each with where it began and where it left the reader
pub ghost enum Ev {
    Code { what: int, i: int, from: int, to: int, out: Out },
    Read { o: ReadOptions, a: Args, from: int, to: int, out: Out },
    Magic { m: Magic, o: ReadOptions, from: int, to: int, out: Out },
    /// a function applied to a value; `e` its own error
    Apply { what: int, arg: V2, at: int, out: Out, e: Option<MapErr> },
    After { before: V2, after: V2, o: ReadOptions, a: Args, from: int, to: int, out: Out, lenient: bool },
}
pub open spec fn to(e: Ev) -> int { match e { Ev::Code { to, .. } => to, Ev::Read { to, .. } => to, Ev::Magic { to, .. } => to, Ev::Apply { at, .. } => at, Ev::After { to, .. } => to } }
pub open spec fn from(e: Ev) -> int { match e { Ev::Code { from, .. } => from, Ev::Read { from, .. } => from, Ev::Magic { from, .. } => from, Ev::Apply { at, .. } => at, Ev::After { from, .. } => from } }
pub open spec fn outcome(e: Ev) -> Out { match e { Ev::Code { out, .. } => out, Ev::Read { out, .. } => out, Ev::Magic { out, .. } => out, Ev::Apply { out, .. } => out, Ev::After { out, .. } => out } }
pub open spec fn good(e: Ev) -> bool { !(outcome(e) is Err) }
pub open spec fn is_code(e: Ev, w: int, n: int) -> bool { match e { Ev::Code { what, i, .. } => what == w && i == n, _ => false } }
#[allow(non_camel_case_types)]
pub enum SEEK_FROM { Start(u64), End(i64), Current(i64) }
/// a request the reader refused: where it was told to go (None: it was asked where it is)
pub ghost struct No { pub goal: Option<int>, pub e: IoError }
/// positions are those of a file: 0 to i64::MAX
pub open spec fn pos_ok(p: int) -> bool { 0 <= p <= i64::MAX }
pub trait Seek { spec fn at(&self) -> int; spec fn len(&self) -> int; spec fn tr(&self) -> Seq<Ev>; spec fn no(&self) -> Seq<No>; }
pub open spec fn goal(s: SEEK_FROM, pos: int, len: int) -> int { match s { SEEK_FROM::Start(x) => x as int, SEEK_FROM::Current(x) => pos + x, SEEK_FROM::End(x) => len + x } }
#[allow(non_camel_case_types)] pub struct POS_TRAIT;
impl POS_TRAIT { #[verifier::external_body] pub fn stream_pos<R: Seek>(r: &mut R) -> (x: core::result::Result<u64, IoError>) ensures final(r).at() == old(r).at(), final(r).len() == old(r).len(), final(r).tr() == old(r).tr(), match x { Ok(p) => p == old(r).at() && pos_ok(p as int) && final(r).no() == old(r).no(), Err(e) => final(r).no() == old(r).no().push(No { goal: None, e }) } { unimplemented!() } }
#[allow(non_camel_case_types)] pub struct SEEK_TRAIT;
impl SEEK_TRAIT {
    #[verifier::external_body] pub fn seek<R: Seek>(r: &mut R, to: SEEK_FROM) -> (x: core::result::Result<u64, IoError>) ensures final(r).len() == old(r).len(), final(r).tr() == old(r).tr(), match x { Ok(p) => p == goal(to, old(r).at(), old(r).len()) && final(r).at() == p && pos_ok(p as int) && final(r).no() == old(r).no(), Err(e) => final(r).at() == old(r).at() && final(r).no() == old(r).no().push(No { goal: Some(goal(to, old(r).at(), old(r).len())), e }) } { unimplemented!() }
}
#[allow(non_snake_case)] #[verifier::external_body]
pub fn READ_METHOD<R: Seek, T: IsOut, A: IsArgs>(r: &mut R, o: &ReadOptions, a: A) -> (x: BinResult<T>)
    ensures final(r).no() == old(r).no(), final(r).len() == old(r).len(), pos_ok(final(r).at()), final(r).tr() == old(r).tr().push(Ev::Read { o: *o, a: a.a(), from: old(r).at(), to: final(r).at(), out: out(x) }) { unimplemented!() }
#[allow(non_snake_case)] #[verifier::external_body]
pub fn ASSERT_MAGIC<R: Seek>(r: &mut R, m: Magic, o: &ReadOptions) -> (x: BinResult<()>)
    ensures final(r).no() == old(r).no(), final(r).len() == old(r).len(), pos_ok(final(r).at()), final(r).tr() == old(r).tr().push(Ev::Magic { m, o: *o, from: old(r).at(), to: final(r).at(), out: out0(x) }) { unimplemented!() }
#[allow(non_snake_case)] #[verifier::external_body]
pub fn AFTER_PARSE<R: Seek, T: IsVal>(v: &mut T, r: &mut R, o: &ReadOptions, a: Args) -> (x: BinResult<()>)
    ensures final(r).no() == old(r).no(), final(r).len() == old(r).len(), pos_ok(final(r).at()), final(r).tr() == old(r).tr().push(Ev::After { before: old(v).v(), after: final(v).v(), o: *o, a, from: old(r).at(), to: final(r).at(), out: out0(x), lenient: false }) { unimplemented!() }
#[allow(non_snake_case)] #[verifier::external_body]
pub fn TRY_AFTER_PARSE<R: Seek, T: IsVal>(v: &mut T, r: &mut R, o: &ReadOptions, a: Args) -> (x: BinResult<()>)
    ensures final(r).no() == old(r).no(), final(r).len() == old(r).len(), pos_ok(final(r).at()), final(r).tr() == old(r).tr().push(Ev::After { before: old(v).v(), after: final(v).v(), o: *o, a, from: old(r).at(), to: final(r).at(), out: out0(x), lenient: true }) { unimplemented!() }
pub open spec fn extends(t: Seq<Ev>, s: Seq<Ev>) -> bool { s.len() <= t.len() && forall|j: int| 0 <= j < s.len() ==> #[trigger] t[j] == s[j] }
/// the reader refused something the code itself asked of it, and that is the error
pub open spec fn refused<R: Seek>(f: R, o: R, e: BIN_ERROR) -> bool { f.no().len() == o.no().len() + 1 && e == BIN_ERROR::Io(f.no().last().e) }
pub uninterp spec fn name_of(i: int) -> Seq<char>;
/// the first multiple of `a` at or after `p`
pub open spec fn up(p: int, a: int) -> int { p + (if p % a == 0 { 0 } else { a - p % a }) }
pub broadcast proof fn up_ok(p: int, a: int) requires a > 0, p >= 0
    ensures #[trigger] up(p, a) % a == 0, up(p, a) >= p, up(p, a) - p < a, 0 <= p % a < a, (a - p % a) % a == (if p % a == 0 { 0 } else { a - p % a })
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, a);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, a);
    let m = p % a;
    let q = p / a;
    if m == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(a); }
    else { vstd::arithmetic::div_mod::lemma_small_mod((a - m) as nat, a as nat);
        assert(p + a - m == a * (q + 1)) by(nonlinear_arith) requires p == a * q + m;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a);
        assert(a * (q + 1) == (q + 1) * a) by(nonlinear_arith);
    }
}
//@HOLES
//@BODY
}
fn main() {}
