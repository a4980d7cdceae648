// Contracts for the code that reads sequences. Everything the verified bodies call is specified
// here; nothing about the bodies themselves is.
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy)]
pub enum Endian { Big, Little, Native }
#[derive(Clone, Copy)]
pub struct ReadOptions { pub endian: Endian, pub count: Option<usize>, pub offset: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { Interrupted, UnexpectedEof, InvalidInput, InvalidData, Other, PermissionDenied, WouldBlock, NotFound }
pub use ErrorKind::UnexpectedEof;
pub mod io { pub use super::ErrorKind; pub use super::IoError as Error; }
pub assume_specification [ <ErrorKind as PartialEq>::eq ] (a: &ErrorKind, b: &ErrorKind) -> (r: bool) ensures r == (a == b);
pub struct IoError { k: u64 }
impl IoError {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.skind() { unimplemented!() }
}
pub enum Error { BadMagic { pos: u64, found: u64 }, AssertFail { pos: u64, message: u64 }, Io(IoError), Custom { pos: u64, err: u64 }, NoVariantMatch { pos: u64 }, EnumErrors { pos: u64, variant_errors: u64 } }
pub type BinResult<T> = core::result::Result<T, Error>;
pub open spec fn is_eof(e: Error) -> bool { match e { Error::Io(x) => x.skind() == ErrorKind::UnexpectedEof, _ => false } }
pub trait ToErr: Sized { spec fn to(self) -> Error; fn to_err(self) -> (r: Error) ensures r == self.to(); }
impl ToErr for Error { open spec fn to(self) -> Error { self } fn to_err(self) -> (r: Error) { self } }
impl ToErr for IoError { open spec fn to(self) -> Error { Error::Io(self) } fn to_err(self) -> (r: Error) { Error::Io(self) } }
pub fn err_from<E: ToErr>(e: E) -> (r: Error) ensures r == e.to() { e.to_err() }

/// What was asked of the reader, in order: the reader's history. A nested read, a postprocessing
/// call and a byte fetch are one event each; what they do inside is theirs.
pub ghost enum Out { Ok(int), Err(Error) }
pub ghost enum Ev {
    Read { ty: int, o: ReadOptions, a: int, out: Out },
    Rta { ty: int, endian: Endian, a: int, out: Out },
    After { ty: int, before: int, after: int, o: ReadOptions, a: int, out: Out },
    Byte { b: int },
    ByteErr { e: IoError },
    Eof,
    Bytes { b: Seq<u8> },
    BytesErr { n: nat, e: IoError },
}
pub trait Obs: Sized { spec fn ty() -> int; spec fn obs(self) -> int; }
pub open spec fn out<T: Obs>(r: BinResult<T>) -> Out { match r { Ok(v) => Out::Ok(v.obs()), Err(e) => Out::Err(e) } }
pub open spec fn out0(r: BinResult<()>) -> Out { match r { Ok(v) => Out::Ok(0), Err(e) => Out::Err(e) } }
pub trait Read { spec fn tr(&self) -> Seq<Ev>; }
pub trait Seek {}
pub trait BinRead: Obs {
    type Args;
    spec fn aobs(a: Self::Args) -> int;
    fn read_options<R: Read + Seek>(reader: &mut R, options: &ReadOptions, args: Self::Args) -> (r: BinResult<Self>)
        ensures final(reader).tr() == old(reader).tr().push(Ev::Read { ty: Self::ty(), o: *options, a: Self::aobs(args), out: out(r) });
    fn after_parse<R: Read + Seek>(&mut self, reader: &mut R, options: &ReadOptions, args: Self::Args) -> (r: BinResult<()>)
        ensures final(reader).tr() == old(reader).tr().push(Ev::After { ty: Self::ty(), before: old(self).obs(), after: final(self).obs(), o: *options, a: Self::aobs(args), out: out0(r) });
}
impl Obs for u16 { open spec fn ty() -> int { 16 } open spec fn obs(self) -> int { self as int } }
impl BinRead for u16 { type Args = (); open spec fn aobs(a: ()) -> int { 0 }
    #[verifier::external_body] fn read_options<R: Read + Seek>(reader: &mut R, options: &ReadOptions, args: ()) -> (r: BinResult<u16>) { unimplemented!() }
    #[verifier::external_body] fn after_parse<R: Read + Seek>(&mut self, reader: &mut R, options: &ReadOptions, args: ()) -> (r: BinResult<()>) { unimplemented!() }
}
impl Obs for u8 { open spec fn ty() -> int { 8 } open spec fn obs(self) -> int { self as int } }
impl BinRead for u8 { type Args = (); open spec fn aobs(a: ()) -> int { 0 }
    #[verifier::external_body] fn read_options<R: Read + Seek>(reader: &mut R, options: &ReadOptions, args: ()) -> (r: BinResult<u8>) { unimplemented!() }
    #[verifier::external_body] fn after_parse<R: Read + Seek>(&mut self, reader: &mut R, options: &ReadOptions, args: ()) -> (r: BinResult<()>) { unimplemented!() }
}
pub trait ReaderExt: Read + Seek + Sized {
    fn read_type_args<T: BinRead>(&mut self, endian: Endian, args: T::Args) -> (r: BinResult<T>)
        ensures final(self).tr() == old(self).tr().push(Ev::Rta { ty: T::ty(), endian, a: T::aobs(args), out: out(r) });
}
/// the container a sequence is collected into
pub trait FromItems<T>: Sized { spec fn items(self) -> Seq<T>; }
impl<T> FromItems<T> for Vec<T> { open spec fn items(self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn collect<T, F: FromItems<T>>(v: Vec<T>) -> (r: F) ensures r.items() == v@ { unimplemented!() }
#[verifier::external_body]
pub fn array_of<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
pub trait Mn: Sized { spec fn lt(a: Self, b: Self) -> bool; fn mn(a: Self, b: Self) -> (r: Self) ensures r == if Self::lt(a, b) { a } else { b }; }
impl Mn for u64 { open spec fn lt(a: u64, b: u64) -> bool { a < b } fn mn(a: u64, b: u64) -> (r: u64) { if a < b { a } else { b } } }
impl Mn for usize { open spec fn lt(a: usize, b: usize) -> bool { a < b } fn mn(a: usize, b: usize) -> (r: usize) { if a < b { a } else { b } } }
pub fn min<T: Mn>(a: T, b: T) -> (r: T) ensures r == if T::lt(a, b) { a } else { b } { T::mn(a, b) }
/// `reader.bytes().next()` (for the no_std version: unit bytes_next; std's is std's)
#[verifier::external_body]
pub fn bytes_next<R: Read>(reader: &mut R) -> (r: Option<core::result::Result<u8, IoError>>)
    ensures final(reader).tr() == old(reader).tr().push(match r { Some(Ok(b)) => Ev::Byte { b: b as int }, Some(Err(e)) => Ev::ByteErr { e }, None => Ev::Eof })
{ unimplemented!() }
/// `reader.read_exact(&mut v[a..])` (for the no_std version: unit read_exact; std's is std's)
#[verifier::external_body]
pub fn read_exact_from<R: Read>(reader: &mut R, v: &mut Vec<u8>, a: usize) -> (r: core::result::Result<(), IoError>)
    requires a <= old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), final(v)@.take(a as int) == old(v)@.take(a as int),
        final(reader).tr() == old(reader).tr().push(match r { Ok(_) => Ev::Bytes { b: final(v)@.skip(a as int) }, Err(e) => Ev::BytesErr { n: (old(v)@.len() - a) as nat, e } })
{ unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct NonZeroU8 { v: u8 }
pub struct NullString(pub Vec<u8>);
pub struct NullWideString(pub Vec<u16>);
impl NonZeroU8 { #[verifier::external_body] pub const fn new(x: u8) -> (r: Option<NonZeroU8>) ensures r is Some <==> x != 0, r is Some ==> r->0.v() == x { unimplemented!() }
    pub uninterp spec fn v(self) -> u8;
    #[verifier::external_body] pub const fn get(self) -> (r: u8) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub const fn new_unchecked(x: u8) -> (r: NonZeroU8) requires x != 0 ensures r.v() == x { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct NonZeroU16 { v: u16 }
impl NonZeroU16 { #[verifier::external_body] pub const fn new(x: u16) -> (r: Option<NonZeroU16>) ensures r is Some <==> x != 0, r is Some ==> r->0.v() == x { unimplemented!() }
    pub uninterp spec fn v(self) -> u16;
    #[verifier::external_body] pub const fn get(self) -> (r: u16) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub const fn new_unchecked(x: u16) -> (r: NonZeroU16) requires x != 0 ensures r.v() == x { unimplemented!() } }
pub struct Punctuated<T, P> { pub data: Vec<T>, pub seperators: Vec<P> }

/// what `read_exact` delivered, over a history
pub open spec fn got(t: Seq<Ev>, n: int) -> Seq<u8> decreases t.len() {
    if t.len() <= n || n < 0 { Seq::empty() } else { got(t.drop_last(), n) + (match t.last() { Ev::Bytes { b } => b, _ => Seq::empty() }) }
}
pub broadcast proof fn got_push(t: Seq<Ev>, o: Ev, n: int) requires 0 <= n <= t.len() ensures #[trigger] got(t.push(o), n) == got(t, n) + (match o { Ev::Bytes { b } => b, _ => Seq::empty() }) { assert(t.push(o).drop_last() =~= t); }
/// the history `t` starts with the history `s`
pub open spec fn extends(t: Seq<Ev>, s: Seq<Ev>) -> bool { s.len() <= t.len() && forall|j: int| 0 <= j < s.len() ==> #[trigger] t[j] == s[j] }
pub open spec fn is_ok(o: Out) -> bool { o is Ok }
pub open spec fn obf<T: Obs>(x: T) -> int { x.obs() }
pub trait Val { spec fn val(self) -> int; }
impl Val for NonZeroU8 { open spec fn val(self) -> int { self.v() as int } }
impl Val for NonZeroU16 { open spec fn val(self) -> int { self.v() as int } }
pub open spec fn vof<T: Val>(x: T) -> int { x.val() }
pub open spec fn is_read(e: Ev, ty: int, o: ReadOptions, a: int) -> bool { e matches Ev::Read { ty: t2, o: o2, a: a2, out } && t2 == ty && o2 == o && a2 == a && out is Ok }
pub open spec fn is_rta(e: Ev, ty: int, n: Endian, a: int) -> bool { e matches Ev::Rta { ty: t2, endian, a: a2, out } && t2 == ty && endian == n && a2 == a && out is Ok }
pub open spec fn cond_is<T, F: Fn(&T) -> bool>(f: F, v: T, b: bool) -> bool { f.ensures((&v,), b) }
/// `Default::default()` for the array a loop then fills
pub trait DefaultV: Sized { fn default() -> (r: Self); }
pub struct Default;
impl Default { #[verifier::external_body] pub fn default<B, const N: usize>() -> (r: [B; N]) { unimplemented!() } }
//@BODY
}
fn main() {}
