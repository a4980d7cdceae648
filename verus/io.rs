// Contracts for binread's own no_std readers: Read::read_exact, Bytes::next, Cursor.
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { Interrupted, UnexpectedEof, InvalidInput, InvalidData, Other, WriteZero }
pub assume_specification [ <ErrorKind as PartialEq>::eq ] (a: &ErrorKind, b: &ErrorKind) -> (r: bool) ensures r == (a == b);
pub struct Error { k: u64 }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.skind() { unimplemented!() }
    #[verifier::external_body] pub fn new<T>(k: ErrorKind, t: T) -> (r: Error) ensures r.skind() == k { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub trait ToErr: Sized { spec fn to(self) -> Error; fn to_err(self) -> (r: Error) ensures r == self.to(); }
impl ToErr for Error { open spec fn to(self) -> Error { self } fn to_err(self) -> (r: Error) { self } }
pub fn err_from<E: ToErr>(e: E) -> (r: Error) ensures r == e.to() { e.to_err() }
/// `&mut buf[n..]`
#[verifier::external_body]
pub fn tail_mut(buf: &mut [u8], n: usize) -> (r: &mut [u8])
    requires n <= old(buf)@.len()
    ensures r@ == old(buf)@.skip(n as int), final(buf)@ == old(buf)@.take(n as int) + final(r)@
{ &mut buf[n..] }
/// `core::slice::from_mut`
#[verifier::external_body]
pub fn from_mut(b: &mut u8) -> (r: &mut [u8])
    ensures r@ =~= seq![*old(b)], final(r)@.len() == 1 ==> *final(b) == final(r)@[0]
{ core::slice::from_mut(b) }
/// `&x[a..b]`
#[verifier::external_body]
pub fn sub(x: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= x@.len() ensures r@ == x@.subrange(a as int, b as int) { &x[a..b] }
/// `x[a..b].copy_from_slice(y)`
#[verifier::external_body]
pub fn copy_into(x: &mut [u8], a: usize, b: usize, y: &[u8])
    requires a <= b <= old(x)@.len(), y@.len() == b - a
    ensures final(x)@ == old(x)@.take(a as int) + y@ + old(x)@.skip(b as int)
{ x[a..b].copy_from_slice(y) }
pub trait Mn: Sized { spec fn lt(a: Self, b: Self) -> bool; fn mn(a: Self, b: Self) -> (r: Self) ensures r == if Self::lt(a, b) { a } else { b }; }
impl Mn for u64 { open spec fn lt(a: u64, b: u64) -> bool { a < b } fn mn(a: u64, b: u64) -> (r: u64) { if a < b { a } else { b } } }
impl Mn for usize { open spec fn lt(a: usize, b: usize) -> bool { a < b } fn mn(a: usize, b: usize) -> (r: usize) { if a < b { a } else { b } } }
pub fn min<T: Mn>(a: T, b: T) -> (r: T) ensures r == if T::lt(a, b) { a } else { b } { T::mn(a, b) }
pub assume_specification [ i64::wrapping_neg ] (x: i64) -> (r: i64) ensures r == (if x == i64::MIN { x as int } else { -x });
pub assume_specification [ i64::unsigned_abs ] (x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

/// what the reader answered, in order
pub ghost enum Ev { Ok(Seq<u8>), Err(Error) }
pub trait Read {
    spec fn tr(&self) -> Seq<Ev>;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        ensures final(buf)@.len() == old(buf)@.len(), match r {
            Ok(n) => n <= old(buf)@.len() && final(self).tr() == old(self).tr().push(Ev::Ok(final(buf)@.take(n as int))),
            Err(e) => final(self).tr() == old(self).tr().push(Ev::Err(e)) };
}
pub struct Bytes<R: Read> { pub inner: R }
pub trait AsBytes { spec fn bytes(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
pub struct Cursor<T: AsBytes> { pub inner: T, pub pos: u64 }
pub open spec fn got(t: Seq<Ev>, n: int) -> Seq<u8> decreases t.len() {
    if t.len() <= n || n < 0 { Seq::empty() } else { got(t.drop_last(), n) + (match t.last() { Ev::Ok(b) => b, Ev::Err(_) => Seq::empty() }) }
}
pub broadcast proof fn got_push(t: Seq<Ev>, o: Ev, n: int) requires 0 <= n <= t.len() ensures #[trigger] got(t.push(o), n) == got(t, n) + (match o { Ev::Ok(b) => b, Ev::Err(_) => Seq::empty() }) { assert(t.push(o).drop_last() =~= t); }
pub open spec fn extends(t: Seq<Ev>, s: Seq<Ev>) -> bool { s.len() <= t.len() && forall|j: int| 0 <= j < s.len() ==> #[trigger] t[j] == s[j] }
/// an answer after which reading goes on
pub open spec fn live(o: Ev) -> bool { match o { Ev::Ok(b) => b.len() > 0, Ev::Err(e) => e.skind() == ErrorKind::Interrupted } }
pub open spec fn interrupted(o: Ev) -> bool { match o { Ev::Ok(b) => false, Ev::Err(e) => e.skind() == ErrorKind::Interrupted } }
pub open spec fn goal(s: SeekFrom, pos: int, len: int) -> int { match s { SeekFrom::Start(x) => x as int, SeekFrom::Current(x) => pos + x, SeekFrom::End(x) => len + x } }
//@BODY
}
fn main() {}
