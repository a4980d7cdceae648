// Contract for the block the `align_before` / `align_after` directives expand to.
use vstd::prelude::*;
verus! {
pub struct Error { k: u64 }
pub type BinResult<T> = core::result::Result<T, Error>;
pub fn err_from(e: Error) -> (r: Error) ensures r == e { e }
#[allow(non_camel_case_types)]
pub enum SEEK_FROM { Start(u64), End(i64), Current(i64) }
pub trait Seek { spec fn at(&self) -> int; spec fn len(&self) -> int; }
pub open spec fn goal(s: SEEK_FROM, pos: int, len: int) -> int { match s { SEEK_FROM::Start(x) => x as int, SEEK_FROM::Current(x) => pos + x, SEEK_FROM::End(x) => len + x } }
#[allow(non_camel_case_types)] pub struct POS_TRAIT;
impl POS_TRAIT { #[verifier::external_body] pub fn stream_pos<R: Seek>(r: &mut R) -> (x: BinResult<u64>) ensures final(r).at() == old(r).at(), x is Ok ==> x->Ok_0 == old(r).at() { unimplemented!() } }
#[allow(non_camel_case_types)] pub struct SEEK_TRAIT;
impl SEEK_TRAIT {
    #[verifier::external_body] pub fn seek<R: Seek>(r: &mut R, to: SEEK_FROM) -> (x: BinResult<u64>) ensures match x { Ok(p) => p == goal(to, old(r).at(), old(r).len()) && final(r).at() == p, Err(_) => final(r).at() == old(r).at() } { unimplemented!() }
    #[verifier::external_body] pub fn stream_position<R: Seek>(r: &mut R) -> (x: BinResult<u64>) ensures final(r).at() == old(r).at(), x is Ok ==> x->Ok_0 == old(r).at() { unimplemented!() }
}
/// the first multiple of `a` at or after `p`
pub open spec fn up(p: int, a: int) -> int { p + (a - p % a) % a }
pub proof fn up_ok(p: int, a: int) requires a > 0, p >= 0 ensures up(p, a) % a == 0, up(p, a) >= p, up(p, a) - p < a, 0 <= p % a < a,
    (a - p % a) % a == (if p % a == 0 { 0 } else { a - p % a })
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, a);
    vstd::arithmetic::div_mod::lemma_mod_bound(p, a);
    let m = p % a;
    let q = p / a;
    if m == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(a); }
    else { vstd::arithmetic::div_mod::lemma_small_mod((a - m) as nat, a as nat);
        assert(p + a - m == a * (q + 1)) by(nonlinear_arith) requires p == a * q + m;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a);
        assert(a * (q + 1) == (q + 1) * a) by(nonlinear_arith);
    }
}
/// only one number fits
pub proof fn up_unique(p: int, a: int, x: int) requires a > 0, p >= 0, x >= p, x - p < a, x % a == 0 ensures x == up(p, a)
{
    up_ok(p, a);
    let y = up(p, a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, a);
    assert(x - y == a * (x / a - y / a)) by(nonlinear_arith) requires x == a * (x / a), y == a * (y / a);
    let d = x / a - y / a;
    assert(-a < x - y < a);
    assert(d == 0) by(nonlinear_arith) requires -a < a * d < a, a > 0;
}
//@BODY
}
fn main() {}
