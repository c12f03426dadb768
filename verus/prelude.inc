// ---- prelude: field model, helpers emitted by the extractor ----
#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use std::collections::HashMap;
use core::ops::{Add, Sub, Mul, Div, Neg};
verus! {
global size_of usize == 8;

// ---------- the scalar field: integers modulo an unspecified prime fp() > 2^64 ----------
pub uninterp spec fn fp() -> int;
#[verifier::external_body]
pub proof fn ax_fp() ensures fp() > 0x1_0000_0000_0000_0000 { }
#[verifier::external_body]
pub proof fn ax_fp_prime(a: int, b: int) requires (a * b) % fp() == 0 ensures a % fp() == 0 || b % fp() == 0 { }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { x: u64 }
pub uninterp spec fn fv(x: F) -> int;
pub uninterp spec fn fk(i: int) -> F;
#[verifier::external_body]
pub proof fn ax_fv(x: F) ensures 0 <= fv(x) < fp(), fk(fv(x)) == x { }
#[verifier::external_body]
pub proof fn ax_fk(i: int) ensures fv(fk(i)) == i % fp() { }

#[verifier::opaque] pub open spec fn fadd(a: F, b: F) -> F { fk(fv(a) + fv(b)) }
#[verifier::opaque] pub open spec fn fsub(a: F, b: F) -> F { fk(fv(a) - fv(b)) }
#[verifier::opaque] pub open spec fn fmul(a: F, b: F) -> F { fk(fv(a) * fv(b)) }
#[verifier::opaque] pub open spec fn fneg(a: F) -> F { fk(-fv(a)) }
#[verifier::opaque] pub open spec fn f0() -> F { fk(0) }
#[verifier::opaque] pub open spec fn f1() -> F { fk(1) }
pub open spec fn fint(i: int) -> F { fk(i) }
#[verifier::opaque] pub open spec fn finv(a: F) -> F { choose|b: F| fmul(a, b) == f1() }
pub open spec fn fdiv(a: F, b: F) -> F { fmul(a, finv(b)) }
#[verifier::external_body]
pub proof fn ax_finv(a: F) requires a != f0() ensures fmul(a, finv(a)) == f1() { }

pub proof fn fk_cong(i: int, j: int) requires i % fp() == j % fp() ensures fk(i) == fk(j) {
    ax_fk(i); ax_fk(j); ax_fv(fk(i)); ax_fv(fk(j));
}
pub broadcast proof fn fadd_hom(x: int, y: int) ensures #[trigger] fadd(fk(x), fk(y)) == fk(x + y) {
    reveal(fadd); ax_fk(x); ax_fk(y); ax_fp();
    lemma_add_mod_noop(x, y, fp());
    fk_cong(fv(fk(x)) + fv(fk(y)), x + y);
}
pub broadcast proof fn fsub_hom(x: int, y: int) ensures #[trigger] fsub(fk(x), fk(y)) == fk(x - y) {
    reveal(fsub); ax_fk(x); ax_fk(y); ax_fp();
    lemma_sub_mod_noop(x, y, fp());
    fk_cong(fv(fk(x)) - fv(fk(y)), x - y);
}
pub broadcast proof fn fmul_hom(x: int, y: int) ensures #[trigger] fmul(fk(x), fk(y)) == fk(x * y) {
    reveal(fmul); ax_fk(x); ax_fk(y); ax_fp();
    lemma_mul_mod_noop(x, y, fp());
    fk_cong(fv(fk(x)) * fv(fk(y)), x * y);
}
pub broadcast proof fn fneg_hom(x: int) ensures #[trigger] fneg(fk(x)) == fk(-x) {
    reveal(fneg); ax_fk(x); ax_fp();
    lemma_sub_mod_noop(0, x, fp());
    assert((0int % fp()) == 0);
    assert((0 - x % fp()) % fp() == (0 - x) % fp());
    fk_cong(-fv(fk(x)), -x);
}
pub broadcast proof fn f0_hom() ensures #[trigger] f0() == fk(0) { reveal(f0); }
pub broadcast proof fn f1_hom() ensures #[trigger] f1() == fk(1) { reveal(f1); }
pub broadcast group fhom { fadd_hom, fsub_hom, fmul_hom, fneg_hom, f0_hom, f1_hom }
/// every field element is the image of an integer
pub proof fn frep(a: F) -> (x: int) ensures a == fk(x) { ax_fv(a); fv(a) }

// ring axioms, each proved from the integer model
pub broadcast proof fn fadd_comm(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a) { broadcast use fhom; let x = frep(a); let y = frep(b); assert(x + y == y + x); }
pub broadcast proof fn fmul_comm(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a) { broadcast use fhom; let x = frep(a); let y = frep(b); assert(x * y == y * x) by(nonlinear_arith); }
pub proof fn fadd_assoc(a: F, b: F, c: F) ensures fadd(fadd(a, b), c) == fadd(a, fadd(b, c)) { broadcast use fhom; let x = frep(a); let y = frep(b); let z = frep(c); assert((x + y) + z == x + (y + z)); }
pub proof fn fmul_assoc(a: F, b: F, c: F) ensures fmul(fmul(a, b), c) == fmul(a, fmul(b, c)) { broadcast use fhom; let x = frep(a); let y = frep(b); let z = frep(c); assert((x * y) * z == x * (y * z)) by(nonlinear_arith); }
pub proof fn fmul_dist(a: F, b: F, c: F) ensures fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c)) { broadcast use fhom; let x = frep(a); let y = frep(b); let z = frep(c); assert(x * (y + z) == x * y + x * z) by(nonlinear_arith); }
pub broadcast proof fn fadd_0(a: F) ensures #[trigger] fadd(a, f0()) == a { broadcast use fhom; let x = frep(a); }
pub broadcast proof fn fadd_0l(a: F) ensures #[trigger] fadd(f0(), a) == a { broadcast use fhom; let x = frep(a); }
pub broadcast proof fn fmul_1(a: F) ensures #[trigger] fmul(a, f1()) == a { broadcast use fhom; let x = frep(a); assert(x * 1 == x); }
pub broadcast proof fn fmul_1l(a: F) ensures #[trigger] fmul(f1(), a) == a { broadcast use fhom; let x = frep(a); assert(1 * x == x); }
pub broadcast proof fn fmul_0(a: F) ensures #[trigger] fmul(a, f0()) == f0() { broadcast use fhom; let x = frep(a); assert(x * 0 == 0); }
pub broadcast proof fn fmul_0l(a: F) ensures #[trigger] fmul(f0(), a) == f0() { broadcast use fhom; let x = frep(a); assert(0 * x == 0); }
pub broadcast proof fn fsub_0(a: F) ensures #[trigger] fsub(a, f0()) == a { broadcast use fhom; let x = frep(a); }
pub broadcast proof fn fsub_self(a: F) ensures #[trigger] fsub(a, a) == f0() { broadcast use fhom; let x = frep(a); }
pub broadcast group funits { fadd_0, fadd_0l, fmul_1, fmul_1l, fmul_0, fmul_0l, fsub_0, fsub_self }
pub proof fn f01() ensures f0() != f1() { reveal(f0); reveal(f1); ax_fk(0); ax_fk(1); ax_fp(); assert(0int % fp() == 0); assert(1int % fp() == 1) by { lemma_small_mod(1, fp() as nat); } }
pub proof fn fmul_eq0(a: F, b: F) ensures fmul(a, b) == f0() <==> (a == f0() || b == f0()) {
    broadcast use funits;
    if fmul(a, b) == f0() {
        reveal(fmul); reveal(f0);
        ax_fv(a); ax_fv(b); ax_fk(fv(a) * fv(b)); ax_fk(0); ax_fp();
        ax_fp_prime(fv(a), fv(b));
        lemma_small_mod(fv(a) as nat, fp() as nat);
        lemma_small_mod(fv(b) as nat, fp() as nat);
    }
}

// ---------- exec operations on the field (trusted: the ark_ff operations are the field operations) ----------
impl AddSpecImpl<F> for F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, r: F) -> bool { true } open spec fn add_spec(self, r: F) -> F { fadd(self, r) } }
impl Add<F> for F { type Output = F; #[verifier::external_body] fn add(self, r: F) -> F { unimplemented!() } }
impl<'a> AddSpecImpl<&'a F> for F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, r: &'a F) -> bool { true } open spec fn add_spec(self, r: &'a F) -> F { fadd(self, *r) } }
impl<'a> Add<&'a F> for F { type Output = F; #[verifier::external_body] fn add(self, r: &'a F) -> F { unimplemented!() } }
impl SubSpecImpl<F> for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, r: F) -> bool { true } open spec fn sub_spec(self, r: F) -> F { fsub(self, r) } }
impl Sub<F> for F { type Output = F; #[verifier::external_body] fn sub(self, r: F) -> F { unimplemented!() } }
impl<'a> SubSpecImpl<&'a F> for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, r: &'a F) -> bool { true } open spec fn sub_spec(self, r: &'a F) -> F { fsub(self, *r) } }
impl<'a> Sub<&'a F> for F { type Output = F; #[verifier::external_body] fn sub(self, r: &'a F) -> F { unimplemented!() } }
impl MulSpecImpl<F> for F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, r: F) -> bool { true } open spec fn mul_spec(self, r: F) -> F { fmul(self, r) } }
impl Mul<F> for F { type Output = F; #[verifier::external_body] fn mul(self, r: F) -> F { unimplemented!() } }
impl<'a> MulSpecImpl<&'a F> for F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, r: &'a F) -> bool { true } open spec fn mul_spec(self, r: &'a F) -> F { fmul(self, *r) } }
impl<'a> Mul<&'a F> for F { type Output = F; #[verifier::external_body] fn mul(self, r: &'a F) -> F { unimplemented!() } }
// division: ark_ff panics on a zero divisor
impl DivSpecImpl<F> for F { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, r: F) -> bool { r != f0() } open spec fn div_spec(self, r: F) -> F { fdiv(self, r) } }
impl Div<F> for F { type Output = F; #[verifier::external_body] fn div(self, r: F) -> F { unimplemented!() } }
impl<'a> DivSpecImpl<&'a F> for F { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, r: &'a F) -> bool { *r != f0() } open spec fn div_spec(self, r: &'a F) -> F { fdiv(self, *r) } }
impl<'a> Div<&'a F> for F { type Output = F; #[verifier::external_body] fn div(self, r: &'a F) -> F { unimplemented!() } }
impl NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { fneg(self) } }
impl Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { unimplemented!() } }
impl PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, r: &F) -> bool { *self == *r } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, r: &F) -> (b: bool) { unimplemented!() } }
impl F {
    #[verifier::external_body] pub fn zero() -> (r: F) ensures r == f0() { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: F) ensures r == f1() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (*self == f0()) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (*self == f1()) { unimplemented!() }
    #[verifier::external_body] pub fn double(&self) -> (r: F) ensures r == fadd(*self, *self) { unimplemented!() }
    #[verifier::external_body] pub fn square(&self) -> (r: F) ensures r == fmul(*self, *self) { unimplemented!() }
    #[verifier::external_body] pub fn inverse(&self) -> (r: Option<F>) ensures *self == f0() ==> r.is_none(), *self != f0() ==> r == Some(finv(*self)) { unimplemented!() }
    pub fn zk_from<T: ZkInt>(t: T) -> (r: F) ensures r == fk(t.zk_int()) { t.zk_to_f() }
}
pub trait ZkInt: Sized { spec fn zk_int(&self) -> int; fn zk_to_f(self) -> (r: F) ensures r == fk(self.zk_int()); }
impl ZkInt for u64 { open spec fn zk_int(&self) -> int { *self as int } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }
impl ZkInt for u128 { open spec fn zk_int(&self) -> int { *self as int } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }
impl ZkInt for u32 { open spec fn zk_int(&self) -> int { *self as int } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }
impl ZkInt for i32 { open spec fn zk_int(&self) -> int { *self as int } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }
impl ZkInt for i64 { open spec fn zk_int(&self) -> int { *self as int } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }
impl ZkInt for bool { open spec fn zk_int(&self) -> int { if *self { 1 } else { 0 } } #[verifier::external_body] fn zk_to_f(self) -> (r: F) { unimplemented!() } }

// ---------- helpers the extractor emits ----------
pub trait ZkClone: Sized { fn zk_clone(&self) -> (r: Self) ensures r == *self; }
impl ZkClone for F { #[verifier::external_body] fn zk_clone(&self) -> (r: F) { unimplemented!() } }
impl ZkClone for usize { fn zk_clone(&self) -> (r: usize) { *self } }
impl ZkClone for u64 { fn zk_clone(&self) -> (r: u64) { *self } }
impl ZkClone for bool { fn zk_clone(&self) -> (r: bool) { *self } }
impl ZkClone for String { #[verifier::external_body] fn zk_clone(&self) -> (r: String) { unimplemented!() } }
impl<T: ZkClone> ZkClone for Vec<T> { #[verifier::external_body] fn zk_clone(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: ZkClone> ZkClone for Option<T> { #[verifier::external_body] fn zk_clone(&self) -> (r: Option<T>) { unimplemented!() } }
impl<T> ZkClone for Arc<T> { #[verifier::external_body] fn zk_clone(&self) -> (r: Arc<T>) { unimplemented!() } }
impl<A: ZkClone, B: ZkClone> ZkClone for (A, B) { fn zk_clone(&self) -> (r: (A, B)) { (self.0.zk_clone(), self.1.zk_clone()) } }
impl<K, V> ZkClone for HashMap<K, V> { #[verifier::external_body] fn zk_clone(&self) -> (r: HashMap<K, V>) { unimplemented!() } }
pub trait ZkToVec<T> { spec fn zk_seq(&self) -> Seq<T>; fn zk_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.zk_seq(); }
impl<T: ZkClone> ZkToVec<T> for Vec<T> { open spec fn zk_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn zk_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: ZkClone> ZkToVec<T> for [T] { open spec fn zk_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn zk_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub fn zk_vec_repeat<T: ZkClone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, r@ == Seq::new(n as nat, |i: int| x), forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x {
    let mut v: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == x decreases n - i { v.push(x.zk_clone()); i = i + 1; }
    assert(v@ =~= Seq::new(n as nat, |i: int| x));
    v
}
pub fn zk_assert(b: bool) requires b { }
#[verifier::external_body] pub fn zk_assert_or_panic(b: bool) ensures b { unimplemented!() }
/// unwrap where the program may stop with a panic instead
pub trait ZkMayUnwrap<T>: Sized { spec fn zk_some(&self) -> bool; spec fn zk_val(&self) -> T; fn zk_may_unwrap(self) -> (r: T) ensures self.zk_some(), r == self.zk_val(); }
impl<T> ZkMayUnwrap<T> for Option<T> { open spec fn zk_some(&self) -> bool { self.is_some() } open spec fn zk_val(&self) -> T { self.unwrap() } #[verifier::external_body] fn zk_may_unwrap(self) -> (r: T) { unimplemented!() } }
impl<T, E: std::fmt::Debug> ZkMayUnwrap<T> for Result<T, E> { open spec fn zk_some(&self) -> bool { self.is_ok() } open spec fn zk_val(&self) -> T { self.unwrap() } #[verifier::external_body] fn zk_may_unwrap(self) -> (r: T) { unimplemented!() } }
#[verifier::external_body] pub fn zk_may_panic<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body] pub fn zk_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn zk_string() -> String { unimplemented!() }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
#[verifier::external_body] pub fn zk_concat2<T: ZkClone>(a: &[T], b: &[T]) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
pub trait ZkAsRef<O: ?Sized> { spec fn zk_ref_ok(&self, o: &O) -> bool; fn zk_as_ref(&self) -> (r: &O) ensures self.zk_ref_ok(r); }
impl<T> ZkAsRef<[T]> for Vec<T> { open spec fn zk_ref_ok(&self, o: &[T]) -> bool { o@ == self@ } fn zk_as_ref(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> ZkAsRef<[T]> for [T] { open spec fn zk_ref_ok(&self, o: &[T]) -> bool { o@ == self@ } fn zk_as_ref(&self) -> (r: &[T]) { self } }
impl<T> ZkAsRef<[T]> for [T; 1] { open spec fn zk_ref_ok(&self, o: &[T]) -> bool { o@ == self@ } fn zk_as_ref(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> ZkAsRef<T> for Arc<T> { open spec fn zk_ref_ok(&self, o: &T) -> bool { *o == **self } fn zk_as_ref(&self) -> (r: &T) { &**self } }
// rayon: the next chunk ends anywhere after i (arbitrary)
#[verifier::external_body] pub fn zk_chunk_end(i: usize, n: usize) -> (r: usize) requires i < n ensures i < r <= n { unimplemented!() }
#[derive(Debug)]
pub enum ArithErrors { InvalidParameters(String), ShouldNotArrive, SerializationErrors(u64) }
pub trait ZkSeqArg<T> { spec fn zk_arg(&self) -> Seq<T>; }
impl<T> ZkSeqArg<T> for &[T] { open spec fn zk_arg(&self) -> Seq<T> { (*self)@ } }
impl<T> ZkSeqArg<T> for Vec<T> { open spec fn zk_arg(&self) -> Seq<T> { self@ } }
impl<T> ZkSeqArg<T> for &Vec<T> { open spec fn zk_arg(&self) -> Seq<T> { (*self)@ } }
pub trait ZkExtend<T>: Sized { spec fn zk_ev(&self) -> Seq<T>; fn zk_extend<S: ZkSeqArg<T>>(&mut self, s: S) ensures final(self).zk_ev() == old(self).zk_ev() + s.zk_arg(); }
impl<T> ZkExtend<T> for Vec<T> { open spec fn zk_ev(&self) -> Seq<T> { self@ } #[verifier::external_body] fn zk_extend<S: ZkSeqArg<T>>(&mut self, s: S) { unimplemented!() } }
#[derive(Debug)]
pub enum PCSError { InvalidParameters(String), InvalidProof(String), InvalidProver(String), InvalidVerifier(String), Other }
#[derive(Debug)]
pub enum PolyIOPErrors { InvalidProver(String), InvalidVerifier(String), InvalidProof(String), InvalidParameters(String), InvalidChallenge(String), ShouldNotArrive, SerializationErrors(u64), TranscriptErrors(u64), ArithmeticErrors(ArithErrors), PCSErrors(PCSError) }
pub open spec fn ipow(b: int, e: int) -> int decreases e { if e <= 0 { 1 } else { b * ipow(b, e - 1) } }
pub trait ZkPow<X>: Sized { spec fn zk_pow_ok(&self, e: X) -> bool; spec fn zk_pow_v(&self, e: X) -> Self; fn zk_pow(self, e: X) -> (r: Self) requires self.zk_pow_ok(e) ensures r == self.zk_pow_v(e); }
impl ZkPow<u32> for usize { open spec fn zk_pow_ok(&self, e: u32) -> bool { ipow(*self as int, e as int) <= usize::MAX } open spec fn zk_pow_v(&self, e: u32) -> usize { ipow(*self as int, e as int) as usize } #[verifier::external_body] fn zk_pow(self, e: u32) -> (r: usize) { unimplemented!() } }
pub trait ZkResize<T>: Sized { spec fn zk_rv(&self) -> Seq<T>; fn zk_resize(&mut self, n: usize, x: T) ensures final(self).zk_rv().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self).zk_rv()[i] == (if i < old(self).zk_rv().len() { old(self).zk_rv()[i] } else { x }); }
impl<T: ZkClone> ZkResize<T> for Vec<T> { open spec fn zk_rv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn zk_resize(&mut self, n: usize, x: T) { unimplemented!() } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == imax(a as int, b as int) { if a > b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == imin(a as int, b as int) { if a < b { a } else { b } }
