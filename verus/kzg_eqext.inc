pub broadcast proof fn shl1_i32(n: usize) ensures n < 31 ==> #[trigger] (1i32 << n) == p2(n as int) && p2(n as int) <= 0x4000_0000 {
    if n < 31 { shl1_u64_usize(n); assert((1i32 << n) as u64 == 1u64 << n) by(bit_vector) requires n < 31; assert(1i32 << n > 0) by(bit_vector) requires n < 31; assert(1i32 << n <= 0x4000_0000) by(bit_vector) requires n < 31; }
}
pub proof fn shr_bit(x: u64, i: u64) ensures i < 64 ==> (((x >> i)) & 1u64 == 1) == bit(x as int, i as int) decreases i {
    if i < 64 { if i == 0 { assert(x >> 0u64 == x) by(bit_vector); and_one_u64(x); }
        else { let y = x >> 1u64; let j = (i - 1) as u64; assert(x >> i == y >> j) by(bit_vector) requires y == x >> 1u64, 0 < i < 64, j == sub(i, 1); assert(y == x / 2) by { shr_one_u64(x); } shr_bit(y, j); } }
}
pub broadcast proof fn shr_bit_i32(x: i32, i: usize) ensures i < 31 && x >= 0 ==> ((#[trigger] (x >> i)) & 1i32 == 1) == bit(x as int, i as int) {
    if i < 31 && x >= 0 { shr_bit(x as u64, i as u64);
        let y = x as u64; let j = i as u64; assert((((x >> i) & 1i32) == 1i32) == (((y >> j) & 1u64) == 1u64)) by(bit_vector) requires i < 31, x >= 0, y == x as u64, j == i as u64; }
}
//@fn src/subroutines/pcs/multilinear_kzg/util.rs::eq_extension
//@@ requires
        t@.len() < 31,  // the loop counter of the code is an i32
//@@ ensures
        ret@.len() == t@.len(),
        forall|i: int| 0 <= i < t@.len() ==> dwf(#[trigger] ret@[i]) && ret@[i].num_vars == t@.len() && forall|x: int| 0 <= x < p2(t@.len() as int) ==> #[trigger] ret@[i].evaluations@[x] == (if bit(x, i) { t@[i] } else { fsub(f1(), t@[i]) }),
//@@ entry
    broadcast use shifts, shr_bit_i32, shl1_i32;
    proof { p2_mono(t@.len() as int, 62); p2_64(); }
//@@ vartype
    result: Vec<DenseMultilinearExtension>
//@@ inv 0
            zk_n0 == t@.len(), result@.len() == zk_i0,
            forall|i: int| 0 <= i < zk_i0 ==> dwf(#[trigger] result@[i]) && result@[i].num_vars == t@.len() && forall|x: int| 0 <= x < p2(t@.len() as int) ==> #[trigger] result@[i].evaluations@[x] == (if bit(x, i) { t@[i] } else { fsub(f1(), t@[i]) }),
//@@ inv 1
                zk_n1 == p2(t@.len() as int), poly@.len() == zk_i1, forall|x: int| 0 <= x < zk_i1 ==> #[trigger] poly@[x] == (if bit(x, i as int) { t@[i as int] } else { fsub(f1(), t@[i as int]) }),
//@@ start 1
                proof { ring_eqext(t@[i as int]); }
//@end
pub proof fn ring_eqext(t: F) ensures fadd(fsub(fsub(fadd(fmul(t, f1()), fmul(t, f1())), f1()), t), f1()) == t, fadd(fsub(fsub(fadd(fmul(t, f0()), fmul(t, f0())), f0()), t), f1()) == fsub(f1(), t) {
    broadcast use fhom; let x = frep(t); assert(x * 1 + x * 1 - 1 - x + 1 == x); assert(x * 0 + x * 0 - 0 - x + 1 == 1 - x);
}
