// ---- what the claimed relations between counts decide ----
pub open spec fn dupfree(a: spec_fn(F) -> int) -> bool { forall|v: F| 0 <= #[trigger] a(v) <= 1 }
pub open spec fn nonneg(a: spec_fn(F) -> int) -> bool { forall|v: F| 0 <= #[trigger] a(v) }
/// nothing occurs twice in a and b together
pub open spec fn rel_disjoint(a: spec_fn(F) -> int, b: spec_fn(F) -> int) -> bool { forall|v: F| #[trigger] a(v) + b(v) <= 1 }
pub open spec fn rel_sum(a: spec_fn(F) -> int, b: spec_fn(F) -> int, c: spec_fn(F) -> int) -> bool { forall|v: F| #[trigger] a(v) + b(v) == c(v) }
pub open spec fn rel_incl(a: spec_fn(F) -> int, b: spec_fn(F) -> int) -> bool { forall|v: F| #[trigger] a(v) > 0 ==> b(v) > 0 }
/// s has each of a's values once and nothing else
pub open spec fn rel_supp(a: spec_fn(F) -> int, s: spec_fn(F) -> int) -> bool { forall|v: F| #[trigger] s(v) == (if a(v) > 0 { 1int } else { 0 }) }
/// difference: for sets a, b the claimed relations hold exactly when l is a without b (and m what they share)
pub proof fn diff_decides(a: spec_fn(F) -> int, b: spec_fn(F) -> int, l: spec_fn(F) -> int, m: spec_fn(F) -> int) requires dupfree(a), dupfree(b), nonneg(l), nonneg(m)
    ensures rel_disjoint(l, b) && rel_sum(l, m, a) && rel_incl(m, b) <==> forall|v: F| #[trigger] l(v) == (if a(v) > 0 && b(v) == 0 { 1int } else { 0 }) && m(v) == (if a(v) > 0 && b(v) > 0 { 1int } else { 0 })
{
    if rel_disjoint(l, b) && rel_sum(l, m, a) && rel_incl(m, b) { assert forall|v: F| #[trigger] l(v) == (if a(v) > 0 && b(v) == 0 { 1int } else { 0 }) && m(v) == (if a(v) > 0 && b(v) > 0 { 1int } else { 0 }) by { assert(l(v) + b(v) <= 1); assert(l(v) + m(v) == a(v)); assert(m(v) > 0 ==> b(v) > 0); assert(0 <= a(v) <= 1 && 0 <= b(v) <= 1 && 0 <= l(v) && 0 <= m(v)); } }
    if forall|v: F| #[trigger] l(v) == (if a(v) > 0 && b(v) == 0 { 1int } else { 0 }) && m(v) == (if a(v) > 0 && b(v) > 0 { 1int } else { 0 }) {
        assert forall|v: F| #[trigger] l(v) + b(v) <= 1 by { assert(0 <= b(v) <= 1); } assert forall|v: F| #[trigger] l(v) + m(v) == a(v) by { assert(0 <= a(v) <= 1 && 0 <= b(v) <= 1); } assert forall|v: F| #[trigger] m(v) > 0 implies b(v) > 0 by { assert(l(v) >= 0); }
    }
}
/// intersection: for sets a, b the claimed relations hold exactly when m is what they share (and l, r the rest)
pub proof fn inter_decides(a: spec_fn(F) -> int, b: spec_fn(F) -> int, l: spec_fn(F) -> int, m: spec_fn(F) -> int, r: spec_fn(F) -> int) requires dupfree(a), dupfree(b), nonneg(l), nonneg(m), nonneg(r)
    ensures rel_sum(l, m, a) && rel_sum(m, r, b) && rel_disjoint(l, r) <==> forall|v: F| #[trigger] m(v) == (if a(v) > 0 && b(v) > 0 { 1int } else { 0 }) && l(v) == (if a(v) > 0 && b(v) == 0 { 1int } else { 0 }) && r(v) == (if b(v) > 0 && a(v) == 0 { 1int } else { 0 })
{
    if rel_sum(l, m, a) && rel_sum(m, r, b) && rel_disjoint(l, r) { assert forall|v: F| #[trigger] m(v) == (if a(v) > 0 && b(v) > 0 { 1int } else { 0 }) && l(v) == (if a(v) > 0 && b(v) == 0 { 1int } else { 0 }) && r(v) == (if b(v) > 0 && a(v) == 0 { 1int } else { 0 }) by { assert(l(v) + m(v) == a(v)); assert(m(v) + r(v) == b(v)); assert(l(v) + r(v) <= 1); assert(0 <= a(v) <= 1 && 0 <= b(v) <= 1 && 0 <= l(v) && 0 <= m(v) && 0 <= r(v)); } }
    if forall|v: F| #[trigger] m(v) == (if a(v) > 0 && b(v) > 0 { 1int } else { 0 }) && l(v) == (if a(v) > 0 && b(v) == 0 { 1int } else { 0 }) && r(v) == (if b(v) > 0 && a(v) == 0 { 1int } else { 0 }) {
        assert forall|v: F| #[trigger] l(v) + m(v) == a(v) by { assert(0 <= a(v) <= 1 && 0 <= b(v) <= 1); } assert forall|v: F| #[trigger] m(v) + r(v) == b(v) by { assert(0 <= a(v) <= 1 && 0 <= b(v) <= 1); } assert forall|v: F| #[trigger] l(v) + r(v) <= 1 by { assert(m(v) >= 0); }
    }
}
/// union: u is the support of the sum exactly when it has each value of either set once
pub proof fn union_decides(a: spec_fn(F) -> int, b: spec_fn(F) -> int, t: spec_fn(F) -> int, u: spec_fn(F) -> int) requires nonneg(a), nonneg(b), rel_sum(a, b, t)
    ensures rel_supp(t, u) <==> forall|v: F| #[trigger] u(v) == (if a(v) > 0 || b(v) > 0 { 1int } else { 0 })
{
    assert forall|v: F| t(v) > 0 <==> #[trigger] a(v) > 0 || b(v) > 0 by { assert(a(v) + b(v) == t(v)); assert(a(v) >= 0 && b(v) >= 0); }
    if forall|v: F| #[trigger] u(v) == (if a(v) > 0 || b(v) > 0 { 1int } else { 0 }) { assert forall|v: F| #[trigger] u(v) == (if t(v) > 0 { 1int } else { 0 }) by { assert(t(v) > 0 <==> a(v) > 0 || b(v) > 0); } }
    if rel_supp(t, u) { assert forall|v: F| #[trigger] u(v) == (if a(v) > 0 || b(v) > 0 { 1int } else { 0 }) by { assert(t(v) > 0 <==> a(v) > 0 || b(v) > 0); } }
}
