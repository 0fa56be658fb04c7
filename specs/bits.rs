// floating point: only what IEEE 754 guarantees for every operand (up to NaN payloads)
verus! {
pub broadcast axiom fn ieee_mul_comm(a: Sc, b: Sc) ensures (#[trigger] fmul(a,b)) == fmul(b,a);
pub broadcast axiom fn ieee_add_comm(a: Sc, b: Sc) ensures (#[trigger] fadd(a,b)) == fadd(b,a);
pub broadcast axiom fn ieee_lt_asym(a: Sc, b: Sc) ensures (#[trigger] flt(a,b)) ==> !flt(b,a);
pub broadcast axiom fn ieee_eq_sym(a: Sc, b: Sc) ensures (#[trigger] feq(a,b)) == feq(b,a);
pub broadcast axiom fn ieee_eq_lt(a: Sc, b: Sc) ensures (#[trigger] flt(a,b)) ==> !feq(a,b);
pub broadcast axiom fn ieee_recip(a: Sc) ensures #[trigger] frecip(a) == fdiv(fone(), a);
pub broadcast axiom fn ieee_mul_one(a: Sc) ensures #[trigger] fmul(a, fone()) == a;
pub broadcast axiom fn ieee_one_nonzero() ensures #![trigger fone()] !feq(fone(), fzero());
pub broadcast axiom fn ieee_sub_neg(a: Sc, b: Sc) ensures #[trigger] fadd(a, fneg(b)) == fsub(a, b);
pub broadcast axiom fn ieee_mul_minus_one(a: Sc) ensures #[trigger] fmul(a, fneg(fone())) == fneg(a);
pub broadcast group ieee { ieee_mul_one, ieee_one_nonzero, ieee_sub_neg, ieee_mul_minus_one, ieee_mul_comm, ieee_add_comm, ieee_lt_asym, ieee_eq_sym, ieee_eq_lt, ieee_recip }
}
