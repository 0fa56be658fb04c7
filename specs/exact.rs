// exact arithmetic: the scalar type is an ordered field (its values are viewed as reals)
verus! {
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub broadcast axiom fn ex_add(a: Sc, b: Sc) ensures (#[trigger] fadd(a,b))@ == a@ + b@;
pub broadcast axiom fn ex_sub(a: Sc, b: Sc) ensures (#[trigger] fsub(a,b))@ == a@ - b@;
pub broadcast axiom fn ex_mul(a: Sc, b: Sc) ensures (#[trigger] fmul(a,b))@ == a@ * b@ && fmul(a,b)@ == b@ * a@;
pub broadcast axiom fn ex_div(a: Sc, b: Sc) ensures b@ != 0real ==> (#[trigger] fdiv(a,b))@ == a@ / b@ && fdiv(a,b)@ == a@ * (1real / b@);
pub broadcast axiom fn ex_neg(a: Sc) ensures (#[trigger] fneg(a))@ == -a@;
pub broadcast axiom fn ex_recip(a: Sc) ensures a@ != 0real ==> (#[trigger] frecip(a))@ == 1real / a@;
pub broadcast axiom fn ex_abs(a: Sc) ensures (#[trigger] fabs(a))@ == rabs(a@);
pub broadcast axiom fn ex_pow2(a: Sc) ensures (#[trigger] fpowi(a, 2))@ == a@ * a@;
pub broadcast axiom fn ex_from(n: u32) ensures (#[trigger] ffrom(n))@ == (n as int) as real;
pub broadcast axiom fn ex_fromint(n: usize) ensures n <= 0x20_0000_0000_0000 ==> (#[trigger] ffromint(n))@ == (n as int) as real;
pub broadcast axiom fn ex_quot(n: i64, d: u64) ensures d > 0 ==> (#[trigger] fquot(n, d))@ == (n as int) as real / ((d as int) as real);
pub broadcast axiom fn ex_max(a: Sc, b: Sc) ensures (#[trigger] fmaxi(a, b))@ == if a@ >= b@ { a@ } else { b@ };
pub broadcast axiom fn ex_min(a: Sc, b: Sc) ensures (#[trigger] fmini(a, b))@ == if a@ <= b@ { a@ } else { b@ };
pub broadcast axiom fn ex_fma(a: Sc, b: Sc, c: Sc) ensures (#[trigger] ffma(a, b, c))@ == a@ * b@ + c@ && ffma(a, b, c)@ == b@ * a@ + c@;
pub broadcast axiom fn ex_lt(a: Sc, b: Sc) ensures (#[trigger] flt(a,b)) == (a@ < b@);
pub broadcast axiom fn ex_eq(a: Sc, b: Sc) ensures (#[trigger] feq(a,b)) == (a@ == b@);
pub broadcast axiom fn ex_zero() ensures (#[trigger] fzero())@ == 0real;
pub broadcast axiom fn ex_one() ensures (#[trigger] fone())@ == 1real;
pub broadcast group exact { ex_add, ex_sub, ex_mul, ex_div, ex_neg, ex_recip, ex_abs, ex_pow2, ex_from, ex_fromint, ex_quot, ex_max, ex_min, ex_fma, ex_lt, ex_eq, ex_zero, ex_one }
}
