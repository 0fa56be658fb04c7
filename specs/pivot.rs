verus! {
pub proof fn quot_le_one(q: real, d: real) requires d != 0real, rabs(q) <= rabs(d) ensures rabs(q * (1real / d)) <= 1real
{
  let m = q * (1real / d);
  assert(m * d == q) by (nonlinear_arith) requires d != 0real, m == q * (1real / d);
  assert(m <= 1real && m >= -1real) by (nonlinear_arith) requires d != 0real, m * d == q, (if q < 0real { -q } else { q }) <= (if d < 0real { -d } else { d });
}
}
