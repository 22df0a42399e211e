#include "witness.hpp"
#include <esl/quantity.hpp>
using esl::quantity;
#define H "esl/quantity.hpp: quantity::"

OBLIGATION(add,      H "operator+",   (u64 a, u64 b), require((quantity(a) + quantity(b)).amount == a + b))
OBLIGATION(add_eq,   H "operator+=",  (u64 a, u64 b), quantity x(a); auto &r = (x += quantity(b)); require(x.amount == a + b); require(&r == &x))
OBLIGATION(sub,      H "operator-",   (u64 a, u64 b), GIVEN(a >= b) require((quantity(a) - quantity(b)).amount == a - b))
OBLIGATION(sub_eq,   H "operator-=",  (u64 a, u64 b), GIVEN(a >= b) quantity x(a); auto &r = (x -= quantity(b)); require(x.amount == a - b); require(&r == &x))
OBLIGATION(add_then_sub, H "operator+/-", (u64 a, u64 b), GIVEN(a + b >= b) require(((quantity(a) + quantity(b)) - quantity(b)).amount == a))
REJECTS(sub_negative,    H "operator-",  (u64 a, u64 b), , a < b, true, quantity r = quantity(a) - quantity(b); (void)r)
REJECTS(sub_eq_negative, H "operator-=", (u64 a, u64 b), quantity x(a), a < b, x.amount == a, x -= quantity(b))
OBLIGATION(mul,      H "operator*(quantity)", (u64 a, u64 b), require((quantity(a) * quantity(b)).amount == a * b))
OBLIGATION(mul_u,    H "operator*(uint64)",   (u64 a, u64 b), require((quantity(a) * b).amount == a * b))
OBLIGATION(mul_eq,   H "operator*=",  (u64 a, u64 b), quantity x(a); x *= b; require(x.amount == a * b))
OBLIGATION(div_eq,   H "operator/=",  (u64 a, u64 b), GIVEN(b != 0) quantity x(a); x /= b; require(x.amount == a / b))
OBLIGATION(pre_inc,  H "operator++()", (u64 a), quantity x(a); auto &r = ++x; require(x.amount == a + 1); require(&r == &x))
OBLIGATION(pre_dec,  H "operator--()", (u64 a), quantity x(a); auto &r = --x; require(x.amount == a - 1); require(&r == &x))
OBLIGATION(post_inc, H "operator++(int)", (u64 a), quantity x(a); quantity o = x++; require(x.amount == a + 1); require(o.amount == a))
OBLIGATION(post_dec, H "operator--(int)", (u64 a), quantity x(a); quantity o = x--; require(x.amount == a - 1); require(o.amount == a))
OBLIGATION(copy,     H "quantity(const quantity&)", (u64 a), quantity x(a); quantity y(x); require(y.amount == a && x.amount == a))
OBLIGATION(move,     H "quantity(quantity&&)", (u64 a), quantity x(a); quantity y(std::move(x)); require(y.amount == a))
OBLIGATION(assign,   H "operator=", (u64 a, u64 b), quantity x(a); quantity y(b); y = x; require(y.amount == a && x.amount == a))
OBLIGATION(self_assign, H "operator=", (u64 a), quantity x(a); quantity &y = x; x = y; require(x.amount == a))
OBLIGATION(initial,  H "quantity()", (), quantity x; require(x.amount == 0))
OBLIGATION(to_u64,   H "operator uint64_t", (u64 a), require(std::uint64_t(quantity(a)) == a))
OBLIGATION(to_double, H "operator double", (u64 a), require(double(quantity(a)) == double(a)))
OBLIGATION(eq, H "operator==", (u64 a, u64 b), require((quantity(a) == quantity(b)) == (a == b)))
OBLIGATION(ne, H "operator!=", (u64 a, u64 b), require((quantity(a) != quantity(b)) == (a != b)))
OBLIGATION(lt, H "operator<",  (u64 a, u64 b), require((quantity(a) <  quantity(b)) == (a <  b)))
OBLIGATION(le, H "operator<=", (u64 a, u64 b), require((quantity(a) <= quantity(b)) == (a <= b)))
OBLIGATION(gt, H "operator>",  (u64 a, u64 b), require((quantity(a) >  quantity(b)) == (a >  b)))
OBLIGATION(ge, H "operator>=", (u64 a, u64 b), require((quantity(a) >= quantity(b)) == (a >= b)))
OBLIGATION(eq_d, H "operator==(double)", (u64 a, double b), require((quantity(a) == b) == (double(a) == b)))
OBLIGATION(lt_d, H "operator<(double)",  (u64 a, double b), require((quantity(a) <  b) == (double(a) <  b)))
OBLIGATION(le_d_lt,  H "operator<=(double)", (u64 a, double b), GIVEN(double(a) <  b) require(quantity(a) <= b); require(!(quantity(a) >= b)))
OBLIGATION(le_d_eq,  H "operator<=(double)", (u64 a, double b), GIVEN(double(a) == b) require(quantity(a) <= b); require(quantity(a) >= b))
OBLIGATION(le_d_gt,  H "operator<=(double)", (u64 a, double b), GIVEN(double(a) >  b) require(!(quantity(a) <= b)); require(quantity(a) >= b))
OBLIGATION(gt_d, H "operator>(double)",  (u64 a, double b), require((quantity(a) >  b) == (double(a) >  b)))
// splitting: every part is the quotient, the first amount % n parts one more, so the parts add up to the amount
#define SPLIT_SUM(n, c) OBLIGATION(split_##n##_##c, H "divide", (u64 k), GIVEN(k < (u64(1) << 60)) u64 a = n * k + c; auto r = quantity(a).divide<n>(); u64 t = 0; for(auto &x : r) t += x.amount; require(t == a); require(r.size() == n))
#define SPLIT_PART(n, c) OBLIGATION(parts_##n##_##c, H "divide", (u64 a), GIVEN(a % n == c) auto r = quantity(a).divide<n>(); for(u64 i = 0; i < n; ++i) require(r[i].amount == a / n + (i < c ? 1 : 0)))
#define VSPLIT_PART(n, c) OBLIGATION(vparts_##n##_##c, H "operator/", (u64 a), GIVEN(a % n == c) guard.done = true; auto r = quantity(a) / n; if(r.size() != n) { violated_vparts_##n##_##c(); } else for(u64 i = 0; i < n; ++i) require(r[i].amount == a / n + (i < c ? 1 : 0)))
SPLIT_SUM(1, 0)
SPLIT_SUM(2, 0)
SPLIT_SUM(2, 1)
SPLIT_SUM(4, 0)
SPLIT_SUM(4, 2)
SPLIT_PART(1, 0)
SPLIT_PART(2, 0)
SPLIT_PART(2, 1)
SPLIT_PART(3, 0)
SPLIT_PART(3, 1)
SPLIT_PART(3, 2)
SPLIT_PART(4, 0)
SPLIT_PART(4, 1)
SPLIT_PART(4, 2)
SPLIT_PART(4, 3)
SPLIT_PART(5, 0)
SPLIT_PART(5, 1)
SPLIT_PART(5, 2)
SPLIT_PART(5, 3)
SPLIT_PART(5, 4)
SPLIT_PART(7, 0)
SPLIT_PART(7, 1)
SPLIT_PART(7, 2)
SPLIT_PART(7, 3)
SPLIT_PART(7, 4)
SPLIT_PART(7, 5)
SPLIT_PART(7, 6)
VSPLIT_PART(1, 0)
VSPLIT_PART(2, 0)
VSPLIT_PART(2, 1)
VSPLIT_PART(3, 0)
VSPLIT_PART(3, 1)
VSPLIT_PART(3, 2)
