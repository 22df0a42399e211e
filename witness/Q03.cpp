#include "witness.hpp"
#include <cmath>
#include <iomanip>
#include <sstream>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/currencies.hpp>
using esl::economics::price;
using esl::economics::iso_4217;
using esl::economics::markets::quote;
using u32 = std::uint32_t;
using i32 = std::int32_t;
#define H "esl/economics/markets/quote.hpp: quote::"
#define CUR iso_4217 cur(std::array<char, 3>{'U', 'S', 'D'}, 100); iso_4217 oth(std::array<char, 3>{'E', 'U', 'R'}, 100);
#define VAL(q) (std::get<price>((q).type).value)
#define IS(q, v, l) require(VAL(q) == i64(v)); require((q).lot == (l)); require(std::get<price>((q).type).valuation == cur)
#define P2 (i32 a, i32 b, u32 l)
#define LOT2 GIVEN(l > 0) CUR quote qa(price(a, cur), l), qb(price(b, cur), l);

OBLIGATION(make, H "quote(price, lot)", P2, LOT2 IS(qa, a, l))
OBLIGATION(copy, H "quote(const quote&)", P2, LOT2 quote c(qa); IS(c, a, l))
OBLIGATION(assign, H "operator=", (i32 a, i32 b, u32 l, u32 m), GIVEN(l > 0 && m > 0) CUR quote qa(price(a, cur), l), qb(price(b, oth), m); qb = qa; IS(qb, a, l); IS(qa, a, l))
REJECTS(zero_lot, H "quote(price, lot)", (i32 a), , true, true, CUR quote q(price(a, cur), 0); (void)q)
OBLIGATION(default_lot, H "quote()", (), quote q; require(q.lot == 1); require(VAL(q) == 0))

// same lot, same currency: the order of the quotes is the order of their prices, whatever the lot
#define ORDER(n, op, l) OBLIGATION(n##_##l, H "operator" #op, (i32 a, i32 b), CUR quote qa(price(a, cur), l), qb(price(b, cur), l); require((qa op qb) == (a op b)))
ORDER(eq, ==, 1)
ORDER(eq, ==, 10)
ORDER(eq, ==, 4000000000)
ORDER(ne, !=, 1)
ORDER(ne, !=, 10)
ORDER(ne, !=, 4000000000)
ORDER(lt, <, 1)
ORDER(lt, <, 8)
ORDER(lt, <, 2147483648)
ORDER(le, <=, 1)
ORDER(le, <=, 8)
ORDER(le, <=, 2147483648)
ORDER(gt, >, 1)
ORDER(gt, >, 8)
ORDER(gt, >, 2147483648)
ORDER(ge, >=, 1)
ORDER(ge, >=, 8)
ORDER(ge, >=, 2147483648)

// different lots: no comparison and no arithmetic completes
#define LOTR(n, t, ...) REJECTS(n, t, (i32 a, i32 b, u32 l, u32 m), , l > 0 && m > 0 && l != m, true, CUR quote qa(price(a, cur), l), qb(price(b, cur), m); __VA_ARGS__)
LOTR(lot_eq, H "operator==", bool r = qa == qb; (void)r)
LOTR(lot_ne, H "operator!=", bool r = qa != qb; (void)r)
LOTR(lot_lt, H "operator<",  bool r = qa <  qb; (void)r)
LOTR(lot_le, H "operator<=", bool r = qa <= qb; (void)r)
LOTR(lot_gt, H "operator>",  bool r = qa >  qb; (void)r)
LOTR(lot_ge, H "operator>=", bool r = qa >= qb; (void)r)
LOTR(lot_add, H "operator+", quote r = qa + qb; (void)r)
LOTR(lot_sub, H "operator-", quote r = qa - qb; (void)r)
LOTR(lot_mul, H "operator*", quote r = qa * qb; (void)r)
LOTR(lot_div, H "operator/", if(b == 0 || b == -1) return; quote r = qa / qb; (void)r)

// different currencies: equality is false, everything else does not complete
OBLIGATION(cur_eq, H "operator==", P2, GIVEN(l > 0) CUR quote qa(price(a, cur), l), qb(price(b, oth), l); require(!(qa == qb)))
OBLIGATION(cur_ne, H "operator!=", P2, GIVEN(l > 0) CUR quote qa(price(a, cur), l), qb(price(b, oth), l); require(qa != qb))
#define CURR(n, t, ...) REJECTS(n, t, P2, , l > 0, true, CUR quote qa(price(a, cur), l), qb(price(b, oth), l); __VA_ARGS__)
CURR(cur_lt, H "operator<",  bool r = qa <  qb; (void)r)
CURR(cur_le, H "operator<=", bool r = qa <= qb; (void)r)
CURR(cur_gt, H "operator>",  bool r = qa >  qb; (void)r)
CURR(cur_ge, H "operator>=", bool r = qa >= qb; (void)r)
CURR(cur_add, H "operator+", quote r = qa + qb; (void)r)
CURR(cur_sub, H "operator-", quote r = qa - qb; (void)r)
CURR(cur_mul, H "operator*", quote r = qa * qb; (void)r)
CURR(cur_div, H "operator/", if(b == 0 || b == -1) return; quote r = qa / qb; (void)r)

// arithmetic keeps the lot and the currency and works on the prices
OBLIGATION(add, H "operator+", P2, LOT2 IS(qa + qb, i64(a) + b, l))
OBLIGATION(sub, H "operator-", P2, LOT2 IS(qa - qb, i64(a) - b, l))
OBLIGATION(mul, H "operator*", P2, LOT2 IS(qa * qb, i64(a) * b, l))
OBLIGATION(div, H "operator/", P2, LOT2 GIVEN(b != 0 && b != -1) IS(qa / qb, i64(a) / b, l))
#define PD (i32 a, double f, u32 l)
#define QD GIVEN(l > 0 && f > 1e-6 && f < 1e5) CUR quote qa(price(a, cur), l);
OBLIGATION(add_d, H "operator+(double)", PD, QD IS(qa + f, static_cast<i64>(i64(a) + f), l))
OBLIGATION(sub_d, H "operator-(double)", PD, QD IS(qa - f, static_cast<i64>(i64(a) - f), l))
OBLIGATION(mul_d, H "operator*(double)", PD, QD IS(qa * f, static_cast<i64>(i64(a) * f), l))
OBLIGATION(div_d, H "operator/(double)", PD, QD IS(qa / f, static_cast<i64>(i64(a) / f), l))

// per unit of goods
OBLIGATION(per_unit, H "operator double", P2, LOT2 double v = double(qa); double w = (double(i64(a)) / 100) / l; require(v == w || v != v))
OBLIGATION(similar, H "quote(double, quote)", (i32 a, double f, u32 l), GIVEN(l > 0 && f > -1e9 && f < 1e9) CUR quote qa(price(a, cur), l); quote r(f, qa); IS(r, static_cast<i64>(f * 100), l))
