#include "witness.hpp"
#include <cmath>
#include <iomanip>
#include <sstream>
#include <esl/economics/price.hpp>
#include <esl/economics/currencies.hpp>
using esl::economics::price;
using esl::economics::iso_4217;
#define H "esl/economics/price.hpp: price::"
#define I "esl/economics/iso_4217.hpp: iso_4217::"
#define CUR(n, x, y, z, d) iso_4217 n(std::array<char, 3>{x, y, z}, d)
#define VALID(x) ('A' <= (x) && (x) <= 'Z')
#define ONE CUR(cur, 'U', 'S', 'D', d)
// two currencies that differ in one letter, or in the number of minor units
#define TWO CUR(ca, 'A', 'B', x, d); CUR(cb, 'A', 'B', y, e)
#define TWOP (u64 a, u64 b, char x, char y, u64 d, u64 e)
#define TWOPRE (VALID(x) && VALID(y) && d > 0 && e > 0 && (x != y || d != e))

// --- currency codes
OBLIGATION(iso_make, I "iso_4217", (char x, char y, char z, u64 d), GIVEN(VALID(x) && VALID(y) && VALID(z) && d > 0) CUR(c, x, y, z, d); require(c.code[0] == x && c.code[1] == y && c.code[2] == z && c.denominator == d))
REJECTS(iso_bad0, I "iso_4217", (char x, u64 d), , !VALID(x), true, CUR(c, x, 'B', 'C', d); (void)c)
REJECTS(iso_bad1, I "iso_4217", (char x, u64 d), , !VALID(x), true, CUR(c, 'A', x, 'C', d); (void)c)
REJECTS(iso_bad2, I "iso_4217", (char x, u64 d), , !VALID(x), true, CUR(c, 'A', 'B', x, d); (void)c)
REJECTS(iso_zero, I "iso_4217", (char x), , VALID(x), true, CUR(c, 'A', 'B', x, 0); (void)c)
#define ISO2 GIVEN(VALID(x) && VALID(y) && VALID(z) && VALID(u) && VALID(v) && VALID(w) && d > 0 && e > 0) CUR(ca, x, y, z, d); CUR(cb, u, v, w, e);
#define ISO2P (char x, char y, char z, u64 d, char u, char v, char w, u64 e)
#define ISOCMP(n, cond, same) OBLIGATION(iso_cmp_##n, I "operator==/!=", ISO2P, ISO2 GIVEN(cond) require((ca == cb) == same); require((ca != cb) != same))
ISOCMP(same, x == u && y == v && z == w && d == e, true)
ISOCMP(first, x != u, false)
ISOCMP(second, y != v, false)
ISOCMP(third, z != w, false)
ISOCMP(units, d != e, false)
OBLIGATION(iso_lt0, I "operator<", ISO2P, ISO2 GIVEN(x < u) require(ca < cb))
OBLIGATION(iso_gt0, I "operator<", ISO2P, ISO2 GIVEN(x > u) require(!(ca < cb)))
OBLIGATION(iso_lt1, I "operator<", ISO2P, ISO2 GIVEN(x == u && y < v) require(ca < cb))
OBLIGATION(iso_gt1, I "operator<", ISO2P, ISO2 GIVEN(x == u && y > v) require(!(ca < cb)))
OBLIGATION(iso_lt2, I "operator<", ISO2P, ISO2 GIVEN(x == u && y == v && z != w) require((ca < cb) == (z < w)))
OBLIGATION(iso_lt3, I "operator<", ISO2P, ISO2 GIVEN(x == u && y == v && z == w) require(!(ca < cb)))
OBLIGATION(iso_copy, I "iso_4217(const iso_4217&)", (char x, u64 d), GIVEN(VALID(x) && d > 0) CUR(ca, 'A', x, 'C', d); iso_4217 cb(ca); require(cb.code[0] == 'A' && cb.code[1] == x && cb.code[2] == 'C' && cb.denominator == d))
OBLIGATION(iso_assign, I "operator=", ISO2P, ISO2 cb = ca; require(cb.code[0] == x && cb.code[1] == y && cb.code[2] == z && cb.denominator == d))

// --- arithmetic within a currency: the value is the exact integer result and the currency is kept
#define SAME(p, v) require((p).value == i64(v)); require((p).valuation.denominator == d); require((p).valuation.code[0] == 'U' && (p).valuation.code[1] == 'S' && (p).valuation.code[2] == 'D')
#define PAB GIVEN(d > 0) ONE; price pa(i64(a), cur), pb(i64(b), cur);
#define PABP (u64 a, u64 b, u64 d)
OBLIGATION(make,   H "price", PABP, PAB SAME(pa, a))
OBLIGATION(copy,   H "price(const price&)", PABP, PAB price c(pa); SAME(c, a))
OBLIGATION(move,   H "price(price&&)", PABP, PAB price c(std::move(pa)); SAME(c, a))
OBLIGATION(assign, H "operator=", PABP, PAB pb = pa; SAME(pb, a))
OBLIGATION(add,    H "operator+", PABP, PAB SAME(pa + pb, a + b))
OBLIGATION(sub,    H "operator-", PABP, PAB SAME(pa - pb, a - b))
OBLIGATION(neg,    H "operator-()", PABP, PAB SAME(-pa, -a))
OBLIGATION(mul,    H "operator*", PABP, PAB SAME(pa * pb, a * b))
OBLIGATION(div,    H "operator/", PABP, PAB GIVEN(b != 0 && b + 1 != 0) SAME(pa / pb, i64(a) / i64(b)))
OBLIGATION(add_eq, H "operator+=", PABP, PAB auto &r = (pa += pb); require(&r == &pa); SAME(pa, a + b); SAME(pb, b))
OBLIGATION(sub_eq, H "operator-=", PABP, PAB auto &r = (pa -= pb); require(&r == &pa); SAME(pa, a - b); SAME(pb, b))
OBLIGATION(mul_eq, H "operator*=", PABP, PAB auto &r = (pa *= pb); require(&r == &pa); SAME(pa, a * b); SAME(pb, b))
OBLIGATION(div_eq, H "operator/=", PABP, PAB GIVEN(b != 0 && b + 1 != 0) auto &r = (pa /= pb); require(&r == &pa); SAME(pa, i64(a) / i64(b)); SAME(pb, b))
OBLIGATION(scale_u64, H "operator*(price, uint64)", PABP, PAB SAME(u64(b) * pa, a * b))
OBLIGATION(scale_int, H "operator*(integer)", PABP, PAB SAME(pa * int(b), a * u64(i64(int(b)))))
OBLIGATION(to_double, H "operator double", PABP, PAB require(double(pa) == double(i64(a)) / double(d) || double(pa) != double(pa)))
OBLIGATION(approx, H "approximate", (u64 d, double f), GIVEN(d > 0 && d < 1000000 && f > -1e9 && f < 1e9) ONE; price p = price::approximate(f, cur); SAME(p, static_cast<i64>(f * d)))
OBLIGATION(approx_like, H "price(double, price)", (u64 d, double f), GIVEN(d > 0 && d < 1000000 && f > -1e9 && f < 1e9) ONE; price p(f, price(1, cur)); SAME(p, static_cast<i64>(f * d)))
#define PDP (i64 a, double f, u64 d)
#define PD GIVEN(d > 0 && a > -(i64(1) << 40) && a < (i64(1) << 40) && f > 1e-6 && f < 1e5) ONE; price pa(a, cur);
OBLIGATION(add_d, H "operator+(double)", PDP, PD SAME(pa + f, static_cast<i64>(a + f)))
OBLIGATION(sub_d, H "operator-(double)", PDP, PD SAME(pa - f, static_cast<i64>(a - f)))
OBLIGATION(mul_d, H "operator*(double)", PDP, PD SAME(pa * f, static_cast<i64>(a * f)))
OBLIGATION(div_d, H "operator/(double)", PDP, PD SAME(pa / f, static_cast<i64>(a / f)))

// --- order within a currency is the order of the values
OBLIGATION(lt, H "operator<",  PABP, PAB require((pa <  pb) == (i64(a) <  i64(b))))
OBLIGATION(le, H "operator<=", PABP, PAB require((pa <= pb) == (i64(a) <= i64(b))))
OBLIGATION(gt, H "operator>",  PABP, PAB require((pa >  pb) == (i64(a) >  i64(b))))
OBLIGATION(ge, H "operator>=", PABP, PAB require((pa >= pb) == (i64(a) >= i64(b))))
OBLIGATION(eq, H "operator==", PABP, PAB require((pa == pb) == (a == b)))
OBLIGATION(ne, H "operator!=", PABP, PAB require((pa != pb) == (a != b)))

// --- across currencies: never equal, and nothing that needs a common currency completes
#define MIX(n, c) OBLIGATION(mix_eq_##n, H "operator==/!=", TWOP, GIVEN(TWOPRE && c) TWO; price pa(i64(a), ca), pb(i64(b), cb); require(!(pa == pb)); require(pa != pb))
MIX(code, x != y)
MIX(units, d != e)
#define MIXR(n, t, ...) REJECTS(n, t, TWOP, , TWOPRE, true, TWO; price pa(i64(a), ca), pb(i64(b), cb); __VA_ARGS__)
MIXR(mix_lt, H "operator<",  bool r = pa < pb; (void)r)
MIXR(mix_le, H "operator<=", bool r = pa <= pb; (void)r)
MIXR(mix_gt, H "operator>",  bool r = pa > pb; (void)r)
MIXR(mix_ge, H "operator>=", bool r = pa >= pb; (void)r)
MIXR(mix_add, H "operator+", price r = pa + pb; (void)r)
MIXR(mix_sub, H "operator-", price r = pa - pb; (void)r)
MIXR(mix_mul, H "operator*", price r = pa * pb; (void)r)
MIXR(mix_div, H "operator/", if(b == 0 || b + 1 == 0) return; price r = pa / pb; (void)r)
MIXR(mix_add_eq, H "operator+=", pa += pb)
MIXR(mix_sub_eq, H "operator-=", pa -= pb)
MIXR(mix_mul_eq, H "operator*=", pa *= pb)
MIXR(mix_div_eq, H "operator/=", if(b == 0 || b + 1 == 0) return; pa /= pb)
