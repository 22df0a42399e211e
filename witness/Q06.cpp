#include "witness.hpp"
#include <esl/mathematics/interval.hpp>
using esl::mathematics::interval;
using i32 = std::int32_t;
#define H "esl/mathematics/interval.hpp: interval::"
// bounds far enough from the ends of the type for upper - lower to be exact
#define NEAR(l, u) ((l) > -(i64(1) << 60) && (l) < (i64(1) << 60) && (u) > -(i64(1) << 60) && (u) < (i64(1) << 60))
#define NEARD(l, u) ((l) > -1e100 && (l) < 1e100 && (u) > -1e100 && (u) < 1e100)

OBLIGATION(make, H "interval", (i64 l, i64 u), (interval<i64, true, true>(l, u).lower == l) ? void() : violated_make(); (interval<i64, true, false>(l, u).upper == u) ? void() : violated_make())
#define CONTAINS(n, T, lc, rc, above, below) OBLIGATION(contains_##n, H "contains", (T l, T u, T v), interval<T COMMA lc COMMA rc> i(l, u); bool a = v above l; bool b = v below u; if(a && b) require(i.contains(v)); else require(!i.contains(v)))
#define COMMA ,
CONTAINS(closed_int, i64, true, true, >=, <=)
CONTAINS(left_int, i64, true, false, >=, <)
CONTAINS(right_int, i64, false, true, >, <=)
CONTAINS(open_int, i64, false, false, >, <)
CONTAINS(closed_unsigned, u64, true, true, >=, <=)
CONTAINS(left_unsigned, u64, true, false, >=, <)
CONTAINS(right_unsigned, u64, false, true, >, <=)
CONTAINS(open_unsigned, u64, false, false, >, <)
CONTAINS(closed_real, double, true, true, >=, <=)
CONTAINS(left_real, double, true, false, >=, <)
CONTAINS(right_real, double, false, true, >, <=)
CONTAINS(open_real, double, false, false, >, <)

// reversed bounds: nothing is contained and the interval is empty, whatever its kind
#define REVERSED(n, T, lc, rc) OBLIGATION(reversed_##n, H "empty", (T l, T u, T v), GIVEN(l > u) interval<T COMMA lc COMMA rc> i(l, u); require(i.empty()); require(i.degenerate()); if(v >= l || v <= u) require(!i.contains(v)))
REVERSED(closed_int, i64, true, true)
REVERSED(left_int, i64, true, false)
REVERSED(right_int, i64, false, true)
REVERSED(open_int, i64, false, false)
REVERSED(left_unsigned, u64, true, false)
REVERSED(closed_real, double, true, true)
REVERSED(left_real, double, true, false)
REVERSED(open_real, double, false, false)

// half-open intervals: emptiness and having one element agree with membership
#define HALF(n, T, lc, rc) OBLIGATION(half_empty_##n, H "empty", (T l, T u), GIVEN(NEAR(i64(l), i64(u))) interval<T COMMA lc COMMA rc> i(l, u); if(l < u) require(!i.empty()); else require(i.empty())) \
    OBLIGATION(half_single_##n, H "singleton", (T l, T u), GIVEN(NEAR(i64(l), i64(u)) && l < u) interval<T COMMA lc COMMA rc> i(l, u); if(u - l == 1) require(i.singleton()); else require(!i.singleton())) \
    OBLIGATION(half_none_##n, H "singleton", (T l, T u), GIVEN(NEAR(i64(l), i64(u)) && l >= u) interval<T COMMA lc COMMA rc> i(l, u); require(!i.singleton())) \
    OBLIGATION(half_degenerate_##n, H "degenerate", (T l, T u), GIVEN(NEAR(i64(l), i64(u))) interval<T COMMA lc COMMA rc> i(l, u); if(i.empty() || i.singleton()) require(i.degenerate()); else require(!i.degenerate()))
HALF(left_int, i64, true, false)
HALF(right_int, i64, false, true)
HALF(left_unsigned, u64, true, false)
HALF(right_unsigned, u64, false, true)
#define HALFR(n, lc, rc) OBLIGATION(half_empty_##n, H "empty", (double l, double u), GIVEN(NEARD(l, u)) interval<double COMMA lc COMMA rc> i(l, u); if(l < u) require(!i.empty()); else require(i.empty())) \
    OBLIGATION(half_single_##n, H "singleton", (double l, double u), GIVEN(NEARD(l, u)) interval<double COMMA lc COMMA rc> i(l, u); require(!i.singleton()))
HALFR(left_real, true, false)
HALFR(right_real, false, true)

// closed and open intervals
#define BOTH(n, T, lc, rc, has, one) OBLIGATION(agree_empty_##n, H "empty", (T l, T u), GIVEN(NEAR(i64(l), i64(u)) && l <= u) interval<T COMMA lc COMMA rc> i(l, u); if(has) require(!i.empty()); else require(i.empty())) \
    OBLIGATION(agree_single_##n, H "singleton", (T l, T u), GIVEN(NEAR(i64(l), i64(u)) && l <= u) interval<T COMMA lc COMMA rc> i(l, u); if(one) require(i.singleton()); else require(!i.singleton()))
BOTH(closed_int, i64, true, true, true, l == u)
BOTH(open_int, i64, false, false, u - l >= 2, u - l == 2)
BOTH(closed_unsigned, u64, true, true, true, l == u)
BOTH(open_unsigned, u64, false, false, u - l >= 2, u - l == 2)
