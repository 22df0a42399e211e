#include "witness.hpp"
#include <esl/economics/finance/share_class.hpp>
#include <esl/geography/iso_3166_1_alpha_2.hpp>
#include <esl/economics/iso_4217.hpp>
#include <esl/economics/markets/iso_10383.hpp>
using esl::economics::finance::share_class;
using esl::geography::iso_3166_1_alpha_2;
using esl::economics::iso_4217;
using esl::economics::markets::iso_10383;
using u8 = std::uint8_t;
#define S "esl/economics/finance/share_class.hpp: share_class::"
#define C "esl/geography/iso_3166_1_alpha_2.hpp: iso_3166_1_alpha_2::"
#define M "esl/economics/markets/iso_10383.hpp: iso_10383::"
#define UP(x) ('A' <= (x) && (x) <= 'Z')
#define UPD(x) (UP(x) || ('0' <= (x) && (x) <= '9'))

// --- share classes: equal exactly when every attribute is
#define SC2P (u8 r, u8 v, float p, bool d, bool c, bool e, u8 r2, u8 v2, float p2, bool d2, bool c2, bool e2)
#define SC2 share_class a(r, v, p, d, c, e), b(r2, v2, p2, d2, c2, e2); std::hash<share_class> h; (void)h;
OBLIGATION(share_make, S "share_class", (u8 r, u8 v, float p, bool d, bool c, bool e), GIVEN(p >= 0) share_class a(r, v, p, d, c, e); require(a.rank == r && a.votes == v && a.preference == p && a.dividend == d && a.cumulative == c && a.redeemable == e))
OBLIGATION(share_eq, S "operator==", (u8 r, u8 v, float p, bool d, bool c, bool e), GIVEN(p == p) share_class a(r, v, p, d, c, e), b(r, v, p, d, c, e); require(a == b))
#define SHNE(n, cond) OBLIGATION(share_ne_##n, S "operator==", SC2P, SC2 GIVEN(cond) require(!(a == b)))
SHNE(rank, r != r2)
SHNE(votes, v != v2)
SHNE(preference, !(p == p2))
SHNE(dividend, d != d2)
SHNE(cumulative, c != c2)
SHNE(redeemable, e != e2)
// the order used by the maps keyed by share class tells different classes apart, and is a strict order
OBLIGATION(share_irreflexive, S "operator<", (u8 r, u8 v, float p, bool d, bool c, bool e), share_class a(r, v, p, d, c, e), b(r, v, p, d, c, e); require(!(a < b)))
#define SHLT(n, given, less) OBLIGATION(share_lt_##n, S "operator<", SC2P, SC2 GIVEN(given) require((a < b) || (b < a)); require(!((a < b) && (b < a))))
SHLT(rank, r != r2, r < r2)
SHLT(votes, r == r2 && v != v2, v < v2)
SHLT(preference, r == r2 && v == v2 && (p < p2 || p > p2), p < p2)
SHLT(dividend, r == r2 && v == v2 && p == p2 && d != d2, d < d2)
SHLT(cumulative, r == r2 && v == v2 && p == p2 && d == d2 && c != c2, c < c2)
OBLIGATION(share_lt_redeemable, S "operator<", (u8 r, u8 v, float p, bool d, bool c), GIVEN(p == p) share_class a(r, v, p, d, c, true), b(r, v, p, d, c, false); require((a < b) || (b < a)); require(!((a < b) && (b < a))))
OBLIGATION(share_seniority, S "operator<", SC2P, SC2 GIVEN(r < r2) require(a < b))

// --- country codes: exactly two capital letters
OBLIGATION(country_make, C "iso_3166_1_alpha_2", (char x, char y), GIVEN(UP(x) && UP(y)) iso_3166_1_alpha_2 c(std::array<char, 2>{x, y}); require(c.code[0] == x && c.code[1] == y))
REJECTS(country_bad0, C "iso_3166_1_alpha_2", (char x, char y), , !UP(x), true, iso_3166_1_alpha_2 c(std::array<char, 2>{x, y}); (void)c)
REJECTS(country_bad1, C "iso_3166_1_alpha_2", (char x, char y), , !UP(y), true, iso_3166_1_alpha_2 c(std::array<char, 2>{x, y}); (void)c)
REJECTS(country_length, C "iso_3166_1_alpha_2(string)", (const std::string &s), , s.size() != 2, true, iso_3166_1_alpha_2 c(s); (void)c)
// --- market codes: exactly four capital letters or digits
OBLIGATION(market_make, M "iso_10383", (char w, char x, char y, char z), GIVEN(UPD(w) && UPD(x) && UPD(y) && UPD(z)) iso_10383 c(std::array<char, 4>{w, x, y, z}); require(c.code[0] == w && c.code[1] == x && c.code[2] == y && c.code[3] == z))
#define MKBAD(i) REJECTS(market_bad##i, M "iso_10383", (char x), , !UPD(x), true, std::array<char, 4> a{'M' COMMA 'K' COMMA 'T' COMMA '0'}; a[i] = x; iso_10383 c(a); (void)c)
#define COMMA ,
MKBAD(0)
MKBAD(1)
MKBAD(2)
MKBAD(3)
// --- hashes depend only on what equality compares
OBLIGATION(share_hash, "esl/economics/finance/share_class.hpp: hash<share_class>", (u8 r, u8 v, float p, bool d, bool c, bool e), share_class a(r, v, p, d, c, e), b(r, v, p, d, c, e); require(std::hash<share_class>{}(a) == std::hash<share_class>{}(b)))
OBLIGATION(country_hash, "esl/geography/iso_3166_1_alpha_2.hpp: hash<iso_3166_1_alpha_2>", (char x, char y), GIVEN(UP(x) && UP(y)) iso_3166_1_alpha_2 a(std::array<char, 2>{x, y}), b(std::array<char, 2>{x, y}); require(std::hash<iso_3166_1_alpha_2>{}(a) == std::hash<iso_3166_1_alpha_2>{}(b)))
OBLIGATION(currency_hash, "esl/economics/iso_4217.hpp: hash<iso_4217>", (char x, char y, char z, u64 d), GIVEN(UP(x) && UP(y) && UP(z) && d > 0) iso_4217 a(std::array<char, 3>{x, y, z}, d), b(std::array<char, 3>{x, y, z}, d); require(std::hash<iso_4217>{}(a) == std::hash<iso_4217>{}(b)))
