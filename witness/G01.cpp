// pipelines: clang-O2 clang-O2-unroll
// written by meta/gen_g01.py
#include "witness.hpp"
#include <initializer_list>
#include <string_view>
#include <type_traits>
#include <esl/geography/countries.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/law/jurisdictions.hpp>
using namespace esl;
// a string whose contents the compilers can follow
struct text { const char *p = ""; std::size_t l = 0; char c[8] = {}; unsigned n = 0;
  text() = default; text(const char *s) : p(s), l(__builtin_strlen(s)) {} text(std::string_view s) : p(s.data()), l(s.size()) {}
  text(const char *s, std::size_t k) { append(s, k); } text(std::size_t k, char x) { append(k, x); } text(std::initializer_list<char> x) { for(char y : x) { append(1, y); } }
  template<class I, class = decltype(*std::declval<I>()), class = std::enable_if_t<!std::is_integral_v<I>>> text(I b, I e) { for(; b != e; ++b) { append(1, *b); } }
  text &append(const char *s, std::size_t k) { for(std::size_t i = 0; i < k && n < 8; ++i) { c[n++] = s[i]; } return *this; }
  text &append(std::size_t k, char x) { for(std::size_t i = 0; i < k && n < 8; ++i) { c[n++] = x; } return *this; }
  template<class I, class = decltype(*std::declval<I>()), class = std::enable_if_t<!std::is_integral_v<I>>> text &append(I b, I e) { for(; b != e; ++b) { append(1, *b); } return *this; }
  text &append(const char *s) { if(l == 0 && n == 0) { p = s; l = __builtin_strlen(s); } else { append(s, __builtin_strlen(s)); } return *this; }
  text &append(const text &t) { if(l == 0 && n == 0) { return *this = t; } append(t.p, t.l); return append(t.c, t.n); }
  void push_back(char x) { append(1, x); } void reserve(std::size_t) {}
  text &operator+=(char x) { return append(1, x); } text &operator+=(const char *s) { return append(s); } text &operator+=(const text &t) { return append(t); }
  friend text operator+(text t, char x) { t += x; return t; } friend text operator+(text t, const char *x) { t += x; return t; } friend text operator+(text t, const text &x) { t += x; return t; } };
static inline bool is(const text &t, const char *s, const char *tail = "") { return t.l == __builtin_strlen(s) && __builtin_memcmp(t.p, s, t.l) == 0 && t.n == __builtin_strlen(tail) && (t.n < 1 || t.c[0] == tail[0]) && (t.n < 2 || t.c[1] == tail[1]) && (t.n < 3 || t.c[2] == tail[2]); }
static inline text country(char a, char b) { return geography::country_name<text>(geography::iso_3166_1_alpha_2(std::array<char, 2>{a, b})); }
static inline text currency(char a, char b, char c) { return economics::currency_name<text>(economics::iso_4217(std::array<char, 3>{a, b, c})); }

OBLIGATION(country_AD, "esl/geography/countries.hpp: countries::AD", (), require(geography::countries::AD.code[0] == 'A' && geography::countries::AD.code[1] == 'D' && sizeof(geography::countries::AD.code) == 2);)
OBLIGATION(country_name_AD, "esl/geography/countries.hpp: country_name (AD)", (), require(is(country('A', 'D'), "Andorra")); require(is(geography::country_name<text>(geography::countries::AD), "Andorra"));)
OBLIGATION(country_AE, "esl/geography/countries.hpp: countries::AE", (), require(geography::countries::AE.code[0] == 'A' && geography::countries::AE.code[1] == 'E' && sizeof(geography::countries::AE.code) == 2);)
OBLIGATION(country_name_AE, "esl/geography/countries.hpp: country_name (AE)", (), require(is(country('A', 'E'), "United Arab Emirates")); require(is(geography::country_name<text>(geography::countries::AE), "United Arab Emirates"));)
OBLIGATION(country_AF, "esl/geography/countries.hpp: countries::AF", (), require(geography::countries::AF.code[0] == 'A' && geography::countries::AF.code[1] == 'F' && sizeof(geography::countries::AF.code) == 2);)
OBLIGATION(country_name_AF, "esl/geography/countries.hpp: country_name (AF)", (), require(is(country('A', 'F'), "Afghanistan")); require(is(geography::country_name<text>(geography::countries::AF), "Afghanistan"));)
OBLIGATION(country_AG, "esl/geography/countries.hpp: countries::AG", (), require(geography::countries::AG.code[0] == 'A' && geography::countries::AG.code[1] == 'G' && sizeof(geography::countries::AG.code) == 2);)
OBLIGATION(country_name_AG, "esl/geography/countries.hpp: country_name (AG)", (), require(is(country('A', 'G'), "Antigua and Barbuda")); require(is(geography::country_name<text>(geography::countries::AG), "Antigua and Barbuda"));)
OBLIGATION(country_AI, "esl/geography/countries.hpp: countries::AI", (), require(geography::countries::AI.code[0] == 'A' && geography::countries::AI.code[1] == 'I' && sizeof(geography::countries::AI.code) == 2);)
OBLIGATION(country_name_AI, "esl/geography/countries.hpp: country_name (AI)", (), require(is(country('A', 'I'), "Anguilla")); require(is(geography::country_name<text>(geography::countries::AI), "Anguilla"));)
OBLIGATION(country_AL, "esl/geography/countries.hpp: countries::AL", (), require(geography::countries::AL.code[0] == 'A' && geography::countries::AL.code[1] == 'L' && sizeof(geography::countries::AL.code) == 2);)
OBLIGATION(country_name_AL, "esl/geography/countries.hpp: country_name (AL)", (), require(is(country('A', 'L'), "Albania")); require(is(geography::country_name<text>(geography::countries::AL), "Albania"));)
OBLIGATION(country_AM, "esl/geography/countries.hpp: countries::AM", (), require(geography::countries::AM.code[0] == 'A' && geography::countries::AM.code[1] == 'M' && sizeof(geography::countries::AM.code) == 2);)
OBLIGATION(country_name_AM, "esl/geography/countries.hpp: country_name (AM)", (), require(is(country('A', 'M'), "Armenia")); require(is(geography::country_name<text>(geography::countries::AM), "Armenia"));)
OBLIGATION(country_AO, "esl/geography/countries.hpp: countries::AO", (), require(geography::countries::AO.code[0] == 'A' && geography::countries::AO.code[1] == 'O' && sizeof(geography::countries::AO.code) == 2);)
OBLIGATION(country_name_AO, "esl/geography/countries.hpp: country_name (AO)", (), require(is(country('A', 'O'), "Angola")); require(is(geography::country_name<text>(geography::countries::AO), "Angola"));)
OBLIGATION(country_AQ, "esl/geography/countries.hpp: countries::AQ", (), require(geography::countries::AQ.code[0] == 'A' && geography::countries::AQ.code[1] == 'Q' && sizeof(geography::countries::AQ.code) == 2);)
OBLIGATION(country_name_AQ, "esl/geography/countries.hpp: country_name (AQ)", (), require(is(country('A', 'Q'), "Antarctica")); require(is(geography::country_name<text>(geography::countries::AQ), "Antarctica"));)
OBLIGATION(country_AR, "esl/geography/countries.hpp: countries::AR", (), require(geography::countries::AR.code[0] == 'A' && geography::countries::AR.code[1] == 'R' && sizeof(geography::countries::AR.code) == 2);)
OBLIGATION(country_name_AR, "esl/geography/countries.hpp: country_name (AR)", (), require(is(country('A', 'R'), "Argentina")); require(is(geography::country_name<text>(geography::countries::AR), "Argentina"));)
OBLIGATION(country_AS, "esl/geography/countries.hpp: countries::AS", (), require(geography::countries::AS.code[0] == 'A' && geography::countries::AS.code[1] == 'S' && sizeof(geography::countries::AS.code) == 2);)
OBLIGATION(country_name_AS, "esl/geography/countries.hpp: country_name (AS)", (), require(is(country('A', 'S'), "American Samoa")); require(is(geography::country_name<text>(geography::countries::AS), "American Samoa"));)
OBLIGATION(country_AT, "esl/geography/countries.hpp: countries::AT", (), require(geography::countries::AT.code[0] == 'A' && geography::countries::AT.code[1] == 'T' && sizeof(geography::countries::AT.code) == 2);)
OBLIGATION(country_name_AT, "esl/geography/countries.hpp: country_name (AT)", (), require(is(country('A', 'T'), "Austria")); require(is(geography::country_name<text>(geography::countries::AT), "Austria"));)
OBLIGATION(country_AU, "esl/geography/countries.hpp: countries::AU", (), require(geography::countries::AU.code[0] == 'A' && geography::countries::AU.code[1] == 'U' && sizeof(geography::countries::AU.code) == 2);)
OBLIGATION(country_name_AU, "esl/geography/countries.hpp: country_name (AU)", (), require(is(country('A', 'U'), "Australia")); require(is(geography::country_name<text>(geography::countries::AU), "Australia"));)
OBLIGATION(country_AW, "esl/geography/countries.hpp: countries::AW", (), require(geography::countries::AW.code[0] == 'A' && geography::countries::AW.code[1] == 'W' && sizeof(geography::countries::AW.code) == 2);)
OBLIGATION(country_name_AW, "esl/geography/countries.hpp: country_name (AW)", (), require(is(country('A', 'W'), "Aruba")); require(is(geography::country_name<text>(geography::countries::AW), "Aruba"));)
OBLIGATION(country_AX, "esl/geography/countries.hpp: countries::AX", (), require(geography::countries::AX.code[0] == 'A' && geography::countries::AX.code[1] == 'X' && sizeof(geography::countries::AX.code) == 2);)
OBLIGATION(country_name_AX, "esl/geography/countries.hpp: country_name (AX)", (), require(is(country('A', 'X'), "\303\205land Islands")); require(is(geography::country_name<text>(geography::countries::AX), "\303\205land Islands"));)
OBLIGATION(country_AZ, "esl/geography/countries.hpp: countries::AZ", (), require(geography::countries::AZ.code[0] == 'A' && geography::countries::AZ.code[1] == 'Z' && sizeof(geography::countries::AZ.code) == 2);)
OBLIGATION(country_name_AZ, "esl/geography/countries.hpp: country_name (AZ)", (), require(is(country('A', 'Z'), "Azerbaijan")); require(is(geography::country_name<text>(geography::countries::AZ), "Azerbaijan"));)
OBLIGATION(country_BA, "esl/geography/countries.hpp: countries::BA", (), require(geography::countries::BA.code[0] == 'B' && geography::countries::BA.code[1] == 'A' && sizeof(geography::countries::BA.code) == 2);)
OBLIGATION(country_name_BA, "esl/geography/countries.hpp: country_name (BA)", (), require(is(country('B', 'A'), "Bosnia and Herzegovina")); require(is(geography::country_name<text>(geography::countries::BA), "Bosnia and Herzegovina"));)
OBLIGATION(country_BB, "esl/geography/countries.hpp: countries::BB", (), require(geography::countries::BB.code[0] == 'B' && geography::countries::BB.code[1] == 'B' && sizeof(geography::countries::BB.code) == 2);)
OBLIGATION(country_name_BB, "esl/geography/countries.hpp: country_name (BB)", (), require(is(country('B', 'B'), "Barbados")); require(is(geography::country_name<text>(geography::countries::BB), "Barbados"));)
OBLIGATION(country_BD, "esl/geography/countries.hpp: countries::BD", (), require(geography::countries::BD.code[0] == 'B' && geography::countries::BD.code[1] == 'D' && sizeof(geography::countries::BD.code) == 2);)
OBLIGATION(country_name_BD, "esl/geography/countries.hpp: country_name (BD)", (), require(is(country('B', 'D'), "Bangladesh")); require(is(geography::country_name<text>(geography::countries::BD), "Bangladesh"));)
OBLIGATION(country_BE, "esl/geography/countries.hpp: countries::BE", (), require(geography::countries::BE.code[0] == 'B' && geography::countries::BE.code[1] == 'E' && sizeof(geography::countries::BE.code) == 2);)
OBLIGATION(country_name_BE, "esl/geography/countries.hpp: country_name (BE)", (), require(is(country('B', 'E'), "Belgium")); require(is(geography::country_name<text>(geography::countries::BE), "Belgium"));)
OBLIGATION(country_BF, "esl/geography/countries.hpp: countries::BF", (), require(geography::countries::BF.code[0] == 'B' && geography::countries::BF.code[1] == 'F' && sizeof(geography::countries::BF.code) == 2);)
OBLIGATION(country_name_BF, "esl/geography/countries.hpp: country_name (BF)", (), require(is(country('B', 'F'), "Burkina Faso")); require(is(geography::country_name<text>(geography::countries::BF), "Burkina Faso"));)
OBLIGATION(country_BG, "esl/geography/countries.hpp: countries::BG", (), require(geography::countries::BG.code[0] == 'B' && geography::countries::BG.code[1] == 'G' && sizeof(geography::countries::BG.code) == 2);)
OBLIGATION(country_name_BG, "esl/geography/countries.hpp: country_name (BG)", (), require(is(country('B', 'G'), "Bulgaria")); require(is(geography::country_name<text>(geography::countries::BG), "Bulgaria"));)
OBLIGATION(country_BH, "esl/geography/countries.hpp: countries::BH", (), require(geography::countries::BH.code[0] == 'B' && geography::countries::BH.code[1] == 'H' && sizeof(geography::countries::BH.code) == 2);)
OBLIGATION(country_name_BH, "esl/geography/countries.hpp: country_name (BH)", (), require(is(country('B', 'H'), "Bahrain")); require(is(geography::country_name<text>(geography::countries::BH), "Bahrain"));)
OBLIGATION(country_BI, "esl/geography/countries.hpp: countries::BI", (), require(geography::countries::BI.code[0] == 'B' && geography::countries::BI.code[1] == 'I' && sizeof(geography::countries::BI.code) == 2);)
OBLIGATION(country_name_BI, "esl/geography/countries.hpp: country_name (BI)", (), require(is(country('B', 'I'), "Burundi")); require(is(geography::country_name<text>(geography::countries::BI), "Burundi"));)
OBLIGATION(country_BJ, "esl/geography/countries.hpp: countries::BJ", (), require(geography::countries::BJ.code[0] == 'B' && geography::countries::BJ.code[1] == 'J' && sizeof(geography::countries::BJ.code) == 2);)
OBLIGATION(country_name_BJ, "esl/geography/countries.hpp: country_name (BJ)", (), require(is(country('B', 'J'), "Benin")); require(is(geography::country_name<text>(geography::countries::BJ), "Benin"));)
OBLIGATION(country_BL, "esl/geography/countries.hpp: countries::BL", (), require(geography::countries::BL.code[0] == 'B' && geography::countries::BL.code[1] == 'L' && sizeof(geography::countries::BL.code) == 2);)
OBLIGATION(country_name_BL, "esl/geography/countries.hpp: country_name (BL)", (), require(is(country('B', 'L'), "Saint Barth\303\251lemy")); require(is(geography::country_name<text>(geography::countries::BL), "Saint Barth\303\251lemy"));)
OBLIGATION(country_BM, "esl/geography/countries.hpp: countries::BM", (), require(geography::countries::BM.code[0] == 'B' && geography::countries::BM.code[1] == 'M' && sizeof(geography::countries::BM.code) == 2);)
OBLIGATION(country_name_BM, "esl/geography/countries.hpp: country_name (BM)", (), require(is(country('B', 'M'), "Bermuda")); require(is(geography::country_name<text>(geography::countries::BM), "Bermuda"));)
OBLIGATION(country_BN, "esl/geography/countries.hpp: countries::BN", (), require(geography::countries::BN.code[0] == 'B' && geography::countries::BN.code[1] == 'N' && sizeof(geography::countries::BN.code) == 2);)
OBLIGATION(country_name_BN, "esl/geography/countries.hpp: country_name (BN)", (), require(is(country('B', 'N'), "Brunei Darussalam")); require(is(geography::country_name<text>(geography::countries::BN), "Brunei Darussalam"));)
OBLIGATION(country_BO, "esl/geography/countries.hpp: countries::BO", (), require(geography::countries::BO.code[0] == 'B' && geography::countries::BO.code[1] == 'O' && sizeof(geography::countries::BO.code) == 2);)
OBLIGATION(country_name_BO, "esl/geography/countries.hpp: country_name (BO)", (), require(is(country('B', 'O'), "Plurinational State of Bolivia")); require(is(geography::country_name<text>(geography::countries::BO), "Plurinational State of Bolivia"));)
OBLIGATION(country_BQ, "esl/geography/countries.hpp: countries::BQ", (), require(geography::countries::BQ.code[0] == 'B' && geography::countries::BQ.code[1] == 'Q' && sizeof(geography::countries::BQ.code) == 2);)
OBLIGATION(country_name_BQ, "esl/geography/countries.hpp: country_name (BQ)", (), require(is(country('B', 'Q'), "Bonaire, Sint Eustatius and Saba")); require(is(geography::country_name<text>(geography::countries::BQ), "Bonaire, Sint Eustatius and Saba"));)
OBLIGATION(country_BR, "esl/geography/countries.hpp: countries::BR", (), require(geography::countries::BR.code[0] == 'B' && geography::countries::BR.code[1] == 'R' && sizeof(geography::countries::BR.code) == 2);)
OBLIGATION(country_name_BR, "esl/geography/countries.hpp: country_name (BR)", (), require(is(country('B', 'R'), "Brazil")); require(is(geography::country_name<text>(geography::countries::BR), "Brazil"));)
OBLIGATION(country_BS, "esl/geography/countries.hpp: countries::BS", (), require(geography::countries::BS.code[0] == 'B' && geography::countries::BS.code[1] == 'S' && sizeof(geography::countries::BS.code) == 2);)
OBLIGATION(country_name_BS, "esl/geography/countries.hpp: country_name (BS)", (), require(is(country('B', 'S'), "Bahamas")); require(is(geography::country_name<text>(geography::countries::BS), "Bahamas"));)
OBLIGATION(country_BT, "esl/geography/countries.hpp: countries::BT", (), require(geography::countries::BT.code[0] == 'B' && geography::countries::BT.code[1] == 'T' && sizeof(geography::countries::BT.code) == 2);)
OBLIGATION(country_name_BT, "esl/geography/countries.hpp: country_name (BT)", (), require(is(country('B', 'T'), "Bhutan")); require(is(geography::country_name<text>(geography::countries::BT), "Bhutan"));)
OBLIGATION(country_BV, "esl/geography/countries.hpp: countries::BV", (), require(geography::countries::BV.code[0] == 'B' && geography::countries::BV.code[1] == 'V' && sizeof(geography::countries::BV.code) == 2);)
OBLIGATION(country_name_BV, "esl/geography/countries.hpp: country_name (BV)", (), require(is(country('B', 'V'), "Bouvet Island")); require(is(geography::country_name<text>(geography::countries::BV), "Bouvet Island"));)
OBLIGATION(country_BW, "esl/geography/countries.hpp: countries::BW", (), require(geography::countries::BW.code[0] == 'B' && geography::countries::BW.code[1] == 'W' && sizeof(geography::countries::BW.code) == 2);)
OBLIGATION(country_name_BW, "esl/geography/countries.hpp: country_name (BW)", (), require(is(country('B', 'W'), "Botswana")); require(is(geography::country_name<text>(geography::countries::BW), "Botswana"));)
OBLIGATION(country_BY, "esl/geography/countries.hpp: countries::BY", (), require(geography::countries::BY.code[0] == 'B' && geography::countries::BY.code[1] == 'Y' && sizeof(geography::countries::BY.code) == 2);)
OBLIGATION(country_name_BY, "esl/geography/countries.hpp: country_name (BY)", (), require(is(country('B', 'Y'), "Belarus")); require(is(geography::country_name<text>(geography::countries::BY), "Belarus"));)
OBLIGATION(country_BZ, "esl/geography/countries.hpp: countries::BZ", (), require(geography::countries::BZ.code[0] == 'B' && geography::countries::BZ.code[1] == 'Z' && sizeof(geography::countries::BZ.code) == 2);)
OBLIGATION(country_name_BZ, "esl/geography/countries.hpp: country_name (BZ)", (), require(is(country('B', 'Z'), "Belize")); require(is(geography::country_name<text>(geography::countries::BZ), "Belize"));)
OBLIGATION(country_CA, "esl/geography/countries.hpp: countries::CA", (), require(geography::countries::CA.code[0] == 'C' && geography::countries::CA.code[1] == 'A' && sizeof(geography::countries::CA.code) == 2);)
OBLIGATION(country_name_CA, "esl/geography/countries.hpp: country_name (CA)", (), require(is(country('C', 'A'), "Canada")); require(is(geography::country_name<text>(geography::countries::CA), "Canada"));)
OBLIGATION(country_CC, "esl/geography/countries.hpp: countries::CC", (), require(geography::countries::CC.code[0] == 'C' && geography::countries::CC.code[1] == 'C' && sizeof(geography::countries::CC.code) == 2);)
OBLIGATION(country_name_CC, "esl/geography/countries.hpp: country_name (CC)", (), require(is(country('C', 'C'), "Cocos (Keeling) Islands")); require(is(geography::country_name<text>(geography::countries::CC), "Cocos (Keeling) Islands"));)
OBLIGATION(country_CD, "esl/geography/countries.hpp: countries::CD", (), require(geography::countries::CD.code[0] == 'C' && geography::countries::CD.code[1] == 'D' && sizeof(geography::countries::CD.code) == 2);)
OBLIGATION(country_name_CD, "esl/geography/countries.hpp: country_name (CD)", (), require(is(country('C', 'D'), "the Democratic Republic of the Congo")); require(is(geography::country_name<text>(geography::countries::CD), "the Democratic Republic of the Congo"));)
OBLIGATION(country_CF, "esl/geography/countries.hpp: countries::CF", (), require(geography::countries::CF.code[0] == 'C' && geography::countries::CF.code[1] == 'F' && sizeof(geography::countries::CF.code) == 2);)
OBLIGATION(country_name_CF, "esl/geography/countries.hpp: country_name (CF)", (), require(is(country('C', 'F'), "Central African Republic")); require(is(geography::country_name<text>(geography::countries::CF), "Central African Republic"));)
OBLIGATION(country_CG, "esl/geography/countries.hpp: countries::CG", (), require(geography::countries::CG.code[0] == 'C' && geography::countries::CG.code[1] == 'G' && sizeof(geography::countries::CG.code) == 2);)
OBLIGATION(country_name_CG, "esl/geography/countries.hpp: country_name (CG)", (), require(is(country('C', 'G'), "Congo")); require(is(geography::country_name<text>(geography::countries::CG), "Congo"));)
OBLIGATION(country_CH, "esl/geography/countries.hpp: countries::CH", (), require(geography::countries::CH.code[0] == 'C' && geography::countries::CH.code[1] == 'H' && sizeof(geography::countries::CH.code) == 2);)
OBLIGATION(country_name_CH, "esl/geography/countries.hpp: country_name (CH)", (), require(is(country('C', 'H'), "Switzerland")); require(is(geography::country_name<text>(geography::countries::CH), "Switzerland"));)
OBLIGATION(country_CI, "esl/geography/countries.hpp: countries::CI", (), require(geography::countries::CI.code[0] == 'C' && geography::countries::CI.code[1] == 'I' && sizeof(geography::countries::CI.code) == 2);)
OBLIGATION(country_name_CI, "esl/geography/countries.hpp: country_name (CI)", (), require(is(country('C', 'I'), "C\303\264te d'Ivoire")); require(is(geography::country_name<text>(geography::countries::CI), "C\303\264te d'Ivoire"));)
OBLIGATION(country_CK, "esl/geography/countries.hpp: countries::CK", (), require(geography::countries::CK.code[0] == 'C' && geography::countries::CK.code[1] == 'K' && sizeof(geography::countries::CK.code) == 2);)
OBLIGATION(country_name_CK, "esl/geography/countries.hpp: country_name (CK)", (), require(is(country('C', 'K'), "Cook Islands")); require(is(geography::country_name<text>(geography::countries::CK), "Cook Islands"));)
OBLIGATION(country_CL, "esl/geography/countries.hpp: countries::CL", (), require(geography::countries::CL.code[0] == 'C' && geography::countries::CL.code[1] == 'L' && sizeof(geography::countries::CL.code) == 2);)
OBLIGATION(country_name_CL, "esl/geography/countries.hpp: country_name (CL)", (), require(is(country('C', 'L'), "Chile")); require(is(geography::country_name<text>(geography::countries::CL), "Chile"));)
OBLIGATION(country_CM, "esl/geography/countries.hpp: countries::CM", (), require(geography::countries::CM.code[0] == 'C' && geography::countries::CM.code[1] == 'M' && sizeof(geography::countries::CM.code) == 2);)
OBLIGATION(country_name_CM, "esl/geography/countries.hpp: country_name (CM)", (), require(is(country('C', 'M'), "Cameroon")); require(is(geography::country_name<text>(geography::countries::CM), "Cameroon"));)
OBLIGATION(country_CN, "esl/geography/countries.hpp: countries::CN", (), require(geography::countries::CN.code[0] == 'C' && geography::countries::CN.code[1] == 'N' && sizeof(geography::countries::CN.code) == 2);)
OBLIGATION(country_name_CN, "esl/geography/countries.hpp: country_name (CN)", (), require(is(country('C', 'N'), "China")); require(is(geography::country_name<text>(geography::countries::CN), "China"));)
OBLIGATION(country_CO, "esl/geography/countries.hpp: countries::CO", (), require(geography::countries::CO.code[0] == 'C' && geography::countries::CO.code[1] == 'O' && sizeof(geography::countries::CO.code) == 2);)
OBLIGATION(country_name_CO, "esl/geography/countries.hpp: country_name (CO)", (), require(is(country('C', 'O'), "Colombia")); require(is(geography::country_name<text>(geography::countries::CO), "Colombia"));)
OBLIGATION(country_CR, "esl/geography/countries.hpp: countries::CR", (), require(geography::countries::CR.code[0] == 'C' && geography::countries::CR.code[1] == 'R' && sizeof(geography::countries::CR.code) == 2);)
OBLIGATION(country_name_CR, "esl/geography/countries.hpp: country_name (CR)", (), require(is(country('C', 'R'), "Costa Rica")); require(is(geography::country_name<text>(geography::countries::CR), "Costa Rica"));)
OBLIGATION(country_CU, "esl/geography/countries.hpp: countries::CU", (), require(geography::countries::CU.code[0] == 'C' && geography::countries::CU.code[1] == 'U' && sizeof(geography::countries::CU.code) == 2);)
OBLIGATION(country_name_CU, "esl/geography/countries.hpp: country_name (CU)", (), require(is(country('C', 'U'), "Cuba")); require(is(geography::country_name<text>(geography::countries::CU), "Cuba"));)
OBLIGATION(country_CV, "esl/geography/countries.hpp: countries::CV", (), require(geography::countries::CV.code[0] == 'C' && geography::countries::CV.code[1] == 'V' && sizeof(geography::countries::CV.code) == 2);)
OBLIGATION(country_name_CV, "esl/geography/countries.hpp: country_name (CV)", (), require(is(country('C', 'V'), "Cabo Verde")); require(is(geography::country_name<text>(geography::countries::CV), "Cabo Verde"));)
OBLIGATION(country_CW, "esl/geography/countries.hpp: countries::CW", (), require(geography::countries::CW.code[0] == 'C' && geography::countries::CW.code[1] == 'W' && sizeof(geography::countries::CW.code) == 2);)
OBLIGATION(country_name_CW, "esl/geography/countries.hpp: country_name (CW)", (), require(is(country('C', 'W'), "Cura\303\247ao")); require(is(geography::country_name<text>(geography::countries::CW), "Cura\303\247ao"));)
OBLIGATION(country_CX, "esl/geography/countries.hpp: countries::CX", (), require(geography::countries::CX.code[0] == 'C' && geography::countries::CX.code[1] == 'X' && sizeof(geography::countries::CX.code) == 2);)
OBLIGATION(country_name_CX, "esl/geography/countries.hpp: country_name (CX)", (), require(is(country('C', 'X'), "Christmas Island")); require(is(geography::country_name<text>(geography::countries::CX), "Christmas Island"));)
OBLIGATION(country_CY, "esl/geography/countries.hpp: countries::CY", (), require(geography::countries::CY.code[0] == 'C' && geography::countries::CY.code[1] == 'Y' && sizeof(geography::countries::CY.code) == 2);)
OBLIGATION(country_name_CY, "esl/geography/countries.hpp: country_name (CY)", (), require(is(country('C', 'Y'), "Cyprus")); require(is(geography::country_name<text>(geography::countries::CY), "Cyprus"));)
OBLIGATION(country_CZ, "esl/geography/countries.hpp: countries::CZ", (), require(geography::countries::CZ.code[0] == 'C' && geography::countries::CZ.code[1] == 'Z' && sizeof(geography::countries::CZ.code) == 2);)
OBLIGATION(country_name_CZ, "esl/geography/countries.hpp: country_name (CZ)", (), require(is(country('C', 'Z'), "Czechia")); require(is(geography::country_name<text>(geography::countries::CZ), "Czechia"));)
OBLIGATION(country_DE, "esl/geography/countries.hpp: countries::DE", (), require(geography::countries::DE.code[0] == 'D' && geography::countries::DE.code[1] == 'E' && sizeof(geography::countries::DE.code) == 2);)
OBLIGATION(country_name_DE, "esl/geography/countries.hpp: country_name (DE)", (), require(is(country('D', 'E'), "Germany")); require(is(geography::country_name<text>(geography::countries::DE), "Germany"));)
OBLIGATION(country_DJ, "esl/geography/countries.hpp: countries::DJ", (), require(geography::countries::DJ.code[0] == 'D' && geography::countries::DJ.code[1] == 'J' && sizeof(geography::countries::DJ.code) == 2);)
OBLIGATION(country_name_DJ, "esl/geography/countries.hpp: country_name (DJ)", (), require(is(country('D', 'J'), "Djibouti")); require(is(geography::country_name<text>(geography::countries::DJ), "Djibouti"));)
OBLIGATION(country_DK, "esl/geography/countries.hpp: countries::DK", (), require(geography::countries::DK.code[0] == 'D' && geography::countries::DK.code[1] == 'K' && sizeof(geography::countries::DK.code) == 2);)
OBLIGATION(country_name_DK, "esl/geography/countries.hpp: country_name (DK)", (), require(is(country('D', 'K'), "Denmark")); require(is(geography::country_name<text>(geography::countries::DK), "Denmark"));)
OBLIGATION(country_DM, "esl/geography/countries.hpp: countries::DM", (), require(geography::countries::DM.code[0] == 'D' && geography::countries::DM.code[1] == 'M' && sizeof(geography::countries::DM.code) == 2);)
OBLIGATION(country_name_DM, "esl/geography/countries.hpp: country_name (DM)", (), require(is(country('D', 'M'), "Dominica")); require(is(geography::country_name<text>(geography::countries::DM), "Dominica"));)
OBLIGATION(country_DO, "esl/geography/countries.hpp: countries::DO", (), require(geography::countries::DO.code[0] == 'D' && geography::countries::DO.code[1] == 'O' && sizeof(geography::countries::DO.code) == 2);)
OBLIGATION(country_name_DO, "esl/geography/countries.hpp: country_name (DO)", (), require(is(country('D', 'O'), "Dominican Republic")); require(is(geography::country_name<text>(geography::countries::DO), "Dominican Republic"));)
OBLIGATION(country_DZ, "esl/geography/countries.hpp: countries::DZ", (), require(geography::countries::DZ.code[0] == 'D' && geography::countries::DZ.code[1] == 'Z' && sizeof(geography::countries::DZ.code) == 2);)
OBLIGATION(country_name_DZ, "esl/geography/countries.hpp: country_name (DZ)", (), require(is(country('D', 'Z'), "Algeria")); require(is(geography::country_name<text>(geography::countries::DZ), "Algeria"));)
OBLIGATION(country_EC, "esl/geography/countries.hpp: countries::EC", (), require(geography::countries::EC.code[0] == 'E' && geography::countries::EC.code[1] == 'C' && sizeof(geography::countries::EC.code) == 2);)
OBLIGATION(country_name_EC, "esl/geography/countries.hpp: country_name (EC)", (), require(is(country('E', 'C'), "Ecuador")); require(is(geography::country_name<text>(geography::countries::EC), "Ecuador"));)
OBLIGATION(country_EE, "esl/geography/countries.hpp: countries::EE", (), require(geography::countries::EE.code[0] == 'E' && geography::countries::EE.code[1] == 'E' && sizeof(geography::countries::EE.code) == 2);)
OBLIGATION(country_name_EE, "esl/geography/countries.hpp: country_name (EE)", (), require(is(country('E', 'E'), "Estonia")); require(is(geography::country_name<text>(geography::countries::EE), "Estonia"));)
OBLIGATION(country_EG, "esl/geography/countries.hpp: countries::EG", (), require(geography::countries::EG.code[0] == 'E' && geography::countries::EG.code[1] == 'G' && sizeof(geography::countries::EG.code) == 2);)
OBLIGATION(country_name_EG, "esl/geography/countries.hpp: country_name (EG)", (), require(is(country('E', 'G'), "Egypt")); require(is(geography::country_name<text>(geography::countries::EG), "Egypt"));)
OBLIGATION(country_EH, "esl/geography/countries.hpp: countries::EH", (), require(geography::countries::EH.code[0] == 'E' && geography::countries::EH.code[1] == 'H' && sizeof(geography::countries::EH.code) == 2);)
OBLIGATION(country_name_EH, "esl/geography/countries.hpp: country_name (EH)", (), require(is(country('E', 'H'), "Western Sahara")); require(is(geography::country_name<text>(geography::countries::EH), "Western Sahara"));)
OBLIGATION(country_ER, "esl/geography/countries.hpp: countries::ER", (), require(geography::countries::ER.code[0] == 'E' && geography::countries::ER.code[1] == 'R' && sizeof(geography::countries::ER.code) == 2);)
OBLIGATION(country_name_ER, "esl/geography/countries.hpp: country_name (ER)", (), require(is(country('E', 'R'), "Eritrea")); require(is(geography::country_name<text>(geography::countries::ER), "Eritrea"));)
OBLIGATION(country_ES, "esl/geography/countries.hpp: countries::ES", (), require(geography::countries::ES.code[0] == 'E' && geography::countries::ES.code[1] == 'S' && sizeof(geography::countries::ES.code) == 2);)
OBLIGATION(country_name_ES, "esl/geography/countries.hpp: country_name (ES)", (), require(is(country('E', 'S'), "Spain")); require(is(geography::country_name<text>(geography::countries::ES), "Spain"));)
OBLIGATION(country_ET, "esl/geography/countries.hpp: countries::ET", (), require(geography::countries::ET.code[0] == 'E' && geography::countries::ET.code[1] == 'T' && sizeof(geography::countries::ET.code) == 2);)
OBLIGATION(country_name_ET, "esl/geography/countries.hpp: country_name (ET)", (), require(is(country('E', 'T'), "Ethiopia")); require(is(geography::country_name<text>(geography::countries::ET), "Ethiopia"));)
OBLIGATION(country_FI, "esl/geography/countries.hpp: countries::FI", (), require(geography::countries::FI.code[0] == 'F' && geography::countries::FI.code[1] == 'I' && sizeof(geography::countries::FI.code) == 2);)
OBLIGATION(country_name_FI, "esl/geography/countries.hpp: country_name (FI)", (), require(is(country('F', 'I'), "Finland")); require(is(geography::country_name<text>(geography::countries::FI), "Finland"));)
OBLIGATION(country_FJ, "esl/geography/countries.hpp: countries::FJ", (), require(geography::countries::FJ.code[0] == 'F' && geography::countries::FJ.code[1] == 'J' && sizeof(geography::countries::FJ.code) == 2);)
OBLIGATION(country_name_FJ, "esl/geography/countries.hpp: country_name (FJ)", (), require(is(country('F', 'J'), "Fiji")); require(is(geography::country_name<text>(geography::countries::FJ), "Fiji"));)
OBLIGATION(country_FK, "esl/geography/countries.hpp: countries::FK", (), require(geography::countries::FK.code[0] == 'F' && geography::countries::FK.code[1] == 'K' && sizeof(geography::countries::FK.code) == 2);)
OBLIGATION(country_name_FK, "esl/geography/countries.hpp: country_name (FK)", (), require(is(country('F', 'K'), "Falkland Islands (Malvinas)")); require(is(geography::country_name<text>(geography::countries::FK), "Falkland Islands (Malvinas)"));)
OBLIGATION(country_FM, "esl/geography/countries.hpp: countries::FM", (), require(geography::countries::FM.code[0] == 'F' && geography::countries::FM.code[1] == 'M' && sizeof(geography::countries::FM.code) == 2);)
OBLIGATION(country_name_FM, "esl/geography/countries.hpp: country_name (FM)", (), require(is(country('F', 'M'), "Federated States of Micronesia")); require(is(geography::country_name<text>(geography::countries::FM), "Federated States of Micronesia"));)
OBLIGATION(country_FO, "esl/geography/countries.hpp: countries::FO", (), require(geography::countries::FO.code[0] == 'F' && geography::countries::FO.code[1] == 'O' && sizeof(geography::countries::FO.code) == 2);)
OBLIGATION(country_name_FO, "esl/geography/countries.hpp: country_name (FO)", (), require(is(country('F', 'O'), "Faroe Islands")); require(is(geography::country_name<text>(geography::countries::FO), "Faroe Islands"));)
OBLIGATION(country_FR, "esl/geography/countries.hpp: countries::FR", (), require(geography::countries::FR.code[0] == 'F' && geography::countries::FR.code[1] == 'R' && sizeof(geography::countries::FR.code) == 2);)
OBLIGATION(country_name_FR, "esl/geography/countries.hpp: country_name (FR)", (), require(is(country('F', 'R'), "France")); require(is(geography::country_name<text>(geography::countries::FR), "France"));)
OBLIGATION(country_GA, "esl/geography/countries.hpp: countries::GA", (), require(geography::countries::GA.code[0] == 'G' && geography::countries::GA.code[1] == 'A' && sizeof(geography::countries::GA.code) == 2);)
OBLIGATION(country_name_GA, "esl/geography/countries.hpp: country_name (GA)", (), require(is(country('G', 'A'), "Gabon")); require(is(geography::country_name<text>(geography::countries::GA), "Gabon"));)
OBLIGATION(country_GB, "esl/geography/countries.hpp: countries::GB", (), require(geography::countries::GB.code[0] == 'G' && geography::countries::GB.code[1] == 'B' && sizeof(geography::countries::GB.code) == 2);)
OBLIGATION(country_name_GB, "esl/geography/countries.hpp: country_name (GB)", (), require(is(country('G', 'B'), "United Kingdom of Great Britain and Northern Ireland")); require(is(geography::country_name<text>(geography::countries::GB), "United Kingdom of Great Britain and Northern Ireland"));)
OBLIGATION(country_GD, "esl/geography/countries.hpp: countries::GD", (), require(geography::countries::GD.code[0] == 'G' && geography::countries::GD.code[1] == 'D' && sizeof(geography::countries::GD.code) == 2);)
OBLIGATION(country_name_GD, "esl/geography/countries.hpp: country_name (GD)", (), require(is(country('G', 'D'), "Grenada")); require(is(geography::country_name<text>(geography::countries::GD), "Grenada"));)
OBLIGATION(country_GE, "esl/geography/countries.hpp: countries::GE", (), require(geography::countries::GE.code[0] == 'G' && geography::countries::GE.code[1] == 'E' && sizeof(geography::countries::GE.code) == 2);)
OBLIGATION(country_name_GE, "esl/geography/countries.hpp: country_name (GE)", (), require(is(country('G', 'E'), "Georgia")); require(is(geography::country_name<text>(geography::countries::GE), "Georgia"));)
OBLIGATION(country_GF, "esl/geography/countries.hpp: countries::GF", (), require(geography::countries::GF.code[0] == 'G' && geography::countries::GF.code[1] == 'F' && sizeof(geography::countries::GF.code) == 2);)
OBLIGATION(country_name_GF, "esl/geography/countries.hpp: country_name (GF)", (), require(is(country('G', 'F'), "French Guiana")); require(is(geography::country_name<text>(geography::countries::GF), "French Guiana"));)
OBLIGATION(country_GG, "esl/geography/countries.hpp: countries::GG", (), require(geography::countries::GG.code[0] == 'G' && geography::countries::GG.code[1] == 'G' && sizeof(geography::countries::GG.code) == 2);)
OBLIGATION(country_name_GG, "esl/geography/countries.hpp: country_name (GG)", (), require(is(country('G', 'G'), "Guernsey")); require(is(geography::country_name<text>(geography::countries::GG), "Guernsey"));)
OBLIGATION(country_GH, "esl/geography/countries.hpp: countries::GH", (), require(geography::countries::GH.code[0] == 'G' && geography::countries::GH.code[1] == 'H' && sizeof(geography::countries::GH.code) == 2);)
OBLIGATION(country_name_GH, "esl/geography/countries.hpp: country_name (GH)", (), require(is(country('G', 'H'), "Ghana")); require(is(geography::country_name<text>(geography::countries::GH), "Ghana"));)
OBLIGATION(country_GI, "esl/geography/countries.hpp: countries::GI", (), require(geography::countries::GI.code[0] == 'G' && geography::countries::GI.code[1] == 'I' && sizeof(geography::countries::GI.code) == 2);)
OBLIGATION(country_name_GI, "esl/geography/countries.hpp: country_name (GI)", (), require(is(country('G', 'I'), "Gibraltar")); require(is(geography::country_name<text>(geography::countries::GI), "Gibraltar"));)
OBLIGATION(country_GL, "esl/geography/countries.hpp: countries::GL", (), require(geography::countries::GL.code[0] == 'G' && geography::countries::GL.code[1] == 'L' && sizeof(geography::countries::GL.code) == 2);)
OBLIGATION(country_name_GL, "esl/geography/countries.hpp: country_name (GL)", (), require(is(country('G', 'L'), "Greenland")); require(is(geography::country_name<text>(geography::countries::GL), "Greenland"));)
OBLIGATION(country_GM, "esl/geography/countries.hpp: countries::GM", (), require(geography::countries::GM.code[0] == 'G' && geography::countries::GM.code[1] == 'M' && sizeof(geography::countries::GM.code) == 2);)
OBLIGATION(country_name_GM, "esl/geography/countries.hpp: country_name (GM)", (), require(is(country('G', 'M'), "Gambia")); require(is(geography::country_name<text>(geography::countries::GM), "Gambia"));)
OBLIGATION(country_GN, "esl/geography/countries.hpp: countries::GN", (), require(geography::countries::GN.code[0] == 'G' && geography::countries::GN.code[1] == 'N' && sizeof(geography::countries::GN.code) == 2);)
OBLIGATION(country_name_GN, "esl/geography/countries.hpp: country_name (GN)", (), require(is(country('G', 'N'), "Guinea")); require(is(geography::country_name<text>(geography::countries::GN), "Guinea"));)
OBLIGATION(country_GP, "esl/geography/countries.hpp: countries::GP", (), require(geography::countries::GP.code[0] == 'G' && geography::countries::GP.code[1] == 'P' && sizeof(geography::countries::GP.code) == 2);)
OBLIGATION(country_name_GP, "esl/geography/countries.hpp: country_name (GP)", (), require(is(country('G', 'P'), "Guadeloupe")); require(is(geography::country_name<text>(geography::countries::GP), "Guadeloupe"));)
OBLIGATION(country_GQ, "esl/geography/countries.hpp: countries::GQ", (), require(geography::countries::GQ.code[0] == 'G' && geography::countries::GQ.code[1] == 'Q' && sizeof(geography::countries::GQ.code) == 2);)
OBLIGATION(country_name_GQ, "esl/geography/countries.hpp: country_name (GQ)", (), require(is(country('G', 'Q'), "Equatorial Guinea")); require(is(geography::country_name<text>(geography::countries::GQ), "Equatorial Guinea"));)
OBLIGATION(country_GR, "esl/geography/countries.hpp: countries::GR", (), require(geography::countries::GR.code[0] == 'G' && geography::countries::GR.code[1] == 'R' && sizeof(geography::countries::GR.code) == 2);)
OBLIGATION(country_name_GR, "esl/geography/countries.hpp: country_name (GR)", (), require(is(country('G', 'R'), "Greece")); require(is(geography::country_name<text>(geography::countries::GR), "Greece"));)
OBLIGATION(country_GS, "esl/geography/countries.hpp: countries::GS", (), require(geography::countries::GS.code[0] == 'G' && geography::countries::GS.code[1] == 'S' && sizeof(geography::countries::GS.code) == 2);)
OBLIGATION(country_name_GS, "esl/geography/countries.hpp: country_name (GS)", (), require(is(country('G', 'S'), "South Georgia and the South Sandwich Islands")); require(is(geography::country_name<text>(geography::countries::GS), "South Georgia and the South Sandwich Islands"));)
OBLIGATION(country_GT, "esl/geography/countries.hpp: countries::GT", (), require(geography::countries::GT.code[0] == 'G' && geography::countries::GT.code[1] == 'T' && sizeof(geography::countries::GT.code) == 2);)
OBLIGATION(country_name_GT, "esl/geography/countries.hpp: country_name (GT)", (), require(is(country('G', 'T'), "Guatemala")); require(is(geography::country_name<text>(geography::countries::GT), "Guatemala"));)
OBLIGATION(country_GU, "esl/geography/countries.hpp: countries::GU", (), require(geography::countries::GU.code[0] == 'G' && geography::countries::GU.code[1] == 'U' && sizeof(geography::countries::GU.code) == 2);)
OBLIGATION(country_name_GU, "esl/geography/countries.hpp: country_name (GU)", (), require(is(country('G', 'U'), "Guam")); require(is(geography::country_name<text>(geography::countries::GU), "Guam"));)
OBLIGATION(country_GW, "esl/geography/countries.hpp: countries::GW", (), require(geography::countries::GW.code[0] == 'G' && geography::countries::GW.code[1] == 'W' && sizeof(geography::countries::GW.code) == 2);)
OBLIGATION(country_name_GW, "esl/geography/countries.hpp: country_name (GW)", (), require(is(country('G', 'W'), "Guinea-Bissau")); require(is(geography::country_name<text>(geography::countries::GW), "Guinea-Bissau"));)
OBLIGATION(country_GY, "esl/geography/countries.hpp: countries::GY", (), require(geography::countries::GY.code[0] == 'G' && geography::countries::GY.code[1] == 'Y' && sizeof(geography::countries::GY.code) == 2);)
OBLIGATION(country_name_GY, "esl/geography/countries.hpp: country_name (GY)", (), require(is(country('G', 'Y'), "Guyana")); require(is(geography::country_name<text>(geography::countries::GY), "Guyana"));)
OBLIGATION(country_HK, "esl/geography/countries.hpp: countries::HK", (), require(geography::countries::HK.code[0] == 'H' && geography::countries::HK.code[1] == 'K' && sizeof(geography::countries::HK.code) == 2);)
OBLIGATION(country_name_HK, "esl/geography/countries.hpp: country_name (HK)", (), require(is(country('H', 'K'), "Hong Kong")); require(is(geography::country_name<text>(geography::countries::HK), "Hong Kong"));)
OBLIGATION(country_HM, "esl/geography/countries.hpp: countries::HM", (), require(geography::countries::HM.code[0] == 'H' && geography::countries::HM.code[1] == 'M' && sizeof(geography::countries::HM.code) == 2);)
OBLIGATION(country_name_HM, "esl/geography/countries.hpp: country_name (HM)", (), require(is(country('H', 'M'), "Heard Island and McDonald Islands")); require(is(geography::country_name<text>(geography::countries::HM), "Heard Island and McDonald Islands"));)
OBLIGATION(country_HN, "esl/geography/countries.hpp: countries::HN", (), require(geography::countries::HN.code[0] == 'H' && geography::countries::HN.code[1] == 'N' && sizeof(geography::countries::HN.code) == 2);)
OBLIGATION(country_name_HN, "esl/geography/countries.hpp: country_name (HN)", (), require(is(country('H', 'N'), "Honduras")); require(is(geography::country_name<text>(geography::countries::HN), "Honduras"));)
OBLIGATION(country_HR, "esl/geography/countries.hpp: countries::HR", (), require(geography::countries::HR.code[0] == 'H' && geography::countries::HR.code[1] == 'R' && sizeof(geography::countries::HR.code) == 2);)
OBLIGATION(country_name_HR, "esl/geography/countries.hpp: country_name (HR)", (), require(is(country('H', 'R'), "Croatia")); require(is(geography::country_name<text>(geography::countries::HR), "Croatia"));)
OBLIGATION(country_HT, "esl/geography/countries.hpp: countries::HT", (), require(geography::countries::HT.code[0] == 'H' && geography::countries::HT.code[1] == 'T' && sizeof(geography::countries::HT.code) == 2);)
OBLIGATION(country_name_HT, "esl/geography/countries.hpp: country_name (HT)", (), require(is(country('H', 'T'), "Haiti")); require(is(geography::country_name<text>(geography::countries::HT), "Haiti"));)
OBLIGATION(country_HU, "esl/geography/countries.hpp: countries::HU", (), require(geography::countries::HU.code[0] == 'H' && geography::countries::HU.code[1] == 'U' && sizeof(geography::countries::HU.code) == 2);)
OBLIGATION(country_name_HU, "esl/geography/countries.hpp: country_name (HU)", (), require(is(country('H', 'U'), "Hungary")); require(is(geography::country_name<text>(geography::countries::HU), "Hungary"));)
OBLIGATION(country_ID, "esl/geography/countries.hpp: countries::ID", (), require(geography::countries::ID.code[0] == 'I' && geography::countries::ID.code[1] == 'D' && sizeof(geography::countries::ID.code) == 2);)
OBLIGATION(country_name_ID, "esl/geography/countries.hpp: country_name (ID)", (), require(is(country('I', 'D'), "Indonesia")); require(is(geography::country_name<text>(geography::countries::ID), "Indonesia"));)
OBLIGATION(country_IE, "esl/geography/countries.hpp: countries::IE", (), require(geography::countries::IE.code[0] == 'I' && geography::countries::IE.code[1] == 'E' && sizeof(geography::countries::IE.code) == 2);)
OBLIGATION(country_name_IE, "esl/geography/countries.hpp: country_name (IE)", (), require(is(country('I', 'E'), "Ireland")); require(is(geography::country_name<text>(geography::countries::IE), "Ireland"));)
OBLIGATION(country_IL, "esl/geography/countries.hpp: countries::IL", (), require(geography::countries::IL.code[0] == 'I' && geography::countries::IL.code[1] == 'L' && sizeof(geography::countries::IL.code) == 2);)
OBLIGATION(country_name_IL, "esl/geography/countries.hpp: country_name (IL)", (), require(is(country('I', 'L'), "Israel")); require(is(geography::country_name<text>(geography::countries::IL), "Israel"));)
OBLIGATION(country_IM, "esl/geography/countries.hpp: countries::IM", (), require(geography::countries::IM.code[0] == 'I' && geography::countries::IM.code[1] == 'M' && sizeof(geography::countries::IM.code) == 2);)
OBLIGATION(country_name_IM, "esl/geography/countries.hpp: country_name (IM)", (), require(is(country('I', 'M'), "Isle of Man")); require(is(geography::country_name<text>(geography::countries::IM), "Isle of Man"));)
OBLIGATION(country_IO, "esl/geography/countries.hpp: countries::IO", (), require(geography::countries::IO.code[0] == 'I' && geography::countries::IO.code[1] == 'O' && sizeof(geography::countries::IO.code) == 2);)
OBLIGATION(country_name_IO, "esl/geography/countries.hpp: country_name (IO)", (), require(is(country('I', 'O'), "British Indian Ocean Territory")); require(is(geography::country_name<text>(geography::countries::IO), "British Indian Ocean Territory"));)
OBLIGATION(country_IQ, "esl/geography/countries.hpp: countries::IQ", (), require(geography::countries::IQ.code[0] == 'I' && geography::countries::IQ.code[1] == 'Q' && sizeof(geography::countries::IQ.code) == 2);)
OBLIGATION(country_name_IQ, "esl/geography/countries.hpp: country_name (IQ)", (), require(is(country('I', 'Q'), "Iraq")); require(is(geography::country_name<text>(geography::countries::IQ), "Iraq"));)
OBLIGATION(country_IR, "esl/geography/countries.hpp: countries::IR", (), require(geography::countries::IR.code[0] == 'I' && geography::countries::IR.code[1] == 'R' && sizeof(geography::countries::IR.code) == 2);)
OBLIGATION(country_name_IR, "esl/geography/countries.hpp: country_name (IR)", (), require(is(country('I', 'R'), "Islamic Republic of Iran")); require(is(geography::country_name<text>(geography::countries::IR), "Islamic Republic of Iran"));)
OBLIGATION(country_IS, "esl/geography/countries.hpp: countries::IS", (), require(geography::countries::IS.code[0] == 'I' && geography::countries::IS.code[1] == 'S' && sizeof(geography::countries::IS.code) == 2);)
OBLIGATION(country_name_IS, "esl/geography/countries.hpp: country_name (IS)", (), require(is(country('I', 'S'), "Iceland")); require(is(geography::country_name<text>(geography::countries::IS), "Iceland"));)
OBLIGATION(country_IT, "esl/geography/countries.hpp: countries::IT", (), require(geography::countries::IT.code[0] == 'I' && geography::countries::IT.code[1] == 'T' && sizeof(geography::countries::IT.code) == 2);)
OBLIGATION(country_name_IT, "esl/geography/countries.hpp: country_name (IT)", (), require(is(country('I', 'T'), "Italy")); require(is(geography::country_name<text>(geography::countries::IT), "Italy"));)
OBLIGATION(country_JE, "esl/geography/countries.hpp: countries::JE", (), require(geography::countries::JE.code[0] == 'J' && geography::countries::JE.code[1] == 'E' && sizeof(geography::countries::JE.code) == 2);)
OBLIGATION(country_name_JE, "esl/geography/countries.hpp: country_name (JE)", (), require(is(country('J', 'E'), "Jersey")); require(is(geography::country_name<text>(geography::countries::JE), "Jersey"));)
OBLIGATION(country_JM, "esl/geography/countries.hpp: countries::JM", (), require(geography::countries::JM.code[0] == 'J' && geography::countries::JM.code[1] == 'M' && sizeof(geography::countries::JM.code) == 2);)
OBLIGATION(country_name_JM, "esl/geography/countries.hpp: country_name (JM)", (), require(is(country('J', 'M'), "Jamaica")); require(is(geography::country_name<text>(geography::countries::JM), "Jamaica"));)
OBLIGATION(country_JO, "esl/geography/countries.hpp: countries::JO", (), require(geography::countries::JO.code[0] == 'J' && geography::countries::JO.code[1] == 'O' && sizeof(geography::countries::JO.code) == 2);)
OBLIGATION(country_name_JO, "esl/geography/countries.hpp: country_name (JO)", (), require(is(country('J', 'O'), "Jordan")); require(is(geography::country_name<text>(geography::countries::JO), "Jordan"));)
OBLIGATION(country_JP, "esl/geography/countries.hpp: countries::JP", (), require(geography::countries::JP.code[0] == 'J' && geography::countries::JP.code[1] == 'P' && sizeof(geography::countries::JP.code) == 2);)
OBLIGATION(country_name_JP, "esl/geography/countries.hpp: country_name (JP)", (), require(is(country('J', 'P'), "Japan")); require(is(geography::country_name<text>(geography::countries::JP), "Japan"));)
OBLIGATION(country_KE, "esl/geography/countries.hpp: countries::KE", (), require(geography::countries::KE.code[0] == 'K' && geography::countries::KE.code[1] == 'E' && sizeof(geography::countries::KE.code) == 2);)
OBLIGATION(country_name_KE, "esl/geography/countries.hpp: country_name (KE)", (), require(is(country('K', 'E'), "Kenya")); require(is(geography::country_name<text>(geography::countries::KE), "Kenya"));)
OBLIGATION(country_KG, "esl/geography/countries.hpp: countries::KG", (), require(geography::countries::KG.code[0] == 'K' && geography::countries::KG.code[1] == 'G' && sizeof(geography::countries::KG.code) == 2);)
OBLIGATION(country_name_KG, "esl/geography/countries.hpp: country_name (KG)", (), require(is(country('K', 'G'), "Kyrgyzstan")); require(is(geography::country_name<text>(geography::countries::KG), "Kyrgyzstan"));)
OBLIGATION(country_KH, "esl/geography/countries.hpp: countries::KH", (), require(geography::countries::KH.code[0] == 'K' && geography::countries::KH.code[1] == 'H' && sizeof(geography::countries::KH.code) == 2);)
OBLIGATION(country_name_KH, "esl/geography/countries.hpp: country_name (KH)", (), require(is(country('K', 'H'), "Cambodia")); require(is(geography::country_name<text>(geography::countries::KH), "Cambodia"));)
OBLIGATION(country_KI, "esl/geography/countries.hpp: countries::KI", (), require(geography::countries::KI.code[0] == 'K' && geography::countries::KI.code[1] == 'I' && sizeof(geography::countries::KI.code) == 2);)
OBLIGATION(country_name_KI, "esl/geography/countries.hpp: country_name (KI)", (), require(is(country('K', 'I'), "Kiribati")); require(is(geography::country_name<text>(geography::countries::KI), "Kiribati"));)
OBLIGATION(country_KM, "esl/geography/countries.hpp: countries::KM", (), require(geography::countries::KM.code[0] == 'K' && geography::countries::KM.code[1] == 'M' && sizeof(geography::countries::KM.code) == 2);)
OBLIGATION(country_name_KM, "esl/geography/countries.hpp: country_name (KM)", (), require(is(country('K', 'M'), "Comoros")); require(is(geography::country_name<text>(geography::countries::KM), "Comoros"));)
OBLIGATION(country_KN, "esl/geography/countries.hpp: countries::KN", (), require(geography::countries::KN.code[0] == 'K' && geography::countries::KN.code[1] == 'N' && sizeof(geography::countries::KN.code) == 2);)
OBLIGATION(country_name_KN, "esl/geography/countries.hpp: country_name (KN)", (), require(is(country('K', 'N'), "Saint Kitts and Nevis")); require(is(geography::country_name<text>(geography::countries::KN), "Saint Kitts and Nevis"));)
OBLIGATION(country_KP, "esl/geography/countries.hpp: countries::KP", (), require(geography::countries::KP.code[0] == 'K' && geography::countries::KP.code[1] == 'P' && sizeof(geography::countries::KP.code) == 2);)
OBLIGATION(country_name_KP, "esl/geography/countries.hpp: country_name (KP)", (), require(is(country('K', 'P'), "Democratic People's Republic of Korea")); require(is(geography::country_name<text>(geography::countries::KP), "Democratic People's Republic of Korea"));)
OBLIGATION(country_KR, "esl/geography/countries.hpp: countries::KR", (), require(geography::countries::KR.code[0] == 'K' && geography::countries::KR.code[1] == 'R' && sizeof(geography::countries::KR.code) == 2);)
OBLIGATION(country_name_KR, "esl/geography/countries.hpp: country_name (KR)", (), require(is(country('K', 'R'), "Republic of Korea")); require(is(geography::country_name<text>(geography::countries::KR), "Republic of Korea"));)
OBLIGATION(country_KW, "esl/geography/countries.hpp: countries::KW", (), require(geography::countries::KW.code[0] == 'K' && geography::countries::KW.code[1] == 'W' && sizeof(geography::countries::KW.code) == 2);)
OBLIGATION(country_name_KW, "esl/geography/countries.hpp: country_name (KW)", (), require(is(country('K', 'W'), "Kuwait")); require(is(geography::country_name<text>(geography::countries::KW), "Kuwait"));)
OBLIGATION(country_KY, "esl/geography/countries.hpp: countries::KY", (), require(geography::countries::KY.code[0] == 'K' && geography::countries::KY.code[1] == 'Y' && sizeof(geography::countries::KY.code) == 2);)
OBLIGATION(country_name_KY, "esl/geography/countries.hpp: country_name (KY)", (), require(is(country('K', 'Y'), "Cayman Islands")); require(is(geography::country_name<text>(geography::countries::KY), "Cayman Islands"));)
OBLIGATION(country_KZ, "esl/geography/countries.hpp: countries::KZ", (), require(geography::countries::KZ.code[0] == 'K' && geography::countries::KZ.code[1] == 'Z' && sizeof(geography::countries::KZ.code) == 2);)
OBLIGATION(country_name_KZ, "esl/geography/countries.hpp: country_name (KZ)", (), require(is(country('K', 'Z'), "Kazakhstan")); require(is(geography::country_name<text>(geography::countries::KZ), "Kazakhstan"));)
OBLIGATION(country_LA, "esl/geography/countries.hpp: countries::LA", (), require(geography::countries::LA.code[0] == 'L' && geography::countries::LA.code[1] == 'A' && sizeof(geography::countries::LA.code) == 2);)
OBLIGATION(country_name_LA, "esl/geography/countries.hpp: country_name (LA)", (), require(is(country('L', 'A'), "Lao People's Democratic Republic")); require(is(geography::country_name<text>(geography::countries::LA), "Lao People's Democratic Republic"));)
OBLIGATION(country_LB, "esl/geography/countries.hpp: countries::LB", (), require(geography::countries::LB.code[0] == 'L' && geography::countries::LB.code[1] == 'B' && sizeof(geography::countries::LB.code) == 2);)
OBLIGATION(country_name_LB, "esl/geography/countries.hpp: country_name (LB)", (), require(is(country('L', 'B'), "Lebanon")); require(is(geography::country_name<text>(geography::countries::LB), "Lebanon"));)
OBLIGATION(country_LC, "esl/geography/countries.hpp: countries::LC", (), require(geography::countries::LC.code[0] == 'L' && geography::countries::LC.code[1] == 'C' && sizeof(geography::countries::LC.code) == 2);)
OBLIGATION(country_name_LC, "esl/geography/countries.hpp: country_name (LC)", (), require(is(country('L', 'C'), "Saint Lucia")); require(is(geography::country_name<text>(geography::countries::LC), "Saint Lucia"));)
OBLIGATION(country_LI, "esl/geography/countries.hpp: countries::LI", (), require(geography::countries::LI.code[0] == 'L' && geography::countries::LI.code[1] == 'I' && sizeof(geography::countries::LI.code) == 2);)
OBLIGATION(country_name_LI, "esl/geography/countries.hpp: country_name (LI)", (), require(is(country('L', 'I'), "Liechtenstein")); require(is(geography::country_name<text>(geography::countries::LI), "Liechtenstein"));)
OBLIGATION(country_LK, "esl/geography/countries.hpp: countries::LK", (), require(geography::countries::LK.code[0] == 'L' && geography::countries::LK.code[1] == 'K' && sizeof(geography::countries::LK.code) == 2);)
OBLIGATION(country_name_LK, "esl/geography/countries.hpp: country_name (LK)", (), require(is(country('L', 'K'), "Sri Lanka")); require(is(geography::country_name<text>(geography::countries::LK), "Sri Lanka"));)
OBLIGATION(country_LR, "esl/geography/countries.hpp: countries::LR", (), require(geography::countries::LR.code[0] == 'L' && geography::countries::LR.code[1] == 'R' && sizeof(geography::countries::LR.code) == 2);)
OBLIGATION(country_name_LR, "esl/geography/countries.hpp: country_name (LR)", (), require(is(country('L', 'R'), "Liberia")); require(is(geography::country_name<text>(geography::countries::LR), "Liberia"));)
OBLIGATION(country_LS, "esl/geography/countries.hpp: countries::LS", (), require(geography::countries::LS.code[0] == 'L' && geography::countries::LS.code[1] == 'S' && sizeof(geography::countries::LS.code) == 2);)
OBLIGATION(country_name_LS, "esl/geography/countries.hpp: country_name (LS)", (), require(is(country('L', 'S'), "Lesotho")); require(is(geography::country_name<text>(geography::countries::LS), "Lesotho"));)
OBLIGATION(country_LT, "esl/geography/countries.hpp: countries::LT", (), require(geography::countries::LT.code[0] == 'L' && geography::countries::LT.code[1] == 'T' && sizeof(geography::countries::LT.code) == 2);)
OBLIGATION(country_name_LT, "esl/geography/countries.hpp: country_name (LT)", (), require(is(country('L', 'T'), "Lithuania")); require(is(geography::country_name<text>(geography::countries::LT), "Lithuania"));)
OBLIGATION(country_LU, "esl/geography/countries.hpp: countries::LU", (), require(geography::countries::LU.code[0] == 'L' && geography::countries::LU.code[1] == 'U' && sizeof(geography::countries::LU.code) == 2);)
OBLIGATION(country_name_LU, "esl/geography/countries.hpp: country_name (LU)", (), require(is(country('L', 'U'), "Luxembourg")); require(is(geography::country_name<text>(geography::countries::LU), "Luxembourg"));)
OBLIGATION(country_LV, "esl/geography/countries.hpp: countries::LV", (), require(geography::countries::LV.code[0] == 'L' && geography::countries::LV.code[1] == 'V' && sizeof(geography::countries::LV.code) == 2);)
OBLIGATION(country_name_LV, "esl/geography/countries.hpp: country_name (LV)", (), require(is(country('L', 'V'), "Latvia")); require(is(geography::country_name<text>(geography::countries::LV), "Latvia"));)
OBLIGATION(country_LY, "esl/geography/countries.hpp: countries::LY", (), require(geography::countries::LY.code[0] == 'L' && geography::countries::LY.code[1] == 'Y' && sizeof(geography::countries::LY.code) == 2);)
OBLIGATION(country_name_LY, "esl/geography/countries.hpp: country_name (LY)", (), require(is(country('L', 'Y'), "Libya")); require(is(geography::country_name<text>(geography::countries::LY), "Libya"));)
OBLIGATION(country_MA, "esl/geography/countries.hpp: countries::MA", (), require(geography::countries::MA.code[0] == 'M' && geography::countries::MA.code[1] == 'A' && sizeof(geography::countries::MA.code) == 2);)
OBLIGATION(country_name_MA, "esl/geography/countries.hpp: country_name (MA)", (), require(is(country('M', 'A'), "Morocco")); require(is(geography::country_name<text>(geography::countries::MA), "Morocco"));)
OBLIGATION(country_MC, "esl/geography/countries.hpp: countries::MC", (), require(geography::countries::MC.code[0] == 'M' && geography::countries::MC.code[1] == 'C' && sizeof(geography::countries::MC.code) == 2);)
OBLIGATION(country_name_MC, "esl/geography/countries.hpp: country_name (MC)", (), require(is(country('M', 'C'), "Monaco")); require(is(geography::country_name<text>(geography::countries::MC), "Monaco"));)
OBLIGATION(country_MD, "esl/geography/countries.hpp: countries::MD", (), require(geography::countries::MD.code[0] == 'M' && geography::countries::MD.code[1] == 'D' && sizeof(geography::countries::MD.code) == 2);)
OBLIGATION(country_name_MD, "esl/geography/countries.hpp: country_name (MD)", (), require(is(country('M', 'D'), "Republic of Moldova")); require(is(geography::country_name<text>(geography::countries::MD), "Republic of Moldova"));)
OBLIGATION(country_ME, "esl/geography/countries.hpp: countries::ME", (), require(geography::countries::ME.code[0] == 'M' && geography::countries::ME.code[1] == 'E' && sizeof(geography::countries::ME.code) == 2);)
OBLIGATION(country_name_ME, "esl/geography/countries.hpp: country_name (ME)", (), require(is(country('M', 'E'), "Montenegro")); require(is(geography::country_name<text>(geography::countries::ME), "Montenegro"));)
OBLIGATION(country_MF, "esl/geography/countries.hpp: countries::MF", (), require(geography::countries::MF.code[0] == 'M' && geography::countries::MF.code[1] == 'F' && sizeof(geography::countries::MF.code) == 2);)
OBLIGATION(country_name_MF, "esl/geography/countries.hpp: country_name (MF)", (), require(is(country('M', 'F'), "Saint Martin (French part)")); require(is(geography::country_name<text>(geography::countries::MF), "Saint Martin (French part)"));)
OBLIGATION(country_MG, "esl/geography/countries.hpp: countries::MG", (), require(geography::countries::MG.code[0] == 'M' && geography::countries::MG.code[1] == 'G' && sizeof(geography::countries::MG.code) == 2);)
OBLIGATION(country_name_MG, "esl/geography/countries.hpp: country_name (MG)", (), require(is(country('M', 'G'), "Madagascar")); require(is(geography::country_name<text>(geography::countries::MG), "Madagascar"));)
OBLIGATION(country_MH, "esl/geography/countries.hpp: countries::MH", (), require(geography::countries::MH.code[0] == 'M' && geography::countries::MH.code[1] == 'H' && sizeof(geography::countries::MH.code) == 2);)
OBLIGATION(country_name_MH, "esl/geography/countries.hpp: country_name (MH)", (), require(is(country('M', 'H'), "Marshall Islands")); require(is(geography::country_name<text>(geography::countries::MH), "Marshall Islands"));)
OBLIGATION(country_MK, "esl/geography/countries.hpp: countries::MK", (), require(geography::countries::MK.code[0] == 'M' && geography::countries::MK.code[1] == 'K' && sizeof(geography::countries::MK.code) == 2);)
OBLIGATION(country_name_MK, "esl/geography/countries.hpp: country_name (MK)", (), require(is(country('M', 'K'), "the former Yugoslav Republic of Macedonia")); require(is(geography::country_name<text>(geography::countries::MK), "the former Yugoslav Republic of Macedonia"));)
OBLIGATION(country_ML, "esl/geography/countries.hpp: countries::ML", (), require(geography::countries::ML.code[0] == 'M' && geography::countries::ML.code[1] == 'L' && sizeof(geography::countries::ML.code) == 2);)
OBLIGATION(country_name_ML, "esl/geography/countries.hpp: country_name (ML)", (), require(is(country('M', 'L'), "Mali")); require(is(geography::country_name<text>(geography::countries::ML), "Mali"));)
OBLIGATION(country_MM, "esl/geography/countries.hpp: countries::MM", (), require(geography::countries::MM.code[0] == 'M' && geography::countries::MM.code[1] == 'M' && sizeof(geography::countries::MM.code) == 2);)
OBLIGATION(country_name_MM, "esl/geography/countries.hpp: country_name (MM)", (), require(is(country('M', 'M'), "Myanmar")); require(is(geography::country_name<text>(geography::countries::MM), "Myanmar"));)
OBLIGATION(country_MN, "esl/geography/countries.hpp: countries::MN", (), require(geography::countries::MN.code[0] == 'M' && geography::countries::MN.code[1] == 'N' && sizeof(geography::countries::MN.code) == 2);)
OBLIGATION(country_name_MN, "esl/geography/countries.hpp: country_name (MN)", (), require(is(country('M', 'N'), "Mongolia")); require(is(geography::country_name<text>(geography::countries::MN), "Mongolia"));)
OBLIGATION(country_MO, "esl/geography/countries.hpp: countries::MO", (), require(geography::countries::MO.code[0] == 'M' && geography::countries::MO.code[1] == 'O' && sizeof(geography::countries::MO.code) == 2);)
OBLIGATION(country_name_MO, "esl/geography/countries.hpp: country_name (MO)", (), require(is(country('M', 'O'), "Macao")); require(is(geography::country_name<text>(geography::countries::MO), "Macao"));)
OBLIGATION(country_MP, "esl/geography/countries.hpp: countries::MP", (), require(geography::countries::MP.code[0] == 'M' && geography::countries::MP.code[1] == 'P' && sizeof(geography::countries::MP.code) == 2);)
OBLIGATION(country_name_MP, "esl/geography/countries.hpp: country_name (MP)", (), require(is(country('M', 'P'), "Northern Mariana Islands")); require(is(geography::country_name<text>(geography::countries::MP), "Northern Mariana Islands"));)
OBLIGATION(country_MQ, "esl/geography/countries.hpp: countries::MQ", (), require(geography::countries::MQ.code[0] == 'M' && geography::countries::MQ.code[1] == 'Q' && sizeof(geography::countries::MQ.code) == 2);)
OBLIGATION(country_name_MQ, "esl/geography/countries.hpp: country_name (MQ)", (), require(is(country('M', 'Q'), "Martinique")); require(is(geography::country_name<text>(geography::countries::MQ), "Martinique"));)
OBLIGATION(country_MR, "esl/geography/countries.hpp: countries::MR", (), require(geography::countries::MR.code[0] == 'M' && geography::countries::MR.code[1] == 'R' && sizeof(geography::countries::MR.code) == 2);)
OBLIGATION(country_name_MR, "esl/geography/countries.hpp: country_name (MR)", (), require(is(country('M', 'R'), "Mauritania")); require(is(geography::country_name<text>(geography::countries::MR), "Mauritania"));)
OBLIGATION(country_MS, "esl/geography/countries.hpp: countries::MS", (), require(geography::countries::MS.code[0] == 'M' && geography::countries::MS.code[1] == 'S' && sizeof(geography::countries::MS.code) == 2);)
OBLIGATION(country_name_MS, "esl/geography/countries.hpp: country_name (MS)", (), require(is(country('M', 'S'), "Montserrat")); require(is(geography::country_name<text>(geography::countries::MS), "Montserrat"));)
OBLIGATION(country_MT, "esl/geography/countries.hpp: countries::MT", (), require(geography::countries::MT.code[0] == 'M' && geography::countries::MT.code[1] == 'T' && sizeof(geography::countries::MT.code) == 2);)
OBLIGATION(country_name_MT, "esl/geography/countries.hpp: country_name (MT)", (), require(is(country('M', 'T'), "Malta")); require(is(geography::country_name<text>(geography::countries::MT), "Malta"));)
OBLIGATION(country_MU, "esl/geography/countries.hpp: countries::MU", (), require(geography::countries::MU.code[0] == 'M' && geography::countries::MU.code[1] == 'U' && sizeof(geography::countries::MU.code) == 2);)
OBLIGATION(country_name_MU, "esl/geography/countries.hpp: country_name (MU)", (), require(is(country('M', 'U'), "Mauritius")); require(is(geography::country_name<text>(geography::countries::MU), "Mauritius"));)
OBLIGATION(country_MV, "esl/geography/countries.hpp: countries::MV", (), require(geography::countries::MV.code[0] == 'M' && geography::countries::MV.code[1] == 'V' && sizeof(geography::countries::MV.code) == 2);)
OBLIGATION(country_name_MV, "esl/geography/countries.hpp: country_name (MV)", (), require(is(country('M', 'V'), "Maldives")); require(is(geography::country_name<text>(geography::countries::MV), "Maldives"));)
OBLIGATION(country_MW, "esl/geography/countries.hpp: countries::MW", (), require(geography::countries::MW.code[0] == 'M' && geography::countries::MW.code[1] == 'W' && sizeof(geography::countries::MW.code) == 2);)
OBLIGATION(country_name_MW, "esl/geography/countries.hpp: country_name (MW)", (), require(is(country('M', 'W'), "Malawi")); require(is(geography::country_name<text>(geography::countries::MW), "Malawi"));)
OBLIGATION(country_MX, "esl/geography/countries.hpp: countries::MX", (), require(geography::countries::MX.code[0] == 'M' && geography::countries::MX.code[1] == 'X' && sizeof(geography::countries::MX.code) == 2);)
OBLIGATION(country_name_MX, "esl/geography/countries.hpp: country_name (MX)", (), require(is(country('M', 'X'), "Mexico")); require(is(geography::country_name<text>(geography::countries::MX), "Mexico"));)
OBLIGATION(country_MY, "esl/geography/countries.hpp: countries::MY", (), require(geography::countries::MY.code[0] == 'M' && geography::countries::MY.code[1] == 'Y' && sizeof(geography::countries::MY.code) == 2);)
OBLIGATION(country_name_MY, "esl/geography/countries.hpp: country_name (MY)", (), require(is(country('M', 'Y'), "Malaysia")); require(is(geography::country_name<text>(geography::countries::MY), "Malaysia"));)
OBLIGATION(country_MZ, "esl/geography/countries.hpp: countries::MZ", (), require(geography::countries::MZ.code[0] == 'M' && geography::countries::MZ.code[1] == 'Z' && sizeof(geography::countries::MZ.code) == 2);)
OBLIGATION(country_name_MZ, "esl/geography/countries.hpp: country_name (MZ)", (), require(is(country('M', 'Z'), "Mozambique")); require(is(geography::country_name<text>(geography::countries::MZ), "Mozambique"));)
OBLIGATION(country_NA, "esl/geography/countries.hpp: countries::NA", (), require(geography::countries::NA.code[0] == 'N' && geography::countries::NA.code[1] == 'A' && sizeof(geography::countries::NA.code) == 2);)
OBLIGATION(country_name_NA, "esl/geography/countries.hpp: country_name (NA)", (), require(is(country('N', 'A'), "Namibia")); require(is(geography::country_name<text>(geography::countries::NA), "Namibia"));)
OBLIGATION(country_NC, "esl/geography/countries.hpp: countries::NC", (), require(geography::countries::NC.code[0] == 'N' && geography::countries::NC.code[1] == 'C' && sizeof(geography::countries::NC.code) == 2);)
OBLIGATION(country_name_NC, "esl/geography/countries.hpp: country_name (NC)", (), require(is(country('N', 'C'), "New Caledonia")); require(is(geography::country_name<text>(geography::countries::NC), "New Caledonia"));)
OBLIGATION(country_NE, "esl/geography/countries.hpp: countries::NE", (), require(geography::countries::NE.code[0] == 'N' && geography::countries::NE.code[1] == 'E' && sizeof(geography::countries::NE.code) == 2);)
OBLIGATION(country_name_NE, "esl/geography/countries.hpp: country_name (NE)", (), require(is(country('N', 'E'), "Niger")); require(is(geography::country_name<text>(geography::countries::NE), "Niger"));)
OBLIGATION(country_NF, "esl/geography/countries.hpp: countries::NF", (), require(geography::countries::NF.code[0] == 'N' && geography::countries::NF.code[1] == 'F' && sizeof(geography::countries::NF.code) == 2);)
OBLIGATION(country_name_NF, "esl/geography/countries.hpp: country_name (NF)", (), require(is(country('N', 'F'), "Norfolk Island")); require(is(geography::country_name<text>(geography::countries::NF), "Norfolk Island"));)
OBLIGATION(country_NG, "esl/geography/countries.hpp: countries::NG", (), require(geography::countries::NG.code[0] == 'N' && geography::countries::NG.code[1] == 'G' && sizeof(geography::countries::NG.code) == 2);)
OBLIGATION(country_name_NG, "esl/geography/countries.hpp: country_name (NG)", (), require(is(country('N', 'G'), "Nigeria")); require(is(geography::country_name<text>(geography::countries::NG), "Nigeria"));)
OBLIGATION(country_NI, "esl/geography/countries.hpp: countries::NI", (), require(geography::countries::NI.code[0] == 'N' && geography::countries::NI.code[1] == 'I' && sizeof(geography::countries::NI.code) == 2);)
OBLIGATION(country_name_NI, "esl/geography/countries.hpp: country_name (NI)", (), require(is(country('N', 'I'), "Nicaragua")); require(is(geography::country_name<text>(geography::countries::NI), "Nicaragua"));)
OBLIGATION(country_NL, "esl/geography/countries.hpp: countries::NL", (), require(geography::countries::NL.code[0] == 'N' && geography::countries::NL.code[1] == 'L' && sizeof(geography::countries::NL.code) == 2);)
OBLIGATION(country_name_NL, "esl/geography/countries.hpp: country_name (NL)", (), require(is(country('N', 'L'), "Netherlands")); require(is(geography::country_name<text>(geography::countries::NL), "Netherlands"));)
OBLIGATION(country_NO, "esl/geography/countries.hpp: countries::NO", (), require(geography::countries::NO.code[0] == 'N' && geography::countries::NO.code[1] == 'O' && sizeof(geography::countries::NO.code) == 2);)
OBLIGATION(country_name_NO, "esl/geography/countries.hpp: country_name (NO)", (), require(is(country('N', 'O'), "Norway")); require(is(geography::country_name<text>(geography::countries::NO), "Norway"));)
OBLIGATION(country_NP, "esl/geography/countries.hpp: countries::NP", (), require(geography::countries::NP.code[0] == 'N' && geography::countries::NP.code[1] == 'P' && sizeof(geography::countries::NP.code) == 2);)
OBLIGATION(country_name_NP, "esl/geography/countries.hpp: country_name (NP)", (), require(is(country('N', 'P'), "Nepal")); require(is(geography::country_name<text>(geography::countries::NP), "Nepal"));)
OBLIGATION(country_NR, "esl/geography/countries.hpp: countries::NR", (), require(geography::countries::NR.code[0] == 'N' && geography::countries::NR.code[1] == 'R' && sizeof(geography::countries::NR.code) == 2);)
OBLIGATION(country_name_NR, "esl/geography/countries.hpp: country_name (NR)", (), require(is(country('N', 'R'), "Nauru")); require(is(geography::country_name<text>(geography::countries::NR), "Nauru"));)
OBLIGATION(country_NU, "esl/geography/countries.hpp: countries::NU", (), require(geography::countries::NU.code[0] == 'N' && geography::countries::NU.code[1] == 'U' && sizeof(geography::countries::NU.code) == 2);)
OBLIGATION(country_name_NU, "esl/geography/countries.hpp: country_name (NU)", (), require(is(country('N', 'U'), "Niue")); require(is(geography::country_name<text>(geography::countries::NU), "Niue"));)
OBLIGATION(country_NZ, "esl/geography/countries.hpp: countries::NZ", (), require(geography::countries::NZ.code[0] == 'N' && geography::countries::NZ.code[1] == 'Z' && sizeof(geography::countries::NZ.code) == 2);)
OBLIGATION(country_name_NZ, "esl/geography/countries.hpp: country_name (NZ)", (), require(is(country('N', 'Z'), "New Zealand")); require(is(geography::country_name<text>(geography::countries::NZ), "New Zealand"));)
OBLIGATION(country_OM, "esl/geography/countries.hpp: countries::OM", (), require(geography::countries::OM.code[0] == 'O' && geography::countries::OM.code[1] == 'M' && sizeof(geography::countries::OM.code) == 2);)
OBLIGATION(country_name_OM, "esl/geography/countries.hpp: country_name (OM)", (), require(is(country('O', 'M'), "Oman")); require(is(geography::country_name<text>(geography::countries::OM), "Oman"));)
OBLIGATION(country_PA, "esl/geography/countries.hpp: countries::PA", (), require(geography::countries::PA.code[0] == 'P' && geography::countries::PA.code[1] == 'A' && sizeof(geography::countries::PA.code) == 2);)
OBLIGATION(country_name_PA, "esl/geography/countries.hpp: country_name (PA)", (), require(is(country('P', 'A'), "Panama")); require(is(geography::country_name<text>(geography::countries::PA), "Panama"));)
OBLIGATION(country_PE, "esl/geography/countries.hpp: countries::PE", (), require(geography::countries::PE.code[0] == 'P' && geography::countries::PE.code[1] == 'E' && sizeof(geography::countries::PE.code) == 2);)
OBLIGATION(country_name_PE, "esl/geography/countries.hpp: country_name (PE)", (), require(is(country('P', 'E'), "Peru")); require(is(geography::country_name<text>(geography::countries::PE), "Peru"));)
OBLIGATION(country_PF, "esl/geography/countries.hpp: countries::PF", (), require(geography::countries::PF.code[0] == 'P' && geography::countries::PF.code[1] == 'F' && sizeof(geography::countries::PF.code) == 2);)
OBLIGATION(country_name_PF, "esl/geography/countries.hpp: country_name (PF)", (), require(is(country('P', 'F'), "French Polynesia")); require(is(geography::country_name<text>(geography::countries::PF), "French Polynesia"));)
OBLIGATION(country_PG, "esl/geography/countries.hpp: countries::PG", (), require(geography::countries::PG.code[0] == 'P' && geography::countries::PG.code[1] == 'G' && sizeof(geography::countries::PG.code) == 2);)
OBLIGATION(country_name_PG, "esl/geography/countries.hpp: country_name (PG)", (), require(is(country('P', 'G'), "Papua New Guinea")); require(is(geography::country_name<text>(geography::countries::PG), "Papua New Guinea"));)
OBLIGATION(country_PH, "esl/geography/countries.hpp: countries::PH", (), require(geography::countries::PH.code[0] == 'P' && geography::countries::PH.code[1] == 'H' && sizeof(geography::countries::PH.code) == 2);)
OBLIGATION(country_name_PH, "esl/geography/countries.hpp: country_name (PH)", (), require(is(country('P', 'H'), "Philippines")); require(is(geography::country_name<text>(geography::countries::PH), "Philippines"));)
OBLIGATION(country_PK, "esl/geography/countries.hpp: countries::PK", (), require(geography::countries::PK.code[0] == 'P' && geography::countries::PK.code[1] == 'K' && sizeof(geography::countries::PK.code) == 2);)
OBLIGATION(country_name_PK, "esl/geography/countries.hpp: country_name (PK)", (), require(is(country('P', 'K'), "Pakistan")); require(is(geography::country_name<text>(geography::countries::PK), "Pakistan"));)
OBLIGATION(country_PL, "esl/geography/countries.hpp: countries::PL", (), require(geography::countries::PL.code[0] == 'P' && geography::countries::PL.code[1] == 'L' && sizeof(geography::countries::PL.code) == 2);)
OBLIGATION(country_name_PL, "esl/geography/countries.hpp: country_name (PL)", (), require(is(country('P', 'L'), "Poland")); require(is(geography::country_name<text>(geography::countries::PL), "Poland"));)
OBLIGATION(country_PM, "esl/geography/countries.hpp: countries::PM", (), require(geography::countries::PM.code[0] == 'P' && geography::countries::PM.code[1] == 'M' && sizeof(geography::countries::PM.code) == 2);)
OBLIGATION(country_name_PM, "esl/geography/countries.hpp: country_name (PM)", (), require(is(country('P', 'M'), "Saint Pierre and Miquelon")); require(is(geography::country_name<text>(geography::countries::PM), "Saint Pierre and Miquelon"));)
OBLIGATION(country_PN, "esl/geography/countries.hpp: countries::PN", (), require(geography::countries::PN.code[0] == 'P' && geography::countries::PN.code[1] == 'N' && sizeof(geography::countries::PN.code) == 2);)
OBLIGATION(country_name_PN, "esl/geography/countries.hpp: country_name (PN)", (), require(is(country('P', 'N'), "Pitcairn")); require(is(geography::country_name<text>(geography::countries::PN), "Pitcairn"));)
OBLIGATION(country_PR, "esl/geography/countries.hpp: countries::PR", (), require(geography::countries::PR.code[0] == 'P' && geography::countries::PR.code[1] == 'R' && sizeof(geography::countries::PR.code) == 2);)
OBLIGATION(country_name_PR, "esl/geography/countries.hpp: country_name (PR)", (), require(is(country('P', 'R'), "Puerto Rico")); require(is(geography::country_name<text>(geography::countries::PR), "Puerto Rico"));)
OBLIGATION(country_PS, "esl/geography/countries.hpp: countries::PS", (), require(geography::countries::PS.code[0] == 'P' && geography::countries::PS.code[1] == 'S' && sizeof(geography::countries::PS.code) == 2);)
OBLIGATION(country_name_PS, "esl/geography/countries.hpp: country_name (PS)", (), require(is(country('P', 'S'), "State of Palestine")); require(is(geography::country_name<text>(geography::countries::PS), "State of Palestine"));)
OBLIGATION(country_PT, "esl/geography/countries.hpp: countries::PT", (), require(geography::countries::PT.code[0] == 'P' && geography::countries::PT.code[1] == 'T' && sizeof(geography::countries::PT.code) == 2);)
OBLIGATION(country_name_PT, "esl/geography/countries.hpp: country_name (PT)", (), require(is(country('P', 'T'), "Portugal")); require(is(geography::country_name<text>(geography::countries::PT), "Portugal"));)
OBLIGATION(country_PW, "esl/geography/countries.hpp: countries::PW", (), require(geography::countries::PW.code[0] == 'P' && geography::countries::PW.code[1] == 'W' && sizeof(geography::countries::PW.code) == 2);)
OBLIGATION(country_name_PW, "esl/geography/countries.hpp: country_name (PW)", (), require(is(country('P', 'W'), "Palau")); require(is(geography::country_name<text>(geography::countries::PW), "Palau"));)
OBLIGATION(country_PY, "esl/geography/countries.hpp: countries::PY", (), require(geography::countries::PY.code[0] == 'P' && geography::countries::PY.code[1] == 'Y' && sizeof(geography::countries::PY.code) == 2);)
OBLIGATION(country_name_PY, "esl/geography/countries.hpp: country_name (PY)", (), require(is(country('P', 'Y'), "Paraguay")); require(is(geography::country_name<text>(geography::countries::PY), "Paraguay"));)
OBLIGATION(country_QA, "esl/geography/countries.hpp: countries::QA", (), require(geography::countries::QA.code[0] == 'Q' && geography::countries::QA.code[1] == 'A' && sizeof(geography::countries::QA.code) == 2);)
OBLIGATION(country_name_QA, "esl/geography/countries.hpp: country_name (QA)", (), require(is(country('Q', 'A'), "Qatar")); require(is(geography::country_name<text>(geography::countries::QA), "Qatar"));)
OBLIGATION(country_RE, "esl/geography/countries.hpp: countries::RE", (), require(geography::countries::RE.code[0] == 'R' && geography::countries::RE.code[1] == 'E' && sizeof(geography::countries::RE.code) == 2);)
OBLIGATION(country_name_RE, "esl/geography/countries.hpp: country_name (RE)", (), require(is(country('R', 'E'), "R\303\251union")); require(is(geography::country_name<text>(geography::countries::RE), "R\303\251union"));)
OBLIGATION(country_RO, "esl/geography/countries.hpp: countries::RO", (), require(geography::countries::RO.code[0] == 'R' && geography::countries::RO.code[1] == 'O' && sizeof(geography::countries::RO.code) == 2);)
OBLIGATION(country_name_RO, "esl/geography/countries.hpp: country_name (RO)", (), require(is(country('R', 'O'), "Romania")); require(is(geography::country_name<text>(geography::countries::RO), "Romania"));)
OBLIGATION(country_RS, "esl/geography/countries.hpp: countries::RS", (), require(geography::countries::RS.code[0] == 'R' && geography::countries::RS.code[1] == 'S' && sizeof(geography::countries::RS.code) == 2);)
OBLIGATION(country_name_RS, "esl/geography/countries.hpp: country_name (RS)", (), require(is(country('R', 'S'), "Serbia")); require(is(geography::country_name<text>(geography::countries::RS), "Serbia"));)
OBLIGATION(country_RU, "esl/geography/countries.hpp: countries::RU", (), require(geography::countries::RU.code[0] == 'R' && geography::countries::RU.code[1] == 'U' && sizeof(geography::countries::RU.code) == 2);)
OBLIGATION(country_name_RU, "esl/geography/countries.hpp: country_name (RU)", (), require(is(country('R', 'U'), "Russian Federation")); require(is(geography::country_name<text>(geography::countries::RU), "Russian Federation"));)
OBLIGATION(country_RW, "esl/geography/countries.hpp: countries::RW", (), require(geography::countries::RW.code[0] == 'R' && geography::countries::RW.code[1] == 'W' && sizeof(geography::countries::RW.code) == 2);)
OBLIGATION(country_name_RW, "esl/geography/countries.hpp: country_name (RW)", (), require(is(country('R', 'W'), "Rwanda")); require(is(geography::country_name<text>(geography::countries::RW), "Rwanda"));)
OBLIGATION(country_SA, "esl/geography/countries.hpp: countries::SA", (), require(geography::countries::SA.code[0] == 'S' && geography::countries::SA.code[1] == 'A' && sizeof(geography::countries::SA.code) == 2);)
OBLIGATION(country_name_SA, "esl/geography/countries.hpp: country_name (SA)", (), require(is(country('S', 'A'), "Saudi Arabia")); require(is(geography::country_name<text>(geography::countries::SA), "Saudi Arabia"));)
OBLIGATION(country_SB, "esl/geography/countries.hpp: countries::SB", (), require(geography::countries::SB.code[0] == 'S' && geography::countries::SB.code[1] == 'B' && sizeof(geography::countries::SB.code) == 2);)
OBLIGATION(country_name_SB, "esl/geography/countries.hpp: country_name (SB)", (), require(is(country('S', 'B'), "Solomon Islands")); require(is(geography::country_name<text>(geography::countries::SB), "Solomon Islands"));)
OBLIGATION(country_SC, "esl/geography/countries.hpp: countries::SC", (), require(geography::countries::SC.code[0] == 'S' && geography::countries::SC.code[1] == 'C' && sizeof(geography::countries::SC.code) == 2);)
OBLIGATION(country_name_SC, "esl/geography/countries.hpp: country_name (SC)", (), require(is(country('S', 'C'), "Seychelles")); require(is(geography::country_name<text>(geography::countries::SC), "Seychelles"));)
OBLIGATION(country_SD, "esl/geography/countries.hpp: countries::SD", (), require(geography::countries::SD.code[0] == 'S' && geography::countries::SD.code[1] == 'D' && sizeof(geography::countries::SD.code) == 2);)
OBLIGATION(country_name_SD, "esl/geography/countries.hpp: country_name (SD)", (), require(is(country('S', 'D'), "Sudan")); require(is(geography::country_name<text>(geography::countries::SD), "Sudan"));)
OBLIGATION(country_SE, "esl/geography/countries.hpp: countries::SE", (), require(geography::countries::SE.code[0] == 'S' && geography::countries::SE.code[1] == 'E' && sizeof(geography::countries::SE.code) == 2);)
OBLIGATION(country_name_SE, "esl/geography/countries.hpp: country_name (SE)", (), require(is(country('S', 'E'), "Sweden")); require(is(geography::country_name<text>(geography::countries::SE), "Sweden"));)
OBLIGATION(country_SG, "esl/geography/countries.hpp: countries::SG", (), require(geography::countries::SG.code[0] == 'S' && geography::countries::SG.code[1] == 'G' && sizeof(geography::countries::SG.code) == 2);)
OBLIGATION(country_name_SG, "esl/geography/countries.hpp: country_name (SG)", (), require(is(country('S', 'G'), "Singapore")); require(is(geography::country_name<text>(geography::countries::SG), "Singapore"));)
OBLIGATION(country_SH, "esl/geography/countries.hpp: countries::SH", (), require(geography::countries::SH.code[0] == 'S' && geography::countries::SH.code[1] == 'H' && sizeof(geography::countries::SH.code) == 2);)
OBLIGATION(country_name_SH, "esl/geography/countries.hpp: country_name (SH)", (), require(is(country('S', 'H'), "Saint Helena, Ascension and Tristan da Cunha")); require(is(geography::country_name<text>(geography::countries::SH), "Saint Helena, Ascension and Tristan da Cunha"));)
OBLIGATION(country_SI, "esl/geography/countries.hpp: countries::SI", (), require(geography::countries::SI.code[0] == 'S' && geography::countries::SI.code[1] == 'I' && sizeof(geography::countries::SI.code) == 2);)
OBLIGATION(country_name_SI, "esl/geography/countries.hpp: country_name (SI)", (), require(is(country('S', 'I'), "Slovenia")); require(is(geography::country_name<text>(geography::countries::SI), "Slovenia"));)
OBLIGATION(country_SJ, "esl/geography/countries.hpp: countries::SJ", (), require(geography::countries::SJ.code[0] == 'S' && geography::countries::SJ.code[1] == 'J' && sizeof(geography::countries::SJ.code) == 2);)
OBLIGATION(country_name_SJ, "esl/geography/countries.hpp: country_name (SJ)", (), require(is(country('S', 'J'), "Svalbard and Jan Mayen")); require(is(geography::country_name<text>(geography::countries::SJ), "Svalbard and Jan Mayen"));)
OBLIGATION(country_SK, "esl/geography/countries.hpp: countries::SK", (), require(geography::countries::SK.code[0] == 'S' && geography::countries::SK.code[1] == 'K' && sizeof(geography::countries::SK.code) == 2);)
OBLIGATION(country_name_SK, "esl/geography/countries.hpp: country_name (SK)", (), require(is(country('S', 'K'), "Slovakia")); require(is(geography::country_name<text>(geography::countries::SK), "Slovakia"));)
OBLIGATION(country_SL, "esl/geography/countries.hpp: countries::SL", (), require(geography::countries::SL.code[0] == 'S' && geography::countries::SL.code[1] == 'L' && sizeof(geography::countries::SL.code) == 2);)
OBLIGATION(country_name_SL, "esl/geography/countries.hpp: country_name (SL)", (), require(is(country('S', 'L'), "Sierra Leone")); require(is(geography::country_name<text>(geography::countries::SL), "Sierra Leone"));)
OBLIGATION(country_SM, "esl/geography/countries.hpp: countries::SM", (), require(geography::countries::SM.code[0] == 'S' && geography::countries::SM.code[1] == 'M' && sizeof(geography::countries::SM.code) == 2);)
OBLIGATION(country_name_SM, "esl/geography/countries.hpp: country_name (SM)", (), require(is(country('S', 'M'), "San Marino")); require(is(geography::country_name<text>(geography::countries::SM), "San Marino"));)
OBLIGATION(country_SN, "esl/geography/countries.hpp: countries::SN", (), require(geography::countries::SN.code[0] == 'S' && geography::countries::SN.code[1] == 'N' && sizeof(geography::countries::SN.code) == 2);)
OBLIGATION(country_name_SN, "esl/geography/countries.hpp: country_name (SN)", (), require(is(country('S', 'N'), "Senegal")); require(is(geography::country_name<text>(geography::countries::SN), "Senegal"));)
OBLIGATION(country_SO, "esl/geography/countries.hpp: countries::SO", (), require(geography::countries::SO.code[0] == 'S' && geography::countries::SO.code[1] == 'O' && sizeof(geography::countries::SO.code) == 2);)
OBLIGATION(country_name_SO, "esl/geography/countries.hpp: country_name (SO)", (), require(is(country('S', 'O'), "Somalia")); require(is(geography::country_name<text>(geography::countries::SO), "Somalia"));)
OBLIGATION(country_SR, "esl/geography/countries.hpp: countries::SR", (), require(geography::countries::SR.code[0] == 'S' && geography::countries::SR.code[1] == 'R' && sizeof(geography::countries::SR.code) == 2);)
OBLIGATION(country_name_SR, "esl/geography/countries.hpp: country_name (SR)", (), require(is(country('S', 'R'), "Suriname")); require(is(geography::country_name<text>(geography::countries::SR), "Suriname"));)
OBLIGATION(country_SS, "esl/geography/countries.hpp: countries::SS", (), require(geography::countries::SS.code[0] == 'S' && geography::countries::SS.code[1] == 'S' && sizeof(geography::countries::SS.code) == 2);)
OBLIGATION(country_name_SS, "esl/geography/countries.hpp: country_name (SS)", (), require(is(country('S', 'S'), "South Sudan")); require(is(geography::country_name<text>(geography::countries::SS), "South Sudan"));)
OBLIGATION(country_ST, "esl/geography/countries.hpp: countries::ST", (), require(geography::countries::ST.code[0] == 'S' && geography::countries::ST.code[1] == 'T' && sizeof(geography::countries::ST.code) == 2);)
OBLIGATION(country_name_ST, "esl/geography/countries.hpp: country_name (ST)", (), require(is(country('S', 'T'), "Sao Tome and Principe")); require(is(geography::country_name<text>(geography::countries::ST), "Sao Tome and Principe"));)
OBLIGATION(country_SV, "esl/geography/countries.hpp: countries::SV", (), require(geography::countries::SV.code[0] == 'S' && geography::countries::SV.code[1] == 'V' && sizeof(geography::countries::SV.code) == 2);)
OBLIGATION(country_name_SV, "esl/geography/countries.hpp: country_name (SV)", (), require(is(country('S', 'V'), "El Salvador")); require(is(geography::country_name<text>(geography::countries::SV), "El Salvador"));)
OBLIGATION(country_SX, "esl/geography/countries.hpp: countries::SX", (), require(geography::countries::SX.code[0] == 'S' && geography::countries::SX.code[1] == 'X' && sizeof(geography::countries::SX.code) == 2);)
OBLIGATION(country_name_SX, "esl/geography/countries.hpp: country_name (SX)", (), require(is(country('S', 'X'), "Sint Maarten (Dutch part)")); require(is(geography::country_name<text>(geography::countries::SX), "Sint Maarten (Dutch part)"));)
OBLIGATION(country_SY, "esl/geography/countries.hpp: countries::SY", (), require(geography::countries::SY.code[0] == 'S' && geography::countries::SY.code[1] == 'Y' && sizeof(geography::countries::SY.code) == 2);)
OBLIGATION(country_name_SY, "esl/geography/countries.hpp: country_name (SY)", (), require(is(country('S', 'Y'), "Syrian Arab Republic")); require(is(geography::country_name<text>(geography::countries::SY), "Syrian Arab Republic"));)
OBLIGATION(country_SZ, "esl/geography/countries.hpp: countries::SZ", (), require(geography::countries::SZ.code[0] == 'S' && geography::countries::SZ.code[1] == 'Z' && sizeof(geography::countries::SZ.code) == 2);)
OBLIGATION(country_name_SZ, "esl/geography/countries.hpp: country_name (SZ)", (), require(is(country('S', 'Z'), "Swaziland")); require(is(geography::country_name<text>(geography::countries::SZ), "Swaziland"));)
OBLIGATION(country_TC, "esl/geography/countries.hpp: countries::TC", (), require(geography::countries::TC.code[0] == 'T' && geography::countries::TC.code[1] == 'C' && sizeof(geography::countries::TC.code) == 2);)
OBLIGATION(country_name_TC, "esl/geography/countries.hpp: country_name (TC)", (), require(is(country('T', 'C'), "Turks and Caicos Islands")); require(is(geography::country_name<text>(geography::countries::TC), "Turks and Caicos Islands"));)
OBLIGATION(country_TD, "esl/geography/countries.hpp: countries::TD", (), require(geography::countries::TD.code[0] == 'T' && geography::countries::TD.code[1] == 'D' && sizeof(geography::countries::TD.code) == 2);)
OBLIGATION(country_name_TD, "esl/geography/countries.hpp: country_name (TD)", (), require(is(country('T', 'D'), "Chad")); require(is(geography::country_name<text>(geography::countries::TD), "Chad"));)
OBLIGATION(country_TF, "esl/geography/countries.hpp: countries::TF", (), require(geography::countries::TF.code[0] == 'T' && geography::countries::TF.code[1] == 'F' && sizeof(geography::countries::TF.code) == 2);)
OBLIGATION(country_name_TF, "esl/geography/countries.hpp: country_name (TF)", (), require(is(country('T', 'F'), "French Southern Territories")); require(is(geography::country_name<text>(geography::countries::TF), "French Southern Territories"));)
OBLIGATION(country_TG, "esl/geography/countries.hpp: countries::TG", (), require(geography::countries::TG.code[0] == 'T' && geography::countries::TG.code[1] == 'G' && sizeof(geography::countries::TG.code) == 2);)
OBLIGATION(country_name_TG, "esl/geography/countries.hpp: country_name (TG)", (), require(is(country('T', 'G'), "Togo")); require(is(geography::country_name<text>(geography::countries::TG), "Togo"));)
OBLIGATION(country_TH, "esl/geography/countries.hpp: countries::TH", (), require(geography::countries::TH.code[0] == 'T' && geography::countries::TH.code[1] == 'H' && sizeof(geography::countries::TH.code) == 2);)
OBLIGATION(country_name_TH, "esl/geography/countries.hpp: country_name (TH)", (), require(is(country('T', 'H'), "Thailand")); require(is(geography::country_name<text>(geography::countries::TH), "Thailand"));)
OBLIGATION(country_TJ, "esl/geography/countries.hpp: countries::TJ", (), require(geography::countries::TJ.code[0] == 'T' && geography::countries::TJ.code[1] == 'J' && sizeof(geography::countries::TJ.code) == 2);)
OBLIGATION(country_name_TJ, "esl/geography/countries.hpp: country_name (TJ)", (), require(is(country('T', 'J'), "Tajikistan")); require(is(geography::country_name<text>(geography::countries::TJ), "Tajikistan"));)
OBLIGATION(country_TK, "esl/geography/countries.hpp: countries::TK", (), require(geography::countries::TK.code[0] == 'T' && geography::countries::TK.code[1] == 'K' && sizeof(geography::countries::TK.code) == 2);)
OBLIGATION(country_name_TK, "esl/geography/countries.hpp: country_name (TK)", (), require(is(country('T', 'K'), "Tokelau")); require(is(geography::country_name<text>(geography::countries::TK), "Tokelau"));)
OBLIGATION(country_TL, "esl/geography/countries.hpp: countries::TL", (), require(geography::countries::TL.code[0] == 'T' && geography::countries::TL.code[1] == 'L' && sizeof(geography::countries::TL.code) == 2);)
OBLIGATION(country_name_TL, "esl/geography/countries.hpp: country_name (TL)", (), require(is(country('T', 'L'), "Timor-Leste")); require(is(geography::country_name<text>(geography::countries::TL), "Timor-Leste"));)
OBLIGATION(country_TM, "esl/geography/countries.hpp: countries::TM", (), require(geography::countries::TM.code[0] == 'T' && geography::countries::TM.code[1] == 'M' && sizeof(geography::countries::TM.code) == 2);)
OBLIGATION(country_name_TM, "esl/geography/countries.hpp: country_name (TM)", (), require(is(country('T', 'M'), "Turkmenistan")); require(is(geography::country_name<text>(geography::countries::TM), "Turkmenistan"));)
OBLIGATION(country_TN, "esl/geography/countries.hpp: countries::TN", (), require(geography::countries::TN.code[0] == 'T' && geography::countries::TN.code[1] == 'N' && sizeof(geography::countries::TN.code) == 2);)
OBLIGATION(country_name_TN, "esl/geography/countries.hpp: country_name (TN)", (), require(is(country('T', 'N'), "Tunisia")); require(is(geography::country_name<text>(geography::countries::TN), "Tunisia"));)
OBLIGATION(country_TO, "esl/geography/countries.hpp: countries::TO", (), require(geography::countries::TO.code[0] == 'T' && geography::countries::TO.code[1] == 'O' && sizeof(geography::countries::TO.code) == 2);)
OBLIGATION(country_name_TO, "esl/geography/countries.hpp: country_name (TO)", (), require(is(country('T', 'O'), "Tonga")); require(is(geography::country_name<text>(geography::countries::TO), "Tonga"));)
OBLIGATION(country_TR, "esl/geography/countries.hpp: countries::TR", (), require(geography::countries::TR.code[0] == 'T' && geography::countries::TR.code[1] == 'R' && sizeof(geography::countries::TR.code) == 2);)
OBLIGATION(country_name_TR, "esl/geography/countries.hpp: country_name (TR)", (), require(is(country('T', 'R'), "Turkey")); require(is(geography::country_name<text>(geography::countries::TR), "Turkey"));)
OBLIGATION(country_TT, "esl/geography/countries.hpp: countries::TT", (), require(geography::countries::TT.code[0] == 'T' && geography::countries::TT.code[1] == 'T' && sizeof(geography::countries::TT.code) == 2);)
OBLIGATION(country_name_TT, "esl/geography/countries.hpp: country_name (TT)", (), require(is(country('T', 'T'), "Trinidad and Tobago")); require(is(geography::country_name<text>(geography::countries::TT), "Trinidad and Tobago"));)
OBLIGATION(country_TV, "esl/geography/countries.hpp: countries::TV", (), require(geography::countries::TV.code[0] == 'T' && geography::countries::TV.code[1] == 'V' && sizeof(geography::countries::TV.code) == 2);)
OBLIGATION(country_name_TV, "esl/geography/countries.hpp: country_name (TV)", (), require(is(country('T', 'V'), "Tuvalu")); require(is(geography::country_name<text>(geography::countries::TV), "Tuvalu"));)
OBLIGATION(country_TW, "esl/geography/countries.hpp: countries::TW", (), require(geography::countries::TW.code[0] == 'T' && geography::countries::TW.code[1] == 'W' && sizeof(geography::countries::TW.code) == 2);)
OBLIGATION(country_name_TW, "esl/geography/countries.hpp: country_name (TW)", (), require(is(country('T', 'W'), "Taiwan, Province of China")); require(is(geography::country_name<text>(geography::countries::TW), "Taiwan, Province of China"));)
OBLIGATION(country_TZ, "esl/geography/countries.hpp: countries::TZ", (), require(geography::countries::TZ.code[0] == 'T' && geography::countries::TZ.code[1] == 'Z' && sizeof(geography::countries::TZ.code) == 2);)
OBLIGATION(country_name_TZ, "esl/geography/countries.hpp: country_name (TZ)", (), require(is(country('T', 'Z'), "United Republic of Tanzania")); require(is(geography::country_name<text>(geography::countries::TZ), "United Republic of Tanzania"));)
OBLIGATION(country_UA, "esl/geography/countries.hpp: countries::UA", (), require(geography::countries::UA.code[0] == 'U' && geography::countries::UA.code[1] == 'A' && sizeof(geography::countries::UA.code) == 2);)
OBLIGATION(country_name_UA, "esl/geography/countries.hpp: country_name (UA)", (), require(is(country('U', 'A'), "Ukraine")); require(is(geography::country_name<text>(geography::countries::UA), "Ukraine"));)
OBLIGATION(country_UG, "esl/geography/countries.hpp: countries::UG", (), require(geography::countries::UG.code[0] == 'U' && geography::countries::UG.code[1] == 'G' && sizeof(geography::countries::UG.code) == 2);)
OBLIGATION(country_name_UG, "esl/geography/countries.hpp: country_name (UG)", (), require(is(country('U', 'G'), "Uganda")); require(is(geography::country_name<text>(geography::countries::UG), "Uganda"));)
OBLIGATION(country_UM, "esl/geography/countries.hpp: countries::UM", (), require(geography::countries::UM.code[0] == 'U' && geography::countries::UM.code[1] == 'M' && sizeof(geography::countries::UM.code) == 2);)
OBLIGATION(country_name_UM, "esl/geography/countries.hpp: country_name (UM)", (), require(is(country('U', 'M'), "United States Minor Outlying Islands")); require(is(geography::country_name<text>(geography::countries::UM), "United States Minor Outlying Islands"));)
OBLIGATION(country_US, "esl/geography/countries.hpp: countries::US", (), require(geography::countries::US.code[0] == 'U' && geography::countries::US.code[1] == 'S' && sizeof(geography::countries::US.code) == 2);)
OBLIGATION(country_name_US, "esl/geography/countries.hpp: country_name (US)", (), require(is(country('U', 'S'), "United States of America")); require(is(geography::country_name<text>(geography::countries::US), "United States of America"));)
OBLIGATION(country_UY, "esl/geography/countries.hpp: countries::UY", (), require(geography::countries::UY.code[0] == 'U' && geography::countries::UY.code[1] == 'Y' && sizeof(geography::countries::UY.code) == 2);)
OBLIGATION(country_name_UY, "esl/geography/countries.hpp: country_name (UY)", (), require(is(country('U', 'Y'), "Uruguay")); require(is(geography::country_name<text>(geography::countries::UY), "Uruguay"));)
OBLIGATION(country_UZ, "esl/geography/countries.hpp: countries::UZ", (), require(geography::countries::UZ.code[0] == 'U' && geography::countries::UZ.code[1] == 'Z' && sizeof(geography::countries::UZ.code) == 2);)
OBLIGATION(country_name_UZ, "esl/geography/countries.hpp: country_name (UZ)", (), require(is(country('U', 'Z'), "Uzbekistan")); require(is(geography::country_name<text>(geography::countries::UZ), "Uzbekistan"));)
OBLIGATION(country_VA, "esl/geography/countries.hpp: countries::VA", (), require(geography::countries::VA.code[0] == 'V' && geography::countries::VA.code[1] == 'A' && sizeof(geography::countries::VA.code) == 2);)
OBLIGATION(country_name_VA, "esl/geography/countries.hpp: country_name (VA)", (), require(is(country('V', 'A'), "Holy See")); require(is(geography::country_name<text>(geography::countries::VA), "Holy See"));)
OBLIGATION(country_VC, "esl/geography/countries.hpp: countries::VC", (), require(geography::countries::VC.code[0] == 'V' && geography::countries::VC.code[1] == 'C' && sizeof(geography::countries::VC.code) == 2);)
OBLIGATION(country_name_VC, "esl/geography/countries.hpp: country_name (VC)", (), require(is(country('V', 'C'), "Saint Vincent and the Grenadines")); require(is(geography::country_name<text>(geography::countries::VC), "Saint Vincent and the Grenadines"));)
OBLIGATION(country_VE, "esl/geography/countries.hpp: countries::VE", (), require(geography::countries::VE.code[0] == 'V' && geography::countries::VE.code[1] == 'E' && sizeof(geography::countries::VE.code) == 2);)
OBLIGATION(country_name_VE, "esl/geography/countries.hpp: country_name (VE)", (), require(is(country('V', 'E'), "Bolivarian Republic of Venezuela")); require(is(geography::country_name<text>(geography::countries::VE), "Bolivarian Republic of Venezuela"));)
OBLIGATION(country_VG, "esl/geography/countries.hpp: countries::VG", (), require(geography::countries::VG.code[0] == 'V' && geography::countries::VG.code[1] == 'G' && sizeof(geography::countries::VG.code) == 2);)
OBLIGATION(country_name_VG, "esl/geography/countries.hpp: country_name (VG)", (), require(is(country('V', 'G'), "British Virgin Islands")); require(is(geography::country_name<text>(geography::countries::VG), "British Virgin Islands"));)
OBLIGATION(country_VI, "esl/geography/countries.hpp: countries::VI", (), require(geography::countries::VI.code[0] == 'V' && geography::countries::VI.code[1] == 'I' && sizeof(geography::countries::VI.code) == 2);)
OBLIGATION(country_name_VI, "esl/geography/countries.hpp: country_name (VI)", (), require(is(country('V', 'I'), "U.S. Virgin Islands")); require(is(geography::country_name<text>(geography::countries::VI), "U.S. Virgin Islands"));)
OBLIGATION(country_VN, "esl/geography/countries.hpp: countries::VN", (), require(geography::countries::VN.code[0] == 'V' && geography::countries::VN.code[1] == 'N' && sizeof(geography::countries::VN.code) == 2);)
OBLIGATION(country_name_VN, "esl/geography/countries.hpp: country_name (VN)", (), require(is(country('V', 'N'), "Viet Nam")); require(is(geography::country_name<text>(geography::countries::VN), "Viet Nam"));)
OBLIGATION(country_VU, "esl/geography/countries.hpp: countries::VU", (), require(geography::countries::VU.code[0] == 'V' && geography::countries::VU.code[1] == 'U' && sizeof(geography::countries::VU.code) == 2);)
OBLIGATION(country_name_VU, "esl/geography/countries.hpp: country_name (VU)", (), require(is(country('V', 'U'), "Vanuatu")); require(is(geography::country_name<text>(geography::countries::VU), "Vanuatu"));)
OBLIGATION(country_WF, "esl/geography/countries.hpp: countries::WF", (), require(geography::countries::WF.code[0] == 'W' && geography::countries::WF.code[1] == 'F' && sizeof(geography::countries::WF.code) == 2);)
OBLIGATION(country_name_WF, "esl/geography/countries.hpp: country_name (WF)", (), require(is(country('W', 'F'), "Wallis and Futuna")); require(is(geography::country_name<text>(geography::countries::WF), "Wallis and Futuna"));)
OBLIGATION(country_WS, "esl/geography/countries.hpp: countries::WS", (), require(geography::countries::WS.code[0] == 'W' && geography::countries::WS.code[1] == 'S' && sizeof(geography::countries::WS.code) == 2);)
OBLIGATION(country_name_WS, "esl/geography/countries.hpp: country_name (WS)", (), require(is(country('W', 'S'), "Samoa")); require(is(geography::country_name<text>(geography::countries::WS), "Samoa"));)
OBLIGATION(country_YE, "esl/geography/countries.hpp: countries::YE", (), require(geography::countries::YE.code[0] == 'Y' && geography::countries::YE.code[1] == 'E' && sizeof(geography::countries::YE.code) == 2);)
OBLIGATION(country_name_YE, "esl/geography/countries.hpp: country_name (YE)", (), require(is(country('Y', 'E'), "Yemen")); require(is(geography::country_name<text>(geography::countries::YE), "Yemen"));)
OBLIGATION(country_YT, "esl/geography/countries.hpp: countries::YT", (), require(geography::countries::YT.code[0] == 'Y' && geography::countries::YT.code[1] == 'T' && sizeof(geography::countries::YT.code) == 2);)
OBLIGATION(country_name_YT, "esl/geography/countries.hpp: country_name (YT)", (), require(is(country('Y', 'T'), "Mayotte")); require(is(geography::country_name<text>(geography::countries::YT), "Mayotte"));)
OBLIGATION(country_ZA, "esl/geography/countries.hpp: countries::ZA", (), require(geography::countries::ZA.code[0] == 'Z' && geography::countries::ZA.code[1] == 'A' && sizeof(geography::countries::ZA.code) == 2);)
OBLIGATION(country_name_ZA, "esl/geography/countries.hpp: country_name (ZA)", (), require(is(country('Z', 'A'), "South Africa")); require(is(geography::country_name<text>(geography::countries::ZA), "South Africa"));)
OBLIGATION(country_ZM, "esl/geography/countries.hpp: countries::ZM", (), require(geography::countries::ZM.code[0] == 'Z' && geography::countries::ZM.code[1] == 'M' && sizeof(geography::countries::ZM.code) == 2);)
OBLIGATION(country_name_ZM, "esl/geography/countries.hpp: country_name (ZM)", (), require(is(country('Z', 'M'), "Zambia")); require(is(geography::country_name<text>(geography::countries::ZM), "Zambia"));)
OBLIGATION(country_ZW, "esl/geography/countries.hpp: countries::ZW", (), require(geography::countries::ZW.code[0] == 'Z' && geography::countries::ZW.code[1] == 'W' && sizeof(geography::countries::ZW.code) == 2);)
OBLIGATION(country_name_ZW, "esl/geography/countries.hpp: country_name (ZW)", (), require(is(country('Z', 'W'), "Zimbabwe")); require(is(geography::country_name<text>(geography::countries::ZW), "Zimbabwe"));)
OBLIGATION(no_country_A, "esl/geography/countries.hpp: country_name (codes without a country from A)", (), require(is(country('A', 'A'), "iso_3166_1_alpha_2 ", "AA")); require(is(country('A', 'B'), "iso_3166_1_alpha_2 ", "AB")); require(is(country('A', 'C'), "iso_3166_1_alpha_2 ", "AC")); require(is(country('A', 'H'), "iso_3166_1_alpha_2 ", "AH")); require(is(country('A', 'J'), "iso_3166_1_alpha_2 ", "AJ")); require(is(country('A', 'K'), "iso_3166_1_alpha_2 ", "AK")); require(is(country('A', 'N'), "iso_3166_1_alpha_2 ", "AN")); require(is(country('A', 'P'), "iso_3166_1_alpha_2 ", "AP")); require(is(country('A', 'V'), "iso_3166_1_alpha_2 ", "AV")); require(is(country('A', 'Y'), "iso_3166_1_alpha_2 ", "AY"));)
OBLIGATION(no_country_B, "esl/geography/countries.hpp: country_name (codes without a country from B)", (), require(is(country('B', 'C'), "iso_3166_1_alpha_2 ", "BC")); require(is(country('B', 'K'), "iso_3166_1_alpha_2 ", "BK")); require(is(country('B', 'P'), "iso_3166_1_alpha_2 ", "BP")); require(is(country('B', 'U'), "iso_3166_1_alpha_2 ", "BU")); require(is(country('B', 'X'), "iso_3166_1_alpha_2 ", "BX"));)
OBLIGATION(no_country_C, "esl/geography/countries.hpp: country_name (codes without a country from C)", (), require(is(country('C', 'B'), "iso_3166_1_alpha_2 ", "CB")); require(is(country('C', 'E'), "iso_3166_1_alpha_2 ", "CE")); require(is(country('C', 'J'), "iso_3166_1_alpha_2 ", "CJ")); require(is(country('C', 'P'), "iso_3166_1_alpha_2 ", "CP")); require(is(country('C', 'Q'), "iso_3166_1_alpha_2 ", "CQ")); require(is(country('C', 'S'), "iso_3166_1_alpha_2 ", "CS")); require(is(country('C', 'T'), "iso_3166_1_alpha_2 ", "CT"));)
OBLIGATION(no_country_D, "esl/geography/countries.hpp: country_name (codes without a country from D)", (), require(is(country('D', 'A'), "iso_3166_1_alpha_2 ", "DA")); require(is(country('D', 'B'), "iso_3166_1_alpha_2 ", "DB")); require(is(country('D', 'C'), "iso_3166_1_alpha_2 ", "DC")); require(is(country('D', 'D'), "iso_3166_1_alpha_2 ", "DD")); require(is(country('D', 'F'), "iso_3166_1_alpha_2 ", "DF")); require(is(country('D', 'G'), "iso_3166_1_alpha_2 ", "DG")); require(is(country('D', 'H'), "iso_3166_1_alpha_2 ", "DH")); require(is(country('D', 'I'), "iso_3166_1_alpha_2 ", "DI")); require(is(country('D', 'L'), "iso_3166_1_alpha_2 ", "DL")); require(is(country('D', 'N'), "iso_3166_1_alpha_2 ", "DN")); require(is(country('D', 'P'), "iso_3166_1_alpha_2 ", "DP")); require(is(country('D', 'Q'), "iso_3166_1_alpha_2 ", "DQ")); require(is(country('D', 'R'), "iso_3166_1_alpha_2 ", "DR")); require(is(country('D', 'S'), "iso_3166_1_alpha_2 ", "DS")); require(is(country('D', 'T'), "iso_3166_1_alpha_2 ", "DT")); require(is(country('D', 'U'), "iso_3166_1_alpha_2 ", "DU")); require(is(country('D', 'V'), "iso_3166_1_alpha_2 ", "DV")); require(is(country('D', 'W'), "iso_3166_1_alpha_2 ", "DW")); require(is(country('D', 'X'), "iso_3166_1_alpha_2 ", "DX")); require(is(country('D', 'Y'), "iso_3166_1_alpha_2 ", "DY"));)
OBLIGATION(no_country_E, "esl/geography/countries.hpp: country_name (codes without a country from E)", (), require(is(country('E', 'A'), "iso_3166_1_alpha_2 ", "EA")); require(is(country('E', 'B'), "iso_3166_1_alpha_2 ", "EB")); require(is(country('E', 'D'), "iso_3166_1_alpha_2 ", "ED")); require(is(country('E', 'F'), "iso_3166_1_alpha_2 ", "EF")); require(is(country('E', 'I'), "iso_3166_1_alpha_2 ", "EI")); require(is(country('E', 'J'), "iso_3166_1_alpha_2 ", "EJ")); require(is(country('E', 'K'), "iso_3166_1_alpha_2 ", "EK")); require(is(country('E', 'L'), "iso_3166_1_alpha_2 ", "EL")); require(is(country('E', 'M'), "iso_3166_1_alpha_2 ", "EM")); require(is(country('E', 'N'), "iso_3166_1_alpha_2 ", "EN")); require(is(country('E', 'O'), "iso_3166_1_alpha_2 ", "EO")); require(is(country('E', 'P'), "iso_3166_1_alpha_2 ", "EP")); require(is(country('E', 'Q'), "iso_3166_1_alpha_2 ", "EQ")); require(is(country('E', 'U'), "iso_3166_1_alpha_2 ", "EU")); require(is(country('E', 'V'), "iso_3166_1_alpha_2 ", "EV")); require(is(country('E', 'W'), "iso_3166_1_alpha_2 ", "EW")); require(is(country('E', 'X'), "iso_3166_1_alpha_2 ", "EX")); require(is(country('E', 'Y'), "iso_3166_1_alpha_2 ", "EY")); require(is(country('E', 'Z'), "iso_3166_1_alpha_2 ", "EZ"));)
OBLIGATION(no_country_F, "esl/geography/countries.hpp: country_name (codes without a country from F)", (), require(is(country('F', 'A'), "iso_3166_1_alpha_2 ", "FA")); require(is(country('F', 'B'), "iso_3166_1_alpha_2 ", "FB")); require(is(country('F', 'C'), "iso_3166_1_alpha_2 ", "FC")); require(is(country('F', 'D'), "iso_3166_1_alpha_2 ", "FD")); require(is(country('F', 'E'), "iso_3166_1_alpha_2 ", "FE")); require(is(country('F', 'F'), "iso_3166_1_alpha_2 ", "FF")); require(is(country('F', 'G'), "iso_3166_1_alpha_2 ", "FG")); require(is(country('F', 'H'), "iso_3166_1_alpha_2 ", "FH")); require(is(country('F', 'L'), "iso_3166_1_alpha_2 ", "FL")); require(is(country('F', 'N'), "iso_3166_1_alpha_2 ", "FN")); require(is(country('F', 'P'), "iso_3166_1_alpha_2 ", "FP")); require(is(country('F', 'Q'), "iso_3166_1_alpha_2 ", "FQ")); require(is(country('F', 'S'), "iso_3166_1_alpha_2 ", "FS")); require(is(country('F', 'T'), "iso_3166_1_alpha_2 ", "FT")); require(is(country('F', 'U'), "iso_3166_1_alpha_2 ", "FU")); require(is(country('F', 'V'), "iso_3166_1_alpha_2 ", "FV")); require(is(country('F', 'W'), "iso_3166_1_alpha_2 ", "FW")); require(is(country('F', 'X'), "iso_3166_1_alpha_2 ", "FX")); require(is(country('F', 'Y'), "iso_3166_1_alpha_2 ", "FY")); require(is(country('F', 'Z'), "iso_3166_1_alpha_2 ", "FZ"));)
OBLIGATION(no_country_G, "esl/geography/countries.hpp: country_name (codes without a country from G)", (), require(is(country('G', 'C'), "iso_3166_1_alpha_2 ", "GC")); require(is(country('G', 'J'), "iso_3166_1_alpha_2 ", "GJ")); require(is(country('G', 'K'), "iso_3166_1_alpha_2 ", "GK")); require(is(country('G', 'O'), "iso_3166_1_alpha_2 ", "GO")); require(is(country('G', 'V'), "iso_3166_1_alpha_2 ", "GV")); require(is(country('G', 'X'), "iso_3166_1_alpha_2 ", "GX")); require(is(country('G', 'Z'), "iso_3166_1_alpha_2 ", "GZ"));)
OBLIGATION(no_country_H, "esl/geography/countries.hpp: country_name (codes without a country from H)", (), require(is(country('H', 'A'), "iso_3166_1_alpha_2 ", "HA")); require(is(country('H', 'B'), "iso_3166_1_alpha_2 ", "HB")); require(is(country('H', 'C'), "iso_3166_1_alpha_2 ", "HC")); require(is(country('H', 'D'), "iso_3166_1_alpha_2 ", "HD")); require(is(country('H', 'E'), "iso_3166_1_alpha_2 ", "HE")); require(is(country('H', 'F'), "iso_3166_1_alpha_2 ", "HF")); require(is(country('H', 'G'), "iso_3166_1_alpha_2 ", "HG")); require(is(country('H', 'H'), "iso_3166_1_alpha_2 ", "HH")); require(is(country('H', 'I'), "iso_3166_1_alpha_2 ", "HI")); require(is(country('H', 'J'), "iso_3166_1_alpha_2 ", "HJ")); require(is(country('H', 'L'), "iso_3166_1_alpha_2 ", "HL")); require(is(country('H', 'O'), "iso_3166_1_alpha_2 ", "HO")); require(is(country('H', 'P'), "iso_3166_1_alpha_2 ", "HP")); require(is(country('H', 'Q'), "iso_3166_1_alpha_2 ", "HQ")); require(is(country('H', 'S'), "iso_3166_1_alpha_2 ", "HS")); require(is(country('H', 'V'), "iso_3166_1_alpha_2 ", "HV")); require(is(country('H', 'W'), "iso_3166_1_alpha_2 ", "HW")); require(is(country('H', 'X'), "iso_3166_1_alpha_2 ", "HX")); require(is(country('H', 'Y'), "iso_3166_1_alpha_2 ", "HY")); require(is(country('H', 'Z'), "iso_3166_1_alpha_2 ", "HZ"));)
OBLIGATION(no_country_I, "esl/geography/countries.hpp: country_name (codes without a country from I)", (), require(is(country('I', 'A'), "iso_3166_1_alpha_2 ", "IA")); require(is(country('I', 'B'), "iso_3166_1_alpha_2 ", "IB")); require(is(country('I', 'C'), "iso_3166_1_alpha_2 ", "IC")); require(is(country('I', 'F'), "iso_3166_1_alpha_2 ", "IF")); require(is(country('I', 'G'), "iso_3166_1_alpha_2 ", "IG")); require(is(country('I', 'H'), "iso_3166_1_alpha_2 ", "IH")); require(is(country('I', 'I'), "iso_3166_1_alpha_2 ", "II")); require(is(country('I', 'J'), "iso_3166_1_alpha_2 ", "IJ")); require(is(country('I', 'K'), "iso_3166_1_alpha_2 ", "IK")); require(is(country('I', 'P'), "iso_3166_1_alpha_2 ", "IP")); require(is(country('I', 'U'), "iso_3166_1_alpha_2 ", "IU")); require(is(country('I', 'V'), "iso_3166_1_alpha_2 ", "IV")); require(is(country('I', 'W'), "iso_3166_1_alpha_2 ", "IW")); require(is(country('I', 'X'), "iso_3166_1_alpha_2 ", "IX")); require(is(country('I', 'Y'), "iso_3166_1_alpha_2 ", "IY")); require(is(country('I', 'Z'), "iso_3166_1_alpha_2 ", "IZ"));)
OBLIGATION(no_country_J, "esl/geography/countries.hpp: country_name (codes without a country from J)", (), require(is(country('J', 'A'), "iso_3166_1_alpha_2 ", "JA")); require(is(country('J', 'B'), "iso_3166_1_alpha_2 ", "JB")); require(is(country('J', 'C'), "iso_3166_1_alpha_2 ", "JC")); require(is(country('J', 'D'), "iso_3166_1_alpha_2 ", "JD")); require(is(country('J', 'F'), "iso_3166_1_alpha_2 ", "JF")); require(is(country('J', 'G'), "iso_3166_1_alpha_2 ", "JG")); require(is(country('J', 'H'), "iso_3166_1_alpha_2 ", "JH")); require(is(country('J', 'I'), "iso_3166_1_alpha_2 ", "JI")); require(is(country('J', 'J'), "iso_3166_1_alpha_2 ", "JJ")); require(is(country('J', 'K'), "iso_3166_1_alpha_2 ", "JK")); require(is(country('J', 'L'), "iso_3166_1_alpha_2 ", "JL")); require(is(country('J', 'N'), "iso_3166_1_alpha_2 ", "JN")); require(is(country('J', 'Q'), "iso_3166_1_alpha_2 ", "JQ")); require(is(country('J', 'R'), "iso_3166_1_alpha_2 ", "JR")); require(is(country('J', 'S'), "iso_3166_1_alpha_2 ", "JS")); require(is(country('J', 'T'), "iso_3166_1_alpha_2 ", "JT")); require(is(country('J', 'U'), "iso_3166_1_alpha_2 ", "JU")); require(is(country('J', 'V'), "iso_3166_1_alpha_2 ", "JV")); require(is(country('J', 'W'), "iso_3166_1_alpha_2 ", "JW")); require(is(country('J', 'X'), "iso_3166_1_alpha_2 ", "JX")); require(is(country('J', 'Y'), "iso_3166_1_alpha_2 ", "JY")); require(is(country('J', 'Z'), "iso_3166_1_alpha_2 ", "JZ"));)
OBLIGATION(no_country_K, "esl/geography/countries.hpp: country_name (codes without a country from K)", (), require(is(country('K', 'A'), "iso_3166_1_alpha_2 ", "KA")); require(is(country('K', 'B'), "iso_3166_1_alpha_2 ", "KB")); require(is(country('K', 'C'), "iso_3166_1_alpha_2 ", "KC")); require(is(country('K', 'D'), "iso_3166_1_alpha_2 ", "KD")); require(is(country('K', 'F'), "iso_3166_1_alpha_2 ", "KF")); require(is(country('K', 'J'), "iso_3166_1_alpha_2 ", "KJ")); require(is(country('K', 'K'), "iso_3166_1_alpha_2 ", "KK")); require(is(country('K', 'L'), "iso_3166_1_alpha_2 ", "KL")); require(is(country('K', 'O'), "iso_3166_1_alpha_2 ", "KO")); require(is(country('K', 'Q'), "iso_3166_1_alpha_2 ", "KQ")); require(is(country('K', 'S'), "iso_3166_1_alpha_2 ", "KS")); require(is(country('K', 'T'), "iso_3166_1_alpha_2 ", "KT")); require(is(country('K', 'U'), "iso_3166_1_alpha_2 ", "KU")); require(is(country('K', 'V'), "iso_3166_1_alpha_2 ", "KV")); require(is(country('K', 'X'), "iso_3166_1_alpha_2 ", "KX"));)
OBLIGATION(no_country_L, "esl/geography/countries.hpp: country_name (codes without a country from L)", (), require(is(country('L', 'D'), "iso_3166_1_alpha_2 ", "LD")); require(is(country('L', 'E'), "iso_3166_1_alpha_2 ", "LE")); require(is(country('L', 'F'), "iso_3166_1_alpha_2 ", "LF")); require(is(country('L', 'G'), "iso_3166_1_alpha_2 ", "LG")); require(is(country('L', 'H'), "iso_3166_1_alpha_2 ", "LH")); require(is(country('L', 'J'), "iso_3166_1_alpha_2 ", "LJ")); require(is(country('L', 'L'), "iso_3166_1_alpha_2 ", "LL")); require(is(country('L', 'M'), "iso_3166_1_alpha_2 ", "LM")); require(is(country('L', 'N'), "iso_3166_1_alpha_2 ", "LN")); require(is(country('L', 'O'), "iso_3166_1_alpha_2 ", "LO")); require(is(country('L', 'P'), "iso_3166_1_alpha_2 ", "LP")); require(is(country('L', 'Q'), "iso_3166_1_alpha_2 ", "LQ")); require(is(country('L', 'W'), "iso_3166_1_alpha_2 ", "LW")); require(is(country('L', 'X'), "iso_3166_1_alpha_2 ", "LX")); require(is(country('L', 'Z'), "iso_3166_1_alpha_2 ", "LZ"));)
OBLIGATION(no_country_M, "esl/geography/countries.hpp: country_name (codes without a country from M)", (), require(is(country('M', 'B'), "iso_3166_1_alpha_2 ", "MB")); require(is(country('M', 'I'), "iso_3166_1_alpha_2 ", "MI")); require(is(country('M', 'J'), "iso_3166_1_alpha_2 ", "MJ"));)
OBLIGATION(no_country_N, "esl/geography/countries.hpp: country_name (codes without a country from N)", (), require(is(country('N', 'B'), "iso_3166_1_alpha_2 ", "NB")); require(is(country('N', 'D'), "iso_3166_1_alpha_2 ", "ND")); require(is(country('N', 'H'), "iso_3166_1_alpha_2 ", "NH")); require(is(country('N', 'J'), "iso_3166_1_alpha_2 ", "NJ")); require(is(country('N', 'K'), "iso_3166_1_alpha_2 ", "NK")); require(is(country('N', 'M'), "iso_3166_1_alpha_2 ", "NM")); require(is(country('N', 'N'), "iso_3166_1_alpha_2 ", "NN")); require(is(country('N', 'Q'), "iso_3166_1_alpha_2 ", "NQ")); require(is(country('N', 'S'), "iso_3166_1_alpha_2 ", "NS")); require(is(country('N', 'T'), "iso_3166_1_alpha_2 ", "NT")); require(is(country('N', 'V'), "iso_3166_1_alpha_2 ", "NV")); require(is(country('N', 'W'), "iso_3166_1_alpha_2 ", "NW")); require(is(country('N', 'X'), "iso_3166_1_alpha_2 ", "NX")); require(is(country('N', 'Y'), "iso_3166_1_alpha_2 ", "NY"));)
OBLIGATION(no_country_O, "esl/geography/countries.hpp: country_name (codes without a country from O)", (), require(is(country('O', 'A'), "iso_3166_1_alpha_2 ", "OA")); require(is(country('O', 'B'), "iso_3166_1_alpha_2 ", "OB")); require(is(country('O', 'C'), "iso_3166_1_alpha_2 ", "OC")); require(is(country('O', 'D'), "iso_3166_1_alpha_2 ", "OD")); require(is(country('O', 'E'), "iso_3166_1_alpha_2 ", "OE")); require(is(country('O', 'F'), "iso_3166_1_alpha_2 ", "OF")); require(is(country('O', 'G'), "iso_3166_1_alpha_2 ", "OG")); require(is(country('O', 'H'), "iso_3166_1_alpha_2 ", "OH")); require(is(country('O', 'I'), "iso_3166_1_alpha_2 ", "OI")); require(is(country('O', 'J'), "iso_3166_1_alpha_2 ", "OJ")); require(is(country('O', 'K'), "iso_3166_1_alpha_2 ", "OK")); require(is(country('O', 'L'), "iso_3166_1_alpha_2 ", "OL")); require(is(country('O', 'N'), "iso_3166_1_alpha_2 ", "ON")); require(is(country('O', 'O'), "iso_3166_1_alpha_2 ", "OO")); require(is(country('O', 'P'), "iso_3166_1_alpha_2 ", "OP")); require(is(country('O', 'Q'), "iso_3166_1_alpha_2 ", "OQ")); require(is(country('O', 'R'), "iso_3166_1_alpha_2 ", "OR")); require(is(country('O', 'S'), "iso_3166_1_alpha_2 ", "OS")); require(is(country('O', 'T'), "iso_3166_1_alpha_2 ", "OT")); require(is(country('O', 'U'), "iso_3166_1_alpha_2 ", "OU")); require(is(country('O', 'V'), "iso_3166_1_alpha_2 ", "OV")); require(is(country('O', 'W'), "iso_3166_1_alpha_2 ", "OW")); require(is(country('O', 'X'), "iso_3166_1_alpha_2 ", "OX")); require(is(country('O', 'Y'), "iso_3166_1_alpha_2 ", "OY")); require(is(country('O', 'Z'), "iso_3166_1_alpha_2 ", "OZ"));)
OBLIGATION(no_country_P, "esl/geography/countries.hpp: country_name (codes without a country from P)", (), require(is(country('P', 'B'), "iso_3166_1_alpha_2 ", "PB")); require(is(country('P', 'C'), "iso_3166_1_alpha_2 ", "PC")); require(is(country('P', 'D'), "iso_3166_1_alpha_2 ", "PD")); require(is(country('P', 'I'), "iso_3166_1_alpha_2 ", "PI")); require(is(country('P', 'J'), "iso_3166_1_alpha_2 ", "PJ")); require(is(country('P', 'O'), "iso_3166_1_alpha_2 ", "PO")); require(is(country('P', 'P'), "iso_3166_1_alpha_2 ", "PP")); require(is(country('P', 'Q'), "iso_3166_1_alpha_2 ", "PQ")); require(is(country('P', 'U'), "iso_3166_1_alpha_2 ", "PU")); require(is(country('P', 'V'), "iso_3166_1_alpha_2 ", "PV")); require(is(country('P', 'X'), "iso_3166_1_alpha_2 ", "PX")); require(is(country('P', 'Z'), "iso_3166_1_alpha_2 ", "PZ"));)
OBLIGATION(no_country_Q, "esl/geography/countries.hpp: country_name (codes without a country from Q)", (), require(is(country('Q', 'B'), "iso_3166_1_alpha_2 ", "QB")); require(is(country('Q', 'C'), "iso_3166_1_alpha_2 ", "QC")); require(is(country('Q', 'D'), "iso_3166_1_alpha_2 ", "QD")); require(is(country('Q', 'E'), "iso_3166_1_alpha_2 ", "QE")); require(is(country('Q', 'F'), "iso_3166_1_alpha_2 ", "QF")); require(is(country('Q', 'G'), "iso_3166_1_alpha_2 ", "QG")); require(is(country('Q', 'H'), "iso_3166_1_alpha_2 ", "QH")); require(is(country('Q', 'I'), "iso_3166_1_alpha_2 ", "QI")); require(is(country('Q', 'J'), "iso_3166_1_alpha_2 ", "QJ")); require(is(country('Q', 'K'), "iso_3166_1_alpha_2 ", "QK")); require(is(country('Q', 'L'), "iso_3166_1_alpha_2 ", "QL")); require(is(country('Q', 'M'), "iso_3166_1_alpha_2 ", "QM")); require(is(country('Q', 'N'), "iso_3166_1_alpha_2 ", "QN")); require(is(country('Q', 'O'), "iso_3166_1_alpha_2 ", "QO")); require(is(country('Q', 'P'), "iso_3166_1_alpha_2 ", "QP")); require(is(country('Q', 'Q'), "iso_3166_1_alpha_2 ", "QQ")); require(is(country('Q', 'R'), "iso_3166_1_alpha_2 ", "QR")); require(is(country('Q', 'S'), "iso_3166_1_alpha_2 ", "QS")); require(is(country('Q', 'T'), "iso_3166_1_alpha_2 ", "QT")); require(is(country('Q', 'U'), "iso_3166_1_alpha_2 ", "QU")); require(is(country('Q', 'V'), "iso_3166_1_alpha_2 ", "QV")); require(is(country('Q', 'W'), "iso_3166_1_alpha_2 ", "QW")); require(is(country('Q', 'X'), "iso_3166_1_alpha_2 ", "QX")); require(is(country('Q', 'Y'), "iso_3166_1_alpha_2 ", "QY")); require(is(country('Q', 'Z'), "iso_3166_1_alpha_2 ", "QZ"));)
OBLIGATION(no_country_R, "esl/geography/countries.hpp: country_name (codes without a country from R)", (), require(is(country('R', 'A'), "iso_3166_1_alpha_2 ", "RA")); require(is(country('R', 'B'), "iso_3166_1_alpha_2 ", "RB")); require(is(country('R', 'C'), "iso_3166_1_alpha_2 ", "RC")); require(is(country('R', 'D'), "iso_3166_1_alpha_2 ", "RD")); require(is(country('R', 'F'), "iso_3166_1_alpha_2 ", "RF")); require(is(country('R', 'G'), "iso_3166_1_alpha_2 ", "RG")); require(is(country('R', 'H'), "iso_3166_1_alpha_2 ", "RH")); require(is(country('R', 'I'), "iso_3166_1_alpha_2 ", "RI")); require(is(country('R', 'J'), "iso_3166_1_alpha_2 ", "RJ")); require(is(country('R', 'K'), "iso_3166_1_alpha_2 ", "RK")); require(is(country('R', 'L'), "iso_3166_1_alpha_2 ", "RL")); require(is(country('R', 'M'), "iso_3166_1_alpha_2 ", "RM")); require(is(country('R', 'N'), "iso_3166_1_alpha_2 ", "RN")); require(is(country('R', 'P'), "iso_3166_1_alpha_2 ", "RP")); require(is(country('R', 'Q'), "iso_3166_1_alpha_2 ", "RQ")); require(is(country('R', 'R'), "iso_3166_1_alpha_2 ", "RR")); require(is(country('R', 'T'), "iso_3166_1_alpha_2 ", "RT")); require(is(country('R', 'V'), "iso_3166_1_alpha_2 ", "RV")); require(is(country('R', 'X'), "iso_3166_1_alpha_2 ", "RX")); require(is(country('R', 'Y'), "iso_3166_1_alpha_2 ", "RY")); require(is(country('R', 'Z'), "iso_3166_1_alpha_2 ", "RZ"));)
OBLIGATION(no_country_S, "esl/geography/countries.hpp: country_name (codes without a country from S)", (), require(is(country('S', 'F'), "iso_3166_1_alpha_2 ", "SF")); require(is(country('S', 'P'), "iso_3166_1_alpha_2 ", "SP")); require(is(country('S', 'Q'), "iso_3166_1_alpha_2 ", "SQ")); require(is(country('S', 'U'), "iso_3166_1_alpha_2 ", "SU")); require(is(country('S', 'W'), "iso_3166_1_alpha_2 ", "SW"));)
OBLIGATION(no_country_T, "esl/geography/countries.hpp: country_name (codes without a country from T)", (), require(is(country('T', 'A'), "iso_3166_1_alpha_2 ", "TA")); require(is(country('T', 'B'), "iso_3166_1_alpha_2 ", "TB")); require(is(country('T', 'E'), "iso_3166_1_alpha_2 ", "TE")); require(is(country('T', 'I'), "iso_3166_1_alpha_2 ", "TI")); require(is(country('T', 'P'), "iso_3166_1_alpha_2 ", "TP")); require(is(country('T', 'Q'), "iso_3166_1_alpha_2 ", "TQ")); require(is(country('T', 'S'), "iso_3166_1_alpha_2 ", "TS")); require(is(country('T', 'U'), "iso_3166_1_alpha_2 ", "TU")); require(is(country('T', 'X'), "iso_3166_1_alpha_2 ", "TX")); require(is(country('T', 'Y'), "iso_3166_1_alpha_2 ", "TY"));)
OBLIGATION(no_country_U, "esl/geography/countries.hpp: country_name (codes without a country from U)", (), require(is(country('U', 'B'), "iso_3166_1_alpha_2 ", "UB")); require(is(country('U', 'C'), "iso_3166_1_alpha_2 ", "UC")); require(is(country('U', 'D'), "iso_3166_1_alpha_2 ", "UD")); require(is(country('U', 'E'), "iso_3166_1_alpha_2 ", "UE")); require(is(country('U', 'F'), "iso_3166_1_alpha_2 ", "UF")); require(is(country('U', 'H'), "iso_3166_1_alpha_2 ", "UH")); require(is(country('U', 'I'), "iso_3166_1_alpha_2 ", "UI")); require(is(country('U', 'J'), "iso_3166_1_alpha_2 ", "UJ")); require(is(country('U', 'K'), "iso_3166_1_alpha_2 ", "UK")); require(is(country('U', 'L'), "iso_3166_1_alpha_2 ", "UL")); require(is(country('U', 'N'), "iso_3166_1_alpha_2 ", "UN")); require(is(country('U', 'O'), "iso_3166_1_alpha_2 ", "UO")); require(is(country('U', 'P'), "iso_3166_1_alpha_2 ", "UP")); require(is(country('U', 'Q'), "iso_3166_1_alpha_2 ", "UQ")); require(is(country('U', 'R'), "iso_3166_1_alpha_2 ", "UR")); require(is(country('U', 'T'), "iso_3166_1_alpha_2 ", "UT")); require(is(country('U', 'U'), "iso_3166_1_alpha_2 ", "UU")); require(is(country('U', 'V'), "iso_3166_1_alpha_2 ", "UV")); require(is(country('U', 'W'), "iso_3166_1_alpha_2 ", "UW")); require(is(country('U', 'X'), "iso_3166_1_alpha_2 ", "UX"));)
OBLIGATION(no_country_V, "esl/geography/countries.hpp: country_name (codes without a country from V)", (), require(is(country('V', 'B'), "iso_3166_1_alpha_2 ", "VB")); require(is(country('V', 'D'), "iso_3166_1_alpha_2 ", "VD")); require(is(country('V', 'F'), "iso_3166_1_alpha_2 ", "VF")); require(is(country('V', 'H'), "iso_3166_1_alpha_2 ", "VH")); require(is(country('V', 'J'), "iso_3166_1_alpha_2 ", "VJ")); require(is(country('V', 'K'), "iso_3166_1_alpha_2 ", "VK")); require(is(country('V', 'L'), "iso_3166_1_alpha_2 ", "VL")); require(is(country('V', 'M'), "iso_3166_1_alpha_2 ", "VM")); require(is(country('V', 'O'), "iso_3166_1_alpha_2 ", "VO")); require(is(country('V', 'P'), "iso_3166_1_alpha_2 ", "VP")); require(is(country('V', 'Q'), "iso_3166_1_alpha_2 ", "VQ")); require(is(country('V', 'R'), "iso_3166_1_alpha_2 ", "VR")); require(is(country('V', 'S'), "iso_3166_1_alpha_2 ", "VS")); require(is(country('V', 'T'), "iso_3166_1_alpha_2 ", "VT")); require(is(country('V', 'V'), "iso_3166_1_alpha_2 ", "VV")); require(is(country('V', 'W'), "iso_3166_1_alpha_2 ", "VW")); require(is(country('V', 'X'), "iso_3166_1_alpha_2 ", "VX")); require(is(country('V', 'Y'), "iso_3166_1_alpha_2 ", "VY")); require(is(country('V', 'Z'), "iso_3166_1_alpha_2 ", "VZ"));)
OBLIGATION(no_country_W, "esl/geography/countries.hpp: country_name (codes without a country from W)", (), require(is(country('W', 'A'), "iso_3166_1_alpha_2 ", "WA")); require(is(country('W', 'B'), "iso_3166_1_alpha_2 ", "WB")); require(is(country('W', 'C'), "iso_3166_1_alpha_2 ", "WC")); require(is(country('W', 'D'), "iso_3166_1_alpha_2 ", "WD")); require(is(country('W', 'E'), "iso_3166_1_alpha_2 ", "WE")); require(is(country('W', 'G'), "iso_3166_1_alpha_2 ", "WG")); require(is(country('W', 'H'), "iso_3166_1_alpha_2 ", "WH")); require(is(country('W', 'I'), "iso_3166_1_alpha_2 ", "WI")); require(is(country('W', 'J'), "iso_3166_1_alpha_2 ", "WJ")); require(is(country('W', 'K'), "iso_3166_1_alpha_2 ", "WK")); require(is(country('W', 'L'), "iso_3166_1_alpha_2 ", "WL")); require(is(country('W', 'M'), "iso_3166_1_alpha_2 ", "WM")); require(is(country('W', 'N'), "iso_3166_1_alpha_2 ", "WN")); require(is(country('W', 'O'), "iso_3166_1_alpha_2 ", "WO")); require(is(country('W', 'P'), "iso_3166_1_alpha_2 ", "WP")); require(is(country('W', 'Q'), "iso_3166_1_alpha_2 ", "WQ")); require(is(country('W', 'R'), "iso_3166_1_alpha_2 ", "WR")); require(is(country('W', 'T'), "iso_3166_1_alpha_2 ", "WT")); require(is(country('W', 'U'), "iso_3166_1_alpha_2 ", "WU")); require(is(country('W', 'V'), "iso_3166_1_alpha_2 ", "WV")); require(is(country('W', 'W'), "iso_3166_1_alpha_2 ", "WW")); require(is(country('W', 'X'), "iso_3166_1_alpha_2 ", "WX")); require(is(country('W', 'Y'), "iso_3166_1_alpha_2 ", "WY")); require(is(country('W', 'Z'), "iso_3166_1_alpha_2 ", "WZ"));)
OBLIGATION(no_country_X, "esl/geography/countries.hpp: country_name (codes without a country from X)", (), require(is(country('X', 'A'), "iso_3166_1_alpha_2 ", "XA")); require(is(country('X', 'B'), "iso_3166_1_alpha_2 ", "XB")); require(is(country('X', 'C'), "iso_3166_1_alpha_2 ", "XC")); require(is(country('X', 'D'), "iso_3166_1_alpha_2 ", "XD")); require(is(country('X', 'E'), "iso_3166_1_alpha_2 ", "XE")); require(is(country('X', 'F'), "iso_3166_1_alpha_2 ", "XF")); require(is(country('X', 'G'), "iso_3166_1_alpha_2 ", "XG")); require(is(country('X', 'H'), "iso_3166_1_alpha_2 ", "XH")); require(is(country('X', 'I'), "iso_3166_1_alpha_2 ", "XI")); require(is(country('X', 'J'), "iso_3166_1_alpha_2 ", "XJ")); require(is(country('X', 'K'), "iso_3166_1_alpha_2 ", "XK")); require(is(country('X', 'L'), "iso_3166_1_alpha_2 ", "XL")); require(is(country('X', 'M'), "iso_3166_1_alpha_2 ", "XM")); require(is(country('X', 'N'), "iso_3166_1_alpha_2 ", "XN")); require(is(country('X', 'O'), "iso_3166_1_alpha_2 ", "XO")); require(is(country('X', 'P'), "iso_3166_1_alpha_2 ", "XP")); require(is(country('X', 'Q'), "iso_3166_1_alpha_2 ", "XQ")); require(is(country('X', 'R'), "iso_3166_1_alpha_2 ", "XR")); require(is(country('X', 'S'), "iso_3166_1_alpha_2 ", "XS")); require(is(country('X', 'T'), "iso_3166_1_alpha_2 ", "XT")); require(is(country('X', 'U'), "iso_3166_1_alpha_2 ", "XU")); require(is(country('X', 'V'), "iso_3166_1_alpha_2 ", "XV")); require(is(country('X', 'W'), "iso_3166_1_alpha_2 ", "XW")); require(is(country('X', 'X'), "iso_3166_1_alpha_2 ", "XX")); require(is(country('X', 'Y'), "iso_3166_1_alpha_2 ", "XY")); require(is(country('X', 'Z'), "iso_3166_1_alpha_2 ", "XZ"));)
OBLIGATION(no_country_Y, "esl/geography/countries.hpp: country_name (codes without a country from Y)", (), require(is(country('Y', 'A'), "iso_3166_1_alpha_2 ", "YA")); require(is(country('Y', 'B'), "iso_3166_1_alpha_2 ", "YB")); require(is(country('Y', 'C'), "iso_3166_1_alpha_2 ", "YC")); require(is(country('Y', 'D'), "iso_3166_1_alpha_2 ", "YD")); require(is(country('Y', 'F'), "iso_3166_1_alpha_2 ", "YF")); require(is(country('Y', 'G'), "iso_3166_1_alpha_2 ", "YG")); require(is(country('Y', 'H'), "iso_3166_1_alpha_2 ", "YH")); require(is(country('Y', 'I'), "iso_3166_1_alpha_2 ", "YI")); require(is(country('Y', 'J'), "iso_3166_1_alpha_2 ", "YJ")); require(is(country('Y', 'K'), "iso_3166_1_alpha_2 ", "YK")); require(is(country('Y', 'L'), "iso_3166_1_alpha_2 ", "YL")); require(is(country('Y', 'M'), "iso_3166_1_alpha_2 ", "YM")); require(is(country('Y', 'N'), "iso_3166_1_alpha_2 ", "YN")); require(is(country('Y', 'O'), "iso_3166_1_alpha_2 ", "YO")); require(is(country('Y', 'P'), "iso_3166_1_alpha_2 ", "YP")); require(is(country('Y', 'Q'), "iso_3166_1_alpha_2 ", "YQ")); require(is(country('Y', 'R'), "iso_3166_1_alpha_2 ", "YR")); require(is(country('Y', 'S'), "iso_3166_1_alpha_2 ", "YS")); require(is(country('Y', 'U'), "iso_3166_1_alpha_2 ", "YU")); require(is(country('Y', 'V'), "iso_3166_1_alpha_2 ", "YV")); require(is(country('Y', 'W'), "iso_3166_1_alpha_2 ", "YW")); require(is(country('Y', 'X'), "iso_3166_1_alpha_2 ", "YX")); require(is(country('Y', 'Y'), "iso_3166_1_alpha_2 ", "YY")); require(is(country('Y', 'Z'), "iso_3166_1_alpha_2 ", "YZ"));)
OBLIGATION(no_country_Z, "esl/geography/countries.hpp: country_name (codes without a country from Z)", (), require(is(country('Z', 'B'), "iso_3166_1_alpha_2 ", "ZB")); require(is(country('Z', 'C'), "iso_3166_1_alpha_2 ", "ZC")); require(is(country('Z', 'D'), "iso_3166_1_alpha_2 ", "ZD")); require(is(country('Z', 'E'), "iso_3166_1_alpha_2 ", "ZE")); require(is(country('Z', 'F'), "iso_3166_1_alpha_2 ", "ZF")); require(is(country('Z', 'G'), "iso_3166_1_alpha_2 ", "ZG")); require(is(country('Z', 'H'), "iso_3166_1_alpha_2 ", "ZH")); require(is(country('Z', 'I'), "iso_3166_1_alpha_2 ", "ZI")); require(is(country('Z', 'J'), "iso_3166_1_alpha_2 ", "ZJ")); require(is(country('Z', 'K'), "iso_3166_1_alpha_2 ", "ZK")); require(is(country('Z', 'L'), "iso_3166_1_alpha_2 ", "ZL")); require(is(country('Z', 'N'), "iso_3166_1_alpha_2 ", "ZN")); require(is(country('Z', 'O'), "iso_3166_1_alpha_2 ", "ZO")); require(is(country('Z', 'P'), "iso_3166_1_alpha_2 ", "ZP")); require(is(country('Z', 'Q'), "iso_3166_1_alpha_2 ", "ZQ")); require(is(country('Z', 'R'), "iso_3166_1_alpha_2 ", "ZR")); require(is(country('Z', 'S'), "iso_3166_1_alpha_2 ", "ZS")); require(is(country('Z', 'T'), "iso_3166_1_alpha_2 ", "ZT")); require(is(country('Z', 'U'), "iso_3166_1_alpha_2 ", "ZU")); require(is(country('Z', 'V'), "iso_3166_1_alpha_2 ", "ZV")); require(is(country('Z', 'X'), "iso_3166_1_alpha_2 ", "ZX")); require(is(country('Z', 'Y'), "iso_3166_1_alpha_2 ", "ZY")); require(is(country('Z', 'Z'), "iso_3166_1_alpha_2 ", "ZZ"));)
OBLIGATION(currency_AED, "esl/economics/currencies.hpp: currencies::AED", (), require(economics::currencies::AED.code[0] == 'A' && economics::currencies::AED.code[1] == 'E' && economics::currencies::AED.code[2] == 'D' && sizeof(economics::currencies::AED.code) == 3);)
OBLIGATION(minor_units_AED, "esl/economics/currencies.hpp: currencies::AED (minor units)", (), require(economics::currencies::AED.denominator == 100);)
OBLIGATION(currency_name_AED, "esl/economics/currencies.hpp: currency_name (AED)", (), require(is(currency('A', 'E', 'D'), "UAE Dirham")); require(is(economics::currency_name<text>(economics::currencies::AED), "UAE Dirham"));)
OBLIGATION(currency_AFN, "esl/economics/currencies.hpp: currencies::AFN", (), require(economics::currencies::AFN.code[0] == 'A' && economics::currencies::AFN.code[1] == 'F' && economics::currencies::AFN.code[2] == 'N' && sizeof(economics::currencies::AFN.code) == 3);)
OBLIGATION(minor_units_AFN, "esl/economics/currencies.hpp: currencies::AFN (minor units)", (), require(economics::currencies::AFN.denominator == 100);)
OBLIGATION(currency_name_AFN, "esl/economics/currencies.hpp: currency_name (AFN)", (), require(is(currency('A', 'F', 'N'), "Afghani")); require(is(economics::currency_name<text>(economics::currencies::AFN), "Afghani"));)
OBLIGATION(currency_ALL, "esl/economics/currencies.hpp: currencies::ALL", (), require(economics::currencies::ALL.code[0] == 'A' && economics::currencies::ALL.code[1] == 'L' && economics::currencies::ALL.code[2] == 'L' && sizeof(economics::currencies::ALL.code) == 3);)
OBLIGATION(minor_units_ALL, "esl/economics/currencies.hpp: currencies::ALL (minor units)", (), require(economics::currencies::ALL.denominator == 100);)
OBLIGATION(currency_name_ALL, "esl/economics/currencies.hpp: currency_name (ALL)", (), require(is(currency('A', 'L', 'L'), "Lek")); require(is(economics::currency_name<text>(economics::currencies::ALL), "Lek"));)
OBLIGATION(currency_AMD, "esl/economics/currencies.hpp: currencies::AMD", (), require(economics::currencies::AMD.code[0] == 'A' && economics::currencies::AMD.code[1] == 'M' && economics::currencies::AMD.code[2] == 'D' && sizeof(economics::currencies::AMD.code) == 3);)
OBLIGATION(minor_units_AMD, "esl/economics/currencies.hpp: currencies::AMD (minor units)", (), require(economics::currencies::AMD.denominator == 100);)
OBLIGATION(currency_name_AMD, "esl/economics/currencies.hpp: currency_name (AMD)", (), require(is(currency('A', 'M', 'D'), "Armenian Dram")); require(is(economics::currency_name<text>(economics::currencies::AMD), "Armenian Dram"));)
OBLIGATION(currency_ANG, "esl/economics/currencies.hpp: currencies::ANG", (), require(economics::currencies::ANG.code[0] == 'A' && economics::currencies::ANG.code[1] == 'N' && economics::currencies::ANG.code[2] == 'G' && sizeof(economics::currencies::ANG.code) == 3);)
OBLIGATION(minor_units_ANG, "esl/economics/currencies.hpp: currencies::ANG (minor units)", (), require(economics::currencies::ANG.denominator == 100);)
OBLIGATION(currency_name_ANG, "esl/economics/currencies.hpp: currency_name (ANG)", (), require(is(currency('A', 'N', 'G'), "Netherlands Antillean Guilder")); require(is(economics::currency_name<text>(economics::currencies::ANG), "Netherlands Antillean Guilder"));)
OBLIGATION(currency_AOA, "esl/economics/currencies.hpp: currencies::AOA", (), require(economics::currencies::AOA.code[0] == 'A' && economics::currencies::AOA.code[1] == 'O' && economics::currencies::AOA.code[2] == 'A' && sizeof(economics::currencies::AOA.code) == 3);)
OBLIGATION(minor_units_AOA, "esl/economics/currencies.hpp: currencies::AOA (minor units)", (), require(economics::currencies::AOA.denominator == 100);)
OBLIGATION(currency_name_AOA, "esl/economics/currencies.hpp: currency_name (AOA)", (), require(is(currency('A', 'O', 'A'), "Kwanza")); require(is(economics::currency_name<text>(economics::currencies::AOA), "Kwanza"));)
OBLIGATION(currency_ARS, "esl/economics/currencies.hpp: currencies::ARS", (), require(economics::currencies::ARS.code[0] == 'A' && economics::currencies::ARS.code[1] == 'R' && economics::currencies::ARS.code[2] == 'S' && sizeof(economics::currencies::ARS.code) == 3);)
OBLIGATION(minor_units_ARS, "esl/economics/currencies.hpp: currencies::ARS (minor units)", (), require(economics::currencies::ARS.denominator == 100);)
OBLIGATION(currency_name_ARS, "esl/economics/currencies.hpp: currency_name (ARS)", (), require(is(currency('A', 'R', 'S'), "Argentine Peso")); require(is(economics::currency_name<text>(economics::currencies::ARS), "Argentine Peso"));)
OBLIGATION(currency_AUD, "esl/economics/currencies.hpp: currencies::AUD", (), require(economics::currencies::AUD.code[0] == 'A' && economics::currencies::AUD.code[1] == 'U' && economics::currencies::AUD.code[2] == 'D' && sizeof(economics::currencies::AUD.code) == 3);)
OBLIGATION(minor_units_AUD, "esl/economics/currencies.hpp: currencies::AUD (minor units)", (), require(economics::currencies::AUD.denominator == 100);)
OBLIGATION(currency_name_AUD, "esl/economics/currencies.hpp: currency_name (AUD)", (), require(is(currency('A', 'U', 'D'), "Australian Dollar")); require(is(economics::currency_name<text>(economics::currencies::AUD), "Australian Dollar"));)
OBLIGATION(currency_AWG, "esl/economics/currencies.hpp: currencies::AWG", (), require(economics::currencies::AWG.code[0] == 'A' && economics::currencies::AWG.code[1] == 'W' && economics::currencies::AWG.code[2] == 'G' && sizeof(economics::currencies::AWG.code) == 3);)
OBLIGATION(minor_units_AWG, "esl/economics/currencies.hpp: currencies::AWG (minor units)", (), require(economics::currencies::AWG.denominator == 100);)
OBLIGATION(currency_name_AWG, "esl/economics/currencies.hpp: currency_name (AWG)", (), require(is(currency('A', 'W', 'G'), "Aruban Florin")); require(is(economics::currency_name<text>(economics::currencies::AWG), "Aruban Florin"));)
OBLIGATION(currency_AZN, "esl/economics/currencies.hpp: currencies::AZN", (), require(economics::currencies::AZN.code[0] == 'A' && economics::currencies::AZN.code[1] == 'Z' && economics::currencies::AZN.code[2] == 'N' && sizeof(economics::currencies::AZN.code) == 3);)
OBLIGATION(minor_units_AZN, "esl/economics/currencies.hpp: currencies::AZN (minor units)", (), require(economics::currencies::AZN.denominator == 100);)
OBLIGATION(currency_name_AZN, "esl/economics/currencies.hpp: currency_name (AZN)", (), require(is(currency('A', 'Z', 'N'), "Azerbaijan Manat")); require(is(economics::currency_name<text>(economics::currencies::AZN), "Azerbaijan Manat"));)
OBLIGATION(currency_BAM, "esl/economics/currencies.hpp: currencies::BAM", (), require(economics::currencies::BAM.code[0] == 'B' && economics::currencies::BAM.code[1] == 'A' && economics::currencies::BAM.code[2] == 'M' && sizeof(economics::currencies::BAM.code) == 3);)
OBLIGATION(minor_units_BAM, "esl/economics/currencies.hpp: currencies::BAM (minor units)", (), require(economics::currencies::BAM.denominator == 100);)
OBLIGATION(currency_name_BAM, "esl/economics/currencies.hpp: currency_name (BAM)", (), require(is(currency('B', 'A', 'M'), "Convertible Mark")); require(is(economics::currency_name<text>(economics::currencies::BAM), "Convertible Mark"));)
OBLIGATION(currency_BBD, "esl/economics/currencies.hpp: currencies::BBD", (), require(economics::currencies::BBD.code[0] == 'B' && economics::currencies::BBD.code[1] == 'B' && economics::currencies::BBD.code[2] == 'D' && sizeof(economics::currencies::BBD.code) == 3);)
OBLIGATION(minor_units_BBD, "esl/economics/currencies.hpp: currencies::BBD (minor units)", (), require(economics::currencies::BBD.denominator == 100);)
OBLIGATION(currency_name_BBD, "esl/economics/currencies.hpp: currency_name (BBD)", (), require(is(currency('B', 'B', 'D'), "Barbados Dollar")); require(is(economics::currency_name<text>(economics::currencies::BBD), "Barbados Dollar"));)
OBLIGATION(currency_BDT, "esl/economics/currencies.hpp: currencies::BDT", (), require(economics::currencies::BDT.code[0] == 'B' && economics::currencies::BDT.code[1] == 'D' && economics::currencies::BDT.code[2] == 'T' && sizeof(economics::currencies::BDT.code) == 3);)
OBLIGATION(minor_units_BDT, "esl/economics/currencies.hpp: currencies::BDT (minor units)", (), require(economics::currencies::BDT.denominator == 100);)
OBLIGATION(currency_name_BDT, "esl/economics/currencies.hpp: currency_name (BDT)", (), require(is(currency('B', 'D', 'T'), "Taka")); require(is(economics::currency_name<text>(economics::currencies::BDT), "Taka"));)
OBLIGATION(currency_BGN, "esl/economics/currencies.hpp: currencies::BGN", (), require(economics::currencies::BGN.code[0] == 'B' && economics::currencies::BGN.code[1] == 'G' && economics::currencies::BGN.code[2] == 'N' && sizeof(economics::currencies::BGN.code) == 3);)
OBLIGATION(minor_units_BGN, "esl/economics/currencies.hpp: currencies::BGN (minor units)", (), require(economics::currencies::BGN.denominator == 100);)
OBLIGATION(currency_name_BGN, "esl/economics/currencies.hpp: currency_name (BGN)", (), require(is(currency('B', 'G', 'N'), "Bulgarian Lev")); require(is(economics::currency_name<text>(economics::currencies::BGN), "Bulgarian Lev"));)
OBLIGATION(currency_BHD, "esl/economics/currencies.hpp: currencies::BHD", (), require(economics::currencies::BHD.code[0] == 'B' && economics::currencies::BHD.code[1] == 'H' && economics::currencies::BHD.code[2] == 'D' && sizeof(economics::currencies::BHD.code) == 3);)
OBLIGATION(minor_units_BHD, "esl/economics/currencies.hpp: currencies::BHD (minor units)", (), require(economics::currencies::BHD.denominator == 1000);)
OBLIGATION(currency_name_BHD, "esl/economics/currencies.hpp: currency_name (BHD)", (), require(is(currency('B', 'H', 'D'), "Bahraini Dinar")); require(is(economics::currency_name<text>(economics::currencies::BHD), "Bahraini Dinar"));)
OBLIGATION(currency_BIF, "esl/economics/currencies.hpp: currencies::BIF", (), require(economics::currencies::BIF.code[0] == 'B' && economics::currencies::BIF.code[1] == 'I' && economics::currencies::BIF.code[2] == 'F' && sizeof(economics::currencies::BIF.code) == 3);)
OBLIGATION(minor_units_BIF, "esl/economics/currencies.hpp: currencies::BIF (minor units)", (), require(economics::currencies::BIF.denominator == 1);)
OBLIGATION(currency_name_BIF, "esl/economics/currencies.hpp: currency_name (BIF)", (), require(is(currency('B', 'I', 'F'), "Burundi Franc")); require(is(economics::currency_name<text>(economics::currencies::BIF), "Burundi Franc"));)
OBLIGATION(currency_BMD, "esl/economics/currencies.hpp: currencies::BMD", (), require(economics::currencies::BMD.code[0] == 'B' && economics::currencies::BMD.code[1] == 'M' && economics::currencies::BMD.code[2] == 'D' && sizeof(economics::currencies::BMD.code) == 3);)
OBLIGATION(minor_units_BMD, "esl/economics/currencies.hpp: currencies::BMD (minor units)", (), require(economics::currencies::BMD.denominator == 100);)
OBLIGATION(currency_name_BMD, "esl/economics/currencies.hpp: currency_name (BMD)", (), require(is(currency('B', 'M', 'D'), "Bermudian Dollar")); require(is(economics::currency_name<text>(economics::currencies::BMD), "Bermudian Dollar"));)
OBLIGATION(currency_BND, "esl/economics/currencies.hpp: currencies::BND", (), require(economics::currencies::BND.code[0] == 'B' && economics::currencies::BND.code[1] == 'N' && economics::currencies::BND.code[2] == 'D' && sizeof(economics::currencies::BND.code) == 3);)
OBLIGATION(minor_units_BND, "esl/economics/currencies.hpp: currencies::BND (minor units)", (), require(economics::currencies::BND.denominator == 100);)
OBLIGATION(currency_name_BND, "esl/economics/currencies.hpp: currency_name (BND)", (), require(is(currency('B', 'N', 'D'), "Brunei Dollar")); require(is(economics::currency_name<text>(economics::currencies::BND), "Brunei Dollar"));)
OBLIGATION(currency_BOB, "esl/economics/currencies.hpp: currencies::BOB", (), require(economics::currencies::BOB.code[0] == 'B' && economics::currencies::BOB.code[1] == 'O' && economics::currencies::BOB.code[2] == 'B' && sizeof(economics::currencies::BOB.code) == 3);)
OBLIGATION(minor_units_BOB, "esl/economics/currencies.hpp: currencies::BOB (minor units)", (), require(economics::currencies::BOB.denominator == 100);)
OBLIGATION(currency_name_BOB, "esl/economics/currencies.hpp: currency_name (BOB)", (), require(is(currency('B', 'O', 'B'), "Boliviano")); require(is(economics::currency_name<text>(economics::currencies::BOB), "Boliviano"));)
OBLIGATION(currency_BOV, "esl/economics/currencies.hpp: currencies::BOV", (), require(economics::currencies::BOV.code[0] == 'B' && economics::currencies::BOV.code[1] == 'O' && economics::currencies::BOV.code[2] == 'V' && sizeof(economics::currencies::BOV.code) == 3);)
OBLIGATION(minor_units_BOV, "esl/economics/currencies.hpp: currencies::BOV (minor units)", (), require(economics::currencies::BOV.denominator == 100);)
OBLIGATION(currency_name_BOV, "esl/economics/currencies.hpp: currency_name (BOV)", (), require(is(currency('B', 'O', 'V'), "Mvdol")); require(is(economics::currency_name<text>(economics::currencies::BOV), "Mvdol"));)
OBLIGATION(currency_BRL, "esl/economics/currencies.hpp: currencies::BRL", (), require(economics::currencies::BRL.code[0] == 'B' && economics::currencies::BRL.code[1] == 'R' && economics::currencies::BRL.code[2] == 'L' && sizeof(economics::currencies::BRL.code) == 3);)
OBLIGATION(minor_units_BRL, "esl/economics/currencies.hpp: currencies::BRL (minor units)", (), require(economics::currencies::BRL.denominator == 100);)
OBLIGATION(currency_name_BRL, "esl/economics/currencies.hpp: currency_name (BRL)", (), require(is(currency('B', 'R', 'L'), "Brazilian Real")); require(is(economics::currency_name<text>(economics::currencies::BRL), "Brazilian Real"));)
OBLIGATION(currency_BSD, "esl/economics/currencies.hpp: currencies::BSD", (), require(economics::currencies::BSD.code[0] == 'B' && economics::currencies::BSD.code[1] == 'S' && economics::currencies::BSD.code[2] == 'D' && sizeof(economics::currencies::BSD.code) == 3);)
OBLIGATION(minor_units_BSD, "esl/economics/currencies.hpp: currencies::BSD (minor units)", (), require(economics::currencies::BSD.denominator == 100);)
OBLIGATION(currency_name_BSD, "esl/economics/currencies.hpp: currency_name (BSD)", (), require(is(currency('B', 'S', 'D'), "Bahamian Dollar")); require(is(economics::currency_name<text>(economics::currencies::BSD), "Bahamian Dollar"));)
OBLIGATION(currency_BTN, "esl/economics/currencies.hpp: currencies::BTN", (), require(economics::currencies::BTN.code[0] == 'B' && economics::currencies::BTN.code[1] == 'T' && economics::currencies::BTN.code[2] == 'N' && sizeof(economics::currencies::BTN.code) == 3);)
OBLIGATION(minor_units_BTN, "esl/economics/currencies.hpp: currencies::BTN (minor units)", (), require(economics::currencies::BTN.denominator == 100);)
OBLIGATION(currency_name_BTN, "esl/economics/currencies.hpp: currency_name (BTN)", (), require(is(currency('B', 'T', 'N'), "Ngultrum")); require(is(economics::currency_name<text>(economics::currencies::BTN), "Ngultrum"));)
OBLIGATION(currency_BWP, "esl/economics/currencies.hpp: currencies::BWP", (), require(economics::currencies::BWP.code[0] == 'B' && economics::currencies::BWP.code[1] == 'W' && economics::currencies::BWP.code[2] == 'P' && sizeof(economics::currencies::BWP.code) == 3);)
OBLIGATION(minor_units_BWP, "esl/economics/currencies.hpp: currencies::BWP (minor units)", (), require(economics::currencies::BWP.denominator == 100);)
OBLIGATION(currency_name_BWP, "esl/economics/currencies.hpp: currency_name (BWP)", (), require(is(currency('B', 'W', 'P'), "Pula")); require(is(economics::currency_name<text>(economics::currencies::BWP), "Pula"));)
OBLIGATION(currency_BYN, "esl/economics/currencies.hpp: currencies::BYN", (), require(economics::currencies::BYN.code[0] == 'B' && economics::currencies::BYN.code[1] == 'Y' && economics::currencies::BYN.code[2] == 'N' && sizeof(economics::currencies::BYN.code) == 3);)
OBLIGATION(minor_units_BYN, "esl/economics/currencies.hpp: currencies::BYN (minor units)", (), require(economics::currencies::BYN.denominator == 100);)
OBLIGATION(currency_name_BYN, "esl/economics/currencies.hpp: currency_name (BYN)", (), require(is(currency('B', 'Y', 'N'), "Belarusian Ruble")); require(is(economics::currency_name<text>(economics::currencies::BYN), "Belarusian Ruble"));)
OBLIGATION(currency_BZD, "esl/economics/currencies.hpp: currencies::BZD", (), require(economics::currencies::BZD.code[0] == 'B' && economics::currencies::BZD.code[1] == 'Z' && economics::currencies::BZD.code[2] == 'D' && sizeof(economics::currencies::BZD.code) == 3);)
OBLIGATION(minor_units_BZD, "esl/economics/currencies.hpp: currencies::BZD (minor units)", (), require(economics::currencies::BZD.denominator == 100);)
OBLIGATION(currency_name_BZD, "esl/economics/currencies.hpp: currency_name (BZD)", (), require(is(currency('B', 'Z', 'D'), "Belize Dollar")); require(is(economics::currency_name<text>(economics::currencies::BZD), "Belize Dollar"));)
OBLIGATION(currency_CAD, "esl/economics/currencies.hpp: currencies::CAD", (), require(economics::currencies::CAD.code[0] == 'C' && economics::currencies::CAD.code[1] == 'A' && economics::currencies::CAD.code[2] == 'D' && sizeof(economics::currencies::CAD.code) == 3);)
OBLIGATION(minor_units_CAD, "esl/economics/currencies.hpp: currencies::CAD (minor units)", (), require(economics::currencies::CAD.denominator == 100);)
OBLIGATION(currency_name_CAD, "esl/economics/currencies.hpp: currency_name (CAD)", (), require(is(currency('C', 'A', 'D'), "Canadian Dollar")); require(is(economics::currency_name<text>(economics::currencies::CAD), "Canadian Dollar"));)
OBLIGATION(currency_CDF, "esl/economics/currencies.hpp: currencies::CDF", (), require(economics::currencies::CDF.code[0] == 'C' && economics::currencies::CDF.code[1] == 'D' && economics::currencies::CDF.code[2] == 'F' && sizeof(economics::currencies::CDF.code) == 3);)
OBLIGATION(minor_units_CDF, "esl/economics/currencies.hpp: currencies::CDF (minor units)", (), require(economics::currencies::CDF.denominator == 100);)
OBLIGATION(currency_name_CDF, "esl/economics/currencies.hpp: currency_name (CDF)", (), require(is(currency('C', 'D', 'F'), "Congolese Franc")); require(is(economics::currency_name<text>(economics::currencies::CDF), "Congolese Franc"));)
OBLIGATION(currency_CHE, "esl/economics/currencies.hpp: currencies::CHE", (), require(economics::currencies::CHE.code[0] == 'C' && economics::currencies::CHE.code[1] == 'H' && economics::currencies::CHE.code[2] == 'E' && sizeof(economics::currencies::CHE.code) == 3);)
OBLIGATION(minor_units_CHE, "esl/economics/currencies.hpp: currencies::CHE (minor units)", (), require(economics::currencies::CHE.denominator == 100);)
OBLIGATION(currency_name_CHE, "esl/economics/currencies.hpp: currency_name (CHE)", (), require(is(currency('C', 'H', 'E'), "WIR Euro")); require(is(economics::currency_name<text>(economics::currencies::CHE), "WIR Euro"));)
OBLIGATION(currency_CHF, "esl/economics/currencies.hpp: currencies::CHF", (), require(economics::currencies::CHF.code[0] == 'C' && economics::currencies::CHF.code[1] == 'H' && economics::currencies::CHF.code[2] == 'F' && sizeof(economics::currencies::CHF.code) == 3);)
OBLIGATION(minor_units_CHF, "esl/economics/currencies.hpp: currencies::CHF (minor units)", (), require(economics::currencies::CHF.denominator == 100);)
OBLIGATION(currency_name_CHF, "esl/economics/currencies.hpp: currency_name (CHF)", (), require(is(currency('C', 'H', 'F'), "Swiss Franc")); require(is(economics::currency_name<text>(economics::currencies::CHF), "Swiss Franc"));)
OBLIGATION(currency_CHW, "esl/economics/currencies.hpp: currencies::CHW", (), require(economics::currencies::CHW.code[0] == 'C' && economics::currencies::CHW.code[1] == 'H' && economics::currencies::CHW.code[2] == 'W' && sizeof(economics::currencies::CHW.code) == 3);)
OBLIGATION(minor_units_CHW, "esl/economics/currencies.hpp: currencies::CHW (minor units)", (), require(economics::currencies::CHW.denominator == 100);)
OBLIGATION(currency_name_CHW, "esl/economics/currencies.hpp: currency_name (CHW)", (), require(is(currency('C', 'H', 'W'), "WIR Franc")); require(is(economics::currency_name<text>(economics::currencies::CHW), "WIR Franc"));)
OBLIGATION(currency_CLF, "esl/economics/currencies.hpp: currencies::CLF", (), require(economics::currencies::CLF.code[0] == 'C' && economics::currencies::CLF.code[1] == 'L' && economics::currencies::CLF.code[2] == 'F' && sizeof(economics::currencies::CLF.code) == 3);)
OBLIGATION(minor_units_CLF, "esl/economics/currencies.hpp: currencies::CLF (minor units)", (), require(economics::currencies::CLF.denominator == 10000);)
OBLIGATION(currency_name_CLF, "esl/economics/currencies.hpp: currency_name (CLF)", (), require(is(currency('C', 'L', 'F'), "Unidad de Fomento")); require(is(economics::currency_name<text>(economics::currencies::CLF), "Unidad de Fomento"));)
OBLIGATION(currency_CLP, "esl/economics/currencies.hpp: currencies::CLP", (), require(economics::currencies::CLP.code[0] == 'C' && economics::currencies::CLP.code[1] == 'L' && economics::currencies::CLP.code[2] == 'P' && sizeof(economics::currencies::CLP.code) == 3);)
OBLIGATION(minor_units_CLP, "esl/economics/currencies.hpp: currencies::CLP (minor units)", (), require(economics::currencies::CLP.denominator == 1);)
OBLIGATION(currency_name_CLP, "esl/economics/currencies.hpp: currency_name (CLP)", (), require(is(currency('C', 'L', 'P'), "Chilean Peso")); require(is(economics::currency_name<text>(economics::currencies::CLP), "Chilean Peso"));)
OBLIGATION(currency_CNY, "esl/economics/currencies.hpp: currencies::CNY", (), require(economics::currencies::CNY.code[0] == 'C' && economics::currencies::CNY.code[1] == 'N' && economics::currencies::CNY.code[2] == 'Y' && sizeof(economics::currencies::CNY.code) == 3);)
OBLIGATION(minor_units_CNY, "esl/economics/currencies.hpp: currencies::CNY (minor units)", (), require(economics::currencies::CNY.denominator == 100);)
OBLIGATION(currency_name_CNY, "esl/economics/currencies.hpp: currency_name (CNY)", (), require(is(currency('C', 'N', 'Y'), "Yuan Renminbi")); require(is(economics::currency_name<text>(economics::currencies::CNY), "Yuan Renminbi"));)
OBLIGATION(currency_COP, "esl/economics/currencies.hpp: currencies::COP", (), require(economics::currencies::COP.code[0] == 'C' && economics::currencies::COP.code[1] == 'O' && economics::currencies::COP.code[2] == 'P' && sizeof(economics::currencies::COP.code) == 3);)
OBLIGATION(minor_units_COP, "esl/economics/currencies.hpp: currencies::COP (minor units)", (), require(economics::currencies::COP.denominator == 100);)
OBLIGATION(currency_name_COP, "esl/economics/currencies.hpp: currency_name (COP)", (), require(is(currency('C', 'O', 'P'), "Colombian Peso")); require(is(economics::currency_name<text>(economics::currencies::COP), "Colombian Peso"));)
OBLIGATION(currency_COU, "esl/economics/currencies.hpp: currencies::COU", (), require(economics::currencies::COU.code[0] == 'C' && economics::currencies::COU.code[1] == 'O' && economics::currencies::COU.code[2] == 'U' && sizeof(economics::currencies::COU.code) == 3);)
OBLIGATION(minor_units_COU, "esl/economics/currencies.hpp: currencies::COU (minor units)", (), require(economics::currencies::COU.denominator == 100);)
OBLIGATION(currency_name_COU, "esl/economics/currencies.hpp: currency_name (COU)", (), require(is(currency('C', 'O', 'U'), "Unidad de Valor Real")); require(is(economics::currency_name<text>(economics::currencies::COU), "Unidad de Valor Real"));)
OBLIGATION(currency_CRC, "esl/economics/currencies.hpp: currencies::CRC", (), require(economics::currencies::CRC.code[0] == 'C' && economics::currencies::CRC.code[1] == 'R' && economics::currencies::CRC.code[2] == 'C' && sizeof(economics::currencies::CRC.code) == 3);)
OBLIGATION(minor_units_CRC, "esl/economics/currencies.hpp: currencies::CRC (minor units)", (), require(economics::currencies::CRC.denominator == 100);)
OBLIGATION(currency_name_CRC, "esl/economics/currencies.hpp: currency_name (CRC)", (), require(is(currency('C', 'R', 'C'), "Costa Rican Colon")); require(is(economics::currency_name<text>(economics::currencies::CRC), "Costa Rican Colon"));)
OBLIGATION(currency_CUC, "esl/economics/currencies.hpp: currencies::CUC", (), require(economics::currencies::CUC.code[0] == 'C' && economics::currencies::CUC.code[1] == 'U' && economics::currencies::CUC.code[2] == 'C' && sizeof(economics::currencies::CUC.code) == 3);)
OBLIGATION(minor_units_CUC, "esl/economics/currencies.hpp: currencies::CUC (minor units)", (), require(economics::currencies::CUC.denominator == 100);)
OBLIGATION(currency_name_CUC, "esl/economics/currencies.hpp: currency_name (CUC)", (), require(is(currency('C', 'U', 'C'), "Peso Convertible")); require(is(economics::currency_name<text>(economics::currencies::CUC), "Peso Convertible"));)
OBLIGATION(currency_CUP, "esl/economics/currencies.hpp: currencies::CUP", (), require(economics::currencies::CUP.code[0] == 'C' && economics::currencies::CUP.code[1] == 'U' && economics::currencies::CUP.code[2] == 'P' && sizeof(economics::currencies::CUP.code) == 3);)
OBLIGATION(minor_units_CUP, "esl/economics/currencies.hpp: currencies::CUP (minor units)", (), require(economics::currencies::CUP.denominator == 100);)
OBLIGATION(currency_name_CUP, "esl/economics/currencies.hpp: currency_name (CUP)", (), require(is(currency('C', 'U', 'P'), "Cuban Peso")); require(is(economics::currency_name<text>(economics::currencies::CUP), "Cuban Peso"));)
OBLIGATION(currency_CVE, "esl/economics/currencies.hpp: currencies::CVE", (), require(economics::currencies::CVE.code[0] == 'C' && economics::currencies::CVE.code[1] == 'V' && economics::currencies::CVE.code[2] == 'E' && sizeof(economics::currencies::CVE.code) == 3);)
OBLIGATION(minor_units_CVE, "esl/economics/currencies.hpp: currencies::CVE (minor units)", (), require(economics::currencies::CVE.denominator == 100);)
OBLIGATION(currency_name_CVE, "esl/economics/currencies.hpp: currency_name (CVE)", (), require(is(currency('C', 'V', 'E'), "Cabo Verde Escudo")); require(is(economics::currency_name<text>(economics::currencies::CVE), "Cabo Verde Escudo"));)
OBLIGATION(currency_CZK, "esl/economics/currencies.hpp: currencies::CZK", (), require(economics::currencies::CZK.code[0] == 'C' && economics::currencies::CZK.code[1] == 'Z' && economics::currencies::CZK.code[2] == 'K' && sizeof(economics::currencies::CZK.code) == 3);)
OBLIGATION(minor_units_CZK, "esl/economics/currencies.hpp: currencies::CZK (minor units)", (), require(economics::currencies::CZK.denominator == 100);)
OBLIGATION(currency_name_CZK, "esl/economics/currencies.hpp: currency_name (CZK)", (), require(is(currency('C', 'Z', 'K'), "Czech Koruna")); require(is(economics::currency_name<text>(economics::currencies::CZK), "Czech Koruna"));)
OBLIGATION(currency_DJF, "esl/economics/currencies.hpp: currencies::DJF", (), require(economics::currencies::DJF.code[0] == 'D' && economics::currencies::DJF.code[1] == 'J' && economics::currencies::DJF.code[2] == 'F' && sizeof(economics::currencies::DJF.code) == 3);)
OBLIGATION(minor_units_DJF, "esl/economics/currencies.hpp: currencies::DJF (minor units)", (), require(economics::currencies::DJF.denominator == 1);)
OBLIGATION(currency_name_DJF, "esl/economics/currencies.hpp: currency_name (DJF)", (), require(is(currency('D', 'J', 'F'), "Djibouti Franc")); require(is(economics::currency_name<text>(economics::currencies::DJF), "Djibouti Franc"));)
OBLIGATION(currency_DKK, "esl/economics/currencies.hpp: currencies::DKK", (), require(economics::currencies::DKK.code[0] == 'D' && economics::currencies::DKK.code[1] == 'K' && economics::currencies::DKK.code[2] == 'K' && sizeof(economics::currencies::DKK.code) == 3);)
OBLIGATION(minor_units_DKK, "esl/economics/currencies.hpp: currencies::DKK (minor units)", (), require(economics::currencies::DKK.denominator == 100);)
OBLIGATION(currency_name_DKK, "esl/economics/currencies.hpp: currency_name (DKK)", (), require(is(currency('D', 'K', 'K'), "Danish Krone")); require(is(economics::currency_name<text>(economics::currencies::DKK), "Danish Krone"));)
OBLIGATION(currency_DOP, "esl/economics/currencies.hpp: currencies::DOP", (), require(economics::currencies::DOP.code[0] == 'D' && economics::currencies::DOP.code[1] == 'O' && economics::currencies::DOP.code[2] == 'P' && sizeof(economics::currencies::DOP.code) == 3);)
OBLIGATION(minor_units_DOP, "esl/economics/currencies.hpp: currencies::DOP (minor units)", (), require(economics::currencies::DOP.denominator == 100);)
OBLIGATION(currency_name_DOP, "esl/economics/currencies.hpp: currency_name (DOP)", (), require(is(currency('D', 'O', 'P'), "Dominican Peso")); require(is(economics::currency_name<text>(economics::currencies::DOP), "Dominican Peso"));)
OBLIGATION(currency_DZD, "esl/economics/currencies.hpp: currencies::DZD", (), require(economics::currencies::DZD.code[0] == 'D' && economics::currencies::DZD.code[1] == 'Z' && economics::currencies::DZD.code[2] == 'D' && sizeof(economics::currencies::DZD.code) == 3);)
OBLIGATION(minor_units_DZD, "esl/economics/currencies.hpp: currencies::DZD (minor units)", (), require(economics::currencies::DZD.denominator == 100);)
OBLIGATION(currency_name_DZD, "esl/economics/currencies.hpp: currency_name (DZD)", (), require(is(currency('D', 'Z', 'D'), "Algerian Dinar")); require(is(economics::currency_name<text>(economics::currencies::DZD), "Algerian Dinar"));)
OBLIGATION(currency_EGP, "esl/economics/currencies.hpp: currencies::EGP", (), require(economics::currencies::EGP.code[0] == 'E' && economics::currencies::EGP.code[1] == 'G' && economics::currencies::EGP.code[2] == 'P' && sizeof(economics::currencies::EGP.code) == 3);)
OBLIGATION(minor_units_EGP, "esl/economics/currencies.hpp: currencies::EGP (minor units)", (), require(economics::currencies::EGP.denominator == 100);)
OBLIGATION(currency_name_EGP, "esl/economics/currencies.hpp: currency_name (EGP)", (), require(is(currency('E', 'G', 'P'), "Egyptian Pound")); require(is(economics::currency_name<text>(economics::currencies::EGP), "Egyptian Pound"));)
OBLIGATION(currency_ERN, "esl/economics/currencies.hpp: currencies::ERN", (), require(economics::currencies::ERN.code[0] == 'E' && economics::currencies::ERN.code[1] == 'R' && economics::currencies::ERN.code[2] == 'N' && sizeof(economics::currencies::ERN.code) == 3);)
OBLIGATION(minor_units_ERN, "esl/economics/currencies.hpp: currencies::ERN (minor units)", (), require(economics::currencies::ERN.denominator == 100);)
OBLIGATION(currency_name_ERN, "esl/economics/currencies.hpp: currency_name (ERN)", (), require(is(currency('E', 'R', 'N'), "Nakfa")); require(is(economics::currency_name<text>(economics::currencies::ERN), "Nakfa"));)
OBLIGATION(currency_ETB, "esl/economics/currencies.hpp: currencies::ETB", (), require(economics::currencies::ETB.code[0] == 'E' && economics::currencies::ETB.code[1] == 'T' && economics::currencies::ETB.code[2] == 'B' && sizeof(economics::currencies::ETB.code) == 3);)
OBLIGATION(minor_units_ETB, "esl/economics/currencies.hpp: currencies::ETB (minor units)", (), require(economics::currencies::ETB.denominator == 100);)
OBLIGATION(currency_name_ETB, "esl/economics/currencies.hpp: currency_name (ETB)", (), require(is(currency('E', 'T', 'B'), "Ethiopian Birr")); require(is(economics::currency_name<text>(economics::currencies::ETB), "Ethiopian Birr"));)
OBLIGATION(currency_EUR, "esl/economics/currencies.hpp: currencies::EUR", (), require(economics::currencies::EUR.code[0] == 'E' && economics::currencies::EUR.code[1] == 'U' && economics::currencies::EUR.code[2] == 'R' && sizeof(economics::currencies::EUR.code) == 3);)
OBLIGATION(minor_units_EUR, "esl/economics/currencies.hpp: currencies::EUR (minor units)", (), require(economics::currencies::EUR.denominator == 100);)
OBLIGATION(currency_name_EUR, "esl/economics/currencies.hpp: currency_name (EUR)", (), require(is(currency('E', 'U', 'R'), "Euro")); require(is(economics::currency_name<text>(economics::currencies::EUR), "Euro"));)
OBLIGATION(currency_FJD, "esl/economics/currencies.hpp: currencies::FJD", (), require(economics::currencies::FJD.code[0] == 'F' && economics::currencies::FJD.code[1] == 'J' && economics::currencies::FJD.code[2] == 'D' && sizeof(economics::currencies::FJD.code) == 3);)
OBLIGATION(minor_units_FJD, "esl/economics/currencies.hpp: currencies::FJD (minor units)", (), require(economics::currencies::FJD.denominator == 100);)
OBLIGATION(currency_name_FJD, "esl/economics/currencies.hpp: currency_name (FJD)", (), require(is(currency('F', 'J', 'D'), "Fiji Dollar")); require(is(economics::currency_name<text>(economics::currencies::FJD), "Fiji Dollar"));)
OBLIGATION(currency_FKP, "esl/economics/currencies.hpp: currencies::FKP", (), require(economics::currencies::FKP.code[0] == 'F' && economics::currencies::FKP.code[1] == 'K' && economics::currencies::FKP.code[2] == 'P' && sizeof(economics::currencies::FKP.code) == 3);)
OBLIGATION(minor_units_FKP, "esl/economics/currencies.hpp: currencies::FKP (minor units)", (), require(economics::currencies::FKP.denominator == 100);)
OBLIGATION(currency_name_FKP, "esl/economics/currencies.hpp: currency_name (FKP)", (), require(is(currency('F', 'K', 'P'), "Falkland Islands Pound")); require(is(economics::currency_name<text>(economics::currencies::FKP), "Falkland Islands Pound"));)
OBLIGATION(currency_GBP, "esl/economics/currencies.hpp: currencies::GBP", (), require(economics::currencies::GBP.code[0] == 'G' && economics::currencies::GBP.code[1] == 'B' && economics::currencies::GBP.code[2] == 'P' && sizeof(economics::currencies::GBP.code) == 3);)
OBLIGATION(minor_units_GBP, "esl/economics/currencies.hpp: currencies::GBP (minor units)", (), require(economics::currencies::GBP.denominator == 100);)
OBLIGATION(currency_name_GBP, "esl/economics/currencies.hpp: currency_name (GBP)", (), require(is(currency('G', 'B', 'P'), "Pound Sterling")); require(is(economics::currency_name<text>(economics::currencies::GBP), "Pound Sterling"));)
OBLIGATION(currency_GEL, "esl/economics/currencies.hpp: currencies::GEL", (), require(economics::currencies::GEL.code[0] == 'G' && economics::currencies::GEL.code[1] == 'E' && economics::currencies::GEL.code[2] == 'L' && sizeof(economics::currencies::GEL.code) == 3);)
OBLIGATION(minor_units_GEL, "esl/economics/currencies.hpp: currencies::GEL (minor units)", (), require(economics::currencies::GEL.denominator == 100);)
OBLIGATION(currency_name_GEL, "esl/economics/currencies.hpp: currency_name (GEL)", (), require(is(currency('G', 'E', 'L'), "Lari")); require(is(economics::currency_name<text>(economics::currencies::GEL), "Lari"));)
OBLIGATION(currency_GHS, "esl/economics/currencies.hpp: currencies::GHS", (), require(economics::currencies::GHS.code[0] == 'G' && economics::currencies::GHS.code[1] == 'H' && economics::currencies::GHS.code[2] == 'S' && sizeof(economics::currencies::GHS.code) == 3);)
OBLIGATION(minor_units_GHS, "esl/economics/currencies.hpp: currencies::GHS (minor units)", (), require(economics::currencies::GHS.denominator == 100);)
OBLIGATION(currency_name_GHS, "esl/economics/currencies.hpp: currency_name (GHS)", (), require(is(currency('G', 'H', 'S'), "Ghana Cedi")); require(is(economics::currency_name<text>(economics::currencies::GHS), "Ghana Cedi"));)
OBLIGATION(currency_GIP, "esl/economics/currencies.hpp: currencies::GIP", (), require(economics::currencies::GIP.code[0] == 'G' && economics::currencies::GIP.code[1] == 'I' && economics::currencies::GIP.code[2] == 'P' && sizeof(economics::currencies::GIP.code) == 3);)
OBLIGATION(minor_units_GIP, "esl/economics/currencies.hpp: currencies::GIP (minor units)", (), require(economics::currencies::GIP.denominator == 100);)
OBLIGATION(currency_name_GIP, "esl/economics/currencies.hpp: currency_name (GIP)", (), require(is(currency('G', 'I', 'P'), "Gibraltar Pound")); require(is(economics::currency_name<text>(economics::currencies::GIP), "Gibraltar Pound"));)
OBLIGATION(currency_GMD, "esl/economics/currencies.hpp: currencies::GMD", (), require(economics::currencies::GMD.code[0] == 'G' && economics::currencies::GMD.code[1] == 'M' && economics::currencies::GMD.code[2] == 'D' && sizeof(economics::currencies::GMD.code) == 3);)
OBLIGATION(minor_units_GMD, "esl/economics/currencies.hpp: currencies::GMD (minor units)", (), require(economics::currencies::GMD.denominator == 100);)
OBLIGATION(currency_name_GMD, "esl/economics/currencies.hpp: currency_name (GMD)", (), require(is(currency('G', 'M', 'D'), "Dalasi")); require(is(economics::currency_name<text>(economics::currencies::GMD), "Dalasi"));)
OBLIGATION(currency_GNF, "esl/economics/currencies.hpp: currencies::GNF", (), require(economics::currencies::GNF.code[0] == 'G' && economics::currencies::GNF.code[1] == 'N' && economics::currencies::GNF.code[2] == 'F' && sizeof(economics::currencies::GNF.code) == 3);)
OBLIGATION(minor_units_GNF, "esl/economics/currencies.hpp: currencies::GNF (minor units)", (), require(economics::currencies::GNF.denominator == 1);)
OBLIGATION(currency_name_GNF, "esl/economics/currencies.hpp: currency_name (GNF)", (), require(is(currency('G', 'N', 'F'), "Guinean Franc")); require(is(economics::currency_name<text>(economics::currencies::GNF), "Guinean Franc"));)
OBLIGATION(currency_GTQ, "esl/economics/currencies.hpp: currencies::GTQ", (), require(economics::currencies::GTQ.code[0] == 'G' && economics::currencies::GTQ.code[1] == 'T' && economics::currencies::GTQ.code[2] == 'Q' && sizeof(economics::currencies::GTQ.code) == 3);)
OBLIGATION(minor_units_GTQ, "esl/economics/currencies.hpp: currencies::GTQ (minor units)", (), require(economics::currencies::GTQ.denominator == 100);)
OBLIGATION(currency_name_GTQ, "esl/economics/currencies.hpp: currency_name (GTQ)", (), require(is(currency('G', 'T', 'Q'), "Quetzal")); require(is(economics::currency_name<text>(economics::currencies::GTQ), "Quetzal"));)
OBLIGATION(currency_GYD, "esl/economics/currencies.hpp: currencies::GYD", (), require(economics::currencies::GYD.code[0] == 'G' && economics::currencies::GYD.code[1] == 'Y' && economics::currencies::GYD.code[2] == 'D' && sizeof(economics::currencies::GYD.code) == 3);)
OBLIGATION(minor_units_GYD, "esl/economics/currencies.hpp: currencies::GYD (minor units)", (), require(economics::currencies::GYD.denominator == 100);)
OBLIGATION(currency_name_GYD, "esl/economics/currencies.hpp: currency_name (GYD)", (), require(is(currency('G', 'Y', 'D'), "Guyana Dollar")); require(is(economics::currency_name<text>(economics::currencies::GYD), "Guyana Dollar"));)
OBLIGATION(currency_HKD, "esl/economics/currencies.hpp: currencies::HKD", (), require(economics::currencies::HKD.code[0] == 'H' && economics::currencies::HKD.code[1] == 'K' && economics::currencies::HKD.code[2] == 'D' && sizeof(economics::currencies::HKD.code) == 3);)
OBLIGATION(minor_units_HKD, "esl/economics/currencies.hpp: currencies::HKD (minor units)", (), require(economics::currencies::HKD.denominator == 100);)
OBLIGATION(currency_name_HKD, "esl/economics/currencies.hpp: currency_name (HKD)", (), require(is(currency('H', 'K', 'D'), "Hong Kong Dollar")); require(is(economics::currency_name<text>(economics::currencies::HKD), "Hong Kong Dollar"));)
OBLIGATION(currency_HNL, "esl/economics/currencies.hpp: currencies::HNL", (), require(economics::currencies::HNL.code[0] == 'H' && economics::currencies::HNL.code[1] == 'N' && economics::currencies::HNL.code[2] == 'L' && sizeof(economics::currencies::HNL.code) == 3);)
OBLIGATION(minor_units_HNL, "esl/economics/currencies.hpp: currencies::HNL (minor units)", (), require(economics::currencies::HNL.denominator == 100);)
OBLIGATION(currency_name_HNL, "esl/economics/currencies.hpp: currency_name (HNL)", (), require(is(currency('H', 'N', 'L'), "Lempira")); require(is(economics::currency_name<text>(economics::currencies::HNL), "Lempira"));)
OBLIGATION(currency_HRK, "esl/economics/currencies.hpp: currencies::HRK", (), require(economics::currencies::HRK.code[0] == 'H' && economics::currencies::HRK.code[1] == 'R' && economics::currencies::HRK.code[2] == 'K' && sizeof(economics::currencies::HRK.code) == 3);)
OBLIGATION(minor_units_HRK, "esl/economics/currencies.hpp: currencies::HRK (minor units)", (), require(economics::currencies::HRK.denominator == 100);)
OBLIGATION(currency_name_HRK, "esl/economics/currencies.hpp: currency_name (HRK)", (), require(is(currency('H', 'R', 'K'), "Kuna")); require(is(economics::currency_name<text>(economics::currencies::HRK), "Kuna"));)
OBLIGATION(currency_HTG, "esl/economics/currencies.hpp: currencies::HTG", (), require(economics::currencies::HTG.code[0] == 'H' && economics::currencies::HTG.code[1] == 'T' && economics::currencies::HTG.code[2] == 'G' && sizeof(economics::currencies::HTG.code) == 3);)
OBLIGATION(minor_units_HTG, "esl/economics/currencies.hpp: currencies::HTG (minor units)", (), require(economics::currencies::HTG.denominator == 100);)
OBLIGATION(currency_name_HTG, "esl/economics/currencies.hpp: currency_name (HTG)", (), require(is(currency('H', 'T', 'G'), "Gourde")); require(is(economics::currency_name<text>(economics::currencies::HTG), "Gourde"));)
OBLIGATION(currency_HUF, "esl/economics/currencies.hpp: currencies::HUF", (), require(economics::currencies::HUF.code[0] == 'H' && economics::currencies::HUF.code[1] == 'U' && economics::currencies::HUF.code[2] == 'F' && sizeof(economics::currencies::HUF.code) == 3);)
OBLIGATION(minor_units_HUF, "esl/economics/currencies.hpp: currencies::HUF (minor units)", (), require(economics::currencies::HUF.denominator == 100);)
OBLIGATION(currency_name_HUF, "esl/economics/currencies.hpp: currency_name (HUF)", (), require(is(currency('H', 'U', 'F'), "Forint")); require(is(economics::currency_name<text>(economics::currencies::HUF), "Forint"));)
OBLIGATION(currency_IDR, "esl/economics/currencies.hpp: currencies::IDR", (), require(economics::currencies::IDR.code[0] == 'I' && economics::currencies::IDR.code[1] == 'D' && economics::currencies::IDR.code[2] == 'R' && sizeof(economics::currencies::IDR.code) == 3);)
OBLIGATION(minor_units_IDR, "esl/economics/currencies.hpp: currencies::IDR (minor units)", (), require(economics::currencies::IDR.denominator == 100);)
OBLIGATION(currency_name_IDR, "esl/economics/currencies.hpp: currency_name (IDR)", (), require(is(currency('I', 'D', 'R'), "Rupiah")); require(is(economics::currency_name<text>(economics::currencies::IDR), "Rupiah"));)
OBLIGATION(currency_ILS, "esl/economics/currencies.hpp: currencies::ILS", (), require(economics::currencies::ILS.code[0] == 'I' && economics::currencies::ILS.code[1] == 'L' && economics::currencies::ILS.code[2] == 'S' && sizeof(economics::currencies::ILS.code) == 3);)
OBLIGATION(minor_units_ILS, "esl/economics/currencies.hpp: currencies::ILS (minor units)", (), require(economics::currencies::ILS.denominator == 100);)
OBLIGATION(currency_name_ILS, "esl/economics/currencies.hpp: currency_name (ILS)", (), require(is(currency('I', 'L', 'S'), "New Israeli Sheqel")); require(is(economics::currency_name<text>(economics::currencies::ILS), "New Israeli Sheqel"));)
OBLIGATION(currency_INR, "esl/economics/currencies.hpp: currencies::INR", (), require(economics::currencies::INR.code[0] == 'I' && economics::currencies::INR.code[1] == 'N' && economics::currencies::INR.code[2] == 'R' && sizeof(economics::currencies::INR.code) == 3);)
OBLIGATION(minor_units_INR, "esl/economics/currencies.hpp: currencies::INR (minor units)", (), require(economics::currencies::INR.denominator == 100);)
OBLIGATION(currency_name_INR, "esl/economics/currencies.hpp: currency_name (INR)", (), require(is(currency('I', 'N', 'R'), "Indian Rupee")); require(is(economics::currency_name<text>(economics::currencies::INR), "Indian Rupee"));)
OBLIGATION(currency_IQD, "esl/economics/currencies.hpp: currencies::IQD", (), require(economics::currencies::IQD.code[0] == 'I' && economics::currencies::IQD.code[1] == 'Q' && economics::currencies::IQD.code[2] == 'D' && sizeof(economics::currencies::IQD.code) == 3);)
OBLIGATION(minor_units_IQD, "esl/economics/currencies.hpp: currencies::IQD (minor units)", (), require(economics::currencies::IQD.denominator == 1000);)
OBLIGATION(currency_name_IQD, "esl/economics/currencies.hpp: currency_name (IQD)", (), require(is(currency('I', 'Q', 'D'), "Iraqi Dinar")); require(is(economics::currency_name<text>(economics::currencies::IQD), "Iraqi Dinar"));)
OBLIGATION(currency_IRR, "esl/economics/currencies.hpp: currencies::IRR", (), require(economics::currencies::IRR.code[0] == 'I' && economics::currencies::IRR.code[1] == 'R' && economics::currencies::IRR.code[2] == 'R' && sizeof(economics::currencies::IRR.code) == 3);)
OBLIGATION(minor_units_IRR, "esl/economics/currencies.hpp: currencies::IRR (minor units)", (), require(economics::currencies::IRR.denominator == 100);)
OBLIGATION(currency_name_IRR, "esl/economics/currencies.hpp: currency_name (IRR)", (), require(is(currency('I', 'R', 'R'), "Iranian Rial")); require(is(economics::currency_name<text>(economics::currencies::IRR), "Iranian Rial"));)
OBLIGATION(currency_ISK, "esl/economics/currencies.hpp: currencies::ISK", (), require(economics::currencies::ISK.code[0] == 'I' && economics::currencies::ISK.code[1] == 'S' && economics::currencies::ISK.code[2] == 'K' && sizeof(economics::currencies::ISK.code) == 3);)
OBLIGATION(minor_units_ISK, "esl/economics/currencies.hpp: currencies::ISK (minor units)", (), require(economics::currencies::ISK.denominator == 1);)
OBLIGATION(currency_name_ISK, "esl/economics/currencies.hpp: currency_name (ISK)", (), require(is(currency('I', 'S', 'K'), "Iceland Krona")); require(is(economics::currency_name<text>(economics::currencies::ISK), "Iceland Krona"));)
OBLIGATION(currency_JMD, "esl/economics/currencies.hpp: currencies::JMD", (), require(economics::currencies::JMD.code[0] == 'J' && economics::currencies::JMD.code[1] == 'M' && economics::currencies::JMD.code[2] == 'D' && sizeof(economics::currencies::JMD.code) == 3);)
OBLIGATION(minor_units_JMD, "esl/economics/currencies.hpp: currencies::JMD (minor units)", (), require(economics::currencies::JMD.denominator == 100);)
OBLIGATION(currency_name_JMD, "esl/economics/currencies.hpp: currency_name (JMD)", (), require(is(currency('J', 'M', 'D'), "Jamaican Dollar")); require(is(economics::currency_name<text>(economics::currencies::JMD), "Jamaican Dollar"));)
OBLIGATION(currency_JOD, "esl/economics/currencies.hpp: currencies::JOD", (), require(economics::currencies::JOD.code[0] == 'J' && economics::currencies::JOD.code[1] == 'O' && economics::currencies::JOD.code[2] == 'D' && sizeof(economics::currencies::JOD.code) == 3);)
OBLIGATION(minor_units_JOD, "esl/economics/currencies.hpp: currencies::JOD (minor units)", (), require(economics::currencies::JOD.denominator == 1000);)
OBLIGATION(currency_name_JOD, "esl/economics/currencies.hpp: currency_name (JOD)", (), require(is(currency('J', 'O', 'D'), "Jordanian Dinar")); require(is(economics::currency_name<text>(economics::currencies::JOD), "Jordanian Dinar"));)
OBLIGATION(currency_JPY, "esl/economics/currencies.hpp: currencies::JPY", (), require(economics::currencies::JPY.code[0] == 'J' && economics::currencies::JPY.code[1] == 'P' && economics::currencies::JPY.code[2] == 'Y' && sizeof(economics::currencies::JPY.code) == 3);)
OBLIGATION(minor_units_JPY, "esl/economics/currencies.hpp: currencies::JPY (minor units)", (), require(economics::currencies::JPY.denominator == 1);)
OBLIGATION(currency_name_JPY, "esl/economics/currencies.hpp: currency_name (JPY)", (), require(is(currency('J', 'P', 'Y'), "Yen")); require(is(economics::currency_name<text>(economics::currencies::JPY), "Yen"));)
OBLIGATION(currency_KES, "esl/economics/currencies.hpp: currencies::KES", (), require(economics::currencies::KES.code[0] == 'K' && economics::currencies::KES.code[1] == 'E' && economics::currencies::KES.code[2] == 'S' && sizeof(economics::currencies::KES.code) == 3);)
OBLIGATION(minor_units_KES, "esl/economics/currencies.hpp: currencies::KES (minor units)", (), require(economics::currencies::KES.denominator == 100);)
OBLIGATION(currency_name_KES, "esl/economics/currencies.hpp: currency_name (KES)", (), require(is(currency('K', 'E', 'S'), "Kenyan Shilling")); require(is(economics::currency_name<text>(economics::currencies::KES), "Kenyan Shilling"));)
OBLIGATION(currency_KGS, "esl/economics/currencies.hpp: currencies::KGS", (), require(economics::currencies::KGS.code[0] == 'K' && economics::currencies::KGS.code[1] == 'G' && economics::currencies::KGS.code[2] == 'S' && sizeof(economics::currencies::KGS.code) == 3);)
OBLIGATION(minor_units_KGS, "esl/economics/currencies.hpp: currencies::KGS (minor units)", (), require(economics::currencies::KGS.denominator == 100);)
OBLIGATION(currency_name_KGS, "esl/economics/currencies.hpp: currency_name (KGS)", (), require(is(currency('K', 'G', 'S'), "Som")); require(is(economics::currency_name<text>(economics::currencies::KGS), "Som"));)
OBLIGATION(currency_KHR, "esl/economics/currencies.hpp: currencies::KHR", (), require(economics::currencies::KHR.code[0] == 'K' && economics::currencies::KHR.code[1] == 'H' && economics::currencies::KHR.code[2] == 'R' && sizeof(economics::currencies::KHR.code) == 3);)
OBLIGATION(minor_units_KHR, "esl/economics/currencies.hpp: currencies::KHR (minor units)", (), require(economics::currencies::KHR.denominator == 100);)
OBLIGATION(currency_name_KHR, "esl/economics/currencies.hpp: currency_name (KHR)", (), require(is(currency('K', 'H', 'R'), "Riel")); require(is(economics::currency_name<text>(economics::currencies::KHR), "Riel"));)
OBLIGATION(currency_KMF, "esl/economics/currencies.hpp: currencies::KMF", (), require(economics::currencies::KMF.code[0] == 'K' && economics::currencies::KMF.code[1] == 'M' && economics::currencies::KMF.code[2] == 'F' && sizeof(economics::currencies::KMF.code) == 3);)
OBLIGATION(minor_units_KMF, "esl/economics/currencies.hpp: currencies::KMF (minor units)", (), require(economics::currencies::KMF.denominator == 1);)
OBLIGATION(currency_name_KMF, "esl/economics/currencies.hpp: currency_name (KMF)", (), require(is(currency('K', 'M', 'F'), "Comorian Franc ")); require(is(economics::currency_name<text>(economics::currencies::KMF), "Comorian Franc "));)
OBLIGATION(currency_KPW, "esl/economics/currencies.hpp: currencies::KPW", (), require(economics::currencies::KPW.code[0] == 'K' && economics::currencies::KPW.code[1] == 'P' && economics::currencies::KPW.code[2] == 'W' && sizeof(economics::currencies::KPW.code) == 3);)
OBLIGATION(minor_units_KPW, "esl/economics/currencies.hpp: currencies::KPW (minor units)", (), require(economics::currencies::KPW.denominator == 100);)
OBLIGATION(currency_name_KPW, "esl/economics/currencies.hpp: currency_name (KPW)", (), require(is(currency('K', 'P', 'W'), "North Korean Won")); require(is(economics::currency_name<text>(economics::currencies::KPW), "North Korean Won"));)
OBLIGATION(currency_KRW, "esl/economics/currencies.hpp: currencies::KRW", (), require(economics::currencies::KRW.code[0] == 'K' && economics::currencies::KRW.code[1] == 'R' && economics::currencies::KRW.code[2] == 'W' && sizeof(economics::currencies::KRW.code) == 3);)
OBLIGATION(minor_units_KRW, "esl/economics/currencies.hpp: currencies::KRW (minor units)", (), require(economics::currencies::KRW.denominator == 1);)
OBLIGATION(currency_name_KRW, "esl/economics/currencies.hpp: currency_name (KRW)", (), require(is(currency('K', 'R', 'W'), "Won")); require(is(economics::currency_name<text>(economics::currencies::KRW), "Won"));)
OBLIGATION(currency_KWD, "esl/economics/currencies.hpp: currencies::KWD", (), require(economics::currencies::KWD.code[0] == 'K' && economics::currencies::KWD.code[1] == 'W' && economics::currencies::KWD.code[2] == 'D' && sizeof(economics::currencies::KWD.code) == 3);)
OBLIGATION(minor_units_KWD, "esl/economics/currencies.hpp: currencies::KWD (minor units)", (), require(economics::currencies::KWD.denominator == 1000);)
OBLIGATION(currency_name_KWD, "esl/economics/currencies.hpp: currency_name (KWD)", (), require(is(currency('K', 'W', 'D'), "Kuwaiti Dinar")); require(is(economics::currency_name<text>(economics::currencies::KWD), "Kuwaiti Dinar"));)
OBLIGATION(currency_KYD, "esl/economics/currencies.hpp: currencies::KYD", (), require(economics::currencies::KYD.code[0] == 'K' && economics::currencies::KYD.code[1] == 'Y' && economics::currencies::KYD.code[2] == 'D' && sizeof(economics::currencies::KYD.code) == 3);)
OBLIGATION(minor_units_KYD, "esl/economics/currencies.hpp: currencies::KYD (minor units)", (), require(economics::currencies::KYD.denominator == 100);)
OBLIGATION(currency_name_KYD, "esl/economics/currencies.hpp: currency_name (KYD)", (), require(is(currency('K', 'Y', 'D'), "Cayman Islands Dollar")); require(is(economics::currency_name<text>(economics::currencies::KYD), "Cayman Islands Dollar"));)
OBLIGATION(currency_KZT, "esl/economics/currencies.hpp: currencies::KZT", (), require(economics::currencies::KZT.code[0] == 'K' && economics::currencies::KZT.code[1] == 'Z' && economics::currencies::KZT.code[2] == 'T' && sizeof(economics::currencies::KZT.code) == 3);)
OBLIGATION(minor_units_KZT, "esl/economics/currencies.hpp: currencies::KZT (minor units)", (), require(economics::currencies::KZT.denominator == 100);)
OBLIGATION(currency_name_KZT, "esl/economics/currencies.hpp: currency_name (KZT)", (), require(is(currency('K', 'Z', 'T'), "Tenge")); require(is(economics::currency_name<text>(economics::currencies::KZT), "Tenge"));)
OBLIGATION(currency_LAK, "esl/economics/currencies.hpp: currencies::LAK", (), require(economics::currencies::LAK.code[0] == 'L' && economics::currencies::LAK.code[1] == 'A' && economics::currencies::LAK.code[2] == 'K' && sizeof(economics::currencies::LAK.code) == 3);)
OBLIGATION(minor_units_LAK, "esl/economics/currencies.hpp: currencies::LAK (minor units)", (), require(economics::currencies::LAK.denominator == 100);)
OBLIGATION(currency_name_LAK, "esl/economics/currencies.hpp: currency_name (LAK)", (), require(is(currency('L', 'A', 'K'), "Lao Kip")); require(is(economics::currency_name<text>(economics::currencies::LAK), "Lao Kip"));)
OBLIGATION(currency_LBP, "esl/economics/currencies.hpp: currencies::LBP", (), require(economics::currencies::LBP.code[0] == 'L' && economics::currencies::LBP.code[1] == 'B' && economics::currencies::LBP.code[2] == 'P' && sizeof(economics::currencies::LBP.code) == 3);)
OBLIGATION(minor_units_LBP, "esl/economics/currencies.hpp: currencies::LBP (minor units)", (), require(economics::currencies::LBP.denominator == 100);)
OBLIGATION(currency_name_LBP, "esl/economics/currencies.hpp: currency_name (LBP)", (), require(is(currency('L', 'B', 'P'), "Lebanese Pound")); require(is(economics::currency_name<text>(economics::currencies::LBP), "Lebanese Pound"));)
OBLIGATION(currency_LKR, "esl/economics/currencies.hpp: currencies::LKR", (), require(economics::currencies::LKR.code[0] == 'L' && economics::currencies::LKR.code[1] == 'K' && economics::currencies::LKR.code[2] == 'R' && sizeof(economics::currencies::LKR.code) == 3);)
OBLIGATION(minor_units_LKR, "esl/economics/currencies.hpp: currencies::LKR (minor units)", (), require(economics::currencies::LKR.denominator == 100);)
OBLIGATION(currency_name_LKR, "esl/economics/currencies.hpp: currency_name (LKR)", (), require(is(currency('L', 'K', 'R'), "Sri Lanka Rupee")); require(is(economics::currency_name<text>(economics::currencies::LKR), "Sri Lanka Rupee"));)
OBLIGATION(currency_LRD, "esl/economics/currencies.hpp: currencies::LRD", (), require(economics::currencies::LRD.code[0] == 'L' && economics::currencies::LRD.code[1] == 'R' && economics::currencies::LRD.code[2] == 'D' && sizeof(economics::currencies::LRD.code) == 3);)
OBLIGATION(minor_units_LRD, "esl/economics/currencies.hpp: currencies::LRD (minor units)", (), require(economics::currencies::LRD.denominator == 100);)
OBLIGATION(currency_name_LRD, "esl/economics/currencies.hpp: currency_name (LRD)", (), require(is(currency('L', 'R', 'D'), "Liberian Dollar")); require(is(economics::currency_name<text>(economics::currencies::LRD), "Liberian Dollar"));)
OBLIGATION(currency_LSL, "esl/economics/currencies.hpp: currencies::LSL", (), require(economics::currencies::LSL.code[0] == 'L' && economics::currencies::LSL.code[1] == 'S' && economics::currencies::LSL.code[2] == 'L' && sizeof(economics::currencies::LSL.code) == 3);)
OBLIGATION(minor_units_LSL, "esl/economics/currencies.hpp: currencies::LSL (minor units)", (), require(economics::currencies::LSL.denominator == 100);)
OBLIGATION(currency_name_LSL, "esl/economics/currencies.hpp: currency_name (LSL)", (), require(is(currency('L', 'S', 'L'), "Loti")); require(is(economics::currency_name<text>(economics::currencies::LSL), "Loti"));)
OBLIGATION(currency_LYD, "esl/economics/currencies.hpp: currencies::LYD", (), require(economics::currencies::LYD.code[0] == 'L' && economics::currencies::LYD.code[1] == 'Y' && economics::currencies::LYD.code[2] == 'D' && sizeof(economics::currencies::LYD.code) == 3);)
OBLIGATION(minor_units_LYD, "esl/economics/currencies.hpp: currencies::LYD (minor units)", (), require(economics::currencies::LYD.denominator == 1000);)
OBLIGATION(currency_name_LYD, "esl/economics/currencies.hpp: currency_name (LYD)", (), require(is(currency('L', 'Y', 'D'), "Libyan Dinar")); require(is(economics::currency_name<text>(economics::currencies::LYD), "Libyan Dinar"));)
OBLIGATION(currency_MAD, "esl/economics/currencies.hpp: currencies::MAD", (), require(economics::currencies::MAD.code[0] == 'M' && economics::currencies::MAD.code[1] == 'A' && economics::currencies::MAD.code[2] == 'D' && sizeof(economics::currencies::MAD.code) == 3);)
OBLIGATION(minor_units_MAD, "esl/economics/currencies.hpp: currencies::MAD (minor units)", (), require(economics::currencies::MAD.denominator == 100);)
OBLIGATION(currency_name_MAD, "esl/economics/currencies.hpp: currency_name (MAD)", (), require(is(currency('M', 'A', 'D'), "Moroccan Dirham")); require(is(economics::currency_name<text>(economics::currencies::MAD), "Moroccan Dirham"));)
OBLIGATION(currency_MDL, "esl/economics/currencies.hpp: currencies::MDL", (), require(economics::currencies::MDL.code[0] == 'M' && economics::currencies::MDL.code[1] == 'D' && economics::currencies::MDL.code[2] == 'L' && sizeof(economics::currencies::MDL.code) == 3);)
OBLIGATION(minor_units_MDL, "esl/economics/currencies.hpp: currencies::MDL (minor units)", (), require(economics::currencies::MDL.denominator == 100);)
OBLIGATION(currency_name_MDL, "esl/economics/currencies.hpp: currency_name (MDL)", (), require(is(currency('M', 'D', 'L'), "Moldovan Leu")); require(is(economics::currency_name<text>(economics::currencies::MDL), "Moldovan Leu"));)
OBLIGATION(currency_MGA, "esl/economics/currencies.hpp: currencies::MGA", (), require(economics::currencies::MGA.code[0] == 'M' && economics::currencies::MGA.code[1] == 'G' && economics::currencies::MGA.code[2] == 'A' && sizeof(economics::currencies::MGA.code) == 3);)
OBLIGATION(minor_units_MGA, "esl/economics/currencies.hpp: currencies::MGA (minor units)", (), require(economics::currencies::MGA.denominator == 100);)
OBLIGATION(currency_name_MGA, "esl/economics/currencies.hpp: currency_name (MGA)", (), require(is(currency('M', 'G', 'A'), "Malagasy Ariary")); require(is(economics::currency_name<text>(economics::currencies::MGA), "Malagasy Ariary"));)
OBLIGATION(currency_MKD, "esl/economics/currencies.hpp: currencies::MKD", (), require(economics::currencies::MKD.code[0] == 'M' && economics::currencies::MKD.code[1] == 'K' && economics::currencies::MKD.code[2] == 'D' && sizeof(economics::currencies::MKD.code) == 3);)
OBLIGATION(minor_units_MKD, "esl/economics/currencies.hpp: currencies::MKD (minor units)", (), require(economics::currencies::MKD.denominator == 100);)
OBLIGATION(currency_name_MKD, "esl/economics/currencies.hpp: currency_name (MKD)", (), require(is(currency('M', 'K', 'D'), "Denar")); require(is(economics::currency_name<text>(economics::currencies::MKD), "Denar"));)
OBLIGATION(currency_MMK, "esl/economics/currencies.hpp: currencies::MMK", (), require(economics::currencies::MMK.code[0] == 'M' && economics::currencies::MMK.code[1] == 'M' && economics::currencies::MMK.code[2] == 'K' && sizeof(economics::currencies::MMK.code) == 3);)
OBLIGATION(minor_units_MMK, "esl/economics/currencies.hpp: currencies::MMK (minor units)", (), require(economics::currencies::MMK.denominator == 100);)
OBLIGATION(currency_name_MMK, "esl/economics/currencies.hpp: currency_name (MMK)", (), require(is(currency('M', 'M', 'K'), "Kyat")); require(is(economics::currency_name<text>(economics::currencies::MMK), "Kyat"));)
OBLIGATION(currency_MNT, "esl/economics/currencies.hpp: currencies::MNT", (), require(economics::currencies::MNT.code[0] == 'M' && economics::currencies::MNT.code[1] == 'N' && economics::currencies::MNT.code[2] == 'T' && sizeof(economics::currencies::MNT.code) == 3);)
OBLIGATION(minor_units_MNT, "esl/economics/currencies.hpp: currencies::MNT (minor units)", (), require(economics::currencies::MNT.denominator == 100);)
OBLIGATION(currency_name_MNT, "esl/economics/currencies.hpp: currency_name (MNT)", (), require(is(currency('M', 'N', 'T'), "Tugrik")); require(is(economics::currency_name<text>(economics::currencies::MNT), "Tugrik"));)
OBLIGATION(currency_MOP, "esl/economics/currencies.hpp: currencies::MOP", (), require(economics::currencies::MOP.code[0] == 'M' && economics::currencies::MOP.code[1] == 'O' && economics::currencies::MOP.code[2] == 'P' && sizeof(economics::currencies::MOP.code) == 3);)
OBLIGATION(minor_units_MOP, "esl/economics/currencies.hpp: currencies::MOP (minor units)", (), require(economics::currencies::MOP.denominator == 100);)
OBLIGATION(currency_name_MOP, "esl/economics/currencies.hpp: currency_name (MOP)", (), require(is(currency('M', 'O', 'P'), "Pataca")); require(is(economics::currency_name<text>(economics::currencies::MOP), "Pataca"));)
OBLIGATION(currency_MRU, "esl/economics/currencies.hpp: currencies::MRU", (), require(economics::currencies::MRU.code[0] == 'M' && economics::currencies::MRU.code[1] == 'R' && economics::currencies::MRU.code[2] == 'U' && sizeof(economics::currencies::MRU.code) == 3);)
OBLIGATION(minor_units_MRU, "esl/economics/currencies.hpp: currencies::MRU (minor units)", (), require(economics::currencies::MRU.denominator == 100);)
OBLIGATION(currency_name_MRU, "esl/economics/currencies.hpp: currency_name (MRU)", (), require(is(currency('M', 'R', 'U'), "Ouguiya")); require(is(economics::currency_name<text>(economics::currencies::MRU), "Ouguiya"));)
OBLIGATION(currency_MUR, "esl/economics/currencies.hpp: currencies::MUR", (), require(economics::currencies::MUR.code[0] == 'M' && economics::currencies::MUR.code[1] == 'U' && economics::currencies::MUR.code[2] == 'R' && sizeof(economics::currencies::MUR.code) == 3);)
OBLIGATION(minor_units_MUR, "esl/economics/currencies.hpp: currencies::MUR (minor units)", (), require(economics::currencies::MUR.denominator == 100);)
OBLIGATION(currency_name_MUR, "esl/economics/currencies.hpp: currency_name (MUR)", (), require(is(currency('M', 'U', 'R'), "Mauritius Rupee")); require(is(economics::currency_name<text>(economics::currencies::MUR), "Mauritius Rupee"));)
OBLIGATION(currency_MVR, "esl/economics/currencies.hpp: currencies::MVR", (), require(economics::currencies::MVR.code[0] == 'M' && economics::currencies::MVR.code[1] == 'V' && economics::currencies::MVR.code[2] == 'R' && sizeof(economics::currencies::MVR.code) == 3);)
OBLIGATION(minor_units_MVR, "esl/economics/currencies.hpp: currencies::MVR (minor units)", (), require(economics::currencies::MVR.denominator == 100);)
OBLIGATION(currency_name_MVR, "esl/economics/currencies.hpp: currency_name (MVR)", (), require(is(currency('M', 'V', 'R'), "Rufiyaa")); require(is(economics::currency_name<text>(economics::currencies::MVR), "Rufiyaa"));)
OBLIGATION(currency_MWK, "esl/economics/currencies.hpp: currencies::MWK", (), require(economics::currencies::MWK.code[0] == 'M' && economics::currencies::MWK.code[1] == 'W' && economics::currencies::MWK.code[2] == 'K' && sizeof(economics::currencies::MWK.code) == 3);)
OBLIGATION(minor_units_MWK, "esl/economics/currencies.hpp: currencies::MWK (minor units)", (), require(economics::currencies::MWK.denominator == 100);)
OBLIGATION(currency_name_MWK, "esl/economics/currencies.hpp: currency_name (MWK)", (), require(is(currency('M', 'W', 'K'), "Malawi Kwacha")); require(is(economics::currency_name<text>(economics::currencies::MWK), "Malawi Kwacha"));)
OBLIGATION(currency_MXN, "esl/economics/currencies.hpp: currencies::MXN", (), require(economics::currencies::MXN.code[0] == 'M' && economics::currencies::MXN.code[1] == 'X' && economics::currencies::MXN.code[2] == 'N' && sizeof(economics::currencies::MXN.code) == 3);)
OBLIGATION(minor_units_MXN, "esl/economics/currencies.hpp: currencies::MXN (minor units)", (), require(economics::currencies::MXN.denominator == 100);)
OBLIGATION(currency_name_MXN, "esl/economics/currencies.hpp: currency_name (MXN)", (), require(is(currency('M', 'X', 'N'), "Mexican Peso")); require(is(economics::currency_name<text>(economics::currencies::MXN), "Mexican Peso"));)
OBLIGATION(currency_MXV, "esl/economics/currencies.hpp: currencies::MXV", (), require(economics::currencies::MXV.code[0] == 'M' && economics::currencies::MXV.code[1] == 'X' && economics::currencies::MXV.code[2] == 'V' && sizeof(economics::currencies::MXV.code) == 3);)
OBLIGATION(minor_units_MXV, "esl/economics/currencies.hpp: currencies::MXV (minor units)", (), require(economics::currencies::MXV.denominator == 100);)
OBLIGATION(currency_name_MXV, "esl/economics/currencies.hpp: currency_name (MXV)", (), require(is(currency('M', 'X', 'V'), "Mexican Unidad de Inversion (UDI)")); require(is(economics::currency_name<text>(economics::currencies::MXV), "Mexican Unidad de Inversion (UDI)"));)
OBLIGATION(currency_MYR, "esl/economics/currencies.hpp: currencies::MYR", (), require(economics::currencies::MYR.code[0] == 'M' && economics::currencies::MYR.code[1] == 'Y' && economics::currencies::MYR.code[2] == 'R' && sizeof(economics::currencies::MYR.code) == 3);)
OBLIGATION(minor_units_MYR, "esl/economics/currencies.hpp: currencies::MYR (minor units)", (), require(economics::currencies::MYR.denominator == 100);)
OBLIGATION(currency_name_MYR, "esl/economics/currencies.hpp: currency_name (MYR)", (), require(is(currency('M', 'Y', 'R'), "Malaysian Ringgit")); require(is(economics::currency_name<text>(economics::currencies::MYR), "Malaysian Ringgit"));)
OBLIGATION(currency_MZN, "esl/economics/currencies.hpp: currencies::MZN", (), require(economics::currencies::MZN.code[0] == 'M' && economics::currencies::MZN.code[1] == 'Z' && economics::currencies::MZN.code[2] == 'N' && sizeof(economics::currencies::MZN.code) == 3);)
OBLIGATION(minor_units_MZN, "esl/economics/currencies.hpp: currencies::MZN (minor units)", (), require(economics::currencies::MZN.denominator == 100);)
OBLIGATION(currency_name_MZN, "esl/economics/currencies.hpp: currency_name (MZN)", (), require(is(currency('M', 'Z', 'N'), "Mozambique Metical")); require(is(economics::currency_name<text>(economics::currencies::MZN), "Mozambique Metical"));)
OBLIGATION(currency_NAD, "esl/economics/currencies.hpp: currencies::NAD", (), require(economics::currencies::NAD.code[0] == 'N' && economics::currencies::NAD.code[1] == 'A' && economics::currencies::NAD.code[2] == 'D' && sizeof(economics::currencies::NAD.code) == 3);)
OBLIGATION(minor_units_NAD, "esl/economics/currencies.hpp: currencies::NAD (minor units)", (), require(economics::currencies::NAD.denominator == 100);)
OBLIGATION(currency_name_NAD, "esl/economics/currencies.hpp: currency_name (NAD)", (), require(is(currency('N', 'A', 'D'), "Namibia Dollar")); require(is(economics::currency_name<text>(economics::currencies::NAD), "Namibia Dollar"));)
OBLIGATION(currency_NGN, "esl/economics/currencies.hpp: currencies::NGN", (), require(economics::currencies::NGN.code[0] == 'N' && economics::currencies::NGN.code[1] == 'G' && economics::currencies::NGN.code[2] == 'N' && sizeof(economics::currencies::NGN.code) == 3);)
OBLIGATION(minor_units_NGN, "esl/economics/currencies.hpp: currencies::NGN (minor units)", (), require(economics::currencies::NGN.denominator == 100);)
OBLIGATION(currency_name_NGN, "esl/economics/currencies.hpp: currency_name (NGN)", (), require(is(currency('N', 'G', 'N'), "Naira")); require(is(economics::currency_name<text>(economics::currencies::NGN), "Naira"));)
OBLIGATION(currency_NIO, "esl/economics/currencies.hpp: currencies::NIO", (), require(economics::currencies::NIO.code[0] == 'N' && economics::currencies::NIO.code[1] == 'I' && economics::currencies::NIO.code[2] == 'O' && sizeof(economics::currencies::NIO.code) == 3);)
OBLIGATION(minor_units_NIO, "esl/economics/currencies.hpp: currencies::NIO (minor units)", (), require(economics::currencies::NIO.denominator == 100);)
OBLIGATION(currency_name_NIO, "esl/economics/currencies.hpp: currency_name (NIO)", (), require(is(currency('N', 'I', 'O'), "Cordoba Oro")); require(is(economics::currency_name<text>(economics::currencies::NIO), "Cordoba Oro"));)
OBLIGATION(currency_NOK, "esl/economics/currencies.hpp: currencies::NOK", (), require(economics::currencies::NOK.code[0] == 'N' && economics::currencies::NOK.code[1] == 'O' && economics::currencies::NOK.code[2] == 'K' && sizeof(economics::currencies::NOK.code) == 3);)
OBLIGATION(minor_units_NOK, "esl/economics/currencies.hpp: currencies::NOK (minor units)", (), require(economics::currencies::NOK.denominator == 100);)
OBLIGATION(currency_name_NOK, "esl/economics/currencies.hpp: currency_name (NOK)", (), require(is(currency('N', 'O', 'K'), "Norwegian Krone")); require(is(economics::currency_name<text>(economics::currencies::NOK), "Norwegian Krone"));)
OBLIGATION(currency_NPR, "esl/economics/currencies.hpp: currencies::NPR", (), require(economics::currencies::NPR.code[0] == 'N' && economics::currencies::NPR.code[1] == 'P' && economics::currencies::NPR.code[2] == 'R' && sizeof(economics::currencies::NPR.code) == 3);)
OBLIGATION(minor_units_NPR, "esl/economics/currencies.hpp: currencies::NPR (minor units)", (), require(economics::currencies::NPR.denominator == 100);)
OBLIGATION(currency_name_NPR, "esl/economics/currencies.hpp: currency_name (NPR)", (), require(is(currency('N', 'P', 'R'), "Nepalese Rupee")); require(is(economics::currency_name<text>(economics::currencies::NPR), "Nepalese Rupee"));)
OBLIGATION(currency_NZD, "esl/economics/currencies.hpp: currencies::NZD", (), require(economics::currencies::NZD.code[0] == 'N' && economics::currencies::NZD.code[1] == 'Z' && economics::currencies::NZD.code[2] == 'D' && sizeof(economics::currencies::NZD.code) == 3);)
OBLIGATION(minor_units_NZD, "esl/economics/currencies.hpp: currencies::NZD (minor units)", (), require(economics::currencies::NZD.denominator == 100);)
OBLIGATION(currency_name_NZD, "esl/economics/currencies.hpp: currency_name (NZD)", (), require(is(currency('N', 'Z', 'D'), "New Zealand Dollar")); require(is(economics::currency_name<text>(economics::currencies::NZD), "New Zealand Dollar"));)
OBLIGATION(currency_OMR, "esl/economics/currencies.hpp: currencies::OMR", (), require(economics::currencies::OMR.code[0] == 'O' && economics::currencies::OMR.code[1] == 'M' && economics::currencies::OMR.code[2] == 'R' && sizeof(economics::currencies::OMR.code) == 3);)
OBLIGATION(minor_units_OMR, "esl/economics/currencies.hpp: currencies::OMR (minor units)", (), require(economics::currencies::OMR.denominator == 1000);)
OBLIGATION(currency_name_OMR, "esl/economics/currencies.hpp: currency_name (OMR)", (), require(is(currency('O', 'M', 'R'), "Rial Omani")); require(is(economics::currency_name<text>(economics::currencies::OMR), "Rial Omani"));)
OBLIGATION(currency_PAB, "esl/economics/currencies.hpp: currencies::PAB", (), require(economics::currencies::PAB.code[0] == 'P' && economics::currencies::PAB.code[1] == 'A' && economics::currencies::PAB.code[2] == 'B' && sizeof(economics::currencies::PAB.code) == 3);)
OBLIGATION(minor_units_PAB, "esl/economics/currencies.hpp: currencies::PAB (minor units)", (), require(economics::currencies::PAB.denominator == 100);)
OBLIGATION(currency_name_PAB, "esl/economics/currencies.hpp: currency_name (PAB)", (), require(is(currency('P', 'A', 'B'), "Balboa")); require(is(economics::currency_name<text>(economics::currencies::PAB), "Balboa"));)
OBLIGATION(currency_PEN, "esl/economics/currencies.hpp: currencies::PEN", (), require(economics::currencies::PEN.code[0] == 'P' && economics::currencies::PEN.code[1] == 'E' && economics::currencies::PEN.code[2] == 'N' && sizeof(economics::currencies::PEN.code) == 3);)
OBLIGATION(minor_units_PEN, "esl/economics/currencies.hpp: currencies::PEN (minor units)", (), require(economics::currencies::PEN.denominator == 100);)
OBLIGATION(currency_name_PEN, "esl/economics/currencies.hpp: currency_name (PEN)", (), require(is(currency('P', 'E', 'N'), "Sol")); require(is(economics::currency_name<text>(economics::currencies::PEN), "Sol"));)
OBLIGATION(currency_PGK, "esl/economics/currencies.hpp: currencies::PGK", (), require(economics::currencies::PGK.code[0] == 'P' && economics::currencies::PGK.code[1] == 'G' && economics::currencies::PGK.code[2] == 'K' && sizeof(economics::currencies::PGK.code) == 3);)
OBLIGATION(minor_units_PGK, "esl/economics/currencies.hpp: currencies::PGK (minor units)", (), require(economics::currencies::PGK.denominator == 100);)
OBLIGATION(currency_name_PGK, "esl/economics/currencies.hpp: currency_name (PGK)", (), require(is(currency('P', 'G', 'K'), "Kina")); require(is(economics::currency_name<text>(economics::currencies::PGK), "Kina"));)
OBLIGATION(currency_PHP, "esl/economics/currencies.hpp: currencies::PHP", (), require(economics::currencies::PHP.code[0] == 'P' && economics::currencies::PHP.code[1] == 'H' && economics::currencies::PHP.code[2] == 'P' && sizeof(economics::currencies::PHP.code) == 3);)
OBLIGATION(minor_units_PHP, "esl/economics/currencies.hpp: currencies::PHP (minor units)", (), require(economics::currencies::PHP.denominator == 100);)
OBLIGATION(currency_name_PHP, "esl/economics/currencies.hpp: currency_name (PHP)", (), require(is(currency('P', 'H', 'P'), "Philippine Piso")); require(is(economics::currency_name<text>(economics::currencies::PHP), "Philippine Piso"));)
OBLIGATION(currency_PKR, "esl/economics/currencies.hpp: currencies::PKR", (), require(economics::currencies::PKR.code[0] == 'P' && economics::currencies::PKR.code[1] == 'K' && economics::currencies::PKR.code[2] == 'R' && sizeof(economics::currencies::PKR.code) == 3);)
OBLIGATION(minor_units_PKR, "esl/economics/currencies.hpp: currencies::PKR (minor units)", (), require(economics::currencies::PKR.denominator == 100);)
OBLIGATION(currency_name_PKR, "esl/economics/currencies.hpp: currency_name (PKR)", (), require(is(currency('P', 'K', 'R'), "Pakistan Rupee")); require(is(economics::currency_name<text>(economics::currencies::PKR), "Pakistan Rupee"));)
OBLIGATION(currency_PLN, "esl/economics/currencies.hpp: currencies::PLN", (), require(economics::currencies::PLN.code[0] == 'P' && economics::currencies::PLN.code[1] == 'L' && economics::currencies::PLN.code[2] == 'N' && sizeof(economics::currencies::PLN.code) == 3);)
OBLIGATION(minor_units_PLN, "esl/economics/currencies.hpp: currencies::PLN (minor units)", (), require(economics::currencies::PLN.denominator == 100);)
OBLIGATION(currency_name_PLN, "esl/economics/currencies.hpp: currency_name (PLN)", (), require(is(currency('P', 'L', 'N'), "Zloty")); require(is(economics::currency_name<text>(economics::currencies::PLN), "Zloty"));)
OBLIGATION(currency_PYG, "esl/economics/currencies.hpp: currencies::PYG", (), require(economics::currencies::PYG.code[0] == 'P' && economics::currencies::PYG.code[1] == 'Y' && economics::currencies::PYG.code[2] == 'G' && sizeof(economics::currencies::PYG.code) == 3);)
OBLIGATION(minor_units_PYG, "esl/economics/currencies.hpp: currencies::PYG (minor units)", (), require(economics::currencies::PYG.denominator == 1);)
OBLIGATION(currency_name_PYG, "esl/economics/currencies.hpp: currency_name (PYG)", (), require(is(currency('P', 'Y', 'G'), "Guarani")); require(is(economics::currency_name<text>(economics::currencies::PYG), "Guarani"));)
OBLIGATION(currency_QAR, "esl/economics/currencies.hpp: currencies::QAR", (), require(economics::currencies::QAR.code[0] == 'Q' && economics::currencies::QAR.code[1] == 'A' && economics::currencies::QAR.code[2] == 'R' && sizeof(economics::currencies::QAR.code) == 3);)
OBLIGATION(minor_units_QAR, "esl/economics/currencies.hpp: currencies::QAR (minor units)", (), require(economics::currencies::QAR.denominator == 100);)
OBLIGATION(currency_name_QAR, "esl/economics/currencies.hpp: currency_name (QAR)", (), require(is(currency('Q', 'A', 'R'), "Qatari Rial")); require(is(economics::currency_name<text>(economics::currencies::QAR), "Qatari Rial"));)
OBLIGATION(currency_RON, "esl/economics/currencies.hpp: currencies::RON", (), require(economics::currencies::RON.code[0] == 'R' && economics::currencies::RON.code[1] == 'O' && economics::currencies::RON.code[2] == 'N' && sizeof(economics::currencies::RON.code) == 3);)
OBLIGATION(minor_units_RON, "esl/economics/currencies.hpp: currencies::RON (minor units)", (), require(economics::currencies::RON.denominator == 100);)
OBLIGATION(currency_name_RON, "esl/economics/currencies.hpp: currency_name (RON)", (), require(is(currency('R', 'O', 'N'), "Romanian Leu")); require(is(economics::currency_name<text>(economics::currencies::RON), "Romanian Leu"));)
OBLIGATION(currency_RSD, "esl/economics/currencies.hpp: currencies::RSD", (), require(economics::currencies::RSD.code[0] == 'R' && economics::currencies::RSD.code[1] == 'S' && economics::currencies::RSD.code[2] == 'D' && sizeof(economics::currencies::RSD.code) == 3);)
OBLIGATION(minor_units_RSD, "esl/economics/currencies.hpp: currencies::RSD (minor units)", (), require(economics::currencies::RSD.denominator == 100);)
OBLIGATION(currency_name_RSD, "esl/economics/currencies.hpp: currency_name (RSD)", (), require(is(currency('R', 'S', 'D'), "Serbian Dinar")); require(is(economics::currency_name<text>(economics::currencies::RSD), "Serbian Dinar"));)
OBLIGATION(currency_RUB, "esl/economics/currencies.hpp: currencies::RUB", (), require(economics::currencies::RUB.code[0] == 'R' && economics::currencies::RUB.code[1] == 'U' && economics::currencies::RUB.code[2] == 'B' && sizeof(economics::currencies::RUB.code) == 3);)
OBLIGATION(minor_units_RUB, "esl/economics/currencies.hpp: currencies::RUB (minor units)", (), require(economics::currencies::RUB.denominator == 100);)
OBLIGATION(currency_name_RUB, "esl/economics/currencies.hpp: currency_name (RUB)", (), require(is(currency('R', 'U', 'B'), "Russian Ruble")); require(is(economics::currency_name<text>(economics::currencies::RUB), "Russian Ruble"));)
OBLIGATION(currency_RWF, "esl/economics/currencies.hpp: currencies::RWF", (), require(economics::currencies::RWF.code[0] == 'R' && economics::currencies::RWF.code[1] == 'W' && economics::currencies::RWF.code[2] == 'F' && sizeof(economics::currencies::RWF.code) == 3);)
OBLIGATION(minor_units_RWF, "esl/economics/currencies.hpp: currencies::RWF (minor units)", (), require(economics::currencies::RWF.denominator == 1);)
OBLIGATION(currency_name_RWF, "esl/economics/currencies.hpp: currency_name (RWF)", (), require(is(currency('R', 'W', 'F'), "Rwanda Franc")); require(is(economics::currency_name<text>(economics::currencies::RWF), "Rwanda Franc"));)
OBLIGATION(currency_SAR, "esl/economics/currencies.hpp: currencies::SAR", (), require(economics::currencies::SAR.code[0] == 'S' && economics::currencies::SAR.code[1] == 'A' && economics::currencies::SAR.code[2] == 'R' && sizeof(economics::currencies::SAR.code) == 3);)
OBLIGATION(minor_units_SAR, "esl/economics/currencies.hpp: currencies::SAR (minor units)", (), require(economics::currencies::SAR.denominator == 100);)
OBLIGATION(currency_name_SAR, "esl/economics/currencies.hpp: currency_name (SAR)", (), require(is(currency('S', 'A', 'R'), "Saudi Riyal")); require(is(economics::currency_name<text>(economics::currencies::SAR), "Saudi Riyal"));)
OBLIGATION(currency_SBD, "esl/economics/currencies.hpp: currencies::SBD", (), require(economics::currencies::SBD.code[0] == 'S' && economics::currencies::SBD.code[1] == 'B' && economics::currencies::SBD.code[2] == 'D' && sizeof(economics::currencies::SBD.code) == 3);)
OBLIGATION(minor_units_SBD, "esl/economics/currencies.hpp: currencies::SBD (minor units)", (), require(economics::currencies::SBD.denominator == 100);)
OBLIGATION(currency_name_SBD, "esl/economics/currencies.hpp: currency_name (SBD)", (), require(is(currency('S', 'B', 'D'), "Solomon Islands Dollar")); require(is(economics::currency_name<text>(economics::currencies::SBD), "Solomon Islands Dollar"));)
OBLIGATION(currency_SCR, "esl/economics/currencies.hpp: currencies::SCR", (), require(economics::currencies::SCR.code[0] == 'S' && economics::currencies::SCR.code[1] == 'C' && economics::currencies::SCR.code[2] == 'R' && sizeof(economics::currencies::SCR.code) == 3);)
OBLIGATION(minor_units_SCR, "esl/economics/currencies.hpp: currencies::SCR (minor units)", (), require(economics::currencies::SCR.denominator == 100);)
OBLIGATION(currency_name_SCR, "esl/economics/currencies.hpp: currency_name (SCR)", (), require(is(currency('S', 'C', 'R'), "Seychelles Rupee")); require(is(economics::currency_name<text>(economics::currencies::SCR), "Seychelles Rupee"));)
OBLIGATION(currency_SDG, "esl/economics/currencies.hpp: currencies::SDG", (), require(economics::currencies::SDG.code[0] == 'S' && economics::currencies::SDG.code[1] == 'D' && economics::currencies::SDG.code[2] == 'G' && sizeof(economics::currencies::SDG.code) == 3);)
OBLIGATION(minor_units_SDG, "esl/economics/currencies.hpp: currencies::SDG (minor units)", (), require(economics::currencies::SDG.denominator == 100);)
OBLIGATION(currency_name_SDG, "esl/economics/currencies.hpp: currency_name (SDG)", (), require(is(currency('S', 'D', 'G'), "Sudanese Pound")); require(is(economics::currency_name<text>(economics::currencies::SDG), "Sudanese Pound"));)
OBLIGATION(currency_SEK, "esl/economics/currencies.hpp: currencies::SEK", (), require(economics::currencies::SEK.code[0] == 'S' && economics::currencies::SEK.code[1] == 'E' && economics::currencies::SEK.code[2] == 'K' && sizeof(economics::currencies::SEK.code) == 3);)
OBLIGATION(minor_units_SEK, "esl/economics/currencies.hpp: currencies::SEK (minor units)", (), require(economics::currencies::SEK.denominator == 100);)
OBLIGATION(currency_name_SEK, "esl/economics/currencies.hpp: currency_name (SEK)", (), require(is(currency('S', 'E', 'K'), "Swedish Krona")); require(is(economics::currency_name<text>(economics::currencies::SEK), "Swedish Krona"));)
OBLIGATION(currency_SGD, "esl/economics/currencies.hpp: currencies::SGD", (), require(economics::currencies::SGD.code[0] == 'S' && economics::currencies::SGD.code[1] == 'G' && economics::currencies::SGD.code[2] == 'D' && sizeof(economics::currencies::SGD.code) == 3);)
OBLIGATION(minor_units_SGD, "esl/economics/currencies.hpp: currencies::SGD (minor units)", (), require(economics::currencies::SGD.denominator == 100);)
OBLIGATION(currency_name_SGD, "esl/economics/currencies.hpp: currency_name (SGD)", (), require(is(currency('S', 'G', 'D'), "Singapore Dollar")); require(is(economics::currency_name<text>(economics::currencies::SGD), "Singapore Dollar"));)
OBLIGATION(currency_SHP, "esl/economics/currencies.hpp: currencies::SHP", (), require(economics::currencies::SHP.code[0] == 'S' && economics::currencies::SHP.code[1] == 'H' && economics::currencies::SHP.code[2] == 'P' && sizeof(economics::currencies::SHP.code) == 3);)
OBLIGATION(minor_units_SHP, "esl/economics/currencies.hpp: currencies::SHP (minor units)", (), require(economics::currencies::SHP.denominator == 100);)
OBLIGATION(currency_name_SHP, "esl/economics/currencies.hpp: currency_name (SHP)", (), require(is(currency('S', 'H', 'P'), "Saint Helena Pound")); require(is(economics::currency_name<text>(economics::currencies::SHP), "Saint Helena Pound"));)
OBLIGATION(currency_SLL, "esl/economics/currencies.hpp: currencies::SLL", (), require(economics::currencies::SLL.code[0] == 'S' && economics::currencies::SLL.code[1] == 'L' && economics::currencies::SLL.code[2] == 'L' && sizeof(economics::currencies::SLL.code) == 3);)
OBLIGATION(minor_units_SLL, "esl/economics/currencies.hpp: currencies::SLL (minor units)", (), require(economics::currencies::SLL.denominator == 100);)
OBLIGATION(currency_name_SLL, "esl/economics/currencies.hpp: currency_name (SLL)", (), require(is(currency('S', 'L', 'L'), "Leone")); require(is(economics::currency_name<text>(economics::currencies::SLL), "Leone"));)
OBLIGATION(currency_SOS, "esl/economics/currencies.hpp: currencies::SOS", (), require(economics::currencies::SOS.code[0] == 'S' && economics::currencies::SOS.code[1] == 'O' && economics::currencies::SOS.code[2] == 'S' && sizeof(economics::currencies::SOS.code) == 3);)
OBLIGATION(minor_units_SOS, "esl/economics/currencies.hpp: currencies::SOS (minor units)", (), require(economics::currencies::SOS.denominator == 100);)
OBLIGATION(currency_name_SOS, "esl/economics/currencies.hpp: currency_name (SOS)", (), require(is(currency('S', 'O', 'S'), "Somali Shilling")); require(is(economics::currency_name<text>(economics::currencies::SOS), "Somali Shilling"));)
OBLIGATION(currency_SRD, "esl/economics/currencies.hpp: currencies::SRD", (), require(economics::currencies::SRD.code[0] == 'S' && economics::currencies::SRD.code[1] == 'R' && economics::currencies::SRD.code[2] == 'D' && sizeof(economics::currencies::SRD.code) == 3);)
OBLIGATION(minor_units_SRD, "esl/economics/currencies.hpp: currencies::SRD (minor units)", (), require(economics::currencies::SRD.denominator == 100);)
OBLIGATION(currency_name_SRD, "esl/economics/currencies.hpp: currency_name (SRD)", (), require(is(currency('S', 'R', 'D'), "Surinam Dollar")); require(is(economics::currency_name<text>(economics::currencies::SRD), "Surinam Dollar"));)
OBLIGATION(currency_SSP, "esl/economics/currencies.hpp: currencies::SSP", (), require(economics::currencies::SSP.code[0] == 'S' && economics::currencies::SSP.code[1] == 'S' && economics::currencies::SSP.code[2] == 'P' && sizeof(economics::currencies::SSP.code) == 3);)
OBLIGATION(minor_units_SSP, "esl/economics/currencies.hpp: currencies::SSP (minor units)", (), require(economics::currencies::SSP.denominator == 100);)
OBLIGATION(currency_name_SSP, "esl/economics/currencies.hpp: currency_name (SSP)", (), require(is(currency('S', 'S', 'P'), "South Sudanese Pound")); require(is(economics::currency_name<text>(economics::currencies::SSP), "South Sudanese Pound"));)
OBLIGATION(currency_STN, "esl/economics/currencies.hpp: currencies::STN", (), require(economics::currencies::STN.code[0] == 'S' && economics::currencies::STN.code[1] == 'T' && economics::currencies::STN.code[2] == 'N' && sizeof(economics::currencies::STN.code) == 3);)
OBLIGATION(minor_units_STN, "esl/economics/currencies.hpp: currencies::STN (minor units)", (), require(economics::currencies::STN.denominator == 100);)
OBLIGATION(currency_name_STN, "esl/economics/currencies.hpp: currency_name (STN)", (), require(is(currency('S', 'T', 'N'), "Dobra")); require(is(economics::currency_name<text>(economics::currencies::STN), "Dobra"));)
OBLIGATION(currency_SVC, "esl/economics/currencies.hpp: currencies::SVC", (), require(economics::currencies::SVC.code[0] == 'S' && economics::currencies::SVC.code[1] == 'V' && economics::currencies::SVC.code[2] == 'C' && sizeof(economics::currencies::SVC.code) == 3);)
OBLIGATION(minor_units_SVC, "esl/economics/currencies.hpp: currencies::SVC (minor units)", (), require(economics::currencies::SVC.denominator == 100);)
OBLIGATION(currency_name_SVC, "esl/economics/currencies.hpp: currency_name (SVC)", (), require(is(currency('S', 'V', 'C'), "El Salvador Colon")); require(is(economics::currency_name<text>(economics::currencies::SVC), "El Salvador Colon"));)
OBLIGATION(currency_SYP, "esl/economics/currencies.hpp: currencies::SYP", (), require(economics::currencies::SYP.code[0] == 'S' && economics::currencies::SYP.code[1] == 'Y' && economics::currencies::SYP.code[2] == 'P' && sizeof(economics::currencies::SYP.code) == 3);)
OBLIGATION(minor_units_SYP, "esl/economics/currencies.hpp: currencies::SYP (minor units)", (), require(economics::currencies::SYP.denominator == 100);)
OBLIGATION(currency_name_SYP, "esl/economics/currencies.hpp: currency_name (SYP)", (), require(is(currency('S', 'Y', 'P'), "Syrian Pound")); require(is(economics::currency_name<text>(economics::currencies::SYP), "Syrian Pound"));)
OBLIGATION(currency_SZL, "esl/economics/currencies.hpp: currencies::SZL", (), require(economics::currencies::SZL.code[0] == 'S' && economics::currencies::SZL.code[1] == 'Z' && economics::currencies::SZL.code[2] == 'L' && sizeof(economics::currencies::SZL.code) == 3);)
OBLIGATION(minor_units_SZL, "esl/economics/currencies.hpp: currencies::SZL (minor units)", (), require(economics::currencies::SZL.denominator == 100);)
OBLIGATION(currency_name_SZL, "esl/economics/currencies.hpp: currency_name (SZL)", (), require(is(currency('S', 'Z', 'L'), "Lilangeni")); require(is(economics::currency_name<text>(economics::currencies::SZL), "Lilangeni"));)
OBLIGATION(currency_THB, "esl/economics/currencies.hpp: currencies::THB", (), require(economics::currencies::THB.code[0] == 'T' && economics::currencies::THB.code[1] == 'H' && economics::currencies::THB.code[2] == 'B' && sizeof(economics::currencies::THB.code) == 3);)
OBLIGATION(minor_units_THB, "esl/economics/currencies.hpp: currencies::THB (minor units)", (), require(economics::currencies::THB.denominator == 100);)
OBLIGATION(currency_name_THB, "esl/economics/currencies.hpp: currency_name (THB)", (), require(is(currency('T', 'H', 'B'), "Baht")); require(is(economics::currency_name<text>(economics::currencies::THB), "Baht"));)
OBLIGATION(currency_TJS, "esl/economics/currencies.hpp: currencies::TJS", (), require(economics::currencies::TJS.code[0] == 'T' && economics::currencies::TJS.code[1] == 'J' && economics::currencies::TJS.code[2] == 'S' && sizeof(economics::currencies::TJS.code) == 3);)
OBLIGATION(minor_units_TJS, "esl/economics/currencies.hpp: currencies::TJS (minor units)", (), require(economics::currencies::TJS.denominator == 100);)
OBLIGATION(currency_name_TJS, "esl/economics/currencies.hpp: currency_name (TJS)", (), require(is(currency('T', 'J', 'S'), "Somoni")); require(is(economics::currency_name<text>(economics::currencies::TJS), "Somoni"));)
OBLIGATION(currency_TMT, "esl/economics/currencies.hpp: currencies::TMT", (), require(economics::currencies::TMT.code[0] == 'T' && economics::currencies::TMT.code[1] == 'M' && economics::currencies::TMT.code[2] == 'T' && sizeof(economics::currencies::TMT.code) == 3);)
OBLIGATION(minor_units_TMT, "esl/economics/currencies.hpp: currencies::TMT (minor units)", (), require(economics::currencies::TMT.denominator == 100);)
OBLIGATION(currency_name_TMT, "esl/economics/currencies.hpp: currency_name (TMT)", (), require(is(currency('T', 'M', 'T'), "Turkmenistan New Manat")); require(is(economics::currency_name<text>(economics::currencies::TMT), "Turkmenistan New Manat"));)
OBLIGATION(currency_TND, "esl/economics/currencies.hpp: currencies::TND", (), require(economics::currencies::TND.code[0] == 'T' && economics::currencies::TND.code[1] == 'N' && economics::currencies::TND.code[2] == 'D' && sizeof(economics::currencies::TND.code) == 3);)
OBLIGATION(minor_units_TND, "esl/economics/currencies.hpp: currencies::TND (minor units)", (), require(economics::currencies::TND.denominator == 1000);)
OBLIGATION(currency_name_TND, "esl/economics/currencies.hpp: currency_name (TND)", (), require(is(currency('T', 'N', 'D'), "Tunisian Dinar")); require(is(economics::currency_name<text>(economics::currencies::TND), "Tunisian Dinar"));)
OBLIGATION(currency_TOP, "esl/economics/currencies.hpp: currencies::TOP", (), require(economics::currencies::TOP.code[0] == 'T' && economics::currencies::TOP.code[1] == 'O' && economics::currencies::TOP.code[2] == 'P' && sizeof(economics::currencies::TOP.code) == 3);)
OBLIGATION(minor_units_TOP, "esl/economics/currencies.hpp: currencies::TOP (minor units)", (), require(economics::currencies::TOP.denominator == 100);)
OBLIGATION(currency_name_TOP, "esl/economics/currencies.hpp: currency_name (TOP)", (), require(is(currency('T', 'O', 'P'), "Pa\342\200\231anga")); require(is(economics::currency_name<text>(economics::currencies::TOP), "Pa\342\200\231anga"));)
OBLIGATION(currency_TRY, "esl/economics/currencies.hpp: currencies::TRY", (), require(economics::currencies::TRY.code[0] == 'T' && economics::currencies::TRY.code[1] == 'R' && economics::currencies::TRY.code[2] == 'Y' && sizeof(economics::currencies::TRY.code) == 3);)
OBLIGATION(minor_units_TRY, "esl/economics/currencies.hpp: currencies::TRY (minor units)", (), require(economics::currencies::TRY.denominator == 100);)
OBLIGATION(currency_name_TRY, "esl/economics/currencies.hpp: currency_name (TRY)", (), require(is(currency('T', 'R', 'Y'), "Turkish Lira")); require(is(economics::currency_name<text>(economics::currencies::TRY), "Turkish Lira"));)
OBLIGATION(currency_TTD, "esl/economics/currencies.hpp: currencies::TTD", (), require(economics::currencies::TTD.code[0] == 'T' && economics::currencies::TTD.code[1] == 'T' && economics::currencies::TTD.code[2] == 'D' && sizeof(economics::currencies::TTD.code) == 3);)
OBLIGATION(minor_units_TTD, "esl/economics/currencies.hpp: currencies::TTD (minor units)", (), require(economics::currencies::TTD.denominator == 100);)
OBLIGATION(currency_name_TTD, "esl/economics/currencies.hpp: currency_name (TTD)", (), require(is(currency('T', 'T', 'D'), "Trinidad and Tobago Dollar")); require(is(economics::currency_name<text>(economics::currencies::TTD), "Trinidad and Tobago Dollar"));)
OBLIGATION(currency_TWD, "esl/economics/currencies.hpp: currencies::TWD", (), require(economics::currencies::TWD.code[0] == 'T' && economics::currencies::TWD.code[1] == 'W' && economics::currencies::TWD.code[2] == 'D' && sizeof(economics::currencies::TWD.code) == 3);)
OBLIGATION(minor_units_TWD, "esl/economics/currencies.hpp: currencies::TWD (minor units)", (), require(economics::currencies::TWD.denominator == 100);)
OBLIGATION(currency_name_TWD, "esl/economics/currencies.hpp: currency_name (TWD)", (), require(is(currency('T', 'W', 'D'), "New Taiwan Dollar")); require(is(economics::currency_name<text>(economics::currencies::TWD), "New Taiwan Dollar"));)
OBLIGATION(currency_TZS, "esl/economics/currencies.hpp: currencies::TZS", (), require(economics::currencies::TZS.code[0] == 'T' && economics::currencies::TZS.code[1] == 'Z' && economics::currencies::TZS.code[2] == 'S' && sizeof(economics::currencies::TZS.code) == 3);)
OBLIGATION(minor_units_TZS, "esl/economics/currencies.hpp: currencies::TZS (minor units)", (), require(economics::currencies::TZS.denominator == 100);)
OBLIGATION(currency_name_TZS, "esl/economics/currencies.hpp: currency_name (TZS)", (), require(is(currency('T', 'Z', 'S'), "Tanzanian Shilling")); require(is(economics::currency_name<text>(economics::currencies::TZS), "Tanzanian Shilling"));)
OBLIGATION(currency_UAH, "esl/economics/currencies.hpp: currencies::UAH", (), require(economics::currencies::UAH.code[0] == 'U' && economics::currencies::UAH.code[1] == 'A' && economics::currencies::UAH.code[2] == 'H' && sizeof(economics::currencies::UAH.code) == 3);)
OBLIGATION(minor_units_UAH, "esl/economics/currencies.hpp: currencies::UAH (minor units)", (), require(economics::currencies::UAH.denominator == 100);)
OBLIGATION(currency_name_UAH, "esl/economics/currencies.hpp: currency_name (UAH)", (), require(is(currency('U', 'A', 'H'), "Hryvnia")); require(is(economics::currency_name<text>(economics::currencies::UAH), "Hryvnia"));)
OBLIGATION(currency_UGX, "esl/economics/currencies.hpp: currencies::UGX", (), require(economics::currencies::UGX.code[0] == 'U' && economics::currencies::UGX.code[1] == 'G' && economics::currencies::UGX.code[2] == 'X' && sizeof(economics::currencies::UGX.code) == 3);)
OBLIGATION(minor_units_UGX, "esl/economics/currencies.hpp: currencies::UGX (minor units)", (), require(economics::currencies::UGX.denominator == 1);)
OBLIGATION(currency_name_UGX, "esl/economics/currencies.hpp: currency_name (UGX)", (), require(is(currency('U', 'G', 'X'), "Uganda Shilling")); require(is(economics::currency_name<text>(economics::currencies::UGX), "Uganda Shilling"));)
OBLIGATION(currency_USD, "esl/economics/currencies.hpp: currencies::USD", (), require(economics::currencies::USD.code[0] == 'U' && economics::currencies::USD.code[1] == 'S' && economics::currencies::USD.code[2] == 'D' && sizeof(economics::currencies::USD.code) == 3);)
OBLIGATION(minor_units_USD, "esl/economics/currencies.hpp: currencies::USD (minor units)", (), require(economics::currencies::USD.denominator == 100);)
OBLIGATION(currency_name_USD, "esl/economics/currencies.hpp: currency_name (USD)", (), require(is(currency('U', 'S', 'D'), "US Dollar")); require(is(economics::currency_name<text>(economics::currencies::USD), "US Dollar"));)
OBLIGATION(currency_UYI, "esl/economics/currencies.hpp: currencies::UYI", (), require(economics::currencies::UYI.code[0] == 'U' && economics::currencies::UYI.code[1] == 'Y' && economics::currencies::UYI.code[2] == 'I' && sizeof(economics::currencies::UYI.code) == 3);)
OBLIGATION(minor_units_UYI, "esl/economics/currencies.hpp: currencies::UYI (minor units)", (), require(economics::currencies::UYI.denominator == 1);)
OBLIGATION(currency_name_UYI, "esl/economics/currencies.hpp: currency_name (UYI)", (), require(is(currency('U', 'Y', 'I'), "Uruguay Peso en Unidades Indexadas (URUIURUI)")); require(is(economics::currency_name<text>(economics::currencies::UYI), "Uruguay Peso en Unidades Indexadas (URUIURUI)"));)
OBLIGATION(currency_UYU, "esl/economics/currencies.hpp: currencies::UYU", (), require(economics::currencies::UYU.code[0] == 'U' && economics::currencies::UYU.code[1] == 'Y' && economics::currencies::UYU.code[2] == 'U' && sizeof(economics::currencies::UYU.code) == 3);)
OBLIGATION(minor_units_UYU, "esl/economics/currencies.hpp: currencies::UYU (minor units)", (), require(economics::currencies::UYU.denominator == 100);)
OBLIGATION(currency_name_UYU, "esl/economics/currencies.hpp: currency_name (UYU)", (), require(is(currency('U', 'Y', 'U'), "Peso Uruguayo")); require(is(economics::currency_name<text>(economics::currencies::UYU), "Peso Uruguayo"));)
OBLIGATION(currency_UZS, "esl/economics/currencies.hpp: currencies::UZS", (), require(economics::currencies::UZS.code[0] == 'U' && economics::currencies::UZS.code[1] == 'Z' && economics::currencies::UZS.code[2] == 'S' && sizeof(economics::currencies::UZS.code) == 3);)
OBLIGATION(minor_units_UZS, "esl/economics/currencies.hpp: currencies::UZS (minor units)", (), require(economics::currencies::UZS.denominator == 100);)
OBLIGATION(currency_name_UZS, "esl/economics/currencies.hpp: currency_name (UZS)", (), require(is(currency('U', 'Z', 'S'), "Uzbekistan Sum")); require(is(economics::currency_name<text>(economics::currencies::UZS), "Uzbekistan Sum"));)
OBLIGATION(currency_VEF, "esl/economics/currencies.hpp: currencies::VEF", (), require(economics::currencies::VEF.code[0] == 'V' && economics::currencies::VEF.code[1] == 'E' && economics::currencies::VEF.code[2] == 'F' && sizeof(economics::currencies::VEF.code) == 3);)
OBLIGATION(minor_units_VEF, "esl/economics/currencies.hpp: currencies::VEF (minor units)", (), require(economics::currencies::VEF.denominator == 100);)
OBLIGATION(currency_name_VEF, "esl/economics/currencies.hpp: currency_name (VEF)", (), require(is(currency('V', 'E', 'F'), "Bol\303\255var")); require(is(economics::currency_name<text>(economics::currencies::VEF), "Bol\303\255var"));)
OBLIGATION(currency_VND, "esl/economics/currencies.hpp: currencies::VND", (), require(economics::currencies::VND.code[0] == 'V' && economics::currencies::VND.code[1] == 'N' && economics::currencies::VND.code[2] == 'D' && sizeof(economics::currencies::VND.code) == 3);)
OBLIGATION(minor_units_VND, "esl/economics/currencies.hpp: currencies::VND (minor units)", (), require(economics::currencies::VND.denominator == 1);)
OBLIGATION(currency_name_VND, "esl/economics/currencies.hpp: currency_name (VND)", (), require(is(currency('V', 'N', 'D'), "Dong")); require(is(economics::currency_name<text>(economics::currencies::VND), "Dong"));)
OBLIGATION(currency_VUV, "esl/economics/currencies.hpp: currencies::VUV", (), require(economics::currencies::VUV.code[0] == 'V' && economics::currencies::VUV.code[1] == 'U' && economics::currencies::VUV.code[2] == 'V' && sizeof(economics::currencies::VUV.code) == 3);)
OBLIGATION(minor_units_VUV, "esl/economics/currencies.hpp: currencies::VUV (minor units)", (), require(economics::currencies::VUV.denominator == 1);)
OBLIGATION(currency_name_VUV, "esl/economics/currencies.hpp: currency_name (VUV)", (), require(is(currency('V', 'U', 'V'), "Vatu")); require(is(economics::currency_name<text>(economics::currencies::VUV), "Vatu"));)
OBLIGATION(currency_WST, "esl/economics/currencies.hpp: currencies::WST", (), require(economics::currencies::WST.code[0] == 'W' && economics::currencies::WST.code[1] == 'S' && economics::currencies::WST.code[2] == 'T' && sizeof(economics::currencies::WST.code) == 3);)
OBLIGATION(minor_units_WST, "esl/economics/currencies.hpp: currencies::WST (minor units)", (), require(economics::currencies::WST.denominator == 100);)
OBLIGATION(currency_name_WST, "esl/economics/currencies.hpp: currency_name (WST)", (), require(is(currency('W', 'S', 'T'), "Tala")); require(is(economics::currency_name<text>(economics::currencies::WST), "Tala"));)
OBLIGATION(currency_XAF, "esl/economics/currencies.hpp: currencies::XAF", (), require(economics::currencies::XAF.code[0] == 'X' && economics::currencies::XAF.code[1] == 'A' && economics::currencies::XAF.code[2] == 'F' && sizeof(economics::currencies::XAF.code) == 3);)
OBLIGATION(minor_units_XAF, "esl/economics/currencies.hpp: currencies::XAF (minor units)", (), require(economics::currencies::XAF.denominator == 1);)
OBLIGATION(currency_name_XAF, "esl/economics/currencies.hpp: currency_name (XAF)", (), require(is(currency('X', 'A', 'F'), "CFA Franc BEAC")); require(is(economics::currency_name<text>(economics::currencies::XAF), "CFA Franc BEAC"));)
OBLIGATION(currency_XAG, "esl/economics/currencies.hpp: currencies::XAG", (), require(economics::currencies::XAG.code[0] == 'X' && economics::currencies::XAG.code[1] == 'A' && economics::currencies::XAG.code[2] == 'G' && sizeof(economics::currencies::XAG.code) == 3);)
OBLIGATION(minor_units_XAG, "esl/economics/currencies.hpp: currencies::XAG (minor units)", (), require(economics::currencies::XAG.denominator == 100);)
OBLIGATION(currency_name_XAG, "esl/economics/currencies.hpp: currency_name (XAG)", (), require(is(currency('X', 'A', 'G'), "Silver")); require(is(economics::currency_name<text>(economics::currencies::XAG), "Silver"));)
OBLIGATION(currency_XAU, "esl/economics/currencies.hpp: currencies::XAU", (), require(economics::currencies::XAU.code[0] == 'X' && economics::currencies::XAU.code[1] == 'A' && economics::currencies::XAU.code[2] == 'U' && sizeof(economics::currencies::XAU.code) == 3);)
OBLIGATION(minor_units_XAU, "esl/economics/currencies.hpp: currencies::XAU (minor units)", (), require(economics::currencies::XAU.denominator == 100);)
OBLIGATION(currency_name_XAU, "esl/economics/currencies.hpp: currency_name (XAU)", (), require(is(currency('X', 'A', 'U'), "Gold")); require(is(economics::currency_name<text>(economics::currencies::XAU), "Gold"));)
OBLIGATION(currency_XBA, "esl/economics/currencies.hpp: currencies::XBA", (), require(economics::currencies::XBA.code[0] == 'X' && economics::currencies::XBA.code[1] == 'B' && economics::currencies::XBA.code[2] == 'A' && sizeof(economics::currencies::XBA.code) == 3);)
OBLIGATION(minor_units_XBA, "esl/economics/currencies.hpp: currencies::XBA (minor units)", (), require(economics::currencies::XBA.denominator == 100);)
OBLIGATION(currency_name_XBA, "esl/economics/currencies.hpp: currency_name (XBA)", (), require(is(currency('X', 'B', 'A'), "Bond Markets Unit European Composite Unit (EURCO)")); require(is(economics::currency_name<text>(economics::currencies::XBA), "Bond Markets Unit European Composite Unit (EURCO)"));)
OBLIGATION(currency_XBB, "esl/economics/currencies.hpp: currencies::XBB", (), require(economics::currencies::XBB.code[0] == 'X' && economics::currencies::XBB.code[1] == 'B' && economics::currencies::XBB.code[2] == 'B' && sizeof(economics::currencies::XBB.code) == 3);)
OBLIGATION(minor_units_XBB, "esl/economics/currencies.hpp: currencies::XBB (minor units)", (), require(economics::currencies::XBB.denominator == 100);)
OBLIGATION(currency_name_XBB, "esl/economics/currencies.hpp: currency_name (XBB)", (), require(is(currency('X', 'B', 'B'), "Bond Markets Unit European Monetary Unit (E.M.U.-6)")); require(is(economics::currency_name<text>(economics::currencies::XBB), "Bond Markets Unit European Monetary Unit (E.M.U.-6)"));)
OBLIGATION(currency_XBC, "esl/economics/currencies.hpp: currencies::XBC", (), require(economics::currencies::XBC.code[0] == 'X' && economics::currencies::XBC.code[1] == 'B' && economics::currencies::XBC.code[2] == 'C' && sizeof(economics::currencies::XBC.code) == 3);)
OBLIGATION(minor_units_XBC, "esl/economics/currencies.hpp: currencies::XBC (minor units)", (), require(economics::currencies::XBC.denominator == 100);)
OBLIGATION(currency_name_XBC, "esl/economics/currencies.hpp: currency_name (XBC)", (), require(is(currency('X', 'B', 'C'), "Bond Markets Unit European Unit of Account 9 (E.U.A.-9)")); require(is(economics::currency_name<text>(economics::currencies::XBC), "Bond Markets Unit European Unit of Account 9 (E.U.A.-9)"));)
OBLIGATION(currency_XBD, "esl/economics/currencies.hpp: currencies::XBD", (), require(economics::currencies::XBD.code[0] == 'X' && economics::currencies::XBD.code[1] == 'B' && economics::currencies::XBD.code[2] == 'D' && sizeof(economics::currencies::XBD.code) == 3);)
OBLIGATION(minor_units_XBD, "esl/economics/currencies.hpp: currencies::XBD (minor units)", (), require(economics::currencies::XBD.denominator == 100);)
OBLIGATION(currency_name_XBD, "esl/economics/currencies.hpp: currency_name (XBD)", (), require(is(currency('X', 'B', 'D'), "Bond Markets Unit European Unit of Account 17 (E.U.A.-17)")); require(is(economics::currency_name<text>(economics::currencies::XBD), "Bond Markets Unit European Unit of Account 17 (E.U.A.-17)"));)
OBLIGATION(currency_XCD, "esl/economics/currencies.hpp: currencies::XCD", (), require(economics::currencies::XCD.code[0] == 'X' && economics::currencies::XCD.code[1] == 'C' && economics::currencies::XCD.code[2] == 'D' && sizeof(economics::currencies::XCD.code) == 3);)
OBLIGATION(minor_units_XCD, "esl/economics/currencies.hpp: currencies::XCD (minor units)", (), require(economics::currencies::XCD.denominator == 100);)
OBLIGATION(currency_name_XCD, "esl/economics/currencies.hpp: currency_name (XCD)", (), require(is(currency('X', 'C', 'D'), "East Caribbean Dollar")); require(is(economics::currency_name<text>(economics::currencies::XCD), "East Caribbean Dollar"));)
OBLIGATION(currency_XDR, "esl/economics/currencies.hpp: currencies::XDR", (), require(economics::currencies::XDR.code[0] == 'X' && economics::currencies::XDR.code[1] == 'D' && economics::currencies::XDR.code[2] == 'R' && sizeof(economics::currencies::XDR.code) == 3);)
OBLIGATION(minor_units_XDR, "esl/economics/currencies.hpp: currencies::XDR (minor units)", (), require(economics::currencies::XDR.denominator == 100);)
OBLIGATION(currency_name_XDR, "esl/economics/currencies.hpp: currency_name (XDR)", (), require(is(currency('X', 'D', 'R'), "SDR (Special Drawing Right)")); require(is(economics::currency_name<text>(economics::currencies::XDR), "SDR (Special Drawing Right)"));)
OBLIGATION(currency_XOF, "esl/economics/currencies.hpp: currencies::XOF", (), require(economics::currencies::XOF.code[0] == 'X' && economics::currencies::XOF.code[1] == 'O' && economics::currencies::XOF.code[2] == 'F' && sizeof(economics::currencies::XOF.code) == 3);)
OBLIGATION(minor_units_XOF, "esl/economics/currencies.hpp: currencies::XOF (minor units)", (), require(economics::currencies::XOF.denominator == 1);)
OBLIGATION(currency_name_XOF, "esl/economics/currencies.hpp: currency_name (XOF)", (), require(is(currency('X', 'O', 'F'), "CFA Franc BCEAO")); require(is(economics::currency_name<text>(economics::currencies::XOF), "CFA Franc BCEAO"));)
OBLIGATION(currency_XPD, "esl/economics/currencies.hpp: currencies::XPD", (), require(economics::currencies::XPD.code[0] == 'X' && economics::currencies::XPD.code[1] == 'P' && economics::currencies::XPD.code[2] == 'D' && sizeof(economics::currencies::XPD.code) == 3);)
OBLIGATION(minor_units_XPD, "esl/economics/currencies.hpp: currencies::XPD (minor units)", (), require(economics::currencies::XPD.denominator == 100);)
OBLIGATION(currency_name_XPD, "esl/economics/currencies.hpp: currency_name (XPD)", (), require(is(currency('X', 'P', 'D'), "Palladium")); require(is(economics::currency_name<text>(economics::currencies::XPD), "Palladium"));)
OBLIGATION(currency_XPF, "esl/economics/currencies.hpp: currencies::XPF", (), require(economics::currencies::XPF.code[0] == 'X' && economics::currencies::XPF.code[1] == 'P' && economics::currencies::XPF.code[2] == 'F' && sizeof(economics::currencies::XPF.code) == 3);)
OBLIGATION(minor_units_XPF, "esl/economics/currencies.hpp: currencies::XPF (minor units)", (), require(economics::currencies::XPF.denominator == 1);)
OBLIGATION(currency_name_XPF, "esl/economics/currencies.hpp: currency_name (XPF)", (), require(is(currency('X', 'P', 'F'), "CFP Franc")); require(is(economics::currency_name<text>(economics::currencies::XPF), "CFP Franc"));)
OBLIGATION(currency_XPT, "esl/economics/currencies.hpp: currencies::XPT", (), require(economics::currencies::XPT.code[0] == 'X' && economics::currencies::XPT.code[1] == 'P' && economics::currencies::XPT.code[2] == 'T' && sizeof(economics::currencies::XPT.code) == 3);)
OBLIGATION(minor_units_XPT, "esl/economics/currencies.hpp: currencies::XPT (minor units)", (), require(economics::currencies::XPT.denominator == 100);)
OBLIGATION(currency_name_XPT, "esl/economics/currencies.hpp: currency_name (XPT)", (), require(is(currency('X', 'P', 'T'), "Platinum")); require(is(economics::currency_name<text>(economics::currencies::XPT), "Platinum"));)
OBLIGATION(currency_XSU, "esl/economics/currencies.hpp: currencies::XSU", (), require(economics::currencies::XSU.code[0] == 'X' && economics::currencies::XSU.code[1] == 'S' && economics::currencies::XSU.code[2] == 'U' && sizeof(economics::currencies::XSU.code) == 3);)
OBLIGATION(minor_units_XSU, "esl/economics/currencies.hpp: currencies::XSU (minor units)", (), require(economics::currencies::XSU.denominator == 100);)
OBLIGATION(currency_name_XSU, "esl/economics/currencies.hpp: currency_name (XSU)", (), require(is(currency('X', 'S', 'U'), "Sucre")); require(is(economics::currency_name<text>(economics::currencies::XSU), "Sucre"));)
OBLIGATION(currency_XUA, "esl/economics/currencies.hpp: currencies::XUA", (), require(economics::currencies::XUA.code[0] == 'X' && economics::currencies::XUA.code[1] == 'U' && economics::currencies::XUA.code[2] == 'A' && sizeof(economics::currencies::XUA.code) == 3);)
OBLIGATION(minor_units_XUA, "esl/economics/currencies.hpp: currencies::XUA (minor units)", (), require(economics::currencies::XUA.denominator == 100);)
OBLIGATION(currency_name_XUA, "esl/economics/currencies.hpp: currency_name (XUA)", (), require(is(currency('X', 'U', 'A'), "ADB Unit of Account")); require(is(economics::currency_name<text>(economics::currencies::XUA), "ADB Unit of Account"));)
OBLIGATION(currency_YER, "esl/economics/currencies.hpp: currencies::YER", (), require(economics::currencies::YER.code[0] == 'Y' && economics::currencies::YER.code[1] == 'E' && economics::currencies::YER.code[2] == 'R' && sizeof(economics::currencies::YER.code) == 3);)
OBLIGATION(minor_units_YER, "esl/economics/currencies.hpp: currencies::YER (minor units)", (), require(economics::currencies::YER.denominator == 100);)
OBLIGATION(currency_name_YER, "esl/economics/currencies.hpp: currency_name (YER)", (), require(is(currency('Y', 'E', 'R'), "Yemeni Rial")); require(is(economics::currency_name<text>(economics::currencies::YER), "Yemeni Rial"));)
OBLIGATION(currency_ZAR, "esl/economics/currencies.hpp: currencies::ZAR", (), require(economics::currencies::ZAR.code[0] == 'Z' && economics::currencies::ZAR.code[1] == 'A' && economics::currencies::ZAR.code[2] == 'R' && sizeof(economics::currencies::ZAR.code) == 3);)
OBLIGATION(minor_units_ZAR, "esl/economics/currencies.hpp: currencies::ZAR (minor units)", (), require(economics::currencies::ZAR.denominator == 100);)
OBLIGATION(currency_name_ZAR, "esl/economics/currencies.hpp: currency_name (ZAR)", (), require(is(currency('Z', 'A', 'R'), "Rand")); require(is(economics::currency_name<text>(economics::currencies::ZAR), "Rand"));)
OBLIGATION(currency_ZMW, "esl/economics/currencies.hpp: currencies::ZMW", (), require(economics::currencies::ZMW.code[0] == 'Z' && economics::currencies::ZMW.code[1] == 'M' && economics::currencies::ZMW.code[2] == 'W' && sizeof(economics::currencies::ZMW.code) == 3);)
OBLIGATION(minor_units_ZMW, "esl/economics/currencies.hpp: currencies::ZMW (minor units)", (), require(economics::currencies::ZMW.denominator == 100);)
OBLIGATION(currency_name_ZMW, "esl/economics/currencies.hpp: currency_name (ZMW)", (), require(is(currency('Z', 'M', 'W'), "Zambian Kwacha")); require(is(economics::currency_name<text>(economics::currencies::ZMW), "Zambian Kwacha"));)
OBLIGATION(currency_ZWL, "esl/economics/currencies.hpp: currencies::ZWL", (), require(economics::currencies::ZWL.code[0] == 'Z' && economics::currencies::ZWL.code[1] == 'W' && economics::currencies::ZWL.code[2] == 'L' && sizeof(economics::currencies::ZWL.code) == 3);)
OBLIGATION(minor_units_ZWL, "esl/economics/currencies.hpp: currencies::ZWL (minor units)", (), require(economics::currencies::ZWL.denominator == 100);)
OBLIGATION(currency_name_ZWL, "esl/economics/currencies.hpp: currency_name (ZWL)", (), require(is(currency('Z', 'W', 'L'), "Zimbabwe Dollar")); require(is(economics::currency_name<text>(economics::currencies::ZWL), "Zimbabwe Dollar"));)
OBLIGATION(no_currency_AA, "esl/economics/currencies.hpp: currency_name (codes without a currency from AA)", (), require(is(currency('A', 'A', 'A'), "", "AAA")); require(is(currency('A', 'A', 'B'), "", "AAB")); require(is(currency('A', 'A', 'C'), "", "AAC")); require(is(currency('A', 'A', 'D'), "", "AAD")); require(is(currency('A', 'A', 'E'), "", "AAE")); require(is(currency('A', 'A', 'F'), "", "AAF")); require(is(currency('A', 'A', 'G'), "", "AAG")); require(is(currency('A', 'A', 'H'), "", "AAH")); require(is(currency('A', 'A', 'I'), "", "AAI")); require(is(currency('A', 'A', 'J'), "", "AAJ")); require(is(currency('A', 'A', 'K'), "", "AAK")); require(is(currency('A', 'A', 'L'), "", "AAL")); require(is(currency('A', 'A', 'M'), "", "AAM")); require(is(currency('A', 'A', 'N'), "", "AAN")); require(is(currency('A', 'A', 'O'), "", "AAO")); require(is(currency('A', 'A', 'P'), "", "AAP")); require(is(currency('A', 'A', 'Q'), "", "AAQ")); require(is(currency('A', 'A', 'R'), "", "AAR")); require(is(currency('A', 'A', 'S'), "", "AAS")); require(is(currency('A', 'A', 'T'), "", "AAT")); require(is(currency('A', 'A', 'U'), "", "AAU")); require(is(currency('A', 'A', 'V'), "", "AAV")); require(is(currency('A', 'A', 'W'), "", "AAW")); require(is(currency('A', 'A', 'X'), "", "AAX")); require(is(currency('A', 'A', 'Y'), "", "AAY")); require(is(currency('A', 'A', 'Z'), "", "AAZ"));)
OBLIGATION(no_currency_AB, "esl/economics/currencies.hpp: currency_name (codes without a currency from AB)", (), require(is(currency('A', 'B', 'A'), "", "ABA")); require(is(currency('A', 'B', 'B'), "", "ABB")); require(is(currency('A', 'B', 'C'), "", "ABC")); require(is(currency('A', 'B', 'D'), "", "ABD")); require(is(currency('A', 'B', 'E'), "", "ABE")); require(is(currency('A', 'B', 'F'), "", "ABF")); require(is(currency('A', 'B', 'G'), "", "ABG")); require(is(currency('A', 'B', 'H'), "", "ABH")); require(is(currency('A', 'B', 'I'), "", "ABI")); require(is(currency('A', 'B', 'J'), "", "ABJ")); require(is(currency('A', 'B', 'K'), "", "ABK")); require(is(currency('A', 'B', 'L'), "", "ABL")); require(is(currency('A', 'B', 'M'), "", "ABM")); require(is(currency('A', 'B', 'N'), "", "ABN")); require(is(currency('A', 'B', 'O'), "", "ABO")); require(is(currency('A', 'B', 'P'), "", "ABP")); require(is(currency('A', 'B', 'Q'), "", "ABQ")); require(is(currency('A', 'B', 'R'), "", "ABR")); require(is(currency('A', 'B', 'S'), "", "ABS")); require(is(currency('A', 'B', 'T'), "", "ABT")); require(is(currency('A', 'B', 'U'), "", "ABU")); require(is(currency('A', 'B', 'V'), "", "ABV")); require(is(currency('A', 'B', 'W'), "", "ABW")); require(is(currency('A', 'B', 'X'), "", "ABX")); require(is(currency('A', 'B', 'Y'), "", "ABY")); require(is(currency('A', 'B', 'Z'), "", "ABZ"));)
OBLIGATION(no_currency_AC, "esl/economics/currencies.hpp: currency_name (codes without a currency from AC)", (), require(is(currency('A', 'C', 'A'), "", "ACA")); require(is(currency('A', 'C', 'B'), "", "ACB")); require(is(currency('A', 'C', 'C'), "", "ACC")); require(is(currency('A', 'C', 'D'), "", "ACD")); require(is(currency('A', 'C', 'E'), "", "ACE")); require(is(currency('A', 'C', 'F'), "", "ACF")); require(is(currency('A', 'C', 'G'), "", "ACG")); require(is(currency('A', 'C', 'H'), "", "ACH")); require(is(currency('A', 'C', 'I'), "", "ACI")); require(is(currency('A', 'C', 'J'), "", "ACJ")); require(is(currency('A', 'C', 'K'), "", "ACK")); require(is(currency('A', 'C', 'L'), "", "ACL")); require(is(currency('A', 'C', 'M'), "", "ACM")); require(is(currency('A', 'C', 'N'), "", "ACN")); require(is(currency('A', 'C', 'O'), "", "ACO")); require(is(currency('A', 'C', 'P'), "", "ACP")); require(is(currency('A', 'C', 'Q'), "", "ACQ")); require(is(currency('A', 'C', 'R'), "", "ACR")); require(is(currency('A', 'C', 'S'), "", "ACS")); require(is(currency('A', 'C', 'T'), "", "ACT")); require(is(currency('A', 'C', 'U'), "", "ACU")); require(is(currency('A', 'C', 'V'), "", "ACV")); require(is(currency('A', 'C', 'W'), "", "ACW")); require(is(currency('A', 'C', 'X'), "", "ACX")); require(is(currency('A', 'C', 'Y'), "", "ACY")); require(is(currency('A', 'C', 'Z'), "", "ACZ"));)
OBLIGATION(no_currency_AD, "esl/economics/currencies.hpp: currency_name (codes without a currency from AD)", (), require(is(currency('A', 'D', 'A'), "", "ADA")); require(is(currency('A', 'D', 'B'), "", "ADB")); require(is(currency('A', 'D', 'C'), "", "ADC")); require(is(currency('A', 'D', 'D'), "", "ADD")); require(is(currency('A', 'D', 'E'), "", "ADE")); require(is(currency('A', 'D', 'F'), "", "ADF")); require(is(currency('A', 'D', 'G'), "", "ADG")); require(is(currency('A', 'D', 'H'), "", "ADH")); require(is(currency('A', 'D', 'I'), "", "ADI")); require(is(currency('A', 'D', 'J'), "", "ADJ")); require(is(currency('A', 'D', 'K'), "", "ADK")); require(is(currency('A', 'D', 'L'), "", "ADL")); require(is(currency('A', 'D', 'M'), "", "ADM")); require(is(currency('A', 'D', 'N'), "", "ADN")); require(is(currency('A', 'D', 'O'), "", "ADO")); require(is(currency('A', 'D', 'P'), "", "ADP")); require(is(currency('A', 'D', 'Q'), "", "ADQ")); require(is(currency('A', 'D', 'R'), "", "ADR")); require(is(currency('A', 'D', 'S'), "", "ADS")); require(is(currency('A', 'D', 'T'), "", "ADT")); require(is(currency('A', 'D', 'U'), "", "ADU")); require(is(currency('A', 'D', 'V'), "", "ADV")); require(is(currency('A', 'D', 'W'), "", "ADW")); require(is(currency('A', 'D', 'X'), "", "ADX")); require(is(currency('A', 'D', 'Y'), "", "ADY")); require(is(currency('A', 'D', 'Z'), "", "ADZ"));)
OBLIGATION(no_currency_AE, "esl/economics/currencies.hpp: currency_name (codes without a currency from AE)", (), require(is(currency('A', 'E', 'A'), "", "AEA")); require(is(currency('A', 'E', 'B'), "", "AEB")); require(is(currency('A', 'E', 'C'), "", "AEC")); require(is(currency('A', 'E', 'E'), "", "AEE")); require(is(currency('A', 'E', 'F'), "", "AEF")); require(is(currency('A', 'E', 'G'), "", "AEG")); require(is(currency('A', 'E', 'H'), "", "AEH")); require(is(currency('A', 'E', 'I'), "", "AEI")); require(is(currency('A', 'E', 'J'), "", "AEJ")); require(is(currency('A', 'E', 'K'), "", "AEK")); require(is(currency('A', 'E', 'L'), "", "AEL")); require(is(currency('A', 'E', 'M'), "", "AEM")); require(is(currency('A', 'E', 'N'), "", "AEN")); require(is(currency('A', 'E', 'O'), "", "AEO")); require(is(currency('A', 'E', 'P'), "", "AEP")); require(is(currency('A', 'E', 'Q'), "", "AEQ")); require(is(currency('A', 'E', 'R'), "", "AER")); require(is(currency('A', 'E', 'S'), "", "AES")); require(is(currency('A', 'E', 'T'), "", "AET")); require(is(currency('A', 'E', 'U'), "", "AEU")); require(is(currency('A', 'E', 'V'), "", "AEV")); require(is(currency('A', 'E', 'W'), "", "AEW")); require(is(currency('A', 'E', 'X'), "", "AEX")); require(is(currency('A', 'E', 'Y'), "", "AEY")); require(is(currency('A', 'E', 'Z'), "", "AEZ"));)
OBLIGATION(no_currency_AF, "esl/economics/currencies.hpp: currency_name (codes without a currency from AF)", (), require(is(currency('A', 'F', 'A'), "", "AFA")); require(is(currency('A', 'F', 'B'), "", "AFB")); require(is(currency('A', 'F', 'C'), "", "AFC")); require(is(currency('A', 'F', 'D'), "", "AFD")); require(is(currency('A', 'F', 'E'), "", "AFE")); require(is(currency('A', 'F', 'F'), "", "AFF")); require(is(currency('A', 'F', 'G'), "", "AFG")); require(is(currency('A', 'F', 'H'), "", "AFH")); require(is(currency('A', 'F', 'I'), "", "AFI")); require(is(currency('A', 'F', 'J'), "", "AFJ")); require(is(currency('A', 'F', 'K'), "", "AFK")); require(is(currency('A', 'F', 'L'), "", "AFL")); require(is(currency('A', 'F', 'M'), "", "AFM")); require(is(currency('A', 'F', 'O'), "", "AFO")); require(is(currency('A', 'F', 'P'), "", "AFP")); require(is(currency('A', 'F', 'Q'), "", "AFQ")); require(is(currency('A', 'F', 'R'), "", "AFR")); require(is(currency('A', 'F', 'S'), "", "AFS")); require(is(currency('A', 'F', 'T'), "", "AFT")); require(is(currency('A', 'F', 'U'), "", "AFU")); require(is(currency('A', 'F', 'V'), "", "AFV")); require(is(currency('A', 'F', 'W'), "", "AFW")); require(is(currency('A', 'F', 'X'), "", "AFX")); require(is(currency('A', 'F', 'Y'), "", "AFY")); require(is(currency('A', 'F', 'Z'), "", "AFZ"));)
OBLIGATION(no_currency_AG, "esl/economics/currencies.hpp: currency_name (codes without a currency from AG)", (), require(is(currency('A', 'G', 'A'), "", "AGA")); require(is(currency('A', 'G', 'B'), "", "AGB")); require(is(currency('A', 'G', 'C'), "", "AGC")); require(is(currency('A', 'G', 'D'), "", "AGD")); require(is(currency('A', 'G', 'E'), "", "AGE")); require(is(currency('A', 'G', 'F'), "", "AGF")); require(is(currency('A', 'G', 'G'), "", "AGG")); require(is(currency('A', 'G', 'H'), "", "AGH")); require(is(currency('A', 'G', 'I'), "", "AGI")); require(is(currency('A', 'G', 'J'), "", "AGJ")); require(is(currency('A', 'G', 'K'), "", "AGK")); require(is(currency('A', 'G', 'L'), "", "AGL")); require(is(currency('A', 'G', 'M'), "", "AGM")); require(is(currency('A', 'G', 'N'), "", "AGN")); require(is(currency('A', 'G', 'O'), "", "AGO")); require(is(currency('A', 'G', 'P'), "", "AGP")); require(is(currency('A', 'G', 'Q'), "", "AGQ")); require(is(currency('A', 'G', 'R'), "", "AGR")); require(is(currency('A', 'G', 'S'), "", "AGS")); require(is(currency('A', 'G', 'T'), "", "AGT")); require(is(currency('A', 'G', 'U'), "", "AGU")); require(is(currency('A', 'G', 'V'), "", "AGV")); require(is(currency('A', 'G', 'W'), "", "AGW")); require(is(currency('A', 'G', 'X'), "", "AGX")); require(is(currency('A', 'G', 'Y'), "", "AGY")); require(is(currency('A', 'G', 'Z'), "", "AGZ"));)
OBLIGATION(no_currency_AH, "esl/economics/currencies.hpp: currency_name (codes without a currency from AH)", (), require(is(currency('A', 'H', 'A'), "", "AHA")); require(is(currency('A', 'H', 'B'), "", "AHB")); require(is(currency('A', 'H', 'C'), "", "AHC")); require(is(currency('A', 'H', 'D'), "", "AHD")); require(is(currency('A', 'H', 'E'), "", "AHE")); require(is(currency('A', 'H', 'F'), "", "AHF")); require(is(currency('A', 'H', 'G'), "", "AHG")); require(is(currency('A', 'H', 'H'), "", "AHH")); require(is(currency('A', 'H', 'I'), "", "AHI")); require(is(currency('A', 'H', 'J'), "", "AHJ")); require(is(currency('A', 'H', 'K'), "", "AHK")); require(is(currency('A', 'H', 'L'), "", "AHL")); require(is(currency('A', 'H', 'M'), "", "AHM")); require(is(currency('A', 'H', 'N'), "", "AHN")); require(is(currency('A', 'H', 'O'), "", "AHO")); require(is(currency('A', 'H', 'P'), "", "AHP")); require(is(currency('A', 'H', 'Q'), "", "AHQ")); require(is(currency('A', 'H', 'R'), "", "AHR")); require(is(currency('A', 'H', 'S'), "", "AHS")); require(is(currency('A', 'H', 'T'), "", "AHT")); require(is(currency('A', 'H', 'U'), "", "AHU")); require(is(currency('A', 'H', 'V'), "", "AHV")); require(is(currency('A', 'H', 'W'), "", "AHW")); require(is(currency('A', 'H', 'X'), "", "AHX")); require(is(currency('A', 'H', 'Y'), "", "AHY")); require(is(currency('A', 'H', 'Z'), "", "AHZ"));)
OBLIGATION(no_currency_AI, "esl/economics/currencies.hpp: currency_name (codes without a currency from AI)", (), require(is(currency('A', 'I', 'A'), "", "AIA")); require(is(currency('A', 'I', 'B'), "", "AIB")); require(is(currency('A', 'I', 'C'), "", "AIC")); require(is(currency('A', 'I', 'D'), "", "AID")); require(is(currency('A', 'I', 'E'), "", "AIE")); require(is(currency('A', 'I', 'F'), "", "AIF")); require(is(currency('A', 'I', 'G'), "", "AIG")); require(is(currency('A', 'I', 'H'), "", "AIH")); require(is(currency('A', 'I', 'I'), "", "AII")); require(is(currency('A', 'I', 'J'), "", "AIJ")); require(is(currency('A', 'I', 'K'), "", "AIK")); require(is(currency('A', 'I', 'L'), "", "AIL")); require(is(currency('A', 'I', 'M'), "", "AIM")); require(is(currency('A', 'I', 'N'), "", "AIN")); require(is(currency('A', 'I', 'O'), "", "AIO")); require(is(currency('A', 'I', 'P'), "", "AIP")); require(is(currency('A', 'I', 'Q'), "", "AIQ")); require(is(currency('A', 'I', 'R'), "", "AIR")); require(is(currency('A', 'I', 'S'), "", "AIS")); require(is(currency('A', 'I', 'T'), "", "AIT")); require(is(currency('A', 'I', 'U'), "", "AIU")); require(is(currency('A', 'I', 'V'), "", "AIV")); require(is(currency('A', 'I', 'W'), "", "AIW")); require(is(currency('A', 'I', 'X'), "", "AIX")); require(is(currency('A', 'I', 'Y'), "", "AIY")); require(is(currency('A', 'I', 'Z'), "", "AIZ"));)
OBLIGATION(no_currency_AJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from AJ)", (), require(is(currency('A', 'J', 'A'), "", "AJA")); require(is(currency('A', 'J', 'B'), "", "AJB")); require(is(currency('A', 'J', 'C'), "", "AJC")); require(is(currency('A', 'J', 'D'), "", "AJD")); require(is(currency('A', 'J', 'E'), "", "AJE")); require(is(currency('A', 'J', 'F'), "", "AJF")); require(is(currency('A', 'J', 'G'), "", "AJG")); require(is(currency('A', 'J', 'H'), "", "AJH")); require(is(currency('A', 'J', 'I'), "", "AJI")); require(is(currency('A', 'J', 'J'), "", "AJJ")); require(is(currency('A', 'J', 'K'), "", "AJK")); require(is(currency('A', 'J', 'L'), "", "AJL")); require(is(currency('A', 'J', 'M'), "", "AJM")); require(is(currency('A', 'J', 'N'), "", "AJN")); require(is(currency('A', 'J', 'O'), "", "AJO")); require(is(currency('A', 'J', 'P'), "", "AJP")); require(is(currency('A', 'J', 'Q'), "", "AJQ")); require(is(currency('A', 'J', 'R'), "", "AJR")); require(is(currency('A', 'J', 'S'), "", "AJS")); require(is(currency('A', 'J', 'T'), "", "AJT")); require(is(currency('A', 'J', 'U'), "", "AJU")); require(is(currency('A', 'J', 'V'), "", "AJV")); require(is(currency('A', 'J', 'W'), "", "AJW")); require(is(currency('A', 'J', 'X'), "", "AJX")); require(is(currency('A', 'J', 'Y'), "", "AJY")); require(is(currency('A', 'J', 'Z'), "", "AJZ"));)
OBLIGATION(no_currency_AK, "esl/economics/currencies.hpp: currency_name (codes without a currency from AK)", (), require(is(currency('A', 'K', 'A'), "", "AKA")); require(is(currency('A', 'K', 'B'), "", "AKB")); require(is(currency('A', 'K', 'C'), "", "AKC")); require(is(currency('A', 'K', 'D'), "", "AKD")); require(is(currency('A', 'K', 'E'), "", "AKE")); require(is(currency('A', 'K', 'F'), "", "AKF")); require(is(currency('A', 'K', 'G'), "", "AKG")); require(is(currency('A', 'K', 'H'), "", "AKH")); require(is(currency('A', 'K', 'I'), "", "AKI")); require(is(currency('A', 'K', 'J'), "", "AKJ")); require(is(currency('A', 'K', 'K'), "", "AKK")); require(is(currency('A', 'K', 'L'), "", "AKL")); require(is(currency('A', 'K', 'M'), "", "AKM")); require(is(currency('A', 'K', 'N'), "", "AKN")); require(is(currency('A', 'K', 'O'), "", "AKO")); require(is(currency('A', 'K', 'P'), "", "AKP")); require(is(currency('A', 'K', 'Q'), "", "AKQ")); require(is(currency('A', 'K', 'R'), "", "AKR")); require(is(currency('A', 'K', 'S'), "", "AKS")); require(is(currency('A', 'K', 'T'), "", "AKT")); require(is(currency('A', 'K', 'U'), "", "AKU")); require(is(currency('A', 'K', 'V'), "", "AKV")); require(is(currency('A', 'K', 'W'), "", "AKW")); require(is(currency('A', 'K', 'X'), "", "AKX")); require(is(currency('A', 'K', 'Y'), "", "AKY")); require(is(currency('A', 'K', 'Z'), "", "AKZ"));)
OBLIGATION(no_currency_AL, "esl/economics/currencies.hpp: currency_name (codes without a currency from AL)", (), require(is(currency('A', 'L', 'A'), "", "ALA")); require(is(currency('A', 'L', 'B'), "", "ALB")); require(is(currency('A', 'L', 'C'), "", "ALC")); require(is(currency('A', 'L', 'D'), "", "ALD")); require(is(currency('A', 'L', 'E'), "", "ALE")); require(is(currency('A', 'L', 'F'), "", "ALF")); require(is(currency('A', 'L', 'G'), "", "ALG")); require(is(currency('A', 'L', 'H'), "", "ALH")); require(is(currency('A', 'L', 'I'), "", "ALI")); require(is(currency('A', 'L', 'J'), "", "ALJ")); require(is(currency('A', 'L', 'K'), "", "ALK")); require(is(currency('A', 'L', 'M'), "", "ALM")); require(is(currency('A', 'L', 'N'), "", "ALN")); require(is(currency('A', 'L', 'O'), "", "ALO")); require(is(currency('A', 'L', 'P'), "", "ALP")); require(is(currency('A', 'L', 'Q'), "", "ALQ")); require(is(currency('A', 'L', 'R'), "", "ALR")); require(is(currency('A', 'L', 'S'), "", "ALS")); require(is(currency('A', 'L', 'T'), "", "ALT")); require(is(currency('A', 'L', 'U'), "", "ALU")); require(is(currency('A', 'L', 'V'), "", "ALV")); require(is(currency('A', 'L', 'W'), "", "ALW")); require(is(currency('A', 'L', 'X'), "", "ALX")); require(is(currency('A', 'L', 'Y'), "", "ALY")); require(is(currency('A', 'L', 'Z'), "", "ALZ"));)
OBLIGATION(no_currency_AM, "esl/economics/currencies.hpp: currency_name (codes without a currency from AM)", (), require(is(currency('A', 'M', 'A'), "", "AMA")); require(is(currency('A', 'M', 'B'), "", "AMB")); require(is(currency('A', 'M', 'C'), "", "AMC")); require(is(currency('A', 'M', 'E'), "", "AME")); require(is(currency('A', 'M', 'F'), "", "AMF")); require(is(currency('A', 'M', 'G'), "", "AMG")); require(is(currency('A', 'M', 'H'), "", "AMH")); require(is(currency('A', 'M', 'I'), "", "AMI")); require(is(currency('A', 'M', 'J'), "", "AMJ")); require(is(currency('A', 'M', 'K'), "", "AMK")); require(is(currency('A', 'M', 'L'), "", "AML")); require(is(currency('A', 'M', 'M'), "", "AMM")); require(is(currency('A', 'M', 'N'), "", "AMN")); require(is(currency('A', 'M', 'O'), "", "AMO")); require(is(currency('A', 'M', 'P'), "", "AMP")); require(is(currency('A', 'M', 'Q'), "", "AMQ")); require(is(currency('A', 'M', 'R'), "", "AMR")); require(is(currency('A', 'M', 'S'), "", "AMS")); require(is(currency('A', 'M', 'T'), "", "AMT")); require(is(currency('A', 'M', 'U'), "", "AMU")); require(is(currency('A', 'M', 'V'), "", "AMV")); require(is(currency('A', 'M', 'W'), "", "AMW")); require(is(currency('A', 'M', 'X'), "", "AMX")); require(is(currency('A', 'M', 'Y'), "", "AMY")); require(is(currency('A', 'M', 'Z'), "", "AMZ"));)
OBLIGATION(no_currency_AN, "esl/economics/currencies.hpp: currency_name (codes without a currency from AN)", (), require(is(currency('A', 'N', 'A'), "", "ANA")); require(is(currency('A', 'N', 'B'), "", "ANB")); require(is(currency('A', 'N', 'C'), "", "ANC")); require(is(currency('A', 'N', 'D'), "", "AND")); require(is(currency('A', 'N', 'E'), "", "ANE")); require(is(currency('A', 'N', 'F'), "", "ANF")); require(is(currency('A', 'N', 'H'), "", "ANH")); require(is(currency('A', 'N', 'I'), "", "ANI")); require(is(currency('A', 'N', 'J'), "", "ANJ")); require(is(currency('A', 'N', 'K'), "", "ANK")); require(is(currency('A', 'N', 'L'), "", "ANL")); require(is(currency('A', 'N', 'M'), "", "ANM")); require(is(currency('A', 'N', 'N'), "", "ANN")); require(is(currency('A', 'N', 'O'), "", "ANO")); require(is(currency('A', 'N', 'P'), "", "ANP")); require(is(currency('A', 'N', 'Q'), "", "ANQ")); require(is(currency('A', 'N', 'R'), "", "ANR")); require(is(currency('A', 'N', 'S'), "", "ANS")); require(is(currency('A', 'N', 'T'), "", "ANT")); require(is(currency('A', 'N', 'U'), "", "ANU")); require(is(currency('A', 'N', 'V'), "", "ANV")); require(is(currency('A', 'N', 'W'), "", "ANW")); require(is(currency('A', 'N', 'X'), "", "ANX")); require(is(currency('A', 'N', 'Y'), "", "ANY")); require(is(currency('A', 'N', 'Z'), "", "ANZ"));)
OBLIGATION(no_currency_AO, "esl/economics/currencies.hpp: currency_name (codes without a currency from AO)", (), require(is(currency('A', 'O', 'B'), "", "AOB")); require(is(currency('A', 'O', 'C'), "", "AOC")); require(is(currency('A', 'O', 'D'), "", "AOD")); require(is(currency('A', 'O', 'E'), "", "AOE")); require(is(currency('A', 'O', 'F'), "", "AOF")); require(is(currency('A', 'O', 'G'), "", "AOG")); require(is(currency('A', 'O', 'H'), "", "AOH")); require(is(currency('A', 'O', 'I'), "", "AOI")); require(is(currency('A', 'O', 'J'), "", "AOJ")); require(is(currency('A', 'O', 'K'), "", "AOK")); require(is(currency('A', 'O', 'L'), "", "AOL")); require(is(currency('A', 'O', 'M'), "", "AOM")); require(is(currency('A', 'O', 'N'), "", "AON")); require(is(currency('A', 'O', 'O'), "", "AOO")); require(is(currency('A', 'O', 'P'), "", "AOP")); require(is(currency('A', 'O', 'Q'), "", "AOQ")); require(is(currency('A', 'O', 'R'), "", "AOR")); require(is(currency('A', 'O', 'S'), "", "AOS")); require(is(currency('A', 'O', 'T'), "", "AOT")); require(is(currency('A', 'O', 'U'), "", "AOU")); require(is(currency('A', 'O', 'V'), "", "AOV")); require(is(currency('A', 'O', 'W'), "", "AOW")); require(is(currency('A', 'O', 'X'), "", "AOX")); require(is(currency('A', 'O', 'Y'), "", "AOY")); require(is(currency('A', 'O', 'Z'), "", "AOZ"));)
OBLIGATION(no_currency_AP, "esl/economics/currencies.hpp: currency_name (codes without a currency from AP)", (), require(is(currency('A', 'P', 'A'), "", "APA")); require(is(currency('A', 'P', 'B'), "", "APB")); require(is(currency('A', 'P', 'C'), "", "APC")); require(is(currency('A', 'P', 'D'), "", "APD")); require(is(currency('A', 'P', 'E'), "", "APE")); require(is(currency('A', 'P', 'F'), "", "APF")); require(is(currency('A', 'P', 'G'), "", "APG")); require(is(currency('A', 'P', 'H'), "", "APH")); require(is(currency('A', 'P', 'I'), "", "API")); require(is(currency('A', 'P', 'J'), "", "APJ")); require(is(currency('A', 'P', 'K'), "", "APK")); require(is(currency('A', 'P', 'L'), "", "APL")); require(is(currency('A', 'P', 'M'), "", "APM")); require(is(currency('A', 'P', 'N'), "", "APN")); require(is(currency('A', 'P', 'O'), "", "APO")); require(is(currency('A', 'P', 'P'), "", "APP")); require(is(currency('A', 'P', 'Q'), "", "APQ")); require(is(currency('A', 'P', 'R'), "", "APR")); require(is(currency('A', 'P', 'S'), "", "APS")); require(is(currency('A', 'P', 'T'), "", "APT")); require(is(currency('A', 'P', 'U'), "", "APU")); require(is(currency('A', 'P', 'V'), "", "APV")); require(is(currency('A', 'P', 'W'), "", "APW")); require(is(currency('A', 'P', 'X'), "", "APX")); require(is(currency('A', 'P', 'Y'), "", "APY")); require(is(currency('A', 'P', 'Z'), "", "APZ"));)
OBLIGATION(no_currency_AQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from AQ)", (), require(is(currency('A', 'Q', 'A'), "", "AQA")); require(is(currency('A', 'Q', 'B'), "", "AQB")); require(is(currency('A', 'Q', 'C'), "", "AQC")); require(is(currency('A', 'Q', 'D'), "", "AQD")); require(is(currency('A', 'Q', 'E'), "", "AQE")); require(is(currency('A', 'Q', 'F'), "", "AQF")); require(is(currency('A', 'Q', 'G'), "", "AQG")); require(is(currency('A', 'Q', 'H'), "", "AQH")); require(is(currency('A', 'Q', 'I'), "", "AQI")); require(is(currency('A', 'Q', 'J'), "", "AQJ")); require(is(currency('A', 'Q', 'K'), "", "AQK")); require(is(currency('A', 'Q', 'L'), "", "AQL")); require(is(currency('A', 'Q', 'M'), "", "AQM")); require(is(currency('A', 'Q', 'N'), "", "AQN")); require(is(currency('A', 'Q', 'O'), "", "AQO")); require(is(currency('A', 'Q', 'P'), "", "AQP")); require(is(currency('A', 'Q', 'Q'), "", "AQQ")); require(is(currency('A', 'Q', 'R'), "", "AQR")); require(is(currency('A', 'Q', 'S'), "", "AQS")); require(is(currency('A', 'Q', 'T'), "", "AQT")); require(is(currency('A', 'Q', 'U'), "", "AQU")); require(is(currency('A', 'Q', 'V'), "", "AQV")); require(is(currency('A', 'Q', 'W'), "", "AQW")); require(is(currency('A', 'Q', 'X'), "", "AQX")); require(is(currency('A', 'Q', 'Y'), "", "AQY")); require(is(currency('A', 'Q', 'Z'), "", "AQZ"));)
OBLIGATION(no_currency_AR, "esl/economics/currencies.hpp: currency_name (codes without a currency from AR)", (), require(is(currency('A', 'R', 'A'), "", "ARA")); require(is(currency('A', 'R', 'B'), "", "ARB")); require(is(currency('A', 'R', 'C'), "", "ARC")); require(is(currency('A', 'R', 'D'), "", "ARD")); require(is(currency('A', 'R', 'E'), "", "ARE")); require(is(currency('A', 'R', 'F'), "", "ARF")); require(is(currency('A', 'R', 'G'), "", "ARG")); require(is(currency('A', 'R', 'H'), "", "ARH")); require(is(currency('A', 'R', 'I'), "", "ARI")); require(is(currency('A', 'R', 'J'), "", "ARJ")); require(is(currency('A', 'R', 'K'), "", "ARK")); require(is(currency('A', 'R', 'L'), "", "ARL")); require(is(currency('A', 'R', 'M'), "", "ARM")); require(is(currency('A', 'R', 'N'), "", "ARN")); require(is(currency('A', 'R', 'O'), "", "ARO")); require(is(currency('A', 'R', 'P'), "", "ARP")); require(is(currency('A', 'R', 'Q'), "", "ARQ")); require(is(currency('A', 'R', 'R'), "", "ARR")); require(is(currency('A', 'R', 'T'), "", "ART")); require(is(currency('A', 'R', 'U'), "", "ARU")); require(is(currency('A', 'R', 'V'), "", "ARV")); require(is(currency('A', 'R', 'W'), "", "ARW")); require(is(currency('A', 'R', 'X'), "", "ARX")); require(is(currency('A', 'R', 'Y'), "", "ARY")); require(is(currency('A', 'R', 'Z'), "", "ARZ"));)
OBLIGATION(no_currency_AS, "esl/economics/currencies.hpp: currency_name (codes without a currency from AS)", (), require(is(currency('A', 'S', 'A'), "", "ASA")); require(is(currency('A', 'S', 'B'), "", "ASB")); require(is(currency('A', 'S', 'C'), "", "ASC")); require(is(currency('A', 'S', 'D'), "", "ASD")); require(is(currency('A', 'S', 'E'), "", "ASE")); require(is(currency('A', 'S', 'F'), "", "ASF")); require(is(currency('A', 'S', 'G'), "", "ASG")); require(is(currency('A', 'S', 'H'), "", "ASH")); require(is(currency('A', 'S', 'I'), "", "ASI")); require(is(currency('A', 'S', 'J'), "", "ASJ")); require(is(currency('A', 'S', 'K'), "", "ASK")); require(is(currency('A', 'S', 'L'), "", "ASL")); require(is(currency('A', 'S', 'M'), "", "ASM")); require(is(currency('A', 'S', 'N'), "", "ASN")); require(is(currency('A', 'S', 'O'), "", "ASO")); require(is(currency('A', 'S', 'P'), "", "ASP")); require(is(currency('A', 'S', 'Q'), "", "ASQ")); require(is(currency('A', 'S', 'R'), "", "ASR")); require(is(currency('A', 'S', 'S'), "", "ASS")); require(is(currency('A', 'S', 'T'), "", "AST")); require(is(currency('A', 'S', 'U'), "", "ASU")); require(is(currency('A', 'S', 'V'), "", "ASV")); require(is(currency('A', 'S', 'W'), "", "ASW")); require(is(currency('A', 'S', 'X'), "", "ASX")); require(is(currency('A', 'S', 'Y'), "", "ASY")); require(is(currency('A', 'S', 'Z'), "", "ASZ"));)
OBLIGATION(no_currency_AT, "esl/economics/currencies.hpp: currency_name (codes without a currency from AT)", (), require(is(currency('A', 'T', 'A'), "", "ATA")); require(is(currency('A', 'T', 'B'), "", "ATB")); require(is(currency('A', 'T', 'C'), "", "ATC")); require(is(currency('A', 'T', 'D'), "", "ATD")); require(is(currency('A', 'T', 'E'), "", "ATE")); require(is(currency('A', 'T', 'F'), "", "ATF")); require(is(currency('A', 'T', 'G'), "", "ATG")); require(is(currency('A', 'T', 'H'), "", "ATH")); require(is(currency('A', 'T', 'I'), "", "ATI")); require(is(currency('A', 'T', 'J'), "", "ATJ")); require(is(currency('A', 'T', 'K'), "", "ATK")); require(is(currency('A', 'T', 'L'), "", "ATL")); require(is(currency('A', 'T', 'M'), "", "ATM")); require(is(currency('A', 'T', 'N'), "", "ATN")); require(is(currency('A', 'T', 'O'), "", "ATO")); require(is(currency('A', 'T', 'P'), "", "ATP")); require(is(currency('A', 'T', 'Q'), "", "ATQ")); require(is(currency('A', 'T', 'R'), "", "ATR")); require(is(currency('A', 'T', 'S'), "", "ATS")); require(is(currency('A', 'T', 'T'), "", "ATT")); require(is(currency('A', 'T', 'U'), "", "ATU")); require(is(currency('A', 'T', 'V'), "", "ATV")); require(is(currency('A', 'T', 'W'), "", "ATW")); require(is(currency('A', 'T', 'X'), "", "ATX")); require(is(currency('A', 'T', 'Y'), "", "ATY")); require(is(currency('A', 'T', 'Z'), "", "ATZ"));)
OBLIGATION(no_currency_AU, "esl/economics/currencies.hpp: currency_name (codes without a currency from AU)", (), require(is(currency('A', 'U', 'A'), "", "AUA")); require(is(currency('A', 'U', 'B'), "", "AUB")); require(is(currency('A', 'U', 'C'), "", "AUC")); require(is(currency('A', 'U', 'E'), "", "AUE")); require(is(currency('A', 'U', 'F'), "", "AUF")); require(is(currency('A', 'U', 'G'), "", "AUG")); require(is(currency('A', 'U', 'H'), "", "AUH")); require(is(currency('A', 'U', 'I'), "", "AUI")); require(is(currency('A', 'U', 'J'), "", "AUJ")); require(is(currency('A', 'U', 'K'), "", "AUK")); require(is(currency('A', 'U', 'L'), "", "AUL")); require(is(currency('A', 'U', 'M'), "", "AUM")); require(is(currency('A', 'U', 'N'), "", "AUN")); require(is(currency('A', 'U', 'O'), "", "AUO")); require(is(currency('A', 'U', 'P'), "", "AUP")); require(is(currency('A', 'U', 'Q'), "", "AUQ")); require(is(currency('A', 'U', 'R'), "", "AUR")); require(is(currency('A', 'U', 'S'), "", "AUS")); require(is(currency('A', 'U', 'T'), "", "AUT")); require(is(currency('A', 'U', 'U'), "", "AUU")); require(is(currency('A', 'U', 'V'), "", "AUV")); require(is(currency('A', 'U', 'W'), "", "AUW")); require(is(currency('A', 'U', 'X'), "", "AUX")); require(is(currency('A', 'U', 'Y'), "", "AUY")); require(is(currency('A', 'U', 'Z'), "", "AUZ"));)
OBLIGATION(no_currency_AV, "esl/economics/currencies.hpp: currency_name (codes without a currency from AV)", (), require(is(currency('A', 'V', 'A'), "", "AVA")); require(is(currency('A', 'V', 'B'), "", "AVB")); require(is(currency('A', 'V', 'C'), "", "AVC")); require(is(currency('A', 'V', 'D'), "", "AVD")); require(is(currency('A', 'V', 'E'), "", "AVE")); require(is(currency('A', 'V', 'F'), "", "AVF")); require(is(currency('A', 'V', 'G'), "", "AVG")); require(is(currency('A', 'V', 'H'), "", "AVH")); require(is(currency('A', 'V', 'I'), "", "AVI")); require(is(currency('A', 'V', 'J'), "", "AVJ")); require(is(currency('A', 'V', 'K'), "", "AVK")); require(is(currency('A', 'V', 'L'), "", "AVL")); require(is(currency('A', 'V', 'M'), "", "AVM")); require(is(currency('A', 'V', 'N'), "", "AVN")); require(is(currency('A', 'V', 'O'), "", "AVO")); require(is(currency('A', 'V', 'P'), "", "AVP")); require(is(currency('A', 'V', 'Q'), "", "AVQ")); require(is(currency('A', 'V', 'R'), "", "AVR")); require(is(currency('A', 'V', 'S'), "", "AVS")); require(is(currency('A', 'V', 'T'), "", "AVT")); require(is(currency('A', 'V', 'U'), "", "AVU")); require(is(currency('A', 'V', 'V'), "", "AVV")); require(is(currency('A', 'V', 'W'), "", "AVW")); require(is(currency('A', 'V', 'X'), "", "AVX")); require(is(currency('A', 'V', 'Y'), "", "AVY")); require(is(currency('A', 'V', 'Z'), "", "AVZ"));)
OBLIGATION(no_currency_AW, "esl/economics/currencies.hpp: currency_name (codes without a currency from AW)", (), require(is(currency('A', 'W', 'A'), "", "AWA")); require(is(currency('A', 'W', 'B'), "", "AWB")); require(is(currency('A', 'W', 'C'), "", "AWC")); require(is(currency('A', 'W', 'D'), "", "AWD")); require(is(currency('A', 'W', 'E'), "", "AWE")); require(is(currency('A', 'W', 'F'), "", "AWF")); require(is(currency('A', 'W', 'H'), "", "AWH")); require(is(currency('A', 'W', 'I'), "", "AWI")); require(is(currency('A', 'W', 'J'), "", "AWJ")); require(is(currency('A', 'W', 'K'), "", "AWK")); require(is(currency('A', 'W', 'L'), "", "AWL")); require(is(currency('A', 'W', 'M'), "", "AWM")); require(is(currency('A', 'W', 'N'), "", "AWN")); require(is(currency('A', 'W', 'O'), "", "AWO")); require(is(currency('A', 'W', 'P'), "", "AWP")); require(is(currency('A', 'W', 'Q'), "", "AWQ")); require(is(currency('A', 'W', 'R'), "", "AWR")); require(is(currency('A', 'W', 'S'), "", "AWS")); require(is(currency('A', 'W', 'T'), "", "AWT")); require(is(currency('A', 'W', 'U'), "", "AWU")); require(is(currency('A', 'W', 'V'), "", "AWV")); require(is(currency('A', 'W', 'W'), "", "AWW")); require(is(currency('A', 'W', 'X'), "", "AWX")); require(is(currency('A', 'W', 'Y'), "", "AWY")); require(is(currency('A', 'W', 'Z'), "", "AWZ"));)
OBLIGATION(no_currency_AX, "esl/economics/currencies.hpp: currency_name (codes without a currency from AX)", (), require(is(currency('A', 'X', 'A'), "", "AXA")); require(is(currency('A', 'X', 'B'), "", "AXB")); require(is(currency('A', 'X', 'C'), "", "AXC")); require(is(currency('A', 'X', 'D'), "", "AXD")); require(is(currency('A', 'X', 'E'), "", "AXE")); require(is(currency('A', 'X', 'F'), "", "AXF")); require(is(currency('A', 'X', 'G'), "", "AXG")); require(is(currency('A', 'X', 'H'), "", "AXH")); require(is(currency('A', 'X', 'I'), "", "AXI")); require(is(currency('A', 'X', 'J'), "", "AXJ")); require(is(currency('A', 'X', 'K'), "", "AXK")); require(is(currency('A', 'X', 'L'), "", "AXL")); require(is(currency('A', 'X', 'M'), "", "AXM")); require(is(currency('A', 'X', 'N'), "", "AXN")); require(is(currency('A', 'X', 'O'), "", "AXO")); require(is(currency('A', 'X', 'P'), "", "AXP")); require(is(currency('A', 'X', 'Q'), "", "AXQ")); require(is(currency('A', 'X', 'R'), "", "AXR")); require(is(currency('A', 'X', 'S'), "", "AXS")); require(is(currency('A', 'X', 'T'), "", "AXT")); require(is(currency('A', 'X', 'U'), "", "AXU")); require(is(currency('A', 'X', 'V'), "", "AXV")); require(is(currency('A', 'X', 'W'), "", "AXW")); require(is(currency('A', 'X', 'X'), "", "AXX")); require(is(currency('A', 'X', 'Y'), "", "AXY")); require(is(currency('A', 'X', 'Z'), "", "AXZ"));)
OBLIGATION(no_currency_AY, "esl/economics/currencies.hpp: currency_name (codes without a currency from AY)", (), require(is(currency('A', 'Y', 'A'), "", "AYA")); require(is(currency('A', 'Y', 'B'), "", "AYB")); require(is(currency('A', 'Y', 'C'), "", "AYC")); require(is(currency('A', 'Y', 'D'), "", "AYD")); require(is(currency('A', 'Y', 'E'), "", "AYE")); require(is(currency('A', 'Y', 'F'), "", "AYF")); require(is(currency('A', 'Y', 'G'), "", "AYG")); require(is(currency('A', 'Y', 'H'), "", "AYH")); require(is(currency('A', 'Y', 'I'), "", "AYI")); require(is(currency('A', 'Y', 'J'), "", "AYJ")); require(is(currency('A', 'Y', 'K'), "", "AYK")); require(is(currency('A', 'Y', 'L'), "", "AYL")); require(is(currency('A', 'Y', 'M'), "", "AYM")); require(is(currency('A', 'Y', 'N'), "", "AYN")); require(is(currency('A', 'Y', 'O'), "", "AYO")); require(is(currency('A', 'Y', 'P'), "", "AYP")); require(is(currency('A', 'Y', 'Q'), "", "AYQ")); require(is(currency('A', 'Y', 'R'), "", "AYR")); require(is(currency('A', 'Y', 'S'), "", "AYS")); require(is(currency('A', 'Y', 'T'), "", "AYT")); require(is(currency('A', 'Y', 'U'), "", "AYU")); require(is(currency('A', 'Y', 'V'), "", "AYV")); require(is(currency('A', 'Y', 'W'), "", "AYW")); require(is(currency('A', 'Y', 'X'), "", "AYX")); require(is(currency('A', 'Y', 'Y'), "", "AYY")); require(is(currency('A', 'Y', 'Z'), "", "AYZ"));)
OBLIGATION(no_currency_AZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from AZ)", (), require(is(currency('A', 'Z', 'A'), "", "AZA")); require(is(currency('A', 'Z', 'B'), "", "AZB")); require(is(currency('A', 'Z', 'C'), "", "AZC")); require(is(currency('A', 'Z', 'D'), "", "AZD")); require(is(currency('A', 'Z', 'E'), "", "AZE")); require(is(currency('A', 'Z', 'F'), "", "AZF")); require(is(currency('A', 'Z', 'G'), "", "AZG")); require(is(currency('A', 'Z', 'H'), "", "AZH")); require(is(currency('A', 'Z', 'I'), "", "AZI")); require(is(currency('A', 'Z', 'J'), "", "AZJ")); require(is(currency('A', 'Z', 'K'), "", "AZK")); require(is(currency('A', 'Z', 'L'), "", "AZL")); require(is(currency('A', 'Z', 'M'), "", "AZM")); require(is(currency('A', 'Z', 'O'), "", "AZO")); require(is(currency('A', 'Z', 'P'), "", "AZP")); require(is(currency('A', 'Z', 'Q'), "", "AZQ")); require(is(currency('A', 'Z', 'R'), "", "AZR")); require(is(currency('A', 'Z', 'S'), "", "AZS")); require(is(currency('A', 'Z', 'T'), "", "AZT")); require(is(currency('A', 'Z', 'U'), "", "AZU")); require(is(currency('A', 'Z', 'V'), "", "AZV")); require(is(currency('A', 'Z', 'W'), "", "AZW")); require(is(currency('A', 'Z', 'X'), "", "AZX")); require(is(currency('A', 'Z', 'Y'), "", "AZY")); require(is(currency('A', 'Z', 'Z'), "", "AZZ"));)
OBLIGATION(no_currency_BA, "esl/economics/currencies.hpp: currency_name (codes without a currency from BA)", (), require(is(currency('B', 'A', 'A'), "", "BAA")); require(is(currency('B', 'A', 'B'), "", "BAB")); require(is(currency('B', 'A', 'C'), "", "BAC")); require(is(currency('B', 'A', 'D'), "", "BAD")); require(is(currency('B', 'A', 'E'), "", "BAE")); require(is(currency('B', 'A', 'F'), "", "BAF")); require(is(currency('B', 'A', 'G'), "", "BAG")); require(is(currency('B', 'A', 'H'), "", "BAH")); require(is(currency('B', 'A', 'I'), "", "BAI")); require(is(currency('B', 'A', 'J'), "", "BAJ")); require(is(currency('B', 'A', 'K'), "", "BAK")); require(is(currency('B', 'A', 'L'), "", "BAL")); require(is(currency('B', 'A', 'N'), "", "BAN")); require(is(currency('B', 'A', 'O'), "", "BAO")); require(is(currency('B', 'A', 'P'), "", "BAP")); require(is(currency('B', 'A', 'Q'), "", "BAQ")); require(is(currency('B', 'A', 'R'), "", "BAR")); require(is(currency('B', 'A', 'S'), "", "BAS")); require(is(currency('B', 'A', 'T'), "", "BAT")); require(is(currency('B', 'A', 'U'), "", "BAU")); require(is(currency('B', 'A', 'V'), "", "BAV")); require(is(currency('B', 'A', 'W'), "", "BAW")); require(is(currency('B', 'A', 'X'), "", "BAX")); require(is(currency('B', 'A', 'Y'), "", "BAY")); require(is(currency('B', 'A', 'Z'), "", "BAZ"));)
OBLIGATION(no_currency_BB, "esl/economics/currencies.hpp: currency_name (codes without a currency from BB)", (), require(is(currency('B', 'B', 'A'), "", "BBA")); require(is(currency('B', 'B', 'B'), "", "BBB")); require(is(currency('B', 'B', 'C'), "", "BBC")); require(is(currency('B', 'B', 'E'), "", "BBE")); require(is(currency('B', 'B', 'F'), "", "BBF")); require(is(currency('B', 'B', 'G'), "", "BBG")); require(is(currency('B', 'B', 'H'), "", "BBH")); require(is(currency('B', 'B', 'I'), "", "BBI")); require(is(currency('B', 'B', 'J'), "", "BBJ")); require(is(currency('B', 'B', 'K'), "", "BBK")); require(is(currency('B', 'B', 'L'), "", "BBL")); require(is(currency('B', 'B', 'M'), "", "BBM")); require(is(currency('B', 'B', 'N'), "", "BBN")); require(is(currency('B', 'B', 'O'), "", "BBO")); require(is(currency('B', 'B', 'P'), "", "BBP")); require(is(currency('B', 'B', 'Q'), "", "BBQ")); require(is(currency('B', 'B', 'R'), "", "BBR")); require(is(currency('B', 'B', 'S'), "", "BBS")); require(is(currency('B', 'B', 'T'), "", "BBT")); require(is(currency('B', 'B', 'U'), "", "BBU")); require(is(currency('B', 'B', 'V'), "", "BBV")); require(is(currency('B', 'B', 'W'), "", "BBW")); require(is(currency('B', 'B', 'X'), "", "BBX")); require(is(currency('B', 'B', 'Y'), "", "BBY")); require(is(currency('B', 'B', 'Z'), "", "BBZ"));)
OBLIGATION(no_currency_BC, "esl/economics/currencies.hpp: currency_name (codes without a currency from BC)", (), require(is(currency('B', 'C', 'A'), "", "BCA")); require(is(currency('B', 'C', 'B'), "", "BCB")); require(is(currency('B', 'C', 'C'), "", "BCC")); require(is(currency('B', 'C', 'D'), "", "BCD")); require(is(currency('B', 'C', 'E'), "", "BCE")); require(is(currency('B', 'C', 'F'), "", "BCF")); require(is(currency('B', 'C', 'G'), "", "BCG")); require(is(currency('B', 'C', 'H'), "", "BCH")); require(is(currency('B', 'C', 'I'), "", "BCI")); require(is(currency('B', 'C', 'J'), "", "BCJ")); require(is(currency('B', 'C', 'K'), "", "BCK")); require(is(currency('B', 'C', 'L'), "", "BCL")); require(is(currency('B', 'C', 'M'), "", "BCM")); require(is(currency('B', 'C', 'N'), "", "BCN")); require(is(currency('B', 'C', 'O'), "", "BCO")); require(is(currency('B', 'C', 'P'), "", "BCP")); require(is(currency('B', 'C', 'Q'), "", "BCQ")); require(is(currency('B', 'C', 'R'), "", "BCR")); require(is(currency('B', 'C', 'S'), "", "BCS")); require(is(currency('B', 'C', 'T'), "", "BCT")); require(is(currency('B', 'C', 'U'), "", "BCU")); require(is(currency('B', 'C', 'V'), "", "BCV")); require(is(currency('B', 'C', 'W'), "", "BCW")); require(is(currency('B', 'C', 'X'), "", "BCX")); require(is(currency('B', 'C', 'Y'), "", "BCY")); require(is(currency('B', 'C', 'Z'), "", "BCZ"));)
OBLIGATION(no_currency_BD, "esl/economics/currencies.hpp: currency_name (codes without a currency from BD)", (), require(is(currency('B', 'D', 'A'), "", "BDA")); require(is(currency('B', 'D', 'B'), "", "BDB")); require(is(currency('B', 'D', 'C'), "", "BDC")); require(is(currency('B', 'D', 'D'), "", "BDD")); require(is(currency('B', 'D', 'E'), "", "BDE")); require(is(currency('B', 'D', 'F'), "", "BDF")); require(is(currency('B', 'D', 'G'), "", "BDG")); require(is(currency('B', 'D', 'H'), "", "BDH")); require(is(currency('B', 'D', 'I'), "", "BDI")); require(is(currency('B', 'D', 'J'), "", "BDJ")); require(is(currency('B', 'D', 'K'), "", "BDK")); require(is(currency('B', 'D', 'L'), "", "BDL")); require(is(currency('B', 'D', 'M'), "", "BDM")); require(is(currency('B', 'D', 'N'), "", "BDN")); require(is(currency('B', 'D', 'O'), "", "BDO")); require(is(currency('B', 'D', 'P'), "", "BDP")); require(is(currency('B', 'D', 'Q'), "", "BDQ")); require(is(currency('B', 'D', 'R'), "", "BDR")); require(is(currency('B', 'D', 'S'), "", "BDS")); require(is(currency('B', 'D', 'U'), "", "BDU")); require(is(currency('B', 'D', 'V'), "", "BDV")); require(is(currency('B', 'D', 'W'), "", "BDW")); require(is(currency('B', 'D', 'X'), "", "BDX")); require(is(currency('B', 'D', 'Y'), "", "BDY")); require(is(currency('B', 'D', 'Z'), "", "BDZ"));)
OBLIGATION(no_currency_BE, "esl/economics/currencies.hpp: currency_name (codes without a currency from BE)", (), require(is(currency('B', 'E', 'A'), "", "BEA")); require(is(currency('B', 'E', 'B'), "", "BEB")); require(is(currency('B', 'E', 'C'), "", "BEC")); require(is(currency('B', 'E', 'D'), "", "BED")); require(is(currency('B', 'E', 'E'), "", "BEE")); require(is(currency('B', 'E', 'F'), "", "BEF")); require(is(currency('B', 'E', 'G'), "", "BEG")); require(is(currency('B', 'E', 'H'), "", "BEH")); require(is(currency('B', 'E', 'I'), "", "BEI")); require(is(currency('B', 'E', 'J'), "", "BEJ")); require(is(currency('B', 'E', 'K'), "", "BEK")); require(is(currency('B', 'E', 'L'), "", "BEL")); require(is(currency('B', 'E', 'M'), "", "BEM")); require(is(currency('B', 'E', 'N'), "", "BEN")); require(is(currency('B', 'E', 'O'), "", "BEO")); require(is(currency('B', 'E', 'P'), "", "BEP")); require(is(currency('B', 'E', 'Q'), "", "BEQ")); require(is(currency('B', 'E', 'R'), "", "BER")); require(is(currency('B', 'E', 'S'), "", "BES")); require(is(currency('B', 'E', 'T'), "", "BET")); require(is(currency('B', 'E', 'U'), "", "BEU")); require(is(currency('B', 'E', 'V'), "", "BEV")); require(is(currency('B', 'E', 'W'), "", "BEW")); require(is(currency('B', 'E', 'X'), "", "BEX")); require(is(currency('B', 'E', 'Y'), "", "BEY")); require(is(currency('B', 'E', 'Z'), "", "BEZ"));)
OBLIGATION(no_currency_BF, "esl/economics/currencies.hpp: currency_name (codes without a currency from BF)", (), require(is(currency('B', 'F', 'A'), "", "BFA")); require(is(currency('B', 'F', 'B'), "", "BFB")); require(is(currency('B', 'F', 'C'), "", "BFC")); require(is(currency('B', 'F', 'D'), "", "BFD")); require(is(currency('B', 'F', 'E'), "", "BFE")); require(is(currency('B', 'F', 'F'), "", "BFF")); require(is(currency('B', 'F', 'G'), "", "BFG")); require(is(currency('B', 'F', 'H'), "", "BFH")); require(is(currency('B', 'F', 'I'), "", "BFI")); require(is(currency('B', 'F', 'J'), "", "BFJ")); require(is(currency('B', 'F', 'K'), "", "BFK")); require(is(currency('B', 'F', 'L'), "", "BFL")); require(is(currency('B', 'F', 'M'), "", "BFM")); require(is(currency('B', 'F', 'N'), "", "BFN")); require(is(currency('B', 'F', 'O'), "", "BFO")); require(is(currency('B', 'F', 'P'), "", "BFP")); require(is(currency('B', 'F', 'Q'), "", "BFQ")); require(is(currency('B', 'F', 'R'), "", "BFR")); require(is(currency('B', 'F', 'S'), "", "BFS")); require(is(currency('B', 'F', 'T'), "", "BFT")); require(is(currency('B', 'F', 'U'), "", "BFU")); require(is(currency('B', 'F', 'V'), "", "BFV")); require(is(currency('B', 'F', 'W'), "", "BFW")); require(is(currency('B', 'F', 'X'), "", "BFX")); require(is(currency('B', 'F', 'Y'), "", "BFY")); require(is(currency('B', 'F', 'Z'), "", "BFZ"));)
OBLIGATION(no_currency_BG, "esl/economics/currencies.hpp: currency_name (codes without a currency from BG)", (), require(is(currency('B', 'G', 'A'), "", "BGA")); require(is(currency('B', 'G', 'B'), "", "BGB")); require(is(currency('B', 'G', 'C'), "", "BGC")); require(is(currency('B', 'G', 'D'), "", "BGD")); require(is(currency('B', 'G', 'E'), "", "BGE")); require(is(currency('B', 'G', 'F'), "", "BGF")); require(is(currency('B', 'G', 'G'), "", "BGG")); require(is(currency('B', 'G', 'H'), "", "BGH")); require(is(currency('B', 'G', 'I'), "", "BGI")); require(is(currency('B', 'G', 'J'), "", "BGJ")); require(is(currency('B', 'G', 'K'), "", "BGK")); require(is(currency('B', 'G', 'L'), "", "BGL")); require(is(currency('B', 'G', 'M'), "", "BGM")); require(is(currency('B', 'G', 'O'), "", "BGO")); require(is(currency('B', 'G', 'P'), "", "BGP")); require(is(currency('B', 'G', 'Q'), "", "BGQ")); require(is(currency('B', 'G', 'R'), "", "BGR")); require(is(currency('B', 'G', 'S'), "", "BGS")); require(is(currency('B', 'G', 'T'), "", "BGT")); require(is(currency('B', 'G', 'U'), "", "BGU")); require(is(currency('B', 'G', 'V'), "", "BGV")); require(is(currency('B', 'G', 'W'), "", "BGW")); require(is(currency('B', 'G', 'X'), "", "BGX")); require(is(currency('B', 'G', 'Y'), "", "BGY")); require(is(currency('B', 'G', 'Z'), "", "BGZ"));)
OBLIGATION(no_currency_BH, "esl/economics/currencies.hpp: currency_name (codes without a currency from BH)", (), require(is(currency('B', 'H', 'A'), "", "BHA")); require(is(currency('B', 'H', 'B'), "", "BHB")); require(is(currency('B', 'H', 'C'), "", "BHC")); require(is(currency('B', 'H', 'E'), "", "BHE")); require(is(currency('B', 'H', 'F'), "", "BHF")); require(is(currency('B', 'H', 'G'), "", "BHG")); require(is(currency('B', 'H', 'H'), "", "BHH")); require(is(currency('B', 'H', 'I'), "", "BHI")); require(is(currency('B', 'H', 'J'), "", "BHJ")); require(is(currency('B', 'H', 'K'), "", "BHK")); require(is(currency('B', 'H', 'L'), "", "BHL")); require(is(currency('B', 'H', 'M'), "", "BHM")); require(is(currency('B', 'H', 'N'), "", "BHN")); require(is(currency('B', 'H', 'O'), "", "BHO")); require(is(currency('B', 'H', 'P'), "", "BHP")); require(is(currency('B', 'H', 'Q'), "", "BHQ")); require(is(currency('B', 'H', 'R'), "", "BHR")); require(is(currency('B', 'H', 'S'), "", "BHS")); require(is(currency('B', 'H', 'T'), "", "BHT")); require(is(currency('B', 'H', 'U'), "", "BHU")); require(is(currency('B', 'H', 'V'), "", "BHV")); require(is(currency('B', 'H', 'W'), "", "BHW")); require(is(currency('B', 'H', 'X'), "", "BHX")); require(is(currency('B', 'H', 'Y'), "", "BHY")); require(is(currency('B', 'H', 'Z'), "", "BHZ"));)
OBLIGATION(no_currency_BI, "esl/economics/currencies.hpp: currency_name (codes without a currency from BI)", (), require(is(currency('B', 'I', 'A'), "", "BIA")); require(is(currency('B', 'I', 'B'), "", "BIB")); require(is(currency('B', 'I', 'C'), "", "BIC")); require(is(currency('B', 'I', 'D'), "", "BID")); require(is(currency('B', 'I', 'E'), "", "BIE")); require(is(currency('B', 'I', 'G'), "", "BIG")); require(is(currency('B', 'I', 'H'), "", "BIH")); require(is(currency('B', 'I', 'I'), "", "BII")); require(is(currency('B', 'I', 'J'), "", "BIJ")); require(is(currency('B', 'I', 'K'), "", "BIK")); require(is(currency('B', 'I', 'L'), "", "BIL")); require(is(currency('B', 'I', 'M'), "", "BIM")); require(is(currency('B', 'I', 'N'), "", "BIN")); require(is(currency('B', 'I', 'O'), "", "BIO")); require(is(currency('B', 'I', 'P'), "", "BIP")); require(is(currency('B', 'I', 'Q'), "", "BIQ")); require(is(currency('B', 'I', 'R'), "", "BIR")); require(is(currency('B', 'I', 'S'), "", "BIS")); require(is(currency('B', 'I', 'T'), "", "BIT")); require(is(currency('B', 'I', 'U'), "", "BIU")); require(is(currency('B', 'I', 'V'), "", "BIV")); require(is(currency('B', 'I', 'W'), "", "BIW")); require(is(currency('B', 'I', 'X'), "", "BIX")); require(is(currency('B', 'I', 'Y'), "", "BIY")); require(is(currency('B', 'I', 'Z'), "", "BIZ"));)
OBLIGATION(no_currency_BJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from BJ)", (), require(is(currency('B', 'J', 'A'), "", "BJA")); require(is(currency('B', 'J', 'B'), "", "BJB")); require(is(currency('B', 'J', 'C'), "", "BJC")); require(is(currency('B', 'J', 'D'), "", "BJD")); require(is(currency('B', 'J', 'E'), "", "BJE")); require(is(currency('B', 'J', 'F'), "", "BJF")); require(is(currency('B', 'J', 'G'), "", "BJG")); require(is(currency('B', 'J', 'H'), "", "BJH")); require(is(currency('B', 'J', 'I'), "", "BJI")); require(is(currency('B', 'J', 'J'), "", "BJJ")); require(is(currency('B', 'J', 'K'), "", "BJK")); require(is(currency('B', 'J', 'L'), "", "BJL")); require(is(currency('B', 'J', 'M'), "", "BJM")); require(is(currency('B', 'J', 'N'), "", "BJN")); require(is(currency('B', 'J', 'O'), "", "BJO")); require(is(currency('B', 'J', 'P'), "", "BJP")); require(is(currency('B', 'J', 'Q'), "", "BJQ")); require(is(currency('B', 'J', 'R'), "", "BJR")); require(is(currency('B', 'J', 'S'), "", "BJS")); require(is(currency('B', 'J', 'T'), "", "BJT")); require(is(currency('B', 'J', 'U'), "", "BJU")); require(is(currency('B', 'J', 'V'), "", "BJV")); require(is(currency('B', 'J', 'W'), "", "BJW")); require(is(currency('B', 'J', 'X'), "", "BJX")); require(is(currency('B', 'J', 'Y'), "", "BJY")); require(is(currency('B', 'J', 'Z'), "", "BJZ"));)
OBLIGATION(no_currency_BK, "esl/economics/currencies.hpp: currency_name (codes without a currency from BK)", (), require(is(currency('B', 'K', 'A'), "", "BKA")); require(is(currency('B', 'K', 'B'), "", "BKB")); require(is(currency('B', 'K', 'C'), "", "BKC")); require(is(currency('B', 'K', 'D'), "", "BKD")); require(is(currency('B', 'K', 'E'), "", "BKE")); require(is(currency('B', 'K', 'F'), "", "BKF")); require(is(currency('B', 'K', 'G'), "", "BKG")); require(is(currency('B', 'K', 'H'), "", "BKH")); require(is(currency('B', 'K', 'I'), "", "BKI")); require(is(currency('B', 'K', 'J'), "", "BKJ")); require(is(currency('B', 'K', 'K'), "", "BKK")); require(is(currency('B', 'K', 'L'), "", "BKL")); require(is(currency('B', 'K', 'M'), "", "BKM")); require(is(currency('B', 'K', 'N'), "", "BKN")); require(is(currency('B', 'K', 'O'), "", "BKO")); require(is(currency('B', 'K', 'P'), "", "BKP")); require(is(currency('B', 'K', 'Q'), "", "BKQ")); require(is(currency('B', 'K', 'R'), "", "BKR")); require(is(currency('B', 'K', 'S'), "", "BKS")); require(is(currency('B', 'K', 'T'), "", "BKT")); require(is(currency('B', 'K', 'U'), "", "BKU")); require(is(currency('B', 'K', 'V'), "", "BKV")); require(is(currency('B', 'K', 'W'), "", "BKW")); require(is(currency('B', 'K', 'X'), "", "BKX")); require(is(currency('B', 'K', 'Y'), "", "BKY")); require(is(currency('B', 'K', 'Z'), "", "BKZ"));)
OBLIGATION(no_currency_BL, "esl/economics/currencies.hpp: currency_name (codes without a currency from BL)", (), require(is(currency('B', 'L', 'A'), "", "BLA")); require(is(currency('B', 'L', 'B'), "", "BLB")); require(is(currency('B', 'L', 'C'), "", "BLC")); require(is(currency('B', 'L', 'D'), "", "BLD")); require(is(currency('B', 'L', 'E'), "", "BLE")); require(is(currency('B', 'L', 'F'), "", "BLF")); require(is(currency('B', 'L', 'G'), "", "BLG")); require(is(currency('B', 'L', 'H'), "", "BLH")); require(is(currency('B', 'L', 'I'), "", "BLI")); require(is(currency('B', 'L', 'J'), "", "BLJ")); require(is(currency('B', 'L', 'K'), "", "BLK")); require(is(currency('B', 'L', 'L'), "", "BLL")); require(is(currency('B', 'L', 'M'), "", "BLM")); require(is(currency('B', 'L', 'N'), "", "BLN")); require(is(currency('B', 'L', 'O'), "", "BLO")); require(is(currency('B', 'L', 'P'), "", "BLP")); require(is(currency('B', 'L', 'Q'), "", "BLQ")); require(is(currency('B', 'L', 'R'), "", "BLR")); require(is(currency('B', 'L', 'S'), "", "BLS")); require(is(currency('B', 'L', 'T'), "", "BLT")); require(is(currency('B', 'L', 'U'), "", "BLU")); require(is(currency('B', 'L', 'V'), "", "BLV")); require(is(currency('B', 'L', 'W'), "", "BLW")); require(is(currency('B', 'L', 'X'), "", "BLX")); require(is(currency('B', 'L', 'Y'), "", "BLY")); require(is(currency('B', 'L', 'Z'), "", "BLZ"));)
OBLIGATION(no_currency_BM, "esl/economics/currencies.hpp: currency_name (codes without a currency from BM)", (), require(is(currency('B', 'M', 'A'), "", "BMA")); require(is(currency('B', 'M', 'B'), "", "BMB")); require(is(currency('B', 'M', 'C'), "", "BMC")); require(is(currency('B', 'M', 'E'), "", "BME")); require(is(currency('B', 'M', 'F'), "", "BMF")); require(is(currency('B', 'M', 'G'), "", "BMG")); require(is(currency('B', 'M', 'H'), "", "BMH")); require(is(currency('B', 'M', 'I'), "", "BMI")); require(is(currency('B', 'M', 'J'), "", "BMJ")); require(is(currency('B', 'M', 'K'), "", "BMK")); require(is(currency('B', 'M', 'L'), "", "BML")); require(is(currency('B', 'M', 'M'), "", "BMM")); require(is(currency('B', 'M', 'N'), "", "BMN")); require(is(currency('B', 'M', 'O'), "", "BMO")); require(is(currency('B', 'M', 'P'), "", "BMP")); require(is(currency('B', 'M', 'Q'), "", "BMQ")); require(is(currency('B', 'M', 'R'), "", "BMR")); require(is(currency('B', 'M', 'S'), "", "BMS")); require(is(currency('B', 'M', 'T'), "", "BMT")); require(is(currency('B', 'M', 'U'), "", "BMU")); require(is(currency('B', 'M', 'V'), "", "BMV")); require(is(currency('B', 'M', 'W'), "", "BMW")); require(is(currency('B', 'M', 'X'), "", "BMX")); require(is(currency('B', 'M', 'Y'), "", "BMY")); require(is(currency('B', 'M', 'Z'), "", "BMZ"));)
OBLIGATION(no_currency_BN, "esl/economics/currencies.hpp: currency_name (codes without a currency from BN)", (), require(is(currency('B', 'N', 'A'), "", "BNA")); require(is(currency('B', 'N', 'B'), "", "BNB")); require(is(currency('B', 'N', 'C'), "", "BNC")); require(is(currency('B', 'N', 'E'), "", "BNE")); require(is(currency('B', 'N', 'F'), "", "BNF")); require(is(currency('B', 'N', 'G'), "", "BNG")); require(is(currency('B', 'N', 'H'), "", "BNH")); require(is(currency('B', 'N', 'I'), "", "BNI")); require(is(currency('B', 'N', 'J'), "", "BNJ")); require(is(currency('B', 'N', 'K'), "", "BNK")); require(is(currency('B', 'N', 'L'), "", "BNL")); require(is(currency('B', 'N', 'M'), "", "BNM")); require(is(currency('B', 'N', 'N'), "", "BNN")); require(is(currency('B', 'N', 'O'), "", "BNO")); require(is(currency('B', 'N', 'P'), "", "BNP")); require(is(currency('B', 'N', 'Q'), "", "BNQ")); require(is(currency('B', 'N', 'R'), "", "BNR")); require(is(currency('B', 'N', 'S'), "", "BNS")); require(is(currency('B', 'N', 'T'), "", "BNT")); require(is(currency('B', 'N', 'U'), "", "BNU")); require(is(currency('B', 'N', 'V'), "", "BNV")); require(is(currency('B', 'N', 'W'), "", "BNW")); require(is(currency('B', 'N', 'X'), "", "BNX")); require(is(currency('B', 'N', 'Y'), "", "BNY")); require(is(currency('B', 'N', 'Z'), "", "BNZ"));)
OBLIGATION(no_currency_BO, "esl/economics/currencies.hpp: currency_name (codes without a currency from BO)", (), require(is(currency('B', 'O', 'A'), "", "BOA")); require(is(currency('B', 'O', 'C'), "", "BOC")); require(is(currency('B', 'O', 'D'), "", "BOD")); require(is(currency('B', 'O', 'E'), "", "BOE")); require(is(currency('B', 'O', 'F'), "", "BOF")); require(is(currency('B', 'O', 'G'), "", "BOG")); require(is(currency('B', 'O', 'H'), "", "BOH")); require(is(currency('B', 'O', 'I'), "", "BOI")); require(is(currency('B', 'O', 'J'), "", "BOJ")); require(is(currency('B', 'O', 'K'), "", "BOK")); require(is(currency('B', 'O', 'L'), "", "BOL")); require(is(currency('B', 'O', 'M'), "", "BOM")); require(is(currency('B', 'O', 'N'), "", "BON")); require(is(currency('B', 'O', 'O'), "", "BOO")); require(is(currency('B', 'O', 'P'), "", "BOP")); require(is(currency('B', 'O', 'Q'), "", "BOQ")); require(is(currency('B', 'O', 'R'), "", "BOR")); require(is(currency('B', 'O', 'S'), "", "BOS")); require(is(currency('B', 'O', 'T'), "", "BOT")); require(is(currency('B', 'O', 'U'), "", "BOU")); require(is(currency('B', 'O', 'W'), "", "BOW")); require(is(currency('B', 'O', 'X'), "", "BOX")); require(is(currency('B', 'O', 'Y'), "", "BOY")); require(is(currency('B', 'O', 'Z'), "", "BOZ"));)
OBLIGATION(no_currency_BP, "esl/economics/currencies.hpp: currency_name (codes without a currency from BP)", (), require(is(currency('B', 'P', 'A'), "", "BPA")); require(is(currency('B', 'P', 'B'), "", "BPB")); require(is(currency('B', 'P', 'C'), "", "BPC")); require(is(currency('B', 'P', 'D'), "", "BPD")); require(is(currency('B', 'P', 'E'), "", "BPE")); require(is(currency('B', 'P', 'F'), "", "BPF")); require(is(currency('B', 'P', 'G'), "", "BPG")); require(is(currency('B', 'P', 'H'), "", "BPH")); require(is(currency('B', 'P', 'I'), "", "BPI")); require(is(currency('B', 'P', 'J'), "", "BPJ")); require(is(currency('B', 'P', 'K'), "", "BPK")); require(is(currency('B', 'P', 'L'), "", "BPL")); require(is(currency('B', 'P', 'M'), "", "BPM")); require(is(currency('B', 'P', 'N'), "", "BPN")); require(is(currency('B', 'P', 'O'), "", "BPO")); require(is(currency('B', 'P', 'P'), "", "BPP")); require(is(currency('B', 'P', 'Q'), "", "BPQ")); require(is(currency('B', 'P', 'R'), "", "BPR")); require(is(currency('B', 'P', 'S'), "", "BPS")); require(is(currency('B', 'P', 'T'), "", "BPT")); require(is(currency('B', 'P', 'U'), "", "BPU")); require(is(currency('B', 'P', 'V'), "", "BPV")); require(is(currency('B', 'P', 'W'), "", "BPW")); require(is(currency('B', 'P', 'X'), "", "BPX")); require(is(currency('B', 'P', 'Y'), "", "BPY")); require(is(currency('B', 'P', 'Z'), "", "BPZ"));)
OBLIGATION(no_currency_BQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from BQ)", (), require(is(currency('B', 'Q', 'A'), "", "BQA")); require(is(currency('B', 'Q', 'B'), "", "BQB")); require(is(currency('B', 'Q', 'C'), "", "BQC")); require(is(currency('B', 'Q', 'D'), "", "BQD")); require(is(currency('B', 'Q', 'E'), "", "BQE")); require(is(currency('B', 'Q', 'F'), "", "BQF")); require(is(currency('B', 'Q', 'G'), "", "BQG")); require(is(currency('B', 'Q', 'H'), "", "BQH")); require(is(currency('B', 'Q', 'I'), "", "BQI")); require(is(currency('B', 'Q', 'J'), "", "BQJ")); require(is(currency('B', 'Q', 'K'), "", "BQK")); require(is(currency('B', 'Q', 'L'), "", "BQL")); require(is(currency('B', 'Q', 'M'), "", "BQM")); require(is(currency('B', 'Q', 'N'), "", "BQN")); require(is(currency('B', 'Q', 'O'), "", "BQO")); require(is(currency('B', 'Q', 'P'), "", "BQP")); require(is(currency('B', 'Q', 'Q'), "", "BQQ")); require(is(currency('B', 'Q', 'R'), "", "BQR")); require(is(currency('B', 'Q', 'S'), "", "BQS")); require(is(currency('B', 'Q', 'T'), "", "BQT")); require(is(currency('B', 'Q', 'U'), "", "BQU")); require(is(currency('B', 'Q', 'V'), "", "BQV")); require(is(currency('B', 'Q', 'W'), "", "BQW")); require(is(currency('B', 'Q', 'X'), "", "BQX")); require(is(currency('B', 'Q', 'Y'), "", "BQY")); require(is(currency('B', 'Q', 'Z'), "", "BQZ"));)
OBLIGATION(no_currency_BR, "esl/economics/currencies.hpp: currency_name (codes without a currency from BR)", (), require(is(currency('B', 'R', 'A'), "", "BRA")); require(is(currency('B', 'R', 'B'), "", "BRB")); require(is(currency('B', 'R', 'C'), "", "BRC")); require(is(currency('B', 'R', 'D'), "", "BRD")); require(is(currency('B', 'R', 'E'), "", "BRE")); require(is(currency('B', 'R', 'F'), "", "BRF")); require(is(currency('B', 'R', 'G'), "", "BRG")); require(is(currency('B', 'R', 'H'), "", "BRH")); require(is(currency('B', 'R', 'I'), "", "BRI")); require(is(currency('B', 'R', 'J'), "", "BRJ")); require(is(currency('B', 'R', 'K'), "", "BRK")); require(is(currency('B', 'R', 'M'), "", "BRM")); require(is(currency('B', 'R', 'N'), "", "BRN")); require(is(currency('B', 'R', 'O'), "", "BRO")); require(is(currency('B', 'R', 'P'), "", "BRP")); require(is(currency('B', 'R', 'Q'), "", "BRQ")); require(is(currency('B', 'R', 'R'), "", "BRR")); require(is(currency('B', 'R', 'S'), "", "BRS")); require(is(currency('B', 'R', 'T'), "", "BRT")); require(is(currency('B', 'R', 'U'), "", "BRU")); require(is(currency('B', 'R', 'V'), "", "BRV")); require(is(currency('B', 'R', 'W'), "", "BRW")); require(is(currency('B', 'R', 'X'), "", "BRX")); require(is(currency('B', 'R', 'Y'), "", "BRY")); require(is(currency('B', 'R', 'Z'), "", "BRZ"));)
OBLIGATION(no_currency_BS, "esl/economics/currencies.hpp: currency_name (codes without a currency from BS)", (), require(is(currency('B', 'S', 'A'), "", "BSA")); require(is(currency('B', 'S', 'B'), "", "BSB")); require(is(currency('B', 'S', 'C'), "", "BSC")); require(is(currency('B', 'S', 'E'), "", "BSE")); require(is(currency('B', 'S', 'F'), "", "BSF")); require(is(currency('B', 'S', 'G'), "", "BSG")); require(is(currency('B', 'S', 'H'), "", "BSH")); require(is(currency('B', 'S', 'I'), "", "BSI")); require(is(currency('B', 'S', 'J'), "", "BSJ")); require(is(currency('B', 'S', 'K'), "", "BSK")); require(is(currency('B', 'S', 'L'), "", "BSL")); require(is(currency('B', 'S', 'M'), "", "BSM")); require(is(currency('B', 'S', 'N'), "", "BSN")); require(is(currency('B', 'S', 'O'), "", "BSO")); require(is(currency('B', 'S', 'P'), "", "BSP")); require(is(currency('B', 'S', 'Q'), "", "BSQ")); require(is(currency('B', 'S', 'R'), "", "BSR")); require(is(currency('B', 'S', 'S'), "", "BSS")); require(is(currency('B', 'S', 'T'), "", "BST")); require(is(currency('B', 'S', 'U'), "", "BSU")); require(is(currency('B', 'S', 'V'), "", "BSV")); require(is(currency('B', 'S', 'W'), "", "BSW")); require(is(currency('B', 'S', 'X'), "", "BSX")); require(is(currency('B', 'S', 'Y'), "", "BSY")); require(is(currency('B', 'S', 'Z'), "", "BSZ"));)
OBLIGATION(no_currency_BT, "esl/economics/currencies.hpp: currency_name (codes without a currency from BT)", (), require(is(currency('B', 'T', 'A'), "", "BTA")); require(is(currency('B', 'T', 'B'), "", "BTB")); require(is(currency('B', 'T', 'C'), "", "BTC")); require(is(currency('B', 'T', 'D'), "", "BTD")); require(is(currency('B', 'T', 'E'), "", "BTE")); require(is(currency('B', 'T', 'F'), "", "BTF")); require(is(currency('B', 'T', 'G'), "", "BTG")); require(is(currency('B', 'T', 'H'), "", "BTH")); require(is(currency('B', 'T', 'I'), "", "BTI")); require(is(currency('B', 'T', 'J'), "", "BTJ")); require(is(currency('B', 'T', 'K'), "", "BTK")); require(is(currency('B', 'T', 'L'), "", "BTL")); require(is(currency('B', 'T', 'M'), "", "BTM")); require(is(currency('B', 'T', 'O'), "", "BTO")); require(is(currency('B', 'T', 'P'), "", "BTP")); require(is(currency('B', 'T', 'Q'), "", "BTQ")); require(is(currency('B', 'T', 'R'), "", "BTR")); require(is(currency('B', 'T', 'S'), "", "BTS")); require(is(currency('B', 'T', 'T'), "", "BTT")); require(is(currency('B', 'T', 'U'), "", "BTU")); require(is(currency('B', 'T', 'V'), "", "BTV")); require(is(currency('B', 'T', 'W'), "", "BTW")); require(is(currency('B', 'T', 'X'), "", "BTX")); require(is(currency('B', 'T', 'Y'), "", "BTY")); require(is(currency('B', 'T', 'Z'), "", "BTZ"));)
OBLIGATION(no_currency_BU, "esl/economics/currencies.hpp: currency_name (codes without a currency from BU)", (), require(is(currency('B', 'U', 'A'), "", "BUA")); require(is(currency('B', 'U', 'B'), "", "BUB")); require(is(currency('B', 'U', 'C'), "", "BUC")); require(is(currency('B', 'U', 'D'), "", "BUD")); require(is(currency('B', 'U', 'E'), "", "BUE")); require(is(currency('B', 'U', 'F'), "", "BUF")); require(is(currency('B', 'U', 'G'), "", "BUG")); require(is(currency('B', 'U', 'H'), "", "BUH")); require(is(currency('B', 'U', 'I'), "", "BUI")); require(is(currency('B', 'U', 'J'), "", "BUJ")); require(is(currency('B', 'U', 'K'), "", "BUK")); require(is(currency('B', 'U', 'L'), "", "BUL")); require(is(currency('B', 'U', 'M'), "", "BUM")); require(is(currency('B', 'U', 'N'), "", "BUN")); require(is(currency('B', 'U', 'O'), "", "BUO")); require(is(currency('B', 'U', 'P'), "", "BUP")); require(is(currency('B', 'U', 'Q'), "", "BUQ")); require(is(currency('B', 'U', 'R'), "", "BUR")); require(is(currency('B', 'U', 'S'), "", "BUS")); require(is(currency('B', 'U', 'T'), "", "BUT")); require(is(currency('B', 'U', 'U'), "", "BUU")); require(is(currency('B', 'U', 'V'), "", "BUV")); require(is(currency('B', 'U', 'W'), "", "BUW")); require(is(currency('B', 'U', 'X'), "", "BUX")); require(is(currency('B', 'U', 'Y'), "", "BUY")); require(is(currency('B', 'U', 'Z'), "", "BUZ"));)
OBLIGATION(no_currency_BV, "esl/economics/currencies.hpp: currency_name (codes without a currency from BV)", (), require(is(currency('B', 'V', 'A'), "", "BVA")); require(is(currency('B', 'V', 'B'), "", "BVB")); require(is(currency('B', 'V', 'C'), "", "BVC")); require(is(currency('B', 'V', 'D'), "", "BVD")); require(is(currency('B', 'V', 'E'), "", "BVE")); require(is(currency('B', 'V', 'F'), "", "BVF")); require(is(currency('B', 'V', 'G'), "", "BVG")); require(is(currency('B', 'V', 'H'), "", "BVH")); require(is(currency('B', 'V', 'I'), "", "BVI")); require(is(currency('B', 'V', 'J'), "", "BVJ")); require(is(currency('B', 'V', 'K'), "", "BVK")); require(is(currency('B', 'V', 'L'), "", "BVL")); require(is(currency('B', 'V', 'M'), "", "BVM")); require(is(currency('B', 'V', 'N'), "", "BVN")); require(is(currency('B', 'V', 'O'), "", "BVO")); require(is(currency('B', 'V', 'P'), "", "BVP")); require(is(currency('B', 'V', 'Q'), "", "BVQ")); require(is(currency('B', 'V', 'R'), "", "BVR")); require(is(currency('B', 'V', 'S'), "", "BVS")); require(is(currency('B', 'V', 'T'), "", "BVT")); require(is(currency('B', 'V', 'U'), "", "BVU")); require(is(currency('B', 'V', 'V'), "", "BVV")); require(is(currency('B', 'V', 'W'), "", "BVW")); require(is(currency('B', 'V', 'X'), "", "BVX")); require(is(currency('B', 'V', 'Y'), "", "BVY")); require(is(currency('B', 'V', 'Z'), "", "BVZ"));)
OBLIGATION(no_currency_BW, "esl/economics/currencies.hpp: currency_name (codes without a currency from BW)", (), require(is(currency('B', 'W', 'A'), "", "BWA")); require(is(currency('B', 'W', 'B'), "", "BWB")); require(is(currency('B', 'W', 'C'), "", "BWC")); require(is(currency('B', 'W', 'D'), "", "BWD")); require(is(currency('B', 'W', 'E'), "", "BWE")); require(is(currency('B', 'W', 'F'), "", "BWF")); require(is(currency('B', 'W', 'G'), "", "BWG")); require(is(currency('B', 'W', 'H'), "", "BWH")); require(is(currency('B', 'W', 'I'), "", "BWI")); require(is(currency('B', 'W', 'J'), "", "BWJ")); require(is(currency('B', 'W', 'K'), "", "BWK")); require(is(currency('B', 'W', 'L'), "", "BWL")); require(is(currency('B', 'W', 'M'), "", "BWM")); require(is(currency('B', 'W', 'N'), "", "BWN")); require(is(currency('B', 'W', 'O'), "", "BWO")); require(is(currency('B', 'W', 'Q'), "", "BWQ")); require(is(currency('B', 'W', 'R'), "", "BWR")); require(is(currency('B', 'W', 'S'), "", "BWS")); require(is(currency('B', 'W', 'T'), "", "BWT")); require(is(currency('B', 'W', 'U'), "", "BWU")); require(is(currency('B', 'W', 'V'), "", "BWV")); require(is(currency('B', 'W', 'W'), "", "BWW")); require(is(currency('B', 'W', 'X'), "", "BWX")); require(is(currency('B', 'W', 'Y'), "", "BWY")); require(is(currency('B', 'W', 'Z'), "", "BWZ"));)
OBLIGATION(no_currency_BX, "esl/economics/currencies.hpp: currency_name (codes without a currency from BX)", (), require(is(currency('B', 'X', 'A'), "", "BXA")); require(is(currency('B', 'X', 'B'), "", "BXB")); require(is(currency('B', 'X', 'C'), "", "BXC")); require(is(currency('B', 'X', 'D'), "", "BXD")); require(is(currency('B', 'X', 'E'), "", "BXE")); require(is(currency('B', 'X', 'F'), "", "BXF")); require(is(currency('B', 'X', 'G'), "", "BXG")); require(is(currency('B', 'X', 'H'), "", "BXH")); require(is(currency('B', 'X', 'I'), "", "BXI")); require(is(currency('B', 'X', 'J'), "", "BXJ")); require(is(currency('B', 'X', 'K'), "", "BXK")); require(is(currency('B', 'X', 'L'), "", "BXL")); require(is(currency('B', 'X', 'M'), "", "BXM")); require(is(currency('B', 'X', 'N'), "", "BXN")); require(is(currency('B', 'X', 'O'), "", "BXO")); require(is(currency('B', 'X', 'P'), "", "BXP")); require(is(currency('B', 'X', 'Q'), "", "BXQ")); require(is(currency('B', 'X', 'R'), "", "BXR")); require(is(currency('B', 'X', 'S'), "", "BXS")); require(is(currency('B', 'X', 'T'), "", "BXT")); require(is(currency('B', 'X', 'U'), "", "BXU")); require(is(currency('B', 'X', 'V'), "", "BXV")); require(is(currency('B', 'X', 'W'), "", "BXW")); require(is(currency('B', 'X', 'X'), "", "BXX")); require(is(currency('B', 'X', 'Y'), "", "BXY")); require(is(currency('B', 'X', 'Z'), "", "BXZ"));)
OBLIGATION(no_currency_BY, "esl/economics/currencies.hpp: currency_name (codes without a currency from BY)", (), require(is(currency('B', 'Y', 'A'), "", "BYA")); require(is(currency('B', 'Y', 'B'), "", "BYB")); require(is(currency('B', 'Y', 'C'), "", "BYC")); require(is(currency('B', 'Y', 'D'), "", "BYD")); require(is(currency('B', 'Y', 'E'), "", "BYE")); require(is(currency('B', 'Y', 'F'), "", "BYF")); require(is(currency('B', 'Y', 'G'), "", "BYG")); require(is(currency('B', 'Y', 'H'), "", "BYH")); require(is(currency('B', 'Y', 'I'), "", "BYI")); require(is(currency('B', 'Y', 'J'), "", "BYJ")); require(is(currency('B', 'Y', 'K'), "", "BYK")); require(is(currency('B', 'Y', 'L'), "", "BYL")); require(is(currency('B', 'Y', 'M'), "", "BYM")); require(is(currency('B', 'Y', 'O'), "", "BYO")); require(is(currency('B', 'Y', 'P'), "", "BYP")); require(is(currency('B', 'Y', 'Q'), "", "BYQ")); require(is(currency('B', 'Y', 'R'), "", "BYR")); require(is(currency('B', 'Y', 'S'), "", "BYS")); require(is(currency('B', 'Y', 'T'), "", "BYT")); require(is(currency('B', 'Y', 'U'), "", "BYU")); require(is(currency('B', 'Y', 'V'), "", "BYV")); require(is(currency('B', 'Y', 'W'), "", "BYW")); require(is(currency('B', 'Y', 'X'), "", "BYX")); require(is(currency('B', 'Y', 'Y'), "", "BYY")); require(is(currency('B', 'Y', 'Z'), "", "BYZ"));)
OBLIGATION(no_currency_BZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from BZ)", (), require(is(currency('B', 'Z', 'A'), "", "BZA")); require(is(currency('B', 'Z', 'B'), "", "BZB")); require(is(currency('B', 'Z', 'C'), "", "BZC")); require(is(currency('B', 'Z', 'E'), "", "BZE")); require(is(currency('B', 'Z', 'F'), "", "BZF")); require(is(currency('B', 'Z', 'G'), "", "BZG")); require(is(currency('B', 'Z', 'H'), "", "BZH")); require(is(currency('B', 'Z', 'I'), "", "BZI")); require(is(currency('B', 'Z', 'J'), "", "BZJ")); require(is(currency('B', 'Z', 'K'), "", "BZK")); require(is(currency('B', 'Z', 'L'), "", "BZL")); require(is(currency('B', 'Z', 'M'), "", "BZM")); require(is(currency('B', 'Z', 'N'), "", "BZN")); require(is(currency('B', 'Z', 'O'), "", "BZO")); require(is(currency('B', 'Z', 'P'), "", "BZP")); require(is(currency('B', 'Z', 'Q'), "", "BZQ")); require(is(currency('B', 'Z', 'R'), "", "BZR")); require(is(currency('B', 'Z', 'S'), "", "BZS")); require(is(currency('B', 'Z', 'T'), "", "BZT")); require(is(currency('B', 'Z', 'U'), "", "BZU")); require(is(currency('B', 'Z', 'V'), "", "BZV")); require(is(currency('B', 'Z', 'W'), "", "BZW")); require(is(currency('B', 'Z', 'X'), "", "BZX")); require(is(currency('B', 'Z', 'Y'), "", "BZY")); require(is(currency('B', 'Z', 'Z'), "", "BZZ"));)
OBLIGATION(no_currency_CA, "esl/economics/currencies.hpp: currency_name (codes without a currency from CA)", (), require(is(currency('C', 'A', 'A'), "", "CAA")); require(is(currency('C', 'A', 'B'), "", "CAB")); require(is(currency('C', 'A', 'C'), "", "CAC")); require(is(currency('C', 'A', 'E'), "", "CAE")); require(is(currency('C', 'A', 'F'), "", "CAF")); require(is(currency('C', 'A', 'G'), "", "CAG")); require(is(currency('C', 'A', 'H'), "", "CAH")); require(is(currency('C', 'A', 'I'), "", "CAI")); require(is(currency('C', 'A', 'J'), "", "CAJ")); require(is(currency('C', 'A', 'K'), "", "CAK")); require(is(currency('C', 'A', 'L'), "", "CAL")); require(is(currency('C', 'A', 'M'), "", "CAM")); require(is(currency('C', 'A', 'N'), "", "CAN")); require(is(currency('C', 'A', 'O'), "", "CAO")); require(is(currency('C', 'A', 'P'), "", "CAP")); require(is(currency('C', 'A', 'Q'), "", "CAQ")); require(is(currency('C', 'A', 'R'), "", "CAR")); require(is(currency('C', 'A', 'S'), "", "CAS")); require(is(currency('C', 'A', 'T'), "", "CAT")); require(is(currency('C', 'A', 'U'), "", "CAU")); require(is(currency('C', 'A', 'V'), "", "CAV")); require(is(currency('C', 'A', 'W'), "", "CAW")); require(is(currency('C', 'A', 'X'), "", "CAX")); require(is(currency('C', 'A', 'Y'), "", "CAY")); require(is(currency('C', 'A', 'Z'), "", "CAZ"));)
OBLIGATION(no_currency_CB, "esl/economics/currencies.hpp: currency_name (codes without a currency from CB)", (), require(is(currency('C', 'B', 'A'), "", "CBA")); require(is(currency('C', 'B', 'B'), "", "CBB")); require(is(currency('C', 'B', 'C'), "", "CBC")); require(is(currency('C', 'B', 'D'), "", "CBD")); require(is(currency('C', 'B', 'E'), "", "CBE")); require(is(currency('C', 'B', 'F'), "", "CBF")); require(is(currency('C', 'B', 'G'), "", "CBG")); require(is(currency('C', 'B', 'H'), "", "CBH")); require(is(currency('C', 'B', 'I'), "", "CBI")); require(is(currency('C', 'B', 'J'), "", "CBJ")); require(is(currency('C', 'B', 'K'), "", "CBK")); require(is(currency('C', 'B', 'L'), "", "CBL")); require(is(currency('C', 'B', 'M'), "", "CBM")); require(is(currency('C', 'B', 'N'), "", "CBN")); require(is(currency('C', 'B', 'O'), "", "CBO")); require(is(currency('C', 'B', 'P'), "", "CBP")); require(is(currency('C', 'B', 'Q'), "", "CBQ")); require(is(currency('C', 'B', 'R'), "", "CBR")); require(is(currency('C', 'B', 'S'), "", "CBS")); require(is(currency('C', 'B', 'T'), "", "CBT")); require(is(currency('C', 'B', 'U'), "", "CBU")); require(is(currency('C', 'B', 'V'), "", "CBV")); require(is(currency('C', 'B', 'W'), "", "CBW")); require(is(currency('C', 'B', 'X'), "", "CBX")); require(is(currency('C', 'B', 'Y'), "", "CBY")); require(is(currency('C', 'B', 'Z'), "", "CBZ"));)
OBLIGATION(no_currency_CC, "esl/economics/currencies.hpp: currency_name (codes without a currency from CC)", (), require(is(currency('C', 'C', 'A'), "", "CCA")); require(is(currency('C', 'C', 'B'), "", "CCB")); require(is(currency('C', 'C', 'C'), "", "CCC")); require(is(currency('C', 'C', 'D'), "", "CCD")); require(is(currency('C', 'C', 'E'), "", "CCE")); require(is(currency('C', 'C', 'F'), "", "CCF")); require(is(currency('C', 'C', 'G'), "", "CCG")); require(is(currency('C', 'C', 'H'), "", "CCH")); require(is(currency('C', 'C', 'I'), "", "CCI")); require(is(currency('C', 'C', 'J'), "", "CCJ")); require(is(currency('C', 'C', 'K'), "", "CCK")); require(is(currency('C', 'C', 'L'), "", "CCL")); require(is(currency('C', 'C', 'M'), "", "CCM")); require(is(currency('C', 'C', 'N'), "", "CCN")); require(is(currency('C', 'C', 'O'), "", "CCO")); require(is(currency('C', 'C', 'P'), "", "CCP")); require(is(currency('C', 'C', 'Q'), "", "CCQ")); require(is(currency('C', 'C', 'R'), "", "CCR")); require(is(currency('C', 'C', 'S'), "", "CCS")); require(is(currency('C', 'C', 'T'), "", "CCT")); require(is(currency('C', 'C', 'U'), "", "CCU")); require(is(currency('C', 'C', 'V'), "", "CCV")); require(is(currency('C', 'C', 'W'), "", "CCW")); require(is(currency('C', 'C', 'X'), "", "CCX")); require(is(currency('C', 'C', 'Y'), "", "CCY")); require(is(currency('C', 'C', 'Z'), "", "CCZ"));)
OBLIGATION(no_currency_CD, "esl/economics/currencies.hpp: currency_name (codes without a currency from CD)", (), require(is(currency('C', 'D', 'A'), "", "CDA")); require(is(currency('C', 'D', 'B'), "", "CDB")); require(is(currency('C', 'D', 'C'), "", "CDC")); require(is(currency('C', 'D', 'D'), "", "CDD")); require(is(currency('C', 'D', 'E'), "", "CDE")); require(is(currency('C', 'D', 'G'), "", "CDG")); require(is(currency('C', 'D', 'H'), "", "CDH")); require(is(currency('C', 'D', 'I'), "", "CDI")); require(is(currency('C', 'D', 'J'), "", "CDJ")); require(is(currency('C', 'D', 'K'), "", "CDK")); require(is(currency('C', 'D', 'L'), "", "CDL")); require(is(currency('C', 'D', 'M'), "", "CDM")); require(is(currency('C', 'D', 'N'), "", "CDN")); require(is(currency('C', 'D', 'O'), "", "CDO")); require(is(currency('C', 'D', 'P'), "", "CDP")); require(is(currency('C', 'D', 'Q'), "", "CDQ")); require(is(currency('C', 'D', 'R'), "", "CDR")); require(is(currency('C', 'D', 'S'), "", "CDS")); require(is(currency('C', 'D', 'T'), "", "CDT")); require(is(currency('C', 'D', 'U'), "", "CDU")); require(is(currency('C', 'D', 'V'), "", "CDV")); require(is(currency('C', 'D', 'W'), "", "CDW")); require(is(currency('C', 'D', 'X'), "", "CDX")); require(is(currency('C', 'D', 'Y'), "", "CDY")); require(is(currency('C', 'D', 'Z'), "", "CDZ"));)
OBLIGATION(no_currency_CE, "esl/economics/currencies.hpp: currency_name (codes without a currency from CE)", (), require(is(currency('C', 'E', 'A'), "", "CEA")); require(is(currency('C', 'E', 'B'), "", "CEB")); require(is(currency('C', 'E', 'C'), "", "CEC")); require(is(currency('C', 'E', 'D'), "", "CED")); require(is(currency('C', 'E', 'E'), "", "CEE")); require(is(currency('C', 'E', 'F'), "", "CEF")); require(is(currency('C', 'E', 'G'), "", "CEG")); require(is(currency('C', 'E', 'H'), "", "CEH")); require(is(currency('C', 'E', 'I'), "", "CEI")); require(is(currency('C', 'E', 'J'), "", "CEJ")); require(is(currency('C', 'E', 'K'), "", "CEK")); require(is(currency('C', 'E', 'L'), "", "CEL")); require(is(currency('C', 'E', 'M'), "", "CEM")); require(is(currency('C', 'E', 'N'), "", "CEN")); require(is(currency('C', 'E', 'O'), "", "CEO")); require(is(currency('C', 'E', 'P'), "", "CEP")); require(is(currency('C', 'E', 'Q'), "", "CEQ")); require(is(currency('C', 'E', 'R'), "", "CER")); require(is(currency('C', 'E', 'S'), "", "CES")); require(is(currency('C', 'E', 'T'), "", "CET")); require(is(currency('C', 'E', 'U'), "", "CEU")); require(is(currency('C', 'E', 'V'), "", "CEV")); require(is(currency('C', 'E', 'W'), "", "CEW")); require(is(currency('C', 'E', 'X'), "", "CEX")); require(is(currency('C', 'E', 'Y'), "", "CEY")); require(is(currency('C', 'E', 'Z'), "", "CEZ"));)
OBLIGATION(no_currency_CF, "esl/economics/currencies.hpp: currency_name (codes without a currency from CF)", (), require(is(currency('C', 'F', 'A'), "", "CFA")); require(is(currency('C', 'F', 'B'), "", "CFB")); require(is(currency('C', 'F', 'C'), "", "CFC")); require(is(currency('C', 'F', 'D'), "", "CFD")); require(is(currency('C', 'F', 'E'), "", "CFE")); require(is(currency('C', 'F', 'F'), "", "CFF")); require(is(currency('C', 'F', 'G'), "", "CFG")); require(is(currency('C', 'F', 'H'), "", "CFH")); require(is(currency('C', 'F', 'I'), "", "CFI")); require(is(currency('C', 'F', 'J'), "", "CFJ")); require(is(currency('C', 'F', 'K'), "", "CFK")); require(is(currency('C', 'F', 'L'), "", "CFL")); require(is(currency('C', 'F', 'M'), "", "CFM")); require(is(currency('C', 'F', 'N'), "", "CFN")); require(is(currency('C', 'F', 'O'), "", "CFO")); require(is(currency('C', 'F', 'P'), "", "CFP")); require(is(currency('C', 'F', 'Q'), "", "CFQ")); require(is(currency('C', 'F', 'R'), "", "CFR")); require(is(currency('C', 'F', 'S'), "", "CFS")); require(is(currency('C', 'F', 'T'), "", "CFT")); require(is(currency('C', 'F', 'U'), "", "CFU")); require(is(currency('C', 'F', 'V'), "", "CFV")); require(is(currency('C', 'F', 'W'), "", "CFW")); require(is(currency('C', 'F', 'X'), "", "CFX")); require(is(currency('C', 'F', 'Y'), "", "CFY")); require(is(currency('C', 'F', 'Z'), "", "CFZ"));)
OBLIGATION(no_currency_CG, "esl/economics/currencies.hpp: currency_name (codes without a currency from CG)", (), require(is(currency('C', 'G', 'A'), "", "CGA")); require(is(currency('C', 'G', 'B'), "", "CGB")); require(is(currency('C', 'G', 'C'), "", "CGC")); require(is(currency('C', 'G', 'D'), "", "CGD")); require(is(currency('C', 'G', 'E'), "", "CGE")); require(is(currency('C', 'G', 'F'), "", "CGF")); require(is(currency('C', 'G', 'G'), "", "CGG")); require(is(currency('C', 'G', 'H'), "", "CGH")); require(is(currency('C', 'G', 'I'), "", "CGI")); require(is(currency('C', 'G', 'J'), "", "CGJ")); require(is(currency('C', 'G', 'K'), "", "CGK")); require(is(currency('C', 'G', 'L'), "", "CGL")); require(is(currency('C', 'G', 'M'), "", "CGM")); require(is(currency('C', 'G', 'N'), "", "CGN")); require(is(currency('C', 'G', 'O'), "", "CGO")); require(is(currency('C', 'G', 'P'), "", "CGP")); require(is(currency('C', 'G', 'Q'), "", "CGQ")); require(is(currency('C', 'G', 'R'), "", "CGR")); require(is(currency('C', 'G', 'S'), "", "CGS")); require(is(currency('C', 'G', 'T'), "", "CGT")); require(is(currency('C', 'G', 'U'), "", "CGU")); require(is(currency('C', 'G', 'V'), "", "CGV")); require(is(currency('C', 'G', 'W'), "", "CGW")); require(is(currency('C', 'G', 'X'), "", "CGX")); require(is(currency('C', 'G', 'Y'), "", "CGY")); require(is(currency('C', 'G', 'Z'), "", "CGZ"));)
OBLIGATION(no_currency_CH, "esl/economics/currencies.hpp: currency_name (codes without a currency from CH)", (), require(is(currency('C', 'H', 'A'), "", "CHA")); require(is(currency('C', 'H', 'B'), "", "CHB")); require(is(currency('C', 'H', 'C'), "", "CHC")); require(is(currency('C', 'H', 'D'), "", "CHD")); require(is(currency('C', 'H', 'G'), "", "CHG")); require(is(currency('C', 'H', 'H'), "", "CHH")); require(is(currency('C', 'H', 'I'), "", "CHI")); require(is(currency('C', 'H', 'J'), "", "CHJ")); require(is(currency('C', 'H', 'K'), "", "CHK")); require(is(currency('C', 'H', 'L'), "", "CHL")); require(is(currency('C', 'H', 'M'), "", "CHM")); require(is(currency('C', 'H', 'N'), "", "CHN")); require(is(currency('C', 'H', 'O'), "", "CHO")); require(is(currency('C', 'H', 'P'), "", "CHP")); require(is(currency('C', 'H', 'Q'), "", "CHQ")); require(is(currency('C', 'H', 'R'), "", "CHR")); require(is(currency('C', 'H', 'S'), "", "CHS")); require(is(currency('C', 'H', 'T'), "", "CHT")); require(is(currency('C', 'H', 'U'), "", "CHU")); require(is(currency('C', 'H', 'V'), "", "CHV")); require(is(currency('C', 'H', 'X'), "", "CHX")); require(is(currency('C', 'H', 'Y'), "", "CHY")); require(is(currency('C', 'H', 'Z'), "", "CHZ"));)
OBLIGATION(no_currency_CI, "esl/economics/currencies.hpp: currency_name (codes without a currency from CI)", (), require(is(currency('C', 'I', 'A'), "", "CIA")); require(is(currency('C', 'I', 'B'), "", "CIB")); require(is(currency('C', 'I', 'C'), "", "CIC")); require(is(currency('C', 'I', 'D'), "", "CID")); require(is(currency('C', 'I', 'E'), "", "CIE")); require(is(currency('C', 'I', 'F'), "", "CIF")); require(is(currency('C', 'I', 'G'), "", "CIG")); require(is(currency('C', 'I', 'H'), "", "CIH")); require(is(currency('C', 'I', 'I'), "", "CII")); require(is(currency('C', 'I', 'J'), "", "CIJ")); require(is(currency('C', 'I', 'K'), "", "CIK")); require(is(currency('C', 'I', 'L'), "", "CIL")); require(is(currency('C', 'I', 'M'), "", "CIM")); require(is(currency('C', 'I', 'N'), "", "CIN")); require(is(currency('C', 'I', 'O'), "", "CIO")); require(is(currency('C', 'I', 'P'), "", "CIP")); require(is(currency('C', 'I', 'Q'), "", "CIQ")); require(is(currency('C', 'I', 'R'), "", "CIR")); require(is(currency('C', 'I', 'S'), "", "CIS")); require(is(currency('C', 'I', 'T'), "", "CIT")); require(is(currency('C', 'I', 'U'), "", "CIU")); require(is(currency('C', 'I', 'V'), "", "CIV")); require(is(currency('C', 'I', 'W'), "", "CIW")); require(is(currency('C', 'I', 'X'), "", "CIX")); require(is(currency('C', 'I', 'Y'), "", "CIY")); require(is(currency('C', 'I', 'Z'), "", "CIZ"));)
OBLIGATION(no_currency_CJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from CJ)", (), require(is(currency('C', 'J', 'A'), "", "CJA")); require(is(currency('C', 'J', 'B'), "", "CJB")); require(is(currency('C', 'J', 'C'), "", "CJC")); require(is(currency('C', 'J', 'D'), "", "CJD")); require(is(currency('C', 'J', 'E'), "", "CJE")); require(is(currency('C', 'J', 'F'), "", "CJF")); require(is(currency('C', 'J', 'G'), "", "CJG")); require(is(currency('C', 'J', 'H'), "", "CJH")); require(is(currency('C', 'J', 'I'), "", "CJI")); require(is(currency('C', 'J', 'J'), "", "CJJ")); require(is(currency('C', 'J', 'K'), "", "CJK")); require(is(currency('C', 'J', 'L'), "", "CJL")); require(is(currency('C', 'J', 'M'), "", "CJM")); require(is(currency('C', 'J', 'N'), "", "CJN")); require(is(currency('C', 'J', 'O'), "", "CJO")); require(is(currency('C', 'J', 'P'), "", "CJP")); require(is(currency('C', 'J', 'Q'), "", "CJQ")); require(is(currency('C', 'J', 'R'), "", "CJR")); require(is(currency('C', 'J', 'S'), "", "CJS")); require(is(currency('C', 'J', 'T'), "", "CJT")); require(is(currency('C', 'J', 'U'), "", "CJU")); require(is(currency('C', 'J', 'V'), "", "CJV")); require(is(currency('C', 'J', 'W'), "", "CJW")); require(is(currency('C', 'J', 'X'), "", "CJX")); require(is(currency('C', 'J', 'Y'), "", "CJY")); require(is(currency('C', 'J', 'Z'), "", "CJZ"));)
OBLIGATION(no_currency_CK, "esl/economics/currencies.hpp: currency_name (codes without a currency from CK)", (), require(is(currency('C', 'K', 'A'), "", "CKA")); require(is(currency('C', 'K', 'B'), "", "CKB")); require(is(currency('C', 'K', 'C'), "", "CKC")); require(is(currency('C', 'K', 'D'), "", "CKD")); require(is(currency('C', 'K', 'E'), "", "CKE")); require(is(currency('C', 'K', 'F'), "", "CKF")); require(is(currency('C', 'K', 'G'), "", "CKG")); require(is(currency('C', 'K', 'H'), "", "CKH")); require(is(currency('C', 'K', 'I'), "", "CKI")); require(is(currency('C', 'K', 'J'), "", "CKJ")); require(is(currency('C', 'K', 'K'), "", "CKK")); require(is(currency('C', 'K', 'L'), "", "CKL")); require(is(currency('C', 'K', 'M'), "", "CKM")); require(is(currency('C', 'K', 'N'), "", "CKN")); require(is(currency('C', 'K', 'O'), "", "CKO")); require(is(currency('C', 'K', 'P'), "", "CKP")); require(is(currency('C', 'K', 'Q'), "", "CKQ")); require(is(currency('C', 'K', 'R'), "", "CKR")); require(is(currency('C', 'K', 'S'), "", "CKS")); require(is(currency('C', 'K', 'T'), "", "CKT")); require(is(currency('C', 'K', 'U'), "", "CKU")); require(is(currency('C', 'K', 'V'), "", "CKV")); require(is(currency('C', 'K', 'W'), "", "CKW")); require(is(currency('C', 'K', 'X'), "", "CKX")); require(is(currency('C', 'K', 'Y'), "", "CKY")); require(is(currency('C', 'K', 'Z'), "", "CKZ"));)
OBLIGATION(no_currency_CL, "esl/economics/currencies.hpp: currency_name (codes without a currency from CL)", (), require(is(currency('C', 'L', 'A'), "", "CLA")); require(is(currency('C', 'L', 'B'), "", "CLB")); require(is(currency('C', 'L', 'C'), "", "CLC")); require(is(currency('C', 'L', 'D'), "", "CLD")); require(is(currency('C', 'L', 'E'), "", "CLE")); require(is(currency('C', 'L', 'G'), "", "CLG")); require(is(currency('C', 'L', 'H'), "", "CLH")); require(is(currency('C', 'L', 'I'), "", "CLI")); require(is(currency('C', 'L', 'J'), "", "CLJ")); require(is(currency('C', 'L', 'K'), "", "CLK")); require(is(currency('C', 'L', 'L'), "", "CLL")); require(is(currency('C', 'L', 'M'), "", "CLM")); require(is(currency('C', 'L', 'N'), "", "CLN")); require(is(currency('C', 'L', 'O'), "", "CLO")); require(is(currency('C', 'L', 'Q'), "", "CLQ")); require(is(currency('C', 'L', 'R'), "", "CLR")); require(is(currency('C', 'L', 'S'), "", "CLS")); require(is(currency('C', 'L', 'T'), "", "CLT")); require(is(currency('C', 'L', 'U'), "", "CLU")); require(is(currency('C', 'L', 'V'), "", "CLV")); require(is(currency('C', 'L', 'W'), "", "CLW")); require(is(currency('C', 'L', 'X'), "", "CLX")); require(is(currency('C', 'L', 'Y'), "", "CLY")); require(is(currency('C', 'L', 'Z'), "", "CLZ"));)
OBLIGATION(no_currency_CM, "esl/economics/currencies.hpp: currency_name (codes without a currency from CM)", (), require(is(currency('C', 'M', 'A'), "", "CMA")); require(is(currency('C', 'M', 'B'), "", "CMB")); require(is(currency('C', 'M', 'C'), "", "CMC")); require(is(currency('C', 'M', 'D'), "", "CMD")); require(is(currency('C', 'M', 'E'), "", "CME")); require(is(currency('C', 'M', 'F'), "", "CMF")); require(is(currency('C', 'M', 'G'), "", "CMG")); require(is(currency('C', 'M', 'H'), "", "CMH")); require(is(currency('C', 'M', 'I'), "", "CMI")); require(is(currency('C', 'M', 'J'), "", "CMJ")); require(is(currency('C', 'M', 'K'), "", "CMK")); require(is(currency('C', 'M', 'L'), "", "CML")); require(is(currency('C', 'M', 'M'), "", "CMM")); require(is(currency('C', 'M', 'N'), "", "CMN")); require(is(currency('C', 'M', 'O'), "", "CMO")); require(is(currency('C', 'M', 'P'), "", "CMP")); require(is(currency('C', 'M', 'Q'), "", "CMQ")); require(is(currency('C', 'M', 'R'), "", "CMR")); require(is(currency('C', 'M', 'S'), "", "CMS")); require(is(currency('C', 'M', 'T'), "", "CMT")); require(is(currency('C', 'M', 'U'), "", "CMU")); require(is(currency('C', 'M', 'V'), "", "CMV")); require(is(currency('C', 'M', 'W'), "", "CMW")); require(is(currency('C', 'M', 'X'), "", "CMX")); require(is(currency('C', 'M', 'Y'), "", "CMY")); require(is(currency('C', 'M', 'Z'), "", "CMZ"));)
OBLIGATION(no_currency_CN, "esl/economics/currencies.hpp: currency_name (codes without a currency from CN)", (), require(is(currency('C', 'N', 'A'), "", "CNA")); require(is(currency('C', 'N', 'B'), "", "CNB")); require(is(currency('C', 'N', 'C'), "", "CNC")); require(is(currency('C', 'N', 'D'), "", "CND")); require(is(currency('C', 'N', 'E'), "", "CNE")); require(is(currency('C', 'N', 'F'), "", "CNF")); require(is(currency('C', 'N', 'G'), "", "CNG")); require(is(currency('C', 'N', 'H'), "", "CNH")); require(is(currency('C', 'N', 'I'), "", "CNI")); require(is(currency('C', 'N', 'J'), "", "CNJ")); require(is(currency('C', 'N', 'K'), "", "CNK")); require(is(currency('C', 'N', 'L'), "", "CNL")); require(is(currency('C', 'N', 'M'), "", "CNM")); require(is(currency('C', 'N', 'N'), "", "CNN")); require(is(currency('C', 'N', 'O'), "", "CNO")); require(is(currency('C', 'N', 'P'), "", "CNP")); require(is(currency('C', 'N', 'Q'), "", "CNQ")); require(is(currency('C', 'N', 'R'), "", "CNR")); require(is(currency('C', 'N', 'S'), "", "CNS")); require(is(currency('C', 'N', 'T'), "", "CNT")); require(is(currency('C', 'N', 'U'), "", "CNU")); require(is(currency('C', 'N', 'V'), "", "CNV")); require(is(currency('C', 'N', 'W'), "", "CNW")); require(is(currency('C', 'N', 'X'), "", "CNX")); require(is(currency('C', 'N', 'Z'), "", "CNZ"));)
OBLIGATION(no_currency_CO, "esl/economics/currencies.hpp: currency_name (codes without a currency from CO)", (), require(is(currency('C', 'O', 'A'), "", "COA")); require(is(currency('C', 'O', 'B'), "", "COB")); require(is(currency('C', 'O', 'C'), "", "COC")); require(is(currency('C', 'O', 'D'), "", "COD")); require(is(currency('C', 'O', 'E'), "", "COE")); require(is(currency('C', 'O', 'F'), "", "COF")); require(is(currency('C', 'O', 'G'), "", "COG")); require(is(currency('C', 'O', 'H'), "", "COH")); require(is(currency('C', 'O', 'I'), "", "COI")); require(is(currency('C', 'O', 'J'), "", "COJ")); require(is(currency('C', 'O', 'K'), "", "COK")); require(is(currency('C', 'O', 'L'), "", "COL")); require(is(currency('C', 'O', 'M'), "", "COM")); require(is(currency('C', 'O', 'N'), "", "CON")); require(is(currency('C', 'O', 'O'), "", "COO")); require(is(currency('C', 'O', 'Q'), "", "COQ")); require(is(currency('C', 'O', 'R'), "", "COR")); require(is(currency('C', 'O', 'S'), "", "COS")); require(is(currency('C', 'O', 'T'), "", "COT")); require(is(currency('C', 'O', 'V'), "", "COV")); require(is(currency('C', 'O', 'W'), "", "COW")); require(is(currency('C', 'O', 'X'), "", "COX")); require(is(currency('C', 'O', 'Y'), "", "COY")); require(is(currency('C', 'O', 'Z'), "", "COZ"));)
OBLIGATION(no_currency_CP, "esl/economics/currencies.hpp: currency_name (codes without a currency from CP)", (), require(is(currency('C', 'P', 'A'), "", "CPA")); require(is(currency('C', 'P', 'B'), "", "CPB")); require(is(currency('C', 'P', 'C'), "", "CPC")); require(is(currency('C', 'P', 'D'), "", "CPD")); require(is(currency('C', 'P', 'E'), "", "CPE")); require(is(currency('C', 'P', 'F'), "", "CPF")); require(is(currency('C', 'P', 'G'), "", "CPG")); require(is(currency('C', 'P', 'H'), "", "CPH")); require(is(currency('C', 'P', 'I'), "", "CPI")); require(is(currency('C', 'P', 'J'), "", "CPJ")); require(is(currency('C', 'P', 'K'), "", "CPK")); require(is(currency('C', 'P', 'L'), "", "CPL")); require(is(currency('C', 'P', 'M'), "", "CPM")); require(is(currency('C', 'P', 'N'), "", "CPN")); require(is(currency('C', 'P', 'O'), "", "CPO")); require(is(currency('C', 'P', 'P'), "", "CPP")); require(is(currency('C', 'P', 'Q'), "", "CPQ")); require(is(currency('C', 'P', 'R'), "", "CPR")); require(is(currency('C', 'P', 'S'), "", "CPS")); require(is(currency('C', 'P', 'T'), "", "CPT")); require(is(currency('C', 'P', 'U'), "", "CPU")); require(is(currency('C', 'P', 'V'), "", "CPV")); require(is(currency('C', 'P', 'W'), "", "CPW")); require(is(currency('C', 'P', 'X'), "", "CPX")); require(is(currency('C', 'P', 'Y'), "", "CPY")); require(is(currency('C', 'P', 'Z'), "", "CPZ"));)
OBLIGATION(no_currency_CQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from CQ)", (), require(is(currency('C', 'Q', 'A'), "", "CQA")); require(is(currency('C', 'Q', 'B'), "", "CQB")); require(is(currency('C', 'Q', 'C'), "", "CQC")); require(is(currency('C', 'Q', 'D'), "", "CQD")); require(is(currency('C', 'Q', 'E'), "", "CQE")); require(is(currency('C', 'Q', 'F'), "", "CQF")); require(is(currency('C', 'Q', 'G'), "", "CQG")); require(is(currency('C', 'Q', 'H'), "", "CQH")); require(is(currency('C', 'Q', 'I'), "", "CQI")); require(is(currency('C', 'Q', 'J'), "", "CQJ")); require(is(currency('C', 'Q', 'K'), "", "CQK")); require(is(currency('C', 'Q', 'L'), "", "CQL")); require(is(currency('C', 'Q', 'M'), "", "CQM")); require(is(currency('C', 'Q', 'N'), "", "CQN")); require(is(currency('C', 'Q', 'O'), "", "CQO")); require(is(currency('C', 'Q', 'P'), "", "CQP")); require(is(currency('C', 'Q', 'Q'), "", "CQQ")); require(is(currency('C', 'Q', 'R'), "", "CQR")); require(is(currency('C', 'Q', 'S'), "", "CQS")); require(is(currency('C', 'Q', 'T'), "", "CQT")); require(is(currency('C', 'Q', 'U'), "", "CQU")); require(is(currency('C', 'Q', 'V'), "", "CQV")); require(is(currency('C', 'Q', 'W'), "", "CQW")); require(is(currency('C', 'Q', 'X'), "", "CQX")); require(is(currency('C', 'Q', 'Y'), "", "CQY")); require(is(currency('C', 'Q', 'Z'), "", "CQZ"));)
OBLIGATION(no_currency_CR, "esl/economics/currencies.hpp: currency_name (codes without a currency from CR)", (), require(is(currency('C', 'R', 'A'), "", "CRA")); require(is(currency('C', 'R', 'B'), "", "CRB")); require(is(currency('C', 'R', 'D'), "", "CRD")); require(is(currency('C', 'R', 'E'), "", "CRE")); require(is(currency('C', 'R', 'F'), "", "CRF")); require(is(currency('C', 'R', 'G'), "", "CRG")); require(is(currency('C', 'R', 'H'), "", "CRH")); require(is(currency('C', 'R', 'I'), "", "CRI")); require(is(currency('C', 'R', 'J'), "", "CRJ")); require(is(currency('C', 'R', 'K'), "", "CRK")); require(is(currency('C', 'R', 'L'), "", "CRL")); require(is(currency('C', 'R', 'M'), "", "CRM")); require(is(currency('C', 'R', 'N'), "", "CRN")); require(is(currency('C', 'R', 'O'), "", "CRO")); require(is(currency('C', 'R', 'P'), "", "CRP")); require(is(currency('C', 'R', 'Q'), "", "CRQ")); require(is(currency('C', 'R', 'R'), "", "CRR")); require(is(currency('C', 'R', 'S'), "", "CRS")); require(is(currency('C', 'R', 'T'), "", "CRT")); require(is(currency('C', 'R', 'U'), "", "CRU")); require(is(currency('C', 'R', 'V'), "", "CRV")); require(is(currency('C', 'R', 'W'), "", "CRW")); require(is(currency('C', 'R', 'X'), "", "CRX")); require(is(currency('C', 'R', 'Y'), "", "CRY")); require(is(currency('C', 'R', 'Z'), "", "CRZ"));)
OBLIGATION(no_currency_CS, "esl/economics/currencies.hpp: currency_name (codes without a currency from CS)", (), require(is(currency('C', 'S', 'A'), "", "CSA")); require(is(currency('C', 'S', 'B'), "", "CSB")); require(is(currency('C', 'S', 'C'), "", "CSC")); require(is(currency('C', 'S', 'D'), "", "CSD")); require(is(currency('C', 'S', 'E'), "", "CSE")); require(is(currency('C', 'S', 'F'), "", "CSF")); require(is(currency('C', 'S', 'G'), "", "CSG")); require(is(currency('C', 'S', 'H'), "", "CSH")); require(is(currency('C', 'S', 'I'), "", "CSI")); require(is(currency('C', 'S', 'J'), "", "CSJ")); require(is(currency('C', 'S', 'K'), "", "CSK")); require(is(currency('C', 'S', 'L'), "", "CSL")); require(is(currency('C', 'S', 'M'), "", "CSM")); require(is(currency('C', 'S', 'N'), "", "CSN")); require(is(currency('C', 'S', 'O'), "", "CSO")); require(is(currency('C', 'S', 'P'), "", "CSP")); require(is(currency('C', 'S', 'Q'), "", "CSQ")); require(is(currency('C', 'S', 'R'), "", "CSR")); require(is(currency('C', 'S', 'S'), "", "CSS")); require(is(currency('C', 'S', 'T'), "", "CST")); require(is(currency('C', 'S', 'U'), "", "CSU")); require(is(currency('C', 'S', 'V'), "", "CSV")); require(is(currency('C', 'S', 'W'), "", "CSW")); require(is(currency('C', 'S', 'X'), "", "CSX")); require(is(currency('C', 'S', 'Y'), "", "CSY")); require(is(currency('C', 'S', 'Z'), "", "CSZ"));)
OBLIGATION(no_currency_CT, "esl/economics/currencies.hpp: currency_name (codes without a currency from CT)", (), require(is(currency('C', 'T', 'A'), "", "CTA")); require(is(currency('C', 'T', 'B'), "", "CTB")); require(is(currency('C', 'T', 'C'), "", "CTC")); require(is(currency('C', 'T', 'D'), "", "CTD")); require(is(currency('C', 'T', 'E'), "", "CTE")); require(is(currency('C', 'T', 'F'), "", "CTF")); require(is(currency('C', 'T', 'G'), "", "CTG")); require(is(currency('C', 'T', 'H'), "", "CTH")); require(is(currency('C', 'T', 'I'), "", "CTI")); require(is(currency('C', 'T', 'J'), "", "CTJ")); require(is(currency('C', 'T', 'K'), "", "CTK")); require(is(currency('C', 'T', 'L'), "", "CTL")); require(is(currency('C', 'T', 'M'), "", "CTM")); require(is(currency('C', 'T', 'N'), "", "CTN")); require(is(currency('C', 'T', 'O'), "", "CTO")); require(is(currency('C', 'T', 'P'), "", "CTP")); require(is(currency('C', 'T', 'Q'), "", "CTQ")); require(is(currency('C', 'T', 'R'), "", "CTR")); require(is(currency('C', 'T', 'S'), "", "CTS")); require(is(currency('C', 'T', 'T'), "", "CTT")); require(is(currency('C', 'T', 'U'), "", "CTU")); require(is(currency('C', 'T', 'V'), "", "CTV")); require(is(currency('C', 'T', 'W'), "", "CTW")); require(is(currency('C', 'T', 'X'), "", "CTX")); require(is(currency('C', 'T', 'Y'), "", "CTY")); require(is(currency('C', 'T', 'Z'), "", "CTZ"));)
OBLIGATION(no_currency_CU, "esl/economics/currencies.hpp: currency_name (codes without a currency from CU)", (), require(is(currency('C', 'U', 'A'), "", "CUA")); require(is(currency('C', 'U', 'B'), "", "CUB")); require(is(currency('C', 'U', 'D'), "", "CUD")); require(is(currency('C', 'U', 'E'), "", "CUE")); require(is(currency('C', 'U', 'F'), "", "CUF")); require(is(currency('C', 'U', 'G'), "", "CUG")); require(is(currency('C', 'U', 'H'), "", "CUH")); require(is(currency('C', 'U', 'I'), "", "CUI")); require(is(currency('C', 'U', 'J'), "", "CUJ")); require(is(currency('C', 'U', 'K'), "", "CUK")); require(is(currency('C', 'U', 'L'), "", "CUL")); require(is(currency('C', 'U', 'M'), "", "CUM")); require(is(currency('C', 'U', 'N'), "", "CUN")); require(is(currency('C', 'U', 'O'), "", "CUO")); require(is(currency('C', 'U', 'Q'), "", "CUQ")); require(is(currency('C', 'U', 'R'), "", "CUR")); require(is(currency('C', 'U', 'S'), "", "CUS")); require(is(currency('C', 'U', 'T'), "", "CUT")); require(is(currency('C', 'U', 'U'), "", "CUU")); require(is(currency('C', 'U', 'V'), "", "CUV")); require(is(currency('C', 'U', 'W'), "", "CUW")); require(is(currency('C', 'U', 'X'), "", "CUX")); require(is(currency('C', 'U', 'Y'), "", "CUY")); require(is(currency('C', 'U', 'Z'), "", "CUZ"));)
OBLIGATION(no_currency_CV, "esl/economics/currencies.hpp: currency_name (codes without a currency from CV)", (), require(is(currency('C', 'V', 'A'), "", "CVA")); require(is(currency('C', 'V', 'B'), "", "CVB")); require(is(currency('C', 'V', 'C'), "", "CVC")); require(is(currency('C', 'V', 'D'), "", "CVD")); require(is(currency('C', 'V', 'F'), "", "CVF")); require(is(currency('C', 'V', 'G'), "", "CVG")); require(is(currency('C', 'V', 'H'), "", "CVH")); require(is(currency('C', 'V', 'I'), "", "CVI")); require(is(currency('C', 'V', 'J'), "", "CVJ")); require(is(currency('C', 'V', 'K'), "", "CVK")); require(is(currency('C', 'V', 'L'), "", "CVL")); require(is(currency('C', 'V', 'M'), "", "CVM")); require(is(currency('C', 'V', 'N'), "", "CVN")); require(is(currency('C', 'V', 'O'), "", "CVO")); require(is(currency('C', 'V', 'P'), "", "CVP")); require(is(currency('C', 'V', 'Q'), "", "CVQ")); require(is(currency('C', 'V', 'R'), "", "CVR")); require(is(currency('C', 'V', 'S'), "", "CVS")); require(is(currency('C', 'V', 'T'), "", "CVT")); require(is(currency('C', 'V', 'U'), "", "CVU")); require(is(currency('C', 'V', 'V'), "", "CVV")); require(is(currency('C', 'V', 'W'), "", "CVW")); require(is(currency('C', 'V', 'X'), "", "CVX")); require(is(currency('C', 'V', 'Y'), "", "CVY")); require(is(currency('C', 'V', 'Z'), "", "CVZ"));)
OBLIGATION(no_currency_CW, "esl/economics/currencies.hpp: currency_name (codes without a currency from CW)", (), require(is(currency('C', 'W', 'A'), "", "CWA")); require(is(currency('C', 'W', 'B'), "", "CWB")); require(is(currency('C', 'W', 'C'), "", "CWC")); require(is(currency('C', 'W', 'D'), "", "CWD")); require(is(currency('C', 'W', 'E'), "", "CWE")); require(is(currency('C', 'W', 'F'), "", "CWF")); require(is(currency('C', 'W', 'G'), "", "CWG")); require(is(currency('C', 'W', 'H'), "", "CWH")); require(is(currency('C', 'W', 'I'), "", "CWI")); require(is(currency('C', 'W', 'J'), "", "CWJ")); require(is(currency('C', 'W', 'K'), "", "CWK")); require(is(currency('C', 'W', 'L'), "", "CWL")); require(is(currency('C', 'W', 'M'), "", "CWM")); require(is(currency('C', 'W', 'N'), "", "CWN")); require(is(currency('C', 'W', 'O'), "", "CWO")); require(is(currency('C', 'W', 'P'), "", "CWP")); require(is(currency('C', 'W', 'Q'), "", "CWQ")); require(is(currency('C', 'W', 'R'), "", "CWR")); require(is(currency('C', 'W', 'S'), "", "CWS")); require(is(currency('C', 'W', 'T'), "", "CWT")); require(is(currency('C', 'W', 'U'), "", "CWU")); require(is(currency('C', 'W', 'V'), "", "CWV")); require(is(currency('C', 'W', 'W'), "", "CWW")); require(is(currency('C', 'W', 'X'), "", "CWX")); require(is(currency('C', 'W', 'Y'), "", "CWY")); require(is(currency('C', 'W', 'Z'), "", "CWZ"));)
OBLIGATION(no_currency_CX, "esl/economics/currencies.hpp: currency_name (codes without a currency from CX)", (), require(is(currency('C', 'X', 'A'), "", "CXA")); require(is(currency('C', 'X', 'B'), "", "CXB")); require(is(currency('C', 'X', 'C'), "", "CXC")); require(is(currency('C', 'X', 'D'), "", "CXD")); require(is(currency('C', 'X', 'E'), "", "CXE")); require(is(currency('C', 'X', 'F'), "", "CXF")); require(is(currency('C', 'X', 'G'), "", "CXG")); require(is(currency('C', 'X', 'H'), "", "CXH")); require(is(currency('C', 'X', 'I'), "", "CXI")); require(is(currency('C', 'X', 'J'), "", "CXJ")); require(is(currency('C', 'X', 'K'), "", "CXK")); require(is(currency('C', 'X', 'L'), "", "CXL")); require(is(currency('C', 'X', 'M'), "", "CXM")); require(is(currency('C', 'X', 'N'), "", "CXN")); require(is(currency('C', 'X', 'O'), "", "CXO")); require(is(currency('C', 'X', 'P'), "", "CXP")); require(is(currency('C', 'X', 'Q'), "", "CXQ")); require(is(currency('C', 'X', 'R'), "", "CXR")); require(is(currency('C', 'X', 'S'), "", "CXS")); require(is(currency('C', 'X', 'T'), "", "CXT")); require(is(currency('C', 'X', 'U'), "", "CXU")); require(is(currency('C', 'X', 'V'), "", "CXV")); require(is(currency('C', 'X', 'W'), "", "CXW")); require(is(currency('C', 'X', 'X'), "", "CXX")); require(is(currency('C', 'X', 'Y'), "", "CXY")); require(is(currency('C', 'X', 'Z'), "", "CXZ"));)
OBLIGATION(no_currency_CY, "esl/economics/currencies.hpp: currency_name (codes without a currency from CY)", (), require(is(currency('C', 'Y', 'A'), "", "CYA")); require(is(currency('C', 'Y', 'B'), "", "CYB")); require(is(currency('C', 'Y', 'C'), "", "CYC")); require(is(currency('C', 'Y', 'D'), "", "CYD")); require(is(currency('C', 'Y', 'E'), "", "CYE")); require(is(currency('C', 'Y', 'F'), "", "CYF")); require(is(currency('C', 'Y', 'G'), "", "CYG")); require(is(currency('C', 'Y', 'H'), "", "CYH")); require(is(currency('C', 'Y', 'I'), "", "CYI")); require(is(currency('C', 'Y', 'J'), "", "CYJ")); require(is(currency('C', 'Y', 'K'), "", "CYK")); require(is(currency('C', 'Y', 'L'), "", "CYL")); require(is(currency('C', 'Y', 'M'), "", "CYM")); require(is(currency('C', 'Y', 'N'), "", "CYN")); require(is(currency('C', 'Y', 'O'), "", "CYO")); require(is(currency('C', 'Y', 'P'), "", "CYP")); require(is(currency('C', 'Y', 'Q'), "", "CYQ")); require(is(currency('C', 'Y', 'R'), "", "CYR")); require(is(currency('C', 'Y', 'S'), "", "CYS")); require(is(currency('C', 'Y', 'T'), "", "CYT")); require(is(currency('C', 'Y', 'U'), "", "CYU")); require(is(currency('C', 'Y', 'V'), "", "CYV")); require(is(currency('C', 'Y', 'W'), "", "CYW")); require(is(currency('C', 'Y', 'X'), "", "CYX")); require(is(currency('C', 'Y', 'Y'), "", "CYY")); require(is(currency('C', 'Y', 'Z'), "", "CYZ"));)
OBLIGATION(no_currency_CZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from CZ)", (), require(is(currency('C', 'Z', 'A'), "", "CZA")); require(is(currency('C', 'Z', 'B'), "", "CZB")); require(is(currency('C', 'Z', 'C'), "", "CZC")); require(is(currency('C', 'Z', 'D'), "", "CZD")); require(is(currency('C', 'Z', 'E'), "", "CZE")); require(is(currency('C', 'Z', 'F'), "", "CZF")); require(is(currency('C', 'Z', 'G'), "", "CZG")); require(is(currency('C', 'Z', 'H'), "", "CZH")); require(is(currency('C', 'Z', 'I'), "", "CZI")); require(is(currency('C', 'Z', 'J'), "", "CZJ")); require(is(currency('C', 'Z', 'L'), "", "CZL")); require(is(currency('C', 'Z', 'M'), "", "CZM")); require(is(currency('C', 'Z', 'N'), "", "CZN")); require(is(currency('C', 'Z', 'O'), "", "CZO")); require(is(currency('C', 'Z', 'P'), "", "CZP")); require(is(currency('C', 'Z', 'Q'), "", "CZQ")); require(is(currency('C', 'Z', 'R'), "", "CZR")); require(is(currency('C', 'Z', 'S'), "", "CZS")); require(is(currency('C', 'Z', 'T'), "", "CZT")); require(is(currency('C', 'Z', 'U'), "", "CZU")); require(is(currency('C', 'Z', 'V'), "", "CZV")); require(is(currency('C', 'Z', 'W'), "", "CZW")); require(is(currency('C', 'Z', 'X'), "", "CZX")); require(is(currency('C', 'Z', 'Y'), "", "CZY")); require(is(currency('C', 'Z', 'Z'), "", "CZZ"));)
OBLIGATION(no_currency_DA, "esl/economics/currencies.hpp: currency_name (codes without a currency from DA)", (), require(is(currency('D', 'A', 'A'), "", "DAA")); require(is(currency('D', 'A', 'B'), "", "DAB")); require(is(currency('D', 'A', 'C'), "", "DAC")); require(is(currency('D', 'A', 'D'), "", "DAD")); require(is(currency('D', 'A', 'E'), "", "DAE")); require(is(currency('D', 'A', 'F'), "", "DAF")); require(is(currency('D', 'A', 'G'), "", "DAG")); require(is(currency('D', 'A', 'H'), "", "DAH")); require(is(currency('D', 'A', 'I'), "", "DAI")); require(is(currency('D', 'A', 'J'), "", "DAJ")); require(is(currency('D', 'A', 'K'), "", "DAK")); require(is(currency('D', 'A', 'L'), "", "DAL")); require(is(currency('D', 'A', 'M'), "", "DAM")); require(is(currency('D', 'A', 'N'), "", "DAN")); require(is(currency('D', 'A', 'O'), "", "DAO")); require(is(currency('D', 'A', 'P'), "", "DAP")); require(is(currency('D', 'A', 'Q'), "", "DAQ")); require(is(currency('D', 'A', 'R'), "", "DAR")); require(is(currency('D', 'A', 'S'), "", "DAS")); require(is(currency('D', 'A', 'T'), "", "DAT")); require(is(currency('D', 'A', 'U'), "", "DAU")); require(is(currency('D', 'A', 'V'), "", "DAV")); require(is(currency('D', 'A', 'W'), "", "DAW")); require(is(currency('D', 'A', 'X'), "", "DAX")); require(is(currency('D', 'A', 'Y'), "", "DAY")); require(is(currency('D', 'A', 'Z'), "", "DAZ"));)
OBLIGATION(no_currency_DB, "esl/economics/currencies.hpp: currency_name (codes without a currency from DB)", (), require(is(currency('D', 'B', 'A'), "", "DBA")); require(is(currency('D', 'B', 'B'), "", "DBB")); require(is(currency('D', 'B', 'C'), "", "DBC")); require(is(currency('D', 'B', 'D'), "", "DBD")); require(is(currency('D', 'B', 'E'), "", "DBE")); require(is(currency('D', 'B', 'F'), "", "DBF")); require(is(currency('D', 'B', 'G'), "", "DBG")); require(is(currency('D', 'B', 'H'), "", "DBH")); require(is(currency('D', 'B', 'I'), "", "DBI")); require(is(currency('D', 'B', 'J'), "", "DBJ")); require(is(currency('D', 'B', 'K'), "", "DBK")); require(is(currency('D', 'B', 'L'), "", "DBL")); require(is(currency('D', 'B', 'M'), "", "DBM")); require(is(currency('D', 'B', 'N'), "", "DBN")); require(is(currency('D', 'B', 'O'), "", "DBO")); require(is(currency('D', 'B', 'P'), "", "DBP")); require(is(currency('D', 'B', 'Q'), "", "DBQ")); require(is(currency('D', 'B', 'R'), "", "DBR")); require(is(currency('D', 'B', 'S'), "", "DBS")); require(is(currency('D', 'B', 'T'), "", "DBT")); require(is(currency('D', 'B', 'U'), "", "DBU")); require(is(currency('D', 'B', 'V'), "", "DBV")); require(is(currency('D', 'B', 'W'), "", "DBW")); require(is(currency('D', 'B', 'X'), "", "DBX")); require(is(currency('D', 'B', 'Y'), "", "DBY")); require(is(currency('D', 'B', 'Z'), "", "DBZ"));)
OBLIGATION(no_currency_DC, "esl/economics/currencies.hpp: currency_name (codes without a currency from DC)", (), require(is(currency('D', 'C', 'A'), "", "DCA")); require(is(currency('D', 'C', 'B'), "", "DCB")); require(is(currency('D', 'C', 'C'), "", "DCC")); require(is(currency('D', 'C', 'D'), "", "DCD")); require(is(currency('D', 'C', 'E'), "", "DCE")); require(is(currency('D', 'C', 'F'), "", "DCF")); require(is(currency('D', 'C', 'G'), "", "DCG")); require(is(currency('D', 'C', 'H'), "", "DCH")); require(is(currency('D', 'C', 'I'), "", "DCI")); require(is(currency('D', 'C', 'J'), "", "DCJ")); require(is(currency('D', 'C', 'K'), "", "DCK")); require(is(currency('D', 'C', 'L'), "", "DCL")); require(is(currency('D', 'C', 'M'), "", "DCM")); require(is(currency('D', 'C', 'N'), "", "DCN")); require(is(currency('D', 'C', 'O'), "", "DCO")); require(is(currency('D', 'C', 'P'), "", "DCP")); require(is(currency('D', 'C', 'Q'), "", "DCQ")); require(is(currency('D', 'C', 'R'), "", "DCR")); require(is(currency('D', 'C', 'S'), "", "DCS")); require(is(currency('D', 'C', 'T'), "", "DCT")); require(is(currency('D', 'C', 'U'), "", "DCU")); require(is(currency('D', 'C', 'V'), "", "DCV")); require(is(currency('D', 'C', 'W'), "", "DCW")); require(is(currency('D', 'C', 'X'), "", "DCX")); require(is(currency('D', 'C', 'Y'), "", "DCY")); require(is(currency('D', 'C', 'Z'), "", "DCZ"));)
OBLIGATION(no_currency_DD, "esl/economics/currencies.hpp: currency_name (codes without a currency from DD)", (), require(is(currency('D', 'D', 'A'), "", "DDA")); require(is(currency('D', 'D', 'B'), "", "DDB")); require(is(currency('D', 'D', 'C'), "", "DDC")); require(is(currency('D', 'D', 'D'), "", "DDD")); require(is(currency('D', 'D', 'E'), "", "DDE")); require(is(currency('D', 'D', 'F'), "", "DDF")); require(is(currency('D', 'D', 'G'), "", "DDG")); require(is(currency('D', 'D', 'H'), "", "DDH")); require(is(currency('D', 'D', 'I'), "", "DDI")); require(is(currency('D', 'D', 'J'), "", "DDJ")); require(is(currency('D', 'D', 'K'), "", "DDK")); require(is(currency('D', 'D', 'L'), "", "DDL")); require(is(currency('D', 'D', 'M'), "", "DDM")); require(is(currency('D', 'D', 'N'), "", "DDN")); require(is(currency('D', 'D', 'O'), "", "DDO")); require(is(currency('D', 'D', 'P'), "", "DDP")); require(is(currency('D', 'D', 'Q'), "", "DDQ")); require(is(currency('D', 'D', 'R'), "", "DDR")); require(is(currency('D', 'D', 'S'), "", "DDS")); require(is(currency('D', 'D', 'T'), "", "DDT")); require(is(currency('D', 'D', 'U'), "", "DDU")); require(is(currency('D', 'D', 'V'), "", "DDV")); require(is(currency('D', 'D', 'W'), "", "DDW")); require(is(currency('D', 'D', 'X'), "", "DDX")); require(is(currency('D', 'D', 'Y'), "", "DDY")); require(is(currency('D', 'D', 'Z'), "", "DDZ"));)
OBLIGATION(no_currency_DE, "esl/economics/currencies.hpp: currency_name (codes without a currency from DE)", (), require(is(currency('D', 'E', 'A'), "", "DEA")); require(is(currency('D', 'E', 'B'), "", "DEB")); require(is(currency('D', 'E', 'C'), "", "DEC")); require(is(currency('D', 'E', 'D'), "", "DED")); require(is(currency('D', 'E', 'E'), "", "DEE")); require(is(currency('D', 'E', 'F'), "", "DEF")); require(is(currency('D', 'E', 'G'), "", "DEG")); require(is(currency('D', 'E', 'H'), "", "DEH")); require(is(currency('D', 'E', 'I'), "", "DEI")); require(is(currency('D', 'E', 'J'), "", "DEJ")); require(is(currency('D', 'E', 'K'), "", "DEK")); require(is(currency('D', 'E', 'L'), "", "DEL")); require(is(currency('D', 'E', 'M'), "", "DEM")); require(is(currency('D', 'E', 'N'), "", "DEN")); require(is(currency('D', 'E', 'O'), "", "DEO")); require(is(currency('D', 'E', 'P'), "", "DEP")); require(is(currency('D', 'E', 'Q'), "", "DEQ")); require(is(currency('D', 'E', 'R'), "", "DER")); require(is(currency('D', 'E', 'S'), "", "DES")); require(is(currency('D', 'E', 'T'), "", "DET")); require(is(currency('D', 'E', 'U'), "", "DEU")); require(is(currency('D', 'E', 'V'), "", "DEV")); require(is(currency('D', 'E', 'W'), "", "DEW")); require(is(currency('D', 'E', 'X'), "", "DEX")); require(is(currency('D', 'E', 'Y'), "", "DEY")); require(is(currency('D', 'E', 'Z'), "", "DEZ"));)
OBLIGATION(no_currency_DF, "esl/economics/currencies.hpp: currency_name (codes without a currency from DF)", (), require(is(currency('D', 'F', 'A'), "", "DFA")); require(is(currency('D', 'F', 'B'), "", "DFB")); require(is(currency('D', 'F', 'C'), "", "DFC")); require(is(currency('D', 'F', 'D'), "", "DFD")); require(is(currency('D', 'F', 'E'), "", "DFE")); require(is(currency('D', 'F', 'F'), "", "DFF")); require(is(currency('D', 'F', 'G'), "", "DFG")); require(is(currency('D', 'F', 'H'), "", "DFH")); require(is(currency('D', 'F', 'I'), "", "DFI")); require(is(currency('D', 'F', 'J'), "", "DFJ")); require(is(currency('D', 'F', 'K'), "", "DFK")); require(is(currency('D', 'F', 'L'), "", "DFL")); require(is(currency('D', 'F', 'M'), "", "DFM")); require(is(currency('D', 'F', 'N'), "", "DFN")); require(is(currency('D', 'F', 'O'), "", "DFO")); require(is(currency('D', 'F', 'P'), "", "DFP")); require(is(currency('D', 'F', 'Q'), "", "DFQ")); require(is(currency('D', 'F', 'R'), "", "DFR")); require(is(currency('D', 'F', 'S'), "", "DFS")); require(is(currency('D', 'F', 'T'), "", "DFT")); require(is(currency('D', 'F', 'U'), "", "DFU")); require(is(currency('D', 'F', 'V'), "", "DFV")); require(is(currency('D', 'F', 'W'), "", "DFW")); require(is(currency('D', 'F', 'X'), "", "DFX")); require(is(currency('D', 'F', 'Y'), "", "DFY")); require(is(currency('D', 'F', 'Z'), "", "DFZ"));)
OBLIGATION(no_currency_DG, "esl/economics/currencies.hpp: currency_name (codes without a currency from DG)", (), require(is(currency('D', 'G', 'A'), "", "DGA")); require(is(currency('D', 'G', 'B'), "", "DGB")); require(is(currency('D', 'G', 'C'), "", "DGC")); require(is(currency('D', 'G', 'D'), "", "DGD")); require(is(currency('D', 'G', 'E'), "", "DGE")); require(is(currency('D', 'G', 'F'), "", "DGF")); require(is(currency('D', 'G', 'G'), "", "DGG")); require(is(currency('D', 'G', 'H'), "", "DGH")); require(is(currency('D', 'G', 'I'), "", "DGI")); require(is(currency('D', 'G', 'J'), "", "DGJ")); require(is(currency('D', 'G', 'K'), "", "DGK")); require(is(currency('D', 'G', 'L'), "", "DGL")); require(is(currency('D', 'G', 'M'), "", "DGM")); require(is(currency('D', 'G', 'N'), "", "DGN")); require(is(currency('D', 'G', 'O'), "", "DGO")); require(is(currency('D', 'G', 'P'), "", "DGP")); require(is(currency('D', 'G', 'Q'), "", "DGQ")); require(is(currency('D', 'G', 'R'), "", "DGR")); require(is(currency('D', 'G', 'S'), "", "DGS")); require(is(currency('D', 'G', 'T'), "", "DGT")); require(is(currency('D', 'G', 'U'), "", "DGU")); require(is(currency('D', 'G', 'V'), "", "DGV")); require(is(currency('D', 'G', 'W'), "", "DGW")); require(is(currency('D', 'G', 'X'), "", "DGX")); require(is(currency('D', 'G', 'Y'), "", "DGY")); require(is(currency('D', 'G', 'Z'), "", "DGZ"));)
OBLIGATION(no_currency_DH, "esl/economics/currencies.hpp: currency_name (codes without a currency from DH)", (), require(is(currency('D', 'H', 'A'), "", "DHA")); require(is(currency('D', 'H', 'B'), "", "DHB")); require(is(currency('D', 'H', 'C'), "", "DHC")); require(is(currency('D', 'H', 'D'), "", "DHD")); require(is(currency('D', 'H', 'E'), "", "DHE")); require(is(currency('D', 'H', 'F'), "", "DHF")); require(is(currency('D', 'H', 'G'), "", "DHG")); require(is(currency('D', 'H', 'H'), "", "DHH")); require(is(currency('D', 'H', 'I'), "", "DHI")); require(is(currency('D', 'H', 'J'), "", "DHJ")); require(is(currency('D', 'H', 'K'), "", "DHK")); require(is(currency('D', 'H', 'L'), "", "DHL")); require(is(currency('D', 'H', 'M'), "", "DHM")); require(is(currency('D', 'H', 'N'), "", "DHN")); require(is(currency('D', 'H', 'O'), "", "DHO")); require(is(currency('D', 'H', 'P'), "", "DHP")); require(is(currency('D', 'H', 'Q'), "", "DHQ")); require(is(currency('D', 'H', 'R'), "", "DHR")); require(is(currency('D', 'H', 'S'), "", "DHS")); require(is(currency('D', 'H', 'T'), "", "DHT")); require(is(currency('D', 'H', 'U'), "", "DHU")); require(is(currency('D', 'H', 'V'), "", "DHV")); require(is(currency('D', 'H', 'W'), "", "DHW")); require(is(currency('D', 'H', 'X'), "", "DHX")); require(is(currency('D', 'H', 'Y'), "", "DHY")); require(is(currency('D', 'H', 'Z'), "", "DHZ"));)
OBLIGATION(no_currency_DI, "esl/economics/currencies.hpp: currency_name (codes without a currency from DI)", (), require(is(currency('D', 'I', 'A'), "", "DIA")); require(is(currency('D', 'I', 'B'), "", "DIB")); require(is(currency('D', 'I', 'C'), "", "DIC")); require(is(currency('D', 'I', 'D'), "", "DID")); require(is(currency('D', 'I', 'E'), "", "DIE")); require(is(currency('D', 'I', 'F'), "", "DIF")); require(is(currency('D', 'I', 'G'), "", "DIG")); require(is(currency('D', 'I', 'H'), "", "DIH")); require(is(currency('D', 'I', 'I'), "", "DII")); require(is(currency('D', 'I', 'J'), "", "DIJ")); require(is(currency('D', 'I', 'K'), "", "DIK")); require(is(currency('D', 'I', 'L'), "", "DIL")); require(is(currency('D', 'I', 'M'), "", "DIM")); require(is(currency('D', 'I', 'N'), "", "DIN")); require(is(currency('D', 'I', 'O'), "", "DIO")); require(is(currency('D', 'I', 'P'), "", "DIP")); require(is(currency('D', 'I', 'Q'), "", "DIQ")); require(is(currency('D', 'I', 'R'), "", "DIR")); require(is(currency('D', 'I', 'S'), "", "DIS")); require(is(currency('D', 'I', 'T'), "", "DIT")); require(is(currency('D', 'I', 'U'), "", "DIU")); require(is(currency('D', 'I', 'V'), "", "DIV")); require(is(currency('D', 'I', 'W'), "", "DIW")); require(is(currency('D', 'I', 'X'), "", "DIX")); require(is(currency('D', 'I', 'Y'), "", "DIY")); require(is(currency('D', 'I', 'Z'), "", "DIZ"));)
OBLIGATION(no_currency_DJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from DJ)", (), require(is(currency('D', 'J', 'A'), "", "DJA")); require(is(currency('D', 'J', 'B'), "", "DJB")); require(is(currency('D', 'J', 'C'), "", "DJC")); require(is(currency('D', 'J', 'D'), "", "DJD")); require(is(currency('D', 'J', 'E'), "", "DJE")); require(is(currency('D', 'J', 'G'), "", "DJG")); require(is(currency('D', 'J', 'H'), "", "DJH")); require(is(currency('D', 'J', 'I'), "", "DJI")); require(is(currency('D', 'J', 'J'), "", "DJJ")); require(is(currency('D', 'J', 'K'), "", "DJK")); require(is(currency('D', 'J', 'L'), "", "DJL")); require(is(currency('D', 'J', 'M'), "", "DJM")); require(is(currency('D', 'J', 'N'), "", "DJN")); require(is(currency('D', 'J', 'O'), "", "DJO")); require(is(currency('D', 'J', 'P'), "", "DJP")); require(is(currency('D', 'J', 'Q'), "", "DJQ")); require(is(currency('D', 'J', 'R'), "", "DJR")); require(is(currency('D', 'J', 'S'), "", "DJS")); require(is(currency('D', 'J', 'T'), "", "DJT")); require(is(currency('D', 'J', 'U'), "", "DJU")); require(is(currency('D', 'J', 'V'), "", "DJV")); require(is(currency('D', 'J', 'W'), "", "DJW")); require(is(currency('D', 'J', 'X'), "", "DJX")); require(is(currency('D', 'J', 'Y'), "", "DJY")); require(is(currency('D', 'J', 'Z'), "", "DJZ"));)
OBLIGATION(no_currency_DK, "esl/economics/currencies.hpp: currency_name (codes without a currency from DK)", (), require(is(currency('D', 'K', 'A'), "", "DKA")); require(is(currency('D', 'K', 'B'), "", "DKB")); require(is(currency('D', 'K', 'C'), "", "DKC")); require(is(currency('D', 'K', 'D'), "", "DKD")); require(is(currency('D', 'K', 'E'), "", "DKE")); require(is(currency('D', 'K', 'F'), "", "DKF")); require(is(currency('D', 'K', 'G'), "", "DKG")); require(is(currency('D', 'K', 'H'), "", "DKH")); require(is(currency('D', 'K', 'I'), "", "DKI")); require(is(currency('D', 'K', 'J'), "", "DKJ")); require(is(currency('D', 'K', 'L'), "", "DKL")); require(is(currency('D', 'K', 'M'), "", "DKM")); require(is(currency('D', 'K', 'N'), "", "DKN")); require(is(currency('D', 'K', 'O'), "", "DKO")); require(is(currency('D', 'K', 'P'), "", "DKP")); require(is(currency('D', 'K', 'Q'), "", "DKQ")); require(is(currency('D', 'K', 'R'), "", "DKR")); require(is(currency('D', 'K', 'S'), "", "DKS")); require(is(currency('D', 'K', 'T'), "", "DKT")); require(is(currency('D', 'K', 'U'), "", "DKU")); require(is(currency('D', 'K', 'V'), "", "DKV")); require(is(currency('D', 'K', 'W'), "", "DKW")); require(is(currency('D', 'K', 'X'), "", "DKX")); require(is(currency('D', 'K', 'Y'), "", "DKY")); require(is(currency('D', 'K', 'Z'), "", "DKZ"));)
OBLIGATION(no_currency_DL, "esl/economics/currencies.hpp: currency_name (codes without a currency from DL)", (), require(is(currency('D', 'L', 'A'), "", "DLA")); require(is(currency('D', 'L', 'B'), "", "DLB")); require(is(currency('D', 'L', 'C'), "", "DLC")); require(is(currency('D', 'L', 'D'), "", "DLD")); require(is(currency('D', 'L', 'E'), "", "DLE")); require(is(currency('D', 'L', 'F'), "", "DLF")); require(is(currency('D', 'L', 'G'), "", "DLG")); require(is(currency('D', 'L', 'H'), "", "DLH")); require(is(currency('D', 'L', 'I'), "", "DLI")); require(is(currency('D', 'L', 'J'), "", "DLJ")); require(is(currency('D', 'L', 'K'), "", "DLK")); require(is(currency('D', 'L', 'L'), "", "DLL")); require(is(currency('D', 'L', 'M'), "", "DLM")); require(is(currency('D', 'L', 'N'), "", "DLN")); require(is(currency('D', 'L', 'O'), "", "DLO")); require(is(currency('D', 'L', 'P'), "", "DLP")); require(is(currency('D', 'L', 'Q'), "", "DLQ")); require(is(currency('D', 'L', 'R'), "", "DLR")); require(is(currency('D', 'L', 'S'), "", "DLS")); require(is(currency('D', 'L', 'T'), "", "DLT")); require(is(currency('D', 'L', 'U'), "", "DLU")); require(is(currency('D', 'L', 'V'), "", "DLV")); require(is(currency('D', 'L', 'W'), "", "DLW")); require(is(currency('D', 'L', 'X'), "", "DLX")); require(is(currency('D', 'L', 'Y'), "", "DLY")); require(is(currency('D', 'L', 'Z'), "", "DLZ"));)
OBLIGATION(no_currency_DM, "esl/economics/currencies.hpp: currency_name (codes without a currency from DM)", (), require(is(currency('D', 'M', 'A'), "", "DMA")); require(is(currency('D', 'M', 'B'), "", "DMB")); require(is(currency('D', 'M', 'C'), "", "DMC")); require(is(currency('D', 'M', 'D'), "", "DMD")); require(is(currency('D', 'M', 'E'), "", "DME")); require(is(currency('D', 'M', 'F'), "", "DMF")); require(is(currency('D', 'M', 'G'), "", "DMG")); require(is(currency('D', 'M', 'H'), "", "DMH")); require(is(currency('D', 'M', 'I'), "", "DMI")); require(is(currency('D', 'M', 'J'), "", "DMJ")); require(is(currency('D', 'M', 'K'), "", "DMK")); require(is(currency('D', 'M', 'L'), "", "DML")); require(is(currency('D', 'M', 'M'), "", "DMM")); require(is(currency('D', 'M', 'N'), "", "DMN")); require(is(currency('D', 'M', 'O'), "", "DMO")); require(is(currency('D', 'M', 'P'), "", "DMP")); require(is(currency('D', 'M', 'Q'), "", "DMQ")); require(is(currency('D', 'M', 'R'), "", "DMR")); require(is(currency('D', 'M', 'S'), "", "DMS")); require(is(currency('D', 'M', 'T'), "", "DMT")); require(is(currency('D', 'M', 'U'), "", "DMU")); require(is(currency('D', 'M', 'V'), "", "DMV")); require(is(currency('D', 'M', 'W'), "", "DMW")); require(is(currency('D', 'M', 'X'), "", "DMX")); require(is(currency('D', 'M', 'Y'), "", "DMY")); require(is(currency('D', 'M', 'Z'), "", "DMZ"));)
OBLIGATION(no_currency_DN, "esl/economics/currencies.hpp: currency_name (codes without a currency from DN)", (), require(is(currency('D', 'N', 'A'), "", "DNA")); require(is(currency('D', 'N', 'B'), "", "DNB")); require(is(currency('D', 'N', 'C'), "", "DNC")); require(is(currency('D', 'N', 'D'), "", "DND")); require(is(currency('D', 'N', 'E'), "", "DNE")); require(is(currency('D', 'N', 'F'), "", "DNF")); require(is(currency('D', 'N', 'G'), "", "DNG")); require(is(currency('D', 'N', 'H'), "", "DNH")); require(is(currency('D', 'N', 'I'), "", "DNI")); require(is(currency('D', 'N', 'J'), "", "DNJ")); require(is(currency('D', 'N', 'K'), "", "DNK")); require(is(currency('D', 'N', 'L'), "", "DNL")); require(is(currency('D', 'N', 'M'), "", "DNM")); require(is(currency('D', 'N', 'N'), "", "DNN")); require(is(currency('D', 'N', 'O'), "", "DNO")); require(is(currency('D', 'N', 'P'), "", "DNP")); require(is(currency('D', 'N', 'Q'), "", "DNQ")); require(is(currency('D', 'N', 'R'), "", "DNR")); require(is(currency('D', 'N', 'S'), "", "DNS")); require(is(currency('D', 'N', 'T'), "", "DNT")); require(is(currency('D', 'N', 'U'), "", "DNU")); require(is(currency('D', 'N', 'V'), "", "DNV")); require(is(currency('D', 'N', 'W'), "", "DNW")); require(is(currency('D', 'N', 'X'), "", "DNX")); require(is(currency('D', 'N', 'Y'), "", "DNY")); require(is(currency('D', 'N', 'Z'), "", "DNZ"));)
OBLIGATION(no_currency_DO, "esl/economics/currencies.hpp: currency_name (codes without a currency from DO)", (), require(is(currency('D', 'O', 'A'), "", "DOA")); require(is(currency('D', 'O', 'B'), "", "DOB")); require(is(currency('D', 'O', 'C'), "", "DOC")); require(is(currency('D', 'O', 'D'), "", "DOD")); require(is(currency('D', 'O', 'E'), "", "DOE")); require(is(currency('D', 'O', 'F'), "", "DOF")); require(is(currency('D', 'O', 'G'), "", "DOG")); require(is(currency('D', 'O', 'H'), "", "DOH")); require(is(currency('D', 'O', 'I'), "", "DOI")); require(is(currency('D', 'O', 'J'), "", "DOJ")); require(is(currency('D', 'O', 'K'), "", "DOK")); require(is(currency('D', 'O', 'L'), "", "DOL")); require(is(currency('D', 'O', 'M'), "", "DOM")); require(is(currency('D', 'O', 'N'), "", "DON")); require(is(currency('D', 'O', 'O'), "", "DOO")); require(is(currency('D', 'O', 'Q'), "", "DOQ")); require(is(currency('D', 'O', 'R'), "", "DOR")); require(is(currency('D', 'O', 'S'), "", "DOS")); require(is(currency('D', 'O', 'T'), "", "DOT")); require(is(currency('D', 'O', 'U'), "", "DOU")); require(is(currency('D', 'O', 'V'), "", "DOV")); require(is(currency('D', 'O', 'W'), "", "DOW")); require(is(currency('D', 'O', 'X'), "", "DOX")); require(is(currency('D', 'O', 'Y'), "", "DOY")); require(is(currency('D', 'O', 'Z'), "", "DOZ"));)
OBLIGATION(no_currency_DP, "esl/economics/currencies.hpp: currency_name (codes without a currency from DP)", (), require(is(currency('D', 'P', 'A'), "", "DPA")); require(is(currency('D', 'P', 'B'), "", "DPB")); require(is(currency('D', 'P', 'C'), "", "DPC")); require(is(currency('D', 'P', 'D'), "", "DPD")); require(is(currency('D', 'P', 'E'), "", "DPE")); require(is(currency('D', 'P', 'F'), "", "DPF")); require(is(currency('D', 'P', 'G'), "", "DPG")); require(is(currency('D', 'P', 'H'), "", "DPH")); require(is(currency('D', 'P', 'I'), "", "DPI")); require(is(currency('D', 'P', 'J'), "", "DPJ")); require(is(currency('D', 'P', 'K'), "", "DPK")); require(is(currency('D', 'P', 'L'), "", "DPL")); require(is(currency('D', 'P', 'M'), "", "DPM")); require(is(currency('D', 'P', 'N'), "", "DPN")); require(is(currency('D', 'P', 'O'), "", "DPO")); require(is(currency('D', 'P', 'P'), "", "DPP")); require(is(currency('D', 'P', 'Q'), "", "DPQ")); require(is(currency('D', 'P', 'R'), "", "DPR")); require(is(currency('D', 'P', 'S'), "", "DPS")); require(is(currency('D', 'P', 'T'), "", "DPT")); require(is(currency('D', 'P', 'U'), "", "DPU")); require(is(currency('D', 'P', 'V'), "", "DPV")); require(is(currency('D', 'P', 'W'), "", "DPW")); require(is(currency('D', 'P', 'X'), "", "DPX")); require(is(currency('D', 'P', 'Y'), "", "DPY")); require(is(currency('D', 'P', 'Z'), "", "DPZ"));)
OBLIGATION(no_currency_DQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from DQ)", (), require(is(currency('D', 'Q', 'A'), "", "DQA")); require(is(currency('D', 'Q', 'B'), "", "DQB")); require(is(currency('D', 'Q', 'C'), "", "DQC")); require(is(currency('D', 'Q', 'D'), "", "DQD")); require(is(currency('D', 'Q', 'E'), "", "DQE")); require(is(currency('D', 'Q', 'F'), "", "DQF")); require(is(currency('D', 'Q', 'G'), "", "DQG")); require(is(currency('D', 'Q', 'H'), "", "DQH")); require(is(currency('D', 'Q', 'I'), "", "DQI")); require(is(currency('D', 'Q', 'J'), "", "DQJ")); require(is(currency('D', 'Q', 'K'), "", "DQK")); require(is(currency('D', 'Q', 'L'), "", "DQL")); require(is(currency('D', 'Q', 'M'), "", "DQM")); require(is(currency('D', 'Q', 'N'), "", "DQN")); require(is(currency('D', 'Q', 'O'), "", "DQO")); require(is(currency('D', 'Q', 'P'), "", "DQP")); require(is(currency('D', 'Q', 'Q'), "", "DQQ")); require(is(currency('D', 'Q', 'R'), "", "DQR")); require(is(currency('D', 'Q', 'S'), "", "DQS")); require(is(currency('D', 'Q', 'T'), "", "DQT")); require(is(currency('D', 'Q', 'U'), "", "DQU")); require(is(currency('D', 'Q', 'V'), "", "DQV")); require(is(currency('D', 'Q', 'W'), "", "DQW")); require(is(currency('D', 'Q', 'X'), "", "DQX")); require(is(currency('D', 'Q', 'Y'), "", "DQY")); require(is(currency('D', 'Q', 'Z'), "", "DQZ"));)
OBLIGATION(no_currency_DR, "esl/economics/currencies.hpp: currency_name (codes without a currency from DR)", (), require(is(currency('D', 'R', 'A'), "", "DRA")); require(is(currency('D', 'R', 'B'), "", "DRB")); require(is(currency('D', 'R', 'C'), "", "DRC")); require(is(currency('D', 'R', 'D'), "", "DRD")); require(is(currency('D', 'R', 'E'), "", "DRE")); require(is(currency('D', 'R', 'F'), "", "DRF")); require(is(currency('D', 'R', 'G'), "", "DRG")); require(is(currency('D', 'R', 'H'), "", "DRH")); require(is(currency('D', 'R', 'I'), "", "DRI")); require(is(currency('D', 'R', 'J'), "", "DRJ")); require(is(currency('D', 'R', 'K'), "", "DRK")); require(is(currency('D', 'R', 'L'), "", "DRL")); require(is(currency('D', 'R', 'M'), "", "DRM")); require(is(currency('D', 'R', 'N'), "", "DRN")); require(is(currency('D', 'R', 'O'), "", "DRO")); require(is(currency('D', 'R', 'P'), "", "DRP")); require(is(currency('D', 'R', 'Q'), "", "DRQ")); require(is(currency('D', 'R', 'R'), "", "DRR")); require(is(currency('D', 'R', 'S'), "", "DRS")); require(is(currency('D', 'R', 'T'), "", "DRT")); require(is(currency('D', 'R', 'U'), "", "DRU")); require(is(currency('D', 'R', 'V'), "", "DRV")); require(is(currency('D', 'R', 'W'), "", "DRW")); require(is(currency('D', 'R', 'X'), "", "DRX")); require(is(currency('D', 'R', 'Y'), "", "DRY")); require(is(currency('D', 'R', 'Z'), "", "DRZ"));)
OBLIGATION(no_currency_DS, "esl/economics/currencies.hpp: currency_name (codes without a currency from DS)", (), require(is(currency('D', 'S', 'A'), "", "DSA")); require(is(currency('D', 'S', 'B'), "", "DSB")); require(is(currency('D', 'S', 'C'), "", "DSC")); require(is(currency('D', 'S', 'D'), "", "DSD")); require(is(currency('D', 'S', 'E'), "", "DSE")); require(is(currency('D', 'S', 'F'), "", "DSF")); require(is(currency('D', 'S', 'G'), "", "DSG")); require(is(currency('D', 'S', 'H'), "", "DSH")); require(is(currency('D', 'S', 'I'), "", "DSI")); require(is(currency('D', 'S', 'J'), "", "DSJ")); require(is(currency('D', 'S', 'K'), "", "DSK")); require(is(currency('D', 'S', 'L'), "", "DSL")); require(is(currency('D', 'S', 'M'), "", "DSM")); require(is(currency('D', 'S', 'N'), "", "DSN")); require(is(currency('D', 'S', 'O'), "", "DSO")); require(is(currency('D', 'S', 'P'), "", "DSP")); require(is(currency('D', 'S', 'Q'), "", "DSQ")); require(is(currency('D', 'S', 'R'), "", "DSR")); require(is(currency('D', 'S', 'S'), "", "DSS")); require(is(currency('D', 'S', 'T'), "", "DST")); require(is(currency('D', 'S', 'U'), "", "DSU")); require(is(currency('D', 'S', 'V'), "", "DSV")); require(is(currency('D', 'S', 'W'), "", "DSW")); require(is(currency('D', 'S', 'X'), "", "DSX")); require(is(currency('D', 'S', 'Y'), "", "DSY")); require(is(currency('D', 'S', 'Z'), "", "DSZ"));)
OBLIGATION(no_currency_DT, "esl/economics/currencies.hpp: currency_name (codes without a currency from DT)", (), require(is(currency('D', 'T', 'A'), "", "DTA")); require(is(currency('D', 'T', 'B'), "", "DTB")); require(is(currency('D', 'T', 'C'), "", "DTC")); require(is(currency('D', 'T', 'D'), "", "DTD")); require(is(currency('D', 'T', 'E'), "", "DTE")); require(is(currency('D', 'T', 'F'), "", "DTF")); require(is(currency('D', 'T', 'G'), "", "DTG")); require(is(currency('D', 'T', 'H'), "", "DTH")); require(is(currency('D', 'T', 'I'), "", "DTI")); require(is(currency('D', 'T', 'J'), "", "DTJ")); require(is(currency('D', 'T', 'K'), "", "DTK")); require(is(currency('D', 'T', 'L'), "", "DTL")); require(is(currency('D', 'T', 'M'), "", "DTM")); require(is(currency('D', 'T', 'N'), "", "DTN")); require(is(currency('D', 'T', 'O'), "", "DTO")); require(is(currency('D', 'T', 'P'), "", "DTP")); require(is(currency('D', 'T', 'Q'), "", "DTQ")); require(is(currency('D', 'T', 'R'), "", "DTR")); require(is(currency('D', 'T', 'S'), "", "DTS")); require(is(currency('D', 'T', 'T'), "", "DTT")); require(is(currency('D', 'T', 'U'), "", "DTU")); require(is(currency('D', 'T', 'V'), "", "DTV")); require(is(currency('D', 'T', 'W'), "", "DTW")); require(is(currency('D', 'T', 'X'), "", "DTX")); require(is(currency('D', 'T', 'Y'), "", "DTY")); require(is(currency('D', 'T', 'Z'), "", "DTZ"));)
OBLIGATION(no_currency_DU, "esl/economics/currencies.hpp: currency_name (codes without a currency from DU)", (), require(is(currency('D', 'U', 'A'), "", "DUA")); require(is(currency('D', 'U', 'B'), "", "DUB")); require(is(currency('D', 'U', 'C'), "", "DUC")); require(is(currency('D', 'U', 'D'), "", "DUD")); require(is(currency('D', 'U', 'E'), "", "DUE")); require(is(currency('D', 'U', 'F'), "", "DUF")); require(is(currency('D', 'U', 'G'), "", "DUG")); require(is(currency('D', 'U', 'H'), "", "DUH")); require(is(currency('D', 'U', 'I'), "", "DUI")); require(is(currency('D', 'U', 'J'), "", "DUJ")); require(is(currency('D', 'U', 'K'), "", "DUK")); require(is(currency('D', 'U', 'L'), "", "DUL")); require(is(currency('D', 'U', 'M'), "", "DUM")); require(is(currency('D', 'U', 'N'), "", "DUN")); require(is(currency('D', 'U', 'O'), "", "DUO")); require(is(currency('D', 'U', 'P'), "", "DUP")); require(is(currency('D', 'U', 'Q'), "", "DUQ")); require(is(currency('D', 'U', 'R'), "", "DUR")); require(is(currency('D', 'U', 'S'), "", "DUS")); require(is(currency('D', 'U', 'T'), "", "DUT")); require(is(currency('D', 'U', 'U'), "", "DUU")); require(is(currency('D', 'U', 'V'), "", "DUV")); require(is(currency('D', 'U', 'W'), "", "DUW")); require(is(currency('D', 'U', 'X'), "", "DUX")); require(is(currency('D', 'U', 'Y'), "", "DUY")); require(is(currency('D', 'U', 'Z'), "", "DUZ"));)
OBLIGATION(no_currency_DV, "esl/economics/currencies.hpp: currency_name (codes without a currency from DV)", (), require(is(currency('D', 'V', 'A'), "", "DVA")); require(is(currency('D', 'V', 'B'), "", "DVB")); require(is(currency('D', 'V', 'C'), "", "DVC")); require(is(currency('D', 'V', 'D'), "", "DVD")); require(is(currency('D', 'V', 'E'), "", "DVE")); require(is(currency('D', 'V', 'F'), "", "DVF")); require(is(currency('D', 'V', 'G'), "", "DVG")); require(is(currency('D', 'V', 'H'), "", "DVH")); require(is(currency('D', 'V', 'I'), "", "DVI")); require(is(currency('D', 'V', 'J'), "", "DVJ")); require(is(currency('D', 'V', 'K'), "", "DVK")); require(is(currency('D', 'V', 'L'), "", "DVL")); require(is(currency('D', 'V', 'M'), "", "DVM")); require(is(currency('D', 'V', 'N'), "", "DVN")); require(is(currency('D', 'V', 'O'), "", "DVO")); require(is(currency('D', 'V', 'P'), "", "DVP")); require(is(currency('D', 'V', 'Q'), "", "DVQ")); require(is(currency('D', 'V', 'R'), "", "DVR")); require(is(currency('D', 'V', 'S'), "", "DVS")); require(is(currency('D', 'V', 'T'), "", "DVT")); require(is(currency('D', 'V', 'U'), "", "DVU")); require(is(currency('D', 'V', 'V'), "", "DVV")); require(is(currency('D', 'V', 'W'), "", "DVW")); require(is(currency('D', 'V', 'X'), "", "DVX")); require(is(currency('D', 'V', 'Y'), "", "DVY")); require(is(currency('D', 'V', 'Z'), "", "DVZ"));)
OBLIGATION(no_currency_DW, "esl/economics/currencies.hpp: currency_name (codes without a currency from DW)", (), require(is(currency('D', 'W', 'A'), "", "DWA")); require(is(currency('D', 'W', 'B'), "", "DWB")); require(is(currency('D', 'W', 'C'), "", "DWC")); require(is(currency('D', 'W', 'D'), "", "DWD")); require(is(currency('D', 'W', 'E'), "", "DWE")); require(is(currency('D', 'W', 'F'), "", "DWF")); require(is(currency('D', 'W', 'G'), "", "DWG")); require(is(currency('D', 'W', 'H'), "", "DWH")); require(is(currency('D', 'W', 'I'), "", "DWI")); require(is(currency('D', 'W', 'J'), "", "DWJ")); require(is(currency('D', 'W', 'K'), "", "DWK")); require(is(currency('D', 'W', 'L'), "", "DWL")); require(is(currency('D', 'W', 'M'), "", "DWM")); require(is(currency('D', 'W', 'N'), "", "DWN")); require(is(currency('D', 'W', 'O'), "", "DWO")); require(is(currency('D', 'W', 'P'), "", "DWP")); require(is(currency('D', 'W', 'Q'), "", "DWQ")); require(is(currency('D', 'W', 'R'), "", "DWR")); require(is(currency('D', 'W', 'S'), "", "DWS")); require(is(currency('D', 'W', 'T'), "", "DWT")); require(is(currency('D', 'W', 'U'), "", "DWU")); require(is(currency('D', 'W', 'V'), "", "DWV")); require(is(currency('D', 'W', 'W'), "", "DWW")); require(is(currency('D', 'W', 'X'), "", "DWX")); require(is(currency('D', 'W', 'Y'), "", "DWY")); require(is(currency('D', 'W', 'Z'), "", "DWZ"));)
OBLIGATION(no_currency_DX, "esl/economics/currencies.hpp: currency_name (codes without a currency from DX)", (), require(is(currency('D', 'X', 'A'), "", "DXA")); require(is(currency('D', 'X', 'B'), "", "DXB")); require(is(currency('D', 'X', 'C'), "", "DXC")); require(is(currency('D', 'X', 'D'), "", "DXD")); require(is(currency('D', 'X', 'E'), "", "DXE")); require(is(currency('D', 'X', 'F'), "", "DXF")); require(is(currency('D', 'X', 'G'), "", "DXG")); require(is(currency('D', 'X', 'H'), "", "DXH")); require(is(currency('D', 'X', 'I'), "", "DXI")); require(is(currency('D', 'X', 'J'), "", "DXJ")); require(is(currency('D', 'X', 'K'), "", "DXK")); require(is(currency('D', 'X', 'L'), "", "DXL")); require(is(currency('D', 'X', 'M'), "", "DXM")); require(is(currency('D', 'X', 'N'), "", "DXN")); require(is(currency('D', 'X', 'O'), "", "DXO")); require(is(currency('D', 'X', 'P'), "", "DXP")); require(is(currency('D', 'X', 'Q'), "", "DXQ")); require(is(currency('D', 'X', 'R'), "", "DXR")); require(is(currency('D', 'X', 'S'), "", "DXS")); require(is(currency('D', 'X', 'T'), "", "DXT")); require(is(currency('D', 'X', 'U'), "", "DXU")); require(is(currency('D', 'X', 'V'), "", "DXV")); require(is(currency('D', 'X', 'W'), "", "DXW")); require(is(currency('D', 'X', 'X'), "", "DXX")); require(is(currency('D', 'X', 'Y'), "", "DXY")); require(is(currency('D', 'X', 'Z'), "", "DXZ"));)
OBLIGATION(no_currency_DY, "esl/economics/currencies.hpp: currency_name (codes without a currency from DY)", (), require(is(currency('D', 'Y', 'A'), "", "DYA")); require(is(currency('D', 'Y', 'B'), "", "DYB")); require(is(currency('D', 'Y', 'C'), "", "DYC")); require(is(currency('D', 'Y', 'D'), "", "DYD")); require(is(currency('D', 'Y', 'E'), "", "DYE")); require(is(currency('D', 'Y', 'F'), "", "DYF")); require(is(currency('D', 'Y', 'G'), "", "DYG")); require(is(currency('D', 'Y', 'H'), "", "DYH")); require(is(currency('D', 'Y', 'I'), "", "DYI")); require(is(currency('D', 'Y', 'J'), "", "DYJ")); require(is(currency('D', 'Y', 'K'), "", "DYK")); require(is(currency('D', 'Y', 'L'), "", "DYL")); require(is(currency('D', 'Y', 'M'), "", "DYM")); require(is(currency('D', 'Y', 'N'), "", "DYN")); require(is(currency('D', 'Y', 'O'), "", "DYO")); require(is(currency('D', 'Y', 'P'), "", "DYP")); require(is(currency('D', 'Y', 'Q'), "", "DYQ")); require(is(currency('D', 'Y', 'R'), "", "DYR")); require(is(currency('D', 'Y', 'S'), "", "DYS")); require(is(currency('D', 'Y', 'T'), "", "DYT")); require(is(currency('D', 'Y', 'U'), "", "DYU")); require(is(currency('D', 'Y', 'V'), "", "DYV")); require(is(currency('D', 'Y', 'W'), "", "DYW")); require(is(currency('D', 'Y', 'X'), "", "DYX")); require(is(currency('D', 'Y', 'Y'), "", "DYY")); require(is(currency('D', 'Y', 'Z'), "", "DYZ"));)
OBLIGATION(no_currency_DZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from DZ)", (), require(is(currency('D', 'Z', 'A'), "", "DZA")); require(is(currency('D', 'Z', 'B'), "", "DZB")); require(is(currency('D', 'Z', 'C'), "", "DZC")); require(is(currency('D', 'Z', 'E'), "", "DZE")); require(is(currency('D', 'Z', 'F'), "", "DZF")); require(is(currency('D', 'Z', 'G'), "", "DZG")); require(is(currency('D', 'Z', 'H'), "", "DZH")); require(is(currency('D', 'Z', 'I'), "", "DZI")); require(is(currency('D', 'Z', 'J'), "", "DZJ")); require(is(currency('D', 'Z', 'K'), "", "DZK")); require(is(currency('D', 'Z', 'L'), "", "DZL")); require(is(currency('D', 'Z', 'M'), "", "DZM")); require(is(currency('D', 'Z', 'N'), "", "DZN")); require(is(currency('D', 'Z', 'O'), "", "DZO")); require(is(currency('D', 'Z', 'P'), "", "DZP")); require(is(currency('D', 'Z', 'Q'), "", "DZQ")); require(is(currency('D', 'Z', 'R'), "", "DZR")); require(is(currency('D', 'Z', 'S'), "", "DZS")); require(is(currency('D', 'Z', 'T'), "", "DZT")); require(is(currency('D', 'Z', 'U'), "", "DZU")); require(is(currency('D', 'Z', 'V'), "", "DZV")); require(is(currency('D', 'Z', 'W'), "", "DZW")); require(is(currency('D', 'Z', 'X'), "", "DZX")); require(is(currency('D', 'Z', 'Y'), "", "DZY")); require(is(currency('D', 'Z', 'Z'), "", "DZZ"));)
OBLIGATION(no_currency_EA, "esl/economics/currencies.hpp: currency_name (codes without a currency from EA)", (), require(is(currency('E', 'A', 'A'), "", "EAA")); require(is(currency('E', 'A', 'B'), "", "EAB")); require(is(currency('E', 'A', 'C'), "", "EAC")); require(is(currency('E', 'A', 'D'), "", "EAD")); require(is(currency('E', 'A', 'E'), "", "EAE")); require(is(currency('E', 'A', 'F'), "", "EAF")); require(is(currency('E', 'A', 'G'), "", "EAG")); require(is(currency('E', 'A', 'H'), "", "EAH")); require(is(currency('E', 'A', 'I'), "", "EAI")); require(is(currency('E', 'A', 'J'), "", "EAJ")); require(is(currency('E', 'A', 'K'), "", "EAK")); require(is(currency('E', 'A', 'L'), "", "EAL")); require(is(currency('E', 'A', 'M'), "", "EAM")); require(is(currency('E', 'A', 'N'), "", "EAN")); require(is(currency('E', 'A', 'O'), "", "EAO")); require(is(currency('E', 'A', 'P'), "", "EAP")); require(is(currency('E', 'A', 'Q'), "", "EAQ")); require(is(currency('E', 'A', 'R'), "", "EAR")); require(is(currency('E', 'A', 'S'), "", "EAS")); require(is(currency('E', 'A', 'T'), "", "EAT")); require(is(currency('E', 'A', 'U'), "", "EAU")); require(is(currency('E', 'A', 'V'), "", "EAV")); require(is(currency('E', 'A', 'W'), "", "EAW")); require(is(currency('E', 'A', 'X'), "", "EAX")); require(is(currency('E', 'A', 'Y'), "", "EAY")); require(is(currency('E', 'A', 'Z'), "", "EAZ"));)
OBLIGATION(no_currency_EB, "esl/economics/currencies.hpp: currency_name (codes without a currency from EB)", (), require(is(currency('E', 'B', 'A'), "", "EBA")); require(is(currency('E', 'B', 'B'), "", "EBB")); require(is(currency('E', 'B', 'C'), "", "EBC")); require(is(currency('E', 'B', 'D'), "", "EBD")); require(is(currency('E', 'B', 'E'), "", "EBE")); require(is(currency('E', 'B', 'F'), "", "EBF")); require(is(currency('E', 'B', 'G'), "", "EBG")); require(is(currency('E', 'B', 'H'), "", "EBH")); require(is(currency('E', 'B', 'I'), "", "EBI")); require(is(currency('E', 'B', 'J'), "", "EBJ")); require(is(currency('E', 'B', 'K'), "", "EBK")); require(is(currency('E', 'B', 'L'), "", "EBL")); require(is(currency('E', 'B', 'M'), "", "EBM")); require(is(currency('E', 'B', 'N'), "", "EBN")); require(is(currency('E', 'B', 'O'), "", "EBO")); require(is(currency('E', 'B', 'P'), "", "EBP")); require(is(currency('E', 'B', 'Q'), "", "EBQ")); require(is(currency('E', 'B', 'R'), "", "EBR")); require(is(currency('E', 'B', 'S'), "", "EBS")); require(is(currency('E', 'B', 'T'), "", "EBT")); require(is(currency('E', 'B', 'U'), "", "EBU")); require(is(currency('E', 'B', 'V'), "", "EBV")); require(is(currency('E', 'B', 'W'), "", "EBW")); require(is(currency('E', 'B', 'X'), "", "EBX")); require(is(currency('E', 'B', 'Y'), "", "EBY")); require(is(currency('E', 'B', 'Z'), "", "EBZ"));)
OBLIGATION(no_currency_EC, "esl/economics/currencies.hpp: currency_name (codes without a currency from EC)", (), require(is(currency('E', 'C', 'A'), "", "ECA")); require(is(currency('E', 'C', 'B'), "", "ECB")); require(is(currency('E', 'C', 'C'), "", "ECC")); require(is(currency('E', 'C', 'D'), "", "ECD")); require(is(currency('E', 'C', 'E'), "", "ECE")); require(is(currency('E', 'C', 'F'), "", "ECF")); require(is(currency('E', 'C', 'G'), "", "ECG")); require(is(currency('E', 'C', 'H'), "", "ECH")); require(is(currency('E', 'C', 'I'), "", "ECI")); require(is(currency('E', 'C', 'J'), "", "ECJ")); require(is(currency('E', 'C', 'K'), "", "ECK")); require(is(currency('E', 'C', 'L'), "", "ECL")); require(is(currency('E', 'C', 'M'), "", "ECM")); require(is(currency('E', 'C', 'N'), "", "ECN")); require(is(currency('E', 'C', 'O'), "", "ECO")); require(is(currency('E', 'C', 'P'), "", "ECP")); require(is(currency('E', 'C', 'Q'), "", "ECQ")); require(is(currency('E', 'C', 'R'), "", "ECR")); require(is(currency('E', 'C', 'S'), "", "ECS")); require(is(currency('E', 'C', 'T'), "", "ECT")); require(is(currency('E', 'C', 'U'), "", "ECU")); require(is(currency('E', 'C', 'V'), "", "ECV")); require(is(currency('E', 'C', 'W'), "", "ECW")); require(is(currency('E', 'C', 'X'), "", "ECX")); require(is(currency('E', 'C', 'Y'), "", "ECY")); require(is(currency('E', 'C', 'Z'), "", "ECZ"));)
OBLIGATION(no_currency_ED, "esl/economics/currencies.hpp: currency_name (codes without a currency from ED)", (), require(is(currency('E', 'D', 'A'), "", "EDA")); require(is(currency('E', 'D', 'B'), "", "EDB")); require(is(currency('E', 'D', 'C'), "", "EDC")); require(is(currency('E', 'D', 'D'), "", "EDD")); require(is(currency('E', 'D', 'E'), "", "EDE")); require(is(currency('E', 'D', 'F'), "", "EDF")); require(is(currency('E', 'D', 'G'), "", "EDG")); require(is(currency('E', 'D', 'H'), "", "EDH")); require(is(currency('E', 'D', 'I'), "", "EDI")); require(is(currency('E', 'D', 'J'), "", "EDJ")); require(is(currency('E', 'D', 'K'), "", "EDK")); require(is(currency('E', 'D', 'L'), "", "EDL")); require(is(currency('E', 'D', 'M'), "", "EDM")); require(is(currency('E', 'D', 'N'), "", "EDN")); require(is(currency('E', 'D', 'O'), "", "EDO")); require(is(currency('E', 'D', 'P'), "", "EDP")); require(is(currency('E', 'D', 'Q'), "", "EDQ")); require(is(currency('E', 'D', 'R'), "", "EDR")); require(is(currency('E', 'D', 'S'), "", "EDS")); require(is(currency('E', 'D', 'T'), "", "EDT")); require(is(currency('E', 'D', 'U'), "", "EDU")); require(is(currency('E', 'D', 'V'), "", "EDV")); require(is(currency('E', 'D', 'W'), "", "EDW")); require(is(currency('E', 'D', 'X'), "", "EDX")); require(is(currency('E', 'D', 'Y'), "", "EDY")); require(is(currency('E', 'D', 'Z'), "", "EDZ"));)
OBLIGATION(no_currency_EE, "esl/economics/currencies.hpp: currency_name (codes without a currency from EE)", (), require(is(currency('E', 'E', 'A'), "", "EEA")); require(is(currency('E', 'E', 'B'), "", "EEB")); require(is(currency('E', 'E', 'C'), "", "EEC")); require(is(currency('E', 'E', 'D'), "", "EED")); require(is(currency('E', 'E', 'E'), "", "EEE")); require(is(currency('E', 'E', 'F'), "", "EEF")); require(is(currency('E', 'E', 'G'), "", "EEG")); require(is(currency('E', 'E', 'H'), "", "EEH")); require(is(currency('E', 'E', 'I'), "", "EEI")); require(is(currency('E', 'E', 'J'), "", "EEJ")); require(is(currency('E', 'E', 'K'), "", "EEK")); require(is(currency('E', 'E', 'L'), "", "EEL")); require(is(currency('E', 'E', 'M'), "", "EEM")); require(is(currency('E', 'E', 'N'), "", "EEN")); require(is(currency('E', 'E', 'O'), "", "EEO")); require(is(currency('E', 'E', 'P'), "", "EEP")); require(is(currency('E', 'E', 'Q'), "", "EEQ")); require(is(currency('E', 'E', 'R'), "", "EER")); require(is(currency('E', 'E', 'S'), "", "EES")); require(is(currency('E', 'E', 'T'), "", "EET")); require(is(currency('E', 'E', 'U'), "", "EEU")); require(is(currency('E', 'E', 'V'), "", "EEV")); require(is(currency('E', 'E', 'W'), "", "EEW")); require(is(currency('E', 'E', 'X'), "", "EEX")); require(is(currency('E', 'E', 'Y'), "", "EEY")); require(is(currency('E', 'E', 'Z'), "", "EEZ"));)
OBLIGATION(no_currency_EF, "esl/economics/currencies.hpp: currency_name (codes without a currency from EF)", (), require(is(currency('E', 'F', 'A'), "", "EFA")); require(is(currency('E', 'F', 'B'), "", "EFB")); require(is(currency('E', 'F', 'C'), "", "EFC")); require(is(currency('E', 'F', 'D'), "", "EFD")); require(is(currency('E', 'F', 'E'), "", "EFE")); require(is(currency('E', 'F', 'F'), "", "EFF")); require(is(currency('E', 'F', 'G'), "", "EFG")); require(is(currency('E', 'F', 'H'), "", "EFH")); require(is(currency('E', 'F', 'I'), "", "EFI")); require(is(currency('E', 'F', 'J'), "", "EFJ")); require(is(currency('E', 'F', 'K'), "", "EFK")); require(is(currency('E', 'F', 'L'), "", "EFL")); require(is(currency('E', 'F', 'M'), "", "EFM")); require(is(currency('E', 'F', 'N'), "", "EFN")); require(is(currency('E', 'F', 'O'), "", "EFO")); require(is(currency('E', 'F', 'P'), "", "EFP")); require(is(currency('E', 'F', 'Q'), "", "EFQ")); require(is(currency('E', 'F', 'R'), "", "EFR")); require(is(currency('E', 'F', 'S'), "", "EFS")); require(is(currency('E', 'F', 'T'), "", "EFT")); require(is(currency('E', 'F', 'U'), "", "EFU")); require(is(currency('E', 'F', 'V'), "", "EFV")); require(is(currency('E', 'F', 'W'), "", "EFW")); require(is(currency('E', 'F', 'X'), "", "EFX")); require(is(currency('E', 'F', 'Y'), "", "EFY")); require(is(currency('E', 'F', 'Z'), "", "EFZ"));)
OBLIGATION(no_currency_EG, "esl/economics/currencies.hpp: currency_name (codes without a currency from EG)", (), require(is(currency('E', 'G', 'A'), "", "EGA")); require(is(currency('E', 'G', 'B'), "", "EGB")); require(is(currency('E', 'G', 'C'), "", "EGC")); require(is(currency('E', 'G', 'D'), "", "EGD")); require(is(currency('E', 'G', 'E'), "", "EGE")); require(is(currency('E', 'G', 'F'), "", "EGF")); require(is(currency('E', 'G', 'G'), "", "EGG")); require(is(currency('E', 'G', 'H'), "", "EGH")); require(is(currency('E', 'G', 'I'), "", "EGI")); require(is(currency('E', 'G', 'J'), "", "EGJ")); require(is(currency('E', 'G', 'K'), "", "EGK")); require(is(currency('E', 'G', 'L'), "", "EGL")); require(is(currency('E', 'G', 'M'), "", "EGM")); require(is(currency('E', 'G', 'N'), "", "EGN")); require(is(currency('E', 'G', 'O'), "", "EGO")); require(is(currency('E', 'G', 'Q'), "", "EGQ")); require(is(currency('E', 'G', 'R'), "", "EGR")); require(is(currency('E', 'G', 'S'), "", "EGS")); require(is(currency('E', 'G', 'T'), "", "EGT")); require(is(currency('E', 'G', 'U'), "", "EGU")); require(is(currency('E', 'G', 'V'), "", "EGV")); require(is(currency('E', 'G', 'W'), "", "EGW")); require(is(currency('E', 'G', 'X'), "", "EGX")); require(is(currency('E', 'G', 'Y'), "", "EGY")); require(is(currency('E', 'G', 'Z'), "", "EGZ"));)
OBLIGATION(no_currency_EH, "esl/economics/currencies.hpp: currency_name (codes without a currency from EH)", (), require(is(currency('E', 'H', 'A'), "", "EHA")); require(is(currency('E', 'H', 'B'), "", "EHB")); require(is(currency('E', 'H', 'C'), "", "EHC")); require(is(currency('E', 'H', 'D'), "", "EHD")); require(is(currency('E', 'H', 'E'), "", "EHE")); require(is(currency('E', 'H', 'F'), "", "EHF")); require(is(currency('E', 'H', 'G'), "", "EHG")); require(is(currency('E', 'H', 'H'), "", "EHH")); require(is(currency('E', 'H', 'I'), "", "EHI")); require(is(currency('E', 'H', 'J'), "", "EHJ")); require(is(currency('E', 'H', 'K'), "", "EHK")); require(is(currency('E', 'H', 'L'), "", "EHL")); require(is(currency('E', 'H', 'M'), "", "EHM")); require(is(currency('E', 'H', 'N'), "", "EHN")); require(is(currency('E', 'H', 'O'), "", "EHO")); require(is(currency('E', 'H', 'P'), "", "EHP")); require(is(currency('E', 'H', 'Q'), "", "EHQ")); require(is(currency('E', 'H', 'R'), "", "EHR")); require(is(currency('E', 'H', 'S'), "", "EHS")); require(is(currency('E', 'H', 'T'), "", "EHT")); require(is(currency('E', 'H', 'U'), "", "EHU")); require(is(currency('E', 'H', 'V'), "", "EHV")); require(is(currency('E', 'H', 'W'), "", "EHW")); require(is(currency('E', 'H', 'X'), "", "EHX")); require(is(currency('E', 'H', 'Y'), "", "EHY")); require(is(currency('E', 'H', 'Z'), "", "EHZ"));)
OBLIGATION(no_currency_EI, "esl/economics/currencies.hpp: currency_name (codes without a currency from EI)", (), require(is(currency('E', 'I', 'A'), "", "EIA")); require(is(currency('E', 'I', 'B'), "", "EIB")); require(is(currency('E', 'I', 'C'), "", "EIC")); require(is(currency('E', 'I', 'D'), "", "EID")); require(is(currency('E', 'I', 'E'), "", "EIE")); require(is(currency('E', 'I', 'F'), "", "EIF")); require(is(currency('E', 'I', 'G'), "", "EIG")); require(is(currency('E', 'I', 'H'), "", "EIH")); require(is(currency('E', 'I', 'I'), "", "EII")); require(is(currency('E', 'I', 'J'), "", "EIJ")); require(is(currency('E', 'I', 'K'), "", "EIK")); require(is(currency('E', 'I', 'L'), "", "EIL")); require(is(currency('E', 'I', 'M'), "", "EIM")); require(is(currency('E', 'I', 'N'), "", "EIN")); require(is(currency('E', 'I', 'O'), "", "EIO")); require(is(currency('E', 'I', 'P'), "", "EIP")); require(is(currency('E', 'I', 'Q'), "", "EIQ")); require(is(currency('E', 'I', 'R'), "", "EIR")); require(is(currency('E', 'I', 'S'), "", "EIS")); require(is(currency('E', 'I', 'T'), "", "EIT")); require(is(currency('E', 'I', 'U'), "", "EIU")); require(is(currency('E', 'I', 'V'), "", "EIV")); require(is(currency('E', 'I', 'W'), "", "EIW")); require(is(currency('E', 'I', 'X'), "", "EIX")); require(is(currency('E', 'I', 'Y'), "", "EIY")); require(is(currency('E', 'I', 'Z'), "", "EIZ"));)
OBLIGATION(no_currency_EJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from EJ)", (), require(is(currency('E', 'J', 'A'), "", "EJA")); require(is(currency('E', 'J', 'B'), "", "EJB")); require(is(currency('E', 'J', 'C'), "", "EJC")); require(is(currency('E', 'J', 'D'), "", "EJD")); require(is(currency('E', 'J', 'E'), "", "EJE")); require(is(currency('E', 'J', 'F'), "", "EJF")); require(is(currency('E', 'J', 'G'), "", "EJG")); require(is(currency('E', 'J', 'H'), "", "EJH")); require(is(currency('E', 'J', 'I'), "", "EJI")); require(is(currency('E', 'J', 'J'), "", "EJJ")); require(is(currency('E', 'J', 'K'), "", "EJK")); require(is(currency('E', 'J', 'L'), "", "EJL")); require(is(currency('E', 'J', 'M'), "", "EJM")); require(is(currency('E', 'J', 'N'), "", "EJN")); require(is(currency('E', 'J', 'O'), "", "EJO")); require(is(currency('E', 'J', 'P'), "", "EJP")); require(is(currency('E', 'J', 'Q'), "", "EJQ")); require(is(currency('E', 'J', 'R'), "", "EJR")); require(is(currency('E', 'J', 'S'), "", "EJS")); require(is(currency('E', 'J', 'T'), "", "EJT")); require(is(currency('E', 'J', 'U'), "", "EJU")); require(is(currency('E', 'J', 'V'), "", "EJV")); require(is(currency('E', 'J', 'W'), "", "EJW")); require(is(currency('E', 'J', 'X'), "", "EJX")); require(is(currency('E', 'J', 'Y'), "", "EJY")); require(is(currency('E', 'J', 'Z'), "", "EJZ"));)
OBLIGATION(no_currency_EK, "esl/economics/currencies.hpp: currency_name (codes without a currency from EK)", (), require(is(currency('E', 'K', 'A'), "", "EKA")); require(is(currency('E', 'K', 'B'), "", "EKB")); require(is(currency('E', 'K', 'C'), "", "EKC")); require(is(currency('E', 'K', 'D'), "", "EKD")); require(is(currency('E', 'K', 'E'), "", "EKE")); require(is(currency('E', 'K', 'F'), "", "EKF")); require(is(currency('E', 'K', 'G'), "", "EKG")); require(is(currency('E', 'K', 'H'), "", "EKH")); require(is(currency('E', 'K', 'I'), "", "EKI")); require(is(currency('E', 'K', 'J'), "", "EKJ")); require(is(currency('E', 'K', 'K'), "", "EKK")); require(is(currency('E', 'K', 'L'), "", "EKL")); require(is(currency('E', 'K', 'M'), "", "EKM")); require(is(currency('E', 'K', 'N'), "", "EKN")); require(is(currency('E', 'K', 'O'), "", "EKO")); require(is(currency('E', 'K', 'P'), "", "EKP")); require(is(currency('E', 'K', 'Q'), "", "EKQ")); require(is(currency('E', 'K', 'R'), "", "EKR")); require(is(currency('E', 'K', 'S'), "", "EKS")); require(is(currency('E', 'K', 'T'), "", "EKT")); require(is(currency('E', 'K', 'U'), "", "EKU")); require(is(currency('E', 'K', 'V'), "", "EKV")); require(is(currency('E', 'K', 'W'), "", "EKW")); require(is(currency('E', 'K', 'X'), "", "EKX")); require(is(currency('E', 'K', 'Y'), "", "EKY")); require(is(currency('E', 'K', 'Z'), "", "EKZ"));)
OBLIGATION(no_currency_EL, "esl/economics/currencies.hpp: currency_name (codes without a currency from EL)", (), require(is(currency('E', 'L', 'A'), "", "ELA")); require(is(currency('E', 'L', 'B'), "", "ELB")); require(is(currency('E', 'L', 'C'), "", "ELC")); require(is(currency('E', 'L', 'D'), "", "ELD")); require(is(currency('E', 'L', 'E'), "", "ELE")); require(is(currency('E', 'L', 'F'), "", "ELF")); require(is(currency('E', 'L', 'G'), "", "ELG")); require(is(currency('E', 'L', 'H'), "", "ELH")); require(is(currency('E', 'L', 'I'), "", "ELI")); require(is(currency('E', 'L', 'J'), "", "ELJ")); require(is(currency('E', 'L', 'K'), "", "ELK")); require(is(currency('E', 'L', 'L'), "", "ELL")); require(is(currency('E', 'L', 'M'), "", "ELM")); require(is(currency('E', 'L', 'N'), "", "ELN")); require(is(currency('E', 'L', 'O'), "", "ELO")); require(is(currency('E', 'L', 'P'), "", "ELP")); require(is(currency('E', 'L', 'Q'), "", "ELQ")); require(is(currency('E', 'L', 'R'), "", "ELR")); require(is(currency('E', 'L', 'S'), "", "ELS")); require(is(currency('E', 'L', 'T'), "", "ELT")); require(is(currency('E', 'L', 'U'), "", "ELU")); require(is(currency('E', 'L', 'V'), "", "ELV")); require(is(currency('E', 'L', 'W'), "", "ELW")); require(is(currency('E', 'L', 'X'), "", "ELX")); require(is(currency('E', 'L', 'Y'), "", "ELY")); require(is(currency('E', 'L', 'Z'), "", "ELZ"));)
OBLIGATION(no_currency_EM, "esl/economics/currencies.hpp: currency_name (codes without a currency from EM)", (), require(is(currency('E', 'M', 'A'), "", "EMA")); require(is(currency('E', 'M', 'B'), "", "EMB")); require(is(currency('E', 'M', 'C'), "", "EMC")); require(is(currency('E', 'M', 'D'), "", "EMD")); require(is(currency('E', 'M', 'E'), "", "EME")); require(is(currency('E', 'M', 'F'), "", "EMF")); require(is(currency('E', 'M', 'G'), "", "EMG")); require(is(currency('E', 'M', 'H'), "", "EMH")); require(is(currency('E', 'M', 'I'), "", "EMI")); require(is(currency('E', 'M', 'J'), "", "EMJ")); require(is(currency('E', 'M', 'K'), "", "EMK")); require(is(currency('E', 'M', 'L'), "", "EML")); require(is(currency('E', 'M', 'M'), "", "EMM")); require(is(currency('E', 'M', 'N'), "", "EMN")); require(is(currency('E', 'M', 'O'), "", "EMO")); require(is(currency('E', 'M', 'P'), "", "EMP")); require(is(currency('E', 'M', 'Q'), "", "EMQ")); require(is(currency('E', 'M', 'R'), "", "EMR")); require(is(currency('E', 'M', 'S'), "", "EMS")); require(is(currency('E', 'M', 'T'), "", "EMT")); require(is(currency('E', 'M', 'U'), "", "EMU")); require(is(currency('E', 'M', 'V'), "", "EMV")); require(is(currency('E', 'M', 'W'), "", "EMW")); require(is(currency('E', 'M', 'X'), "", "EMX")); require(is(currency('E', 'M', 'Y'), "", "EMY")); require(is(currency('E', 'M', 'Z'), "", "EMZ"));)
OBLIGATION(no_currency_EN, "esl/economics/currencies.hpp: currency_name (codes without a currency from EN)", (), require(is(currency('E', 'N', 'A'), "", "ENA")); require(is(currency('E', 'N', 'B'), "", "ENB")); require(is(currency('E', 'N', 'C'), "", "ENC")); require(is(currency('E', 'N', 'D'), "", "END")); require(is(currency('E', 'N', 'E'), "", "ENE")); require(is(currency('E', 'N', 'F'), "", "ENF")); require(is(currency('E', 'N', 'G'), "", "ENG")); require(is(currency('E', 'N', 'H'), "", "ENH")); require(is(currency('E', 'N', 'I'), "", "ENI")); require(is(currency('E', 'N', 'J'), "", "ENJ")); require(is(currency('E', 'N', 'K'), "", "ENK")); require(is(currency('E', 'N', 'L'), "", "ENL")); require(is(currency('E', 'N', 'M'), "", "ENM")); require(is(currency('E', 'N', 'N'), "", "ENN")); require(is(currency('E', 'N', 'O'), "", "ENO")); require(is(currency('E', 'N', 'P'), "", "ENP")); require(is(currency('E', 'N', 'Q'), "", "ENQ")); require(is(currency('E', 'N', 'R'), "", "ENR")); require(is(currency('E', 'N', 'S'), "", "ENS")); require(is(currency('E', 'N', 'T'), "", "ENT")); require(is(currency('E', 'N', 'U'), "", "ENU")); require(is(currency('E', 'N', 'V'), "", "ENV")); require(is(currency('E', 'N', 'W'), "", "ENW")); require(is(currency('E', 'N', 'X'), "", "ENX")); require(is(currency('E', 'N', 'Y'), "", "ENY")); require(is(currency('E', 'N', 'Z'), "", "ENZ"));)
OBLIGATION(no_currency_EO, "esl/economics/currencies.hpp: currency_name (codes without a currency from EO)", (), require(is(currency('E', 'O', 'A'), "", "EOA")); require(is(currency('E', 'O', 'B'), "", "EOB")); require(is(currency('E', 'O', 'C'), "", "EOC")); require(is(currency('E', 'O', 'D'), "", "EOD")); require(is(currency('E', 'O', 'E'), "", "EOE")); require(is(currency('E', 'O', 'F'), "", "EOF")); require(is(currency('E', 'O', 'G'), "", "EOG")); require(is(currency('E', 'O', 'H'), "", "EOH")); require(is(currency('E', 'O', 'I'), "", "EOI")); require(is(currency('E', 'O', 'J'), "", "EOJ")); require(is(currency('E', 'O', 'K'), "", "EOK")); require(is(currency('E', 'O', 'L'), "", "EOL")); require(is(currency('E', 'O', 'M'), "", "EOM")); require(is(currency('E', 'O', 'N'), "", "EON")); require(is(currency('E', 'O', 'O'), "", "EOO")); require(is(currency('E', 'O', 'P'), "", "EOP")); require(is(currency('E', 'O', 'Q'), "", "EOQ")); require(is(currency('E', 'O', 'R'), "", "EOR")); require(is(currency('E', 'O', 'S'), "", "EOS")); require(is(currency('E', 'O', 'T'), "", "EOT")); require(is(currency('E', 'O', 'U'), "", "EOU")); require(is(currency('E', 'O', 'V'), "", "EOV")); require(is(currency('E', 'O', 'W'), "", "EOW")); require(is(currency('E', 'O', 'X'), "", "EOX")); require(is(currency('E', 'O', 'Y'), "", "EOY")); require(is(currency('E', 'O', 'Z'), "", "EOZ"));)
OBLIGATION(no_currency_EP, "esl/economics/currencies.hpp: currency_name (codes without a currency from EP)", (), require(is(currency('E', 'P', 'A'), "", "EPA")); require(is(currency('E', 'P', 'B'), "", "EPB")); require(is(currency('E', 'P', 'C'), "", "EPC")); require(is(currency('E', 'P', 'D'), "", "EPD")); require(is(currency('E', 'P', 'E'), "", "EPE")); require(is(currency('E', 'P', 'F'), "", "EPF")); require(is(currency('E', 'P', 'G'), "", "EPG")); require(is(currency('E', 'P', 'H'), "", "EPH")); require(is(currency('E', 'P', 'I'), "", "EPI")); require(is(currency('E', 'P', 'J'), "", "EPJ")); require(is(currency('E', 'P', 'K'), "", "EPK")); require(is(currency('E', 'P', 'L'), "", "EPL")); require(is(currency('E', 'P', 'M'), "", "EPM")); require(is(currency('E', 'P', 'N'), "", "EPN")); require(is(currency('E', 'P', 'O'), "", "EPO")); require(is(currency('E', 'P', 'P'), "", "EPP")); require(is(currency('E', 'P', 'Q'), "", "EPQ")); require(is(currency('E', 'P', 'R'), "", "EPR")); require(is(currency('E', 'P', 'S'), "", "EPS")); require(is(currency('E', 'P', 'T'), "", "EPT")); require(is(currency('E', 'P', 'U'), "", "EPU")); require(is(currency('E', 'P', 'V'), "", "EPV")); require(is(currency('E', 'P', 'W'), "", "EPW")); require(is(currency('E', 'P', 'X'), "", "EPX")); require(is(currency('E', 'P', 'Y'), "", "EPY")); require(is(currency('E', 'P', 'Z'), "", "EPZ"));)
OBLIGATION(no_currency_EQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from EQ)", (), require(is(currency('E', 'Q', 'A'), "", "EQA")); require(is(currency('E', 'Q', 'B'), "", "EQB")); require(is(currency('E', 'Q', 'C'), "", "EQC")); require(is(currency('E', 'Q', 'D'), "", "EQD")); require(is(currency('E', 'Q', 'E'), "", "EQE")); require(is(currency('E', 'Q', 'F'), "", "EQF")); require(is(currency('E', 'Q', 'G'), "", "EQG")); require(is(currency('E', 'Q', 'H'), "", "EQH")); require(is(currency('E', 'Q', 'I'), "", "EQI")); require(is(currency('E', 'Q', 'J'), "", "EQJ")); require(is(currency('E', 'Q', 'K'), "", "EQK")); require(is(currency('E', 'Q', 'L'), "", "EQL")); require(is(currency('E', 'Q', 'M'), "", "EQM")); require(is(currency('E', 'Q', 'N'), "", "EQN")); require(is(currency('E', 'Q', 'O'), "", "EQO")); require(is(currency('E', 'Q', 'P'), "", "EQP")); require(is(currency('E', 'Q', 'Q'), "", "EQQ")); require(is(currency('E', 'Q', 'R'), "", "EQR")); require(is(currency('E', 'Q', 'S'), "", "EQS")); require(is(currency('E', 'Q', 'T'), "", "EQT")); require(is(currency('E', 'Q', 'U'), "", "EQU")); require(is(currency('E', 'Q', 'V'), "", "EQV")); require(is(currency('E', 'Q', 'W'), "", "EQW")); require(is(currency('E', 'Q', 'X'), "", "EQX")); require(is(currency('E', 'Q', 'Y'), "", "EQY")); require(is(currency('E', 'Q', 'Z'), "", "EQZ"));)
OBLIGATION(no_currency_ER, "esl/economics/currencies.hpp: currency_name (codes without a currency from ER)", (), require(is(currency('E', 'R', 'A'), "", "ERA")); require(is(currency('E', 'R', 'B'), "", "ERB")); require(is(currency('E', 'R', 'C'), "", "ERC")); require(is(currency('E', 'R', 'D'), "", "ERD")); require(is(currency('E', 'R', 'E'), "", "ERE")); require(is(currency('E', 'R', 'F'), "", "ERF")); require(is(currency('E', 'R', 'G'), "", "ERG")); require(is(currency('E', 'R', 'H'), "", "ERH")); require(is(currency('E', 'R', 'I'), "", "ERI")); require(is(currency('E', 'R', 'J'), "", "ERJ")); require(is(currency('E', 'R', 'K'), "", "ERK")); require(is(currency('E', 'R', 'L'), "", "ERL")); require(is(currency('E', 'R', 'M'), "", "ERM")); require(is(currency('E', 'R', 'O'), "", "ERO")); require(is(currency('E', 'R', 'P'), "", "ERP")); require(is(currency('E', 'R', 'Q'), "", "ERQ")); require(is(currency('E', 'R', 'R'), "", "ERR")); require(is(currency('E', 'R', 'S'), "", "ERS")); require(is(currency('E', 'R', 'T'), "", "ERT")); require(is(currency('E', 'R', 'U'), "", "ERU")); require(is(currency('E', 'R', 'V'), "", "ERV")); require(is(currency('E', 'R', 'W'), "", "ERW")); require(is(currency('E', 'R', 'X'), "", "ERX")); require(is(currency('E', 'R', 'Y'), "", "ERY")); require(is(currency('E', 'R', 'Z'), "", "ERZ"));)
OBLIGATION(no_currency_ES, "esl/economics/currencies.hpp: currency_name (codes without a currency from ES)", (), require(is(currency('E', 'S', 'A'), "", "ESA")); require(is(currency('E', 'S', 'B'), "", "ESB")); require(is(currency('E', 'S', 'C'), "", "ESC")); require(is(currency('E', 'S', 'D'), "", "ESD")); require(is(currency('E', 'S', 'E'), "", "ESE")); require(is(currency('E', 'S', 'F'), "", "ESF")); require(is(currency('E', 'S', 'G'), "", "ESG")); require(is(currency('E', 'S', 'H'), "", "ESH")); require(is(currency('E', 'S', 'I'), "", "ESI")); require(is(currency('E', 'S', 'J'), "", "ESJ")); require(is(currency('E', 'S', 'K'), "", "ESK")); require(is(currency('E', 'S', 'L'), "", "ESL")); require(is(currency('E', 'S', 'M'), "", "ESM")); require(is(currency('E', 'S', 'N'), "", "ESN")); require(is(currency('E', 'S', 'O'), "", "ESO")); require(is(currency('E', 'S', 'P'), "", "ESP")); require(is(currency('E', 'S', 'Q'), "", "ESQ")); require(is(currency('E', 'S', 'R'), "", "ESR")); require(is(currency('E', 'S', 'S'), "", "ESS")); require(is(currency('E', 'S', 'T'), "", "EST")); require(is(currency('E', 'S', 'U'), "", "ESU")); require(is(currency('E', 'S', 'V'), "", "ESV")); require(is(currency('E', 'S', 'W'), "", "ESW")); require(is(currency('E', 'S', 'X'), "", "ESX")); require(is(currency('E', 'S', 'Y'), "", "ESY")); require(is(currency('E', 'S', 'Z'), "", "ESZ"));)
OBLIGATION(no_currency_ET, "esl/economics/currencies.hpp: currency_name (codes without a currency from ET)", (), require(is(currency('E', 'T', 'A'), "", "ETA")); require(is(currency('E', 'T', 'C'), "", "ETC")); require(is(currency('E', 'T', 'D'), "", "ETD")); require(is(currency('E', 'T', 'E'), "", "ETE")); require(is(currency('E', 'T', 'F'), "", "ETF")); require(is(currency('E', 'T', 'G'), "", "ETG")); require(is(currency('E', 'T', 'H'), "", "ETH")); require(is(currency('E', 'T', 'I'), "", "ETI")); require(is(currency('E', 'T', 'J'), "", "ETJ")); require(is(currency('E', 'T', 'K'), "", "ETK")); require(is(currency('E', 'T', 'L'), "", "ETL")); require(is(currency('E', 'T', 'M'), "", "ETM")); require(is(currency('E', 'T', 'N'), "", "ETN")); require(is(currency('E', 'T', 'O'), "", "ETO")); require(is(currency('E', 'T', 'P'), "", "ETP")); require(is(currency('E', 'T', 'Q'), "", "ETQ")); require(is(currency('E', 'T', 'R'), "", "ETR")); require(is(currency('E', 'T', 'S'), "", "ETS")); require(is(currency('E', 'T', 'T'), "", "ETT")); require(is(currency('E', 'T', 'U'), "", "ETU")); require(is(currency('E', 'T', 'V'), "", "ETV")); require(is(currency('E', 'T', 'W'), "", "ETW")); require(is(currency('E', 'T', 'X'), "", "ETX")); require(is(currency('E', 'T', 'Y'), "", "ETY")); require(is(currency('E', 'T', 'Z'), "", "ETZ"));)
OBLIGATION(no_currency_EU, "esl/economics/currencies.hpp: currency_name (codes without a currency from EU)", (), require(is(currency('E', 'U', 'A'), "", "EUA")); require(is(currency('E', 'U', 'B'), "", "EUB")); require(is(currency('E', 'U', 'C'), "", "EUC")); require(is(currency('E', 'U', 'D'), "", "EUD")); require(is(currency('E', 'U', 'E'), "", "EUE")); require(is(currency('E', 'U', 'F'), "", "EUF")); require(is(currency('E', 'U', 'G'), "", "EUG")); require(is(currency('E', 'U', 'H'), "", "EUH")); require(is(currency('E', 'U', 'I'), "", "EUI")); require(is(currency('E', 'U', 'J'), "", "EUJ")); require(is(currency('E', 'U', 'K'), "", "EUK")); require(is(currency('E', 'U', 'L'), "", "EUL")); require(is(currency('E', 'U', 'M'), "", "EUM")); require(is(currency('E', 'U', 'N'), "", "EUN")); require(is(currency('E', 'U', 'O'), "", "EUO")); require(is(currency('E', 'U', 'P'), "", "EUP")); require(is(currency('E', 'U', 'Q'), "", "EUQ")); require(is(currency('E', 'U', 'S'), "", "EUS")); require(is(currency('E', 'U', 'T'), "", "EUT")); require(is(currency('E', 'U', 'U'), "", "EUU")); require(is(currency('E', 'U', 'V'), "", "EUV")); require(is(currency('E', 'U', 'W'), "", "EUW")); require(is(currency('E', 'U', 'X'), "", "EUX")); require(is(currency('E', 'U', 'Y'), "", "EUY")); require(is(currency('E', 'U', 'Z'), "", "EUZ"));)
OBLIGATION(no_currency_EV, "esl/economics/currencies.hpp: currency_name (codes without a currency from EV)", (), require(is(currency('E', 'V', 'A'), "", "EVA")); require(is(currency('E', 'V', 'B'), "", "EVB")); require(is(currency('E', 'V', 'C'), "", "EVC")); require(is(currency('E', 'V', 'D'), "", "EVD")); require(is(currency('E', 'V', 'E'), "", "EVE")); require(is(currency('E', 'V', 'F'), "", "EVF")); require(is(currency('E', 'V', 'G'), "", "EVG")); require(is(currency('E', 'V', 'H'), "", "EVH")); require(is(currency('E', 'V', 'I'), "", "EVI")); require(is(currency('E', 'V', 'J'), "", "EVJ")); require(is(currency('E', 'V', 'K'), "", "EVK")); require(is(currency('E', 'V', 'L'), "", "EVL")); require(is(currency('E', 'V', 'M'), "", "EVM")); require(is(currency('E', 'V', 'N'), "", "EVN")); require(is(currency('E', 'V', 'O'), "", "EVO")); require(is(currency('E', 'V', 'P'), "", "EVP")); require(is(currency('E', 'V', 'Q'), "", "EVQ")); require(is(currency('E', 'V', 'R'), "", "EVR")); require(is(currency('E', 'V', 'S'), "", "EVS")); require(is(currency('E', 'V', 'T'), "", "EVT")); require(is(currency('E', 'V', 'U'), "", "EVU")); require(is(currency('E', 'V', 'V'), "", "EVV")); require(is(currency('E', 'V', 'W'), "", "EVW")); require(is(currency('E', 'V', 'X'), "", "EVX")); require(is(currency('E', 'V', 'Y'), "", "EVY")); require(is(currency('E', 'V', 'Z'), "", "EVZ"));)
OBLIGATION(no_currency_EW, "esl/economics/currencies.hpp: currency_name (codes without a currency from EW)", (), require(is(currency('E', 'W', 'A'), "", "EWA")); require(is(currency('E', 'W', 'B'), "", "EWB")); require(is(currency('E', 'W', 'C'), "", "EWC")); require(is(currency('E', 'W', 'D'), "", "EWD")); require(is(currency('E', 'W', 'E'), "", "EWE")); require(is(currency('E', 'W', 'F'), "", "EWF")); require(is(currency('E', 'W', 'G'), "", "EWG")); require(is(currency('E', 'W', 'H'), "", "EWH")); require(is(currency('E', 'W', 'I'), "", "EWI")); require(is(currency('E', 'W', 'J'), "", "EWJ")); require(is(currency('E', 'W', 'K'), "", "EWK")); require(is(currency('E', 'W', 'L'), "", "EWL")); require(is(currency('E', 'W', 'M'), "", "EWM")); require(is(currency('E', 'W', 'N'), "", "EWN")); require(is(currency('E', 'W', 'O'), "", "EWO")); require(is(currency('E', 'W', 'P'), "", "EWP")); require(is(currency('E', 'W', 'Q'), "", "EWQ")); require(is(currency('E', 'W', 'R'), "", "EWR")); require(is(currency('E', 'W', 'S'), "", "EWS")); require(is(currency('E', 'W', 'T'), "", "EWT")); require(is(currency('E', 'W', 'U'), "", "EWU")); require(is(currency('E', 'W', 'V'), "", "EWV")); require(is(currency('E', 'W', 'W'), "", "EWW")); require(is(currency('E', 'W', 'X'), "", "EWX")); require(is(currency('E', 'W', 'Y'), "", "EWY")); require(is(currency('E', 'W', 'Z'), "", "EWZ"));)
OBLIGATION(no_currency_EX, "esl/economics/currencies.hpp: currency_name (codes without a currency from EX)", (), require(is(currency('E', 'X', 'A'), "", "EXA")); require(is(currency('E', 'X', 'B'), "", "EXB")); require(is(currency('E', 'X', 'C'), "", "EXC")); require(is(currency('E', 'X', 'D'), "", "EXD")); require(is(currency('E', 'X', 'E'), "", "EXE")); require(is(currency('E', 'X', 'F'), "", "EXF")); require(is(currency('E', 'X', 'G'), "", "EXG")); require(is(currency('E', 'X', 'H'), "", "EXH")); require(is(currency('E', 'X', 'I'), "", "EXI")); require(is(currency('E', 'X', 'J'), "", "EXJ")); require(is(currency('E', 'X', 'K'), "", "EXK")); require(is(currency('E', 'X', 'L'), "", "EXL")); require(is(currency('E', 'X', 'M'), "", "EXM")); require(is(currency('E', 'X', 'N'), "", "EXN")); require(is(currency('E', 'X', 'O'), "", "EXO")); require(is(currency('E', 'X', 'P'), "", "EXP")); require(is(currency('E', 'X', 'Q'), "", "EXQ")); require(is(currency('E', 'X', 'R'), "", "EXR")); require(is(currency('E', 'X', 'S'), "", "EXS")); require(is(currency('E', 'X', 'T'), "", "EXT")); require(is(currency('E', 'X', 'U'), "", "EXU")); require(is(currency('E', 'X', 'V'), "", "EXV")); require(is(currency('E', 'X', 'W'), "", "EXW")); require(is(currency('E', 'X', 'X'), "", "EXX")); require(is(currency('E', 'X', 'Y'), "", "EXY")); require(is(currency('E', 'X', 'Z'), "", "EXZ"));)
OBLIGATION(no_currency_EY, "esl/economics/currencies.hpp: currency_name (codes without a currency from EY)", (), require(is(currency('E', 'Y', 'A'), "", "EYA")); require(is(currency('E', 'Y', 'B'), "", "EYB")); require(is(currency('E', 'Y', 'C'), "", "EYC")); require(is(currency('E', 'Y', 'D'), "", "EYD")); require(is(currency('E', 'Y', 'E'), "", "EYE")); require(is(currency('E', 'Y', 'F'), "", "EYF")); require(is(currency('E', 'Y', 'G'), "", "EYG")); require(is(currency('E', 'Y', 'H'), "", "EYH")); require(is(currency('E', 'Y', 'I'), "", "EYI")); require(is(currency('E', 'Y', 'J'), "", "EYJ")); require(is(currency('E', 'Y', 'K'), "", "EYK")); require(is(currency('E', 'Y', 'L'), "", "EYL")); require(is(currency('E', 'Y', 'M'), "", "EYM")); require(is(currency('E', 'Y', 'N'), "", "EYN")); require(is(currency('E', 'Y', 'O'), "", "EYO")); require(is(currency('E', 'Y', 'P'), "", "EYP")); require(is(currency('E', 'Y', 'Q'), "", "EYQ")); require(is(currency('E', 'Y', 'R'), "", "EYR")); require(is(currency('E', 'Y', 'S'), "", "EYS")); require(is(currency('E', 'Y', 'T'), "", "EYT")); require(is(currency('E', 'Y', 'U'), "", "EYU")); require(is(currency('E', 'Y', 'V'), "", "EYV")); require(is(currency('E', 'Y', 'W'), "", "EYW")); require(is(currency('E', 'Y', 'X'), "", "EYX")); require(is(currency('E', 'Y', 'Y'), "", "EYY")); require(is(currency('E', 'Y', 'Z'), "", "EYZ"));)
OBLIGATION(no_currency_EZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from EZ)", (), require(is(currency('E', 'Z', 'A'), "", "EZA")); require(is(currency('E', 'Z', 'B'), "", "EZB")); require(is(currency('E', 'Z', 'C'), "", "EZC")); require(is(currency('E', 'Z', 'D'), "", "EZD")); require(is(currency('E', 'Z', 'E'), "", "EZE")); require(is(currency('E', 'Z', 'F'), "", "EZF")); require(is(currency('E', 'Z', 'G'), "", "EZG")); require(is(currency('E', 'Z', 'H'), "", "EZH")); require(is(currency('E', 'Z', 'I'), "", "EZI")); require(is(currency('E', 'Z', 'J'), "", "EZJ")); require(is(currency('E', 'Z', 'K'), "", "EZK")); require(is(currency('E', 'Z', 'L'), "", "EZL")); require(is(currency('E', 'Z', 'M'), "", "EZM")); require(is(currency('E', 'Z', 'N'), "", "EZN")); require(is(currency('E', 'Z', 'O'), "", "EZO")); require(is(currency('E', 'Z', 'P'), "", "EZP")); require(is(currency('E', 'Z', 'Q'), "", "EZQ")); require(is(currency('E', 'Z', 'R'), "", "EZR")); require(is(currency('E', 'Z', 'S'), "", "EZS")); require(is(currency('E', 'Z', 'T'), "", "EZT")); require(is(currency('E', 'Z', 'U'), "", "EZU")); require(is(currency('E', 'Z', 'V'), "", "EZV")); require(is(currency('E', 'Z', 'W'), "", "EZW")); require(is(currency('E', 'Z', 'X'), "", "EZX")); require(is(currency('E', 'Z', 'Y'), "", "EZY")); require(is(currency('E', 'Z', 'Z'), "", "EZZ"));)
OBLIGATION(no_currency_FA, "esl/economics/currencies.hpp: currency_name (codes without a currency from FA)", (), require(is(currency('F', 'A', 'A'), "", "FAA")); require(is(currency('F', 'A', 'B'), "", "FAB")); require(is(currency('F', 'A', 'C'), "", "FAC")); require(is(currency('F', 'A', 'D'), "", "FAD")); require(is(currency('F', 'A', 'E'), "", "FAE")); require(is(currency('F', 'A', 'F'), "", "FAF")); require(is(currency('F', 'A', 'G'), "", "FAG")); require(is(currency('F', 'A', 'H'), "", "FAH")); require(is(currency('F', 'A', 'I'), "", "FAI")); require(is(currency('F', 'A', 'J'), "", "FAJ")); require(is(currency('F', 'A', 'K'), "", "FAK")); require(is(currency('F', 'A', 'L'), "", "FAL")); require(is(currency('F', 'A', 'M'), "", "FAM")); require(is(currency('F', 'A', 'N'), "", "FAN")); require(is(currency('F', 'A', 'O'), "", "FAO")); require(is(currency('F', 'A', 'P'), "", "FAP")); require(is(currency('F', 'A', 'Q'), "", "FAQ")); require(is(currency('F', 'A', 'R'), "", "FAR")); require(is(currency('F', 'A', 'S'), "", "FAS")); require(is(currency('F', 'A', 'T'), "", "FAT")); require(is(currency('F', 'A', 'U'), "", "FAU")); require(is(currency('F', 'A', 'V'), "", "FAV")); require(is(currency('F', 'A', 'W'), "", "FAW")); require(is(currency('F', 'A', 'X'), "", "FAX")); require(is(currency('F', 'A', 'Y'), "", "FAY")); require(is(currency('F', 'A', 'Z'), "", "FAZ"));)
OBLIGATION(no_currency_FB, "esl/economics/currencies.hpp: currency_name (codes without a currency from FB)", (), require(is(currency('F', 'B', 'A'), "", "FBA")); require(is(currency('F', 'B', 'B'), "", "FBB")); require(is(currency('F', 'B', 'C'), "", "FBC")); require(is(currency('F', 'B', 'D'), "", "FBD")); require(is(currency('F', 'B', 'E'), "", "FBE")); require(is(currency('F', 'B', 'F'), "", "FBF")); require(is(currency('F', 'B', 'G'), "", "FBG")); require(is(currency('F', 'B', 'H'), "", "FBH")); require(is(currency('F', 'B', 'I'), "", "FBI")); require(is(currency('F', 'B', 'J'), "", "FBJ")); require(is(currency('F', 'B', 'K'), "", "FBK")); require(is(currency('F', 'B', 'L'), "", "FBL")); require(is(currency('F', 'B', 'M'), "", "FBM")); require(is(currency('F', 'B', 'N'), "", "FBN")); require(is(currency('F', 'B', 'O'), "", "FBO")); require(is(currency('F', 'B', 'P'), "", "FBP")); require(is(currency('F', 'B', 'Q'), "", "FBQ")); require(is(currency('F', 'B', 'R'), "", "FBR")); require(is(currency('F', 'B', 'S'), "", "FBS")); require(is(currency('F', 'B', 'T'), "", "FBT")); require(is(currency('F', 'B', 'U'), "", "FBU")); require(is(currency('F', 'B', 'V'), "", "FBV")); require(is(currency('F', 'B', 'W'), "", "FBW")); require(is(currency('F', 'B', 'X'), "", "FBX")); require(is(currency('F', 'B', 'Y'), "", "FBY")); require(is(currency('F', 'B', 'Z'), "", "FBZ"));)
OBLIGATION(no_currency_FC, "esl/economics/currencies.hpp: currency_name (codes without a currency from FC)", (), require(is(currency('F', 'C', 'A'), "", "FCA")); require(is(currency('F', 'C', 'B'), "", "FCB")); require(is(currency('F', 'C', 'C'), "", "FCC")); require(is(currency('F', 'C', 'D'), "", "FCD")); require(is(currency('F', 'C', 'E'), "", "FCE")); require(is(currency('F', 'C', 'F'), "", "FCF")); require(is(currency('F', 'C', 'G'), "", "FCG")); require(is(currency('F', 'C', 'H'), "", "FCH")); require(is(currency('F', 'C', 'I'), "", "FCI")); require(is(currency('F', 'C', 'J'), "", "FCJ")); require(is(currency('F', 'C', 'K'), "", "FCK")); require(is(currency('F', 'C', 'L'), "", "FCL")); require(is(currency('F', 'C', 'M'), "", "FCM")); require(is(currency('F', 'C', 'N'), "", "FCN")); require(is(currency('F', 'C', 'O'), "", "FCO")); require(is(currency('F', 'C', 'P'), "", "FCP")); require(is(currency('F', 'C', 'Q'), "", "FCQ")); require(is(currency('F', 'C', 'R'), "", "FCR")); require(is(currency('F', 'C', 'S'), "", "FCS")); require(is(currency('F', 'C', 'T'), "", "FCT")); require(is(currency('F', 'C', 'U'), "", "FCU")); require(is(currency('F', 'C', 'V'), "", "FCV")); require(is(currency('F', 'C', 'W'), "", "FCW")); require(is(currency('F', 'C', 'X'), "", "FCX")); require(is(currency('F', 'C', 'Y'), "", "FCY")); require(is(currency('F', 'C', 'Z'), "", "FCZ"));)
OBLIGATION(no_currency_FD, "esl/economics/currencies.hpp: currency_name (codes without a currency from FD)", (), require(is(currency('F', 'D', 'A'), "", "FDA")); require(is(currency('F', 'D', 'B'), "", "FDB")); require(is(currency('F', 'D', 'C'), "", "FDC")); require(is(currency('F', 'D', 'D'), "", "FDD")); require(is(currency('F', 'D', 'E'), "", "FDE")); require(is(currency('F', 'D', 'F'), "", "FDF")); require(is(currency('F', 'D', 'G'), "", "FDG")); require(is(currency('F', 'D', 'H'), "", "FDH")); require(is(currency('F', 'D', 'I'), "", "FDI")); require(is(currency('F', 'D', 'J'), "", "FDJ")); require(is(currency('F', 'D', 'K'), "", "FDK")); require(is(currency('F', 'D', 'L'), "", "FDL")); require(is(currency('F', 'D', 'M'), "", "FDM")); require(is(currency('F', 'D', 'N'), "", "FDN")); require(is(currency('F', 'D', 'O'), "", "FDO")); require(is(currency('F', 'D', 'P'), "", "FDP")); require(is(currency('F', 'D', 'Q'), "", "FDQ")); require(is(currency('F', 'D', 'R'), "", "FDR")); require(is(currency('F', 'D', 'S'), "", "FDS")); require(is(currency('F', 'D', 'T'), "", "FDT")); require(is(currency('F', 'D', 'U'), "", "FDU")); require(is(currency('F', 'D', 'V'), "", "FDV")); require(is(currency('F', 'D', 'W'), "", "FDW")); require(is(currency('F', 'D', 'X'), "", "FDX")); require(is(currency('F', 'D', 'Y'), "", "FDY")); require(is(currency('F', 'D', 'Z'), "", "FDZ"));)
OBLIGATION(no_currency_FE, "esl/economics/currencies.hpp: currency_name (codes without a currency from FE)", (), require(is(currency('F', 'E', 'A'), "", "FEA")); require(is(currency('F', 'E', 'B'), "", "FEB")); require(is(currency('F', 'E', 'C'), "", "FEC")); require(is(currency('F', 'E', 'D'), "", "FED")); require(is(currency('F', 'E', 'E'), "", "FEE")); require(is(currency('F', 'E', 'F'), "", "FEF")); require(is(currency('F', 'E', 'G'), "", "FEG")); require(is(currency('F', 'E', 'H'), "", "FEH")); require(is(currency('F', 'E', 'I'), "", "FEI")); require(is(currency('F', 'E', 'J'), "", "FEJ")); require(is(currency('F', 'E', 'K'), "", "FEK")); require(is(currency('F', 'E', 'L'), "", "FEL")); require(is(currency('F', 'E', 'M'), "", "FEM")); require(is(currency('F', 'E', 'N'), "", "FEN")); require(is(currency('F', 'E', 'O'), "", "FEO")); require(is(currency('F', 'E', 'P'), "", "FEP")); require(is(currency('F', 'E', 'Q'), "", "FEQ")); require(is(currency('F', 'E', 'R'), "", "FER")); require(is(currency('F', 'E', 'S'), "", "FES")); require(is(currency('F', 'E', 'T'), "", "FET")); require(is(currency('F', 'E', 'U'), "", "FEU")); require(is(currency('F', 'E', 'V'), "", "FEV")); require(is(currency('F', 'E', 'W'), "", "FEW")); require(is(currency('F', 'E', 'X'), "", "FEX")); require(is(currency('F', 'E', 'Y'), "", "FEY")); require(is(currency('F', 'E', 'Z'), "", "FEZ"));)
OBLIGATION(no_currency_FF, "esl/economics/currencies.hpp: currency_name (codes without a currency from FF)", (), require(is(currency('F', 'F', 'A'), "", "FFA")); require(is(currency('F', 'F', 'B'), "", "FFB")); require(is(currency('F', 'F', 'C'), "", "FFC")); require(is(currency('F', 'F', 'D'), "", "FFD")); require(is(currency('F', 'F', 'E'), "", "FFE")); require(is(currency('F', 'F', 'F'), "", "FFF")); require(is(currency('F', 'F', 'G'), "", "FFG")); require(is(currency('F', 'F', 'H'), "", "FFH")); require(is(currency('F', 'F', 'I'), "", "FFI")); require(is(currency('F', 'F', 'J'), "", "FFJ")); require(is(currency('F', 'F', 'K'), "", "FFK")); require(is(currency('F', 'F', 'L'), "", "FFL")); require(is(currency('F', 'F', 'M'), "", "FFM")); require(is(currency('F', 'F', 'N'), "", "FFN")); require(is(currency('F', 'F', 'O'), "", "FFO")); require(is(currency('F', 'F', 'P'), "", "FFP")); require(is(currency('F', 'F', 'Q'), "", "FFQ")); require(is(currency('F', 'F', 'R'), "", "FFR")); require(is(currency('F', 'F', 'S'), "", "FFS")); require(is(currency('F', 'F', 'T'), "", "FFT")); require(is(currency('F', 'F', 'U'), "", "FFU")); require(is(currency('F', 'F', 'V'), "", "FFV")); require(is(currency('F', 'F', 'W'), "", "FFW")); require(is(currency('F', 'F', 'X'), "", "FFX")); require(is(currency('F', 'F', 'Y'), "", "FFY")); require(is(currency('F', 'F', 'Z'), "", "FFZ"));)
OBLIGATION(no_currency_FG, "esl/economics/currencies.hpp: currency_name (codes without a currency from FG)", (), require(is(currency('F', 'G', 'A'), "", "FGA")); require(is(currency('F', 'G', 'B'), "", "FGB")); require(is(currency('F', 'G', 'C'), "", "FGC")); require(is(currency('F', 'G', 'D'), "", "FGD")); require(is(currency('F', 'G', 'E'), "", "FGE")); require(is(currency('F', 'G', 'F'), "", "FGF")); require(is(currency('F', 'G', 'G'), "", "FGG")); require(is(currency('F', 'G', 'H'), "", "FGH")); require(is(currency('F', 'G', 'I'), "", "FGI")); require(is(currency('F', 'G', 'J'), "", "FGJ")); require(is(currency('F', 'G', 'K'), "", "FGK")); require(is(currency('F', 'G', 'L'), "", "FGL")); require(is(currency('F', 'G', 'M'), "", "FGM")); require(is(currency('F', 'G', 'N'), "", "FGN")); require(is(currency('F', 'G', 'O'), "", "FGO")); require(is(currency('F', 'G', 'P'), "", "FGP")); require(is(currency('F', 'G', 'Q'), "", "FGQ")); require(is(currency('F', 'G', 'R'), "", "FGR")); require(is(currency('F', 'G', 'S'), "", "FGS")); require(is(currency('F', 'G', 'T'), "", "FGT")); require(is(currency('F', 'G', 'U'), "", "FGU")); require(is(currency('F', 'G', 'V'), "", "FGV")); require(is(currency('F', 'G', 'W'), "", "FGW")); require(is(currency('F', 'G', 'X'), "", "FGX")); require(is(currency('F', 'G', 'Y'), "", "FGY")); require(is(currency('F', 'G', 'Z'), "", "FGZ"));)
OBLIGATION(no_currency_FH, "esl/economics/currencies.hpp: currency_name (codes without a currency from FH)", (), require(is(currency('F', 'H', 'A'), "", "FHA")); require(is(currency('F', 'H', 'B'), "", "FHB")); require(is(currency('F', 'H', 'C'), "", "FHC")); require(is(currency('F', 'H', 'D'), "", "FHD")); require(is(currency('F', 'H', 'E'), "", "FHE")); require(is(currency('F', 'H', 'F'), "", "FHF")); require(is(currency('F', 'H', 'G'), "", "FHG")); require(is(currency('F', 'H', 'H'), "", "FHH")); require(is(currency('F', 'H', 'I'), "", "FHI")); require(is(currency('F', 'H', 'J'), "", "FHJ")); require(is(currency('F', 'H', 'K'), "", "FHK")); require(is(currency('F', 'H', 'L'), "", "FHL")); require(is(currency('F', 'H', 'M'), "", "FHM")); require(is(currency('F', 'H', 'N'), "", "FHN")); require(is(currency('F', 'H', 'O'), "", "FHO")); require(is(currency('F', 'H', 'P'), "", "FHP")); require(is(currency('F', 'H', 'Q'), "", "FHQ")); require(is(currency('F', 'H', 'R'), "", "FHR")); require(is(currency('F', 'H', 'S'), "", "FHS")); require(is(currency('F', 'H', 'T'), "", "FHT")); require(is(currency('F', 'H', 'U'), "", "FHU")); require(is(currency('F', 'H', 'V'), "", "FHV")); require(is(currency('F', 'H', 'W'), "", "FHW")); require(is(currency('F', 'H', 'X'), "", "FHX")); require(is(currency('F', 'H', 'Y'), "", "FHY")); require(is(currency('F', 'H', 'Z'), "", "FHZ"));)
OBLIGATION(no_currency_FI, "esl/economics/currencies.hpp: currency_name (codes without a currency from FI)", (), require(is(currency('F', 'I', 'A'), "", "FIA")); require(is(currency('F', 'I', 'B'), "", "FIB")); require(is(currency('F', 'I', 'C'), "", "FIC")); require(is(currency('F', 'I', 'D'), "", "FID")); require(is(currency('F', 'I', 'E'), "", "FIE")); require(is(currency('F', 'I', 'F'), "", "FIF")); require(is(currency('F', 'I', 'G'), "", "FIG")); require(is(currency('F', 'I', 'H'), "", "FIH")); require(is(currency('F', 'I', 'I'), "", "FII")); require(is(currency('F', 'I', 'J'), "", "FIJ")); require(is(currency('F', 'I', 'K'), "", "FIK")); require(is(currency('F', 'I', 'L'), "", "FIL")); require(is(currency('F', 'I', 'M'), "", "FIM")); require(is(currency('F', 'I', 'N'), "", "FIN")); require(is(currency('F', 'I', 'O'), "", "FIO")); require(is(currency('F', 'I', 'P'), "", "FIP")); require(is(currency('F', 'I', 'Q'), "", "FIQ")); require(is(currency('F', 'I', 'R'), "", "FIR")); require(is(currency('F', 'I', 'S'), "", "FIS")); require(is(currency('F', 'I', 'T'), "", "FIT")); require(is(currency('F', 'I', 'U'), "", "FIU")); require(is(currency('F', 'I', 'V'), "", "FIV")); require(is(currency('F', 'I', 'W'), "", "FIW")); require(is(currency('F', 'I', 'X'), "", "FIX")); require(is(currency('F', 'I', 'Y'), "", "FIY")); require(is(currency('F', 'I', 'Z'), "", "FIZ"));)
OBLIGATION(no_currency_FJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from FJ)", (), require(is(currency('F', 'J', 'A'), "", "FJA")); require(is(currency('F', 'J', 'B'), "", "FJB")); require(is(currency('F', 'J', 'C'), "", "FJC")); require(is(currency('F', 'J', 'E'), "", "FJE")); require(is(currency('F', 'J', 'F'), "", "FJF")); require(is(currency('F', 'J', 'G'), "", "FJG")); require(is(currency('F', 'J', 'H'), "", "FJH")); require(is(currency('F', 'J', 'I'), "", "FJI")); require(is(currency('F', 'J', 'J'), "", "FJJ")); require(is(currency('F', 'J', 'K'), "", "FJK")); require(is(currency('F', 'J', 'L'), "", "FJL")); require(is(currency('F', 'J', 'M'), "", "FJM")); require(is(currency('F', 'J', 'N'), "", "FJN")); require(is(currency('F', 'J', 'O'), "", "FJO")); require(is(currency('F', 'J', 'P'), "", "FJP")); require(is(currency('F', 'J', 'Q'), "", "FJQ")); require(is(currency('F', 'J', 'R'), "", "FJR")); require(is(currency('F', 'J', 'S'), "", "FJS")); require(is(currency('F', 'J', 'T'), "", "FJT")); require(is(currency('F', 'J', 'U'), "", "FJU")); require(is(currency('F', 'J', 'V'), "", "FJV")); require(is(currency('F', 'J', 'W'), "", "FJW")); require(is(currency('F', 'J', 'X'), "", "FJX")); require(is(currency('F', 'J', 'Y'), "", "FJY")); require(is(currency('F', 'J', 'Z'), "", "FJZ"));)
OBLIGATION(no_currency_FK, "esl/economics/currencies.hpp: currency_name (codes without a currency from FK)", (), require(is(currency('F', 'K', 'A'), "", "FKA")); require(is(currency('F', 'K', 'B'), "", "FKB")); require(is(currency('F', 'K', 'C'), "", "FKC")); require(is(currency('F', 'K', 'D'), "", "FKD")); require(is(currency('F', 'K', 'E'), "", "FKE")); require(is(currency('F', 'K', 'F'), "", "FKF")); require(is(currency('F', 'K', 'G'), "", "FKG")); require(is(currency('F', 'K', 'H'), "", "FKH")); require(is(currency('F', 'K', 'I'), "", "FKI")); require(is(currency('F', 'K', 'J'), "", "FKJ")); require(is(currency('F', 'K', 'K'), "", "FKK")); require(is(currency('F', 'K', 'L'), "", "FKL")); require(is(currency('F', 'K', 'M'), "", "FKM")); require(is(currency('F', 'K', 'N'), "", "FKN")); require(is(currency('F', 'K', 'O'), "", "FKO")); require(is(currency('F', 'K', 'Q'), "", "FKQ")); require(is(currency('F', 'K', 'R'), "", "FKR")); require(is(currency('F', 'K', 'S'), "", "FKS")); require(is(currency('F', 'K', 'T'), "", "FKT")); require(is(currency('F', 'K', 'U'), "", "FKU")); require(is(currency('F', 'K', 'V'), "", "FKV")); require(is(currency('F', 'K', 'W'), "", "FKW")); require(is(currency('F', 'K', 'X'), "", "FKX")); require(is(currency('F', 'K', 'Y'), "", "FKY")); require(is(currency('F', 'K', 'Z'), "", "FKZ"));)
OBLIGATION(no_currency_FL, "esl/economics/currencies.hpp: currency_name (codes without a currency from FL)", (), require(is(currency('F', 'L', 'A'), "", "FLA")); require(is(currency('F', 'L', 'B'), "", "FLB")); require(is(currency('F', 'L', 'C'), "", "FLC")); require(is(currency('F', 'L', 'D'), "", "FLD")); require(is(currency('F', 'L', 'E'), "", "FLE")); require(is(currency('F', 'L', 'F'), "", "FLF")); require(is(currency('F', 'L', 'G'), "", "FLG")); require(is(currency('F', 'L', 'H'), "", "FLH")); require(is(currency('F', 'L', 'I'), "", "FLI")); require(is(currency('F', 'L', 'J'), "", "FLJ")); require(is(currency('F', 'L', 'K'), "", "FLK")); require(is(currency('F', 'L', 'L'), "", "FLL")); require(is(currency('F', 'L', 'M'), "", "FLM")); require(is(currency('F', 'L', 'N'), "", "FLN")); require(is(currency('F', 'L', 'O'), "", "FLO")); require(is(currency('F', 'L', 'P'), "", "FLP")); require(is(currency('F', 'L', 'Q'), "", "FLQ")); require(is(currency('F', 'L', 'R'), "", "FLR")); require(is(currency('F', 'L', 'S'), "", "FLS")); require(is(currency('F', 'L', 'T'), "", "FLT")); require(is(currency('F', 'L', 'U'), "", "FLU")); require(is(currency('F', 'L', 'V'), "", "FLV")); require(is(currency('F', 'L', 'W'), "", "FLW")); require(is(currency('F', 'L', 'X'), "", "FLX")); require(is(currency('F', 'L', 'Y'), "", "FLY")); require(is(currency('F', 'L', 'Z'), "", "FLZ"));)
OBLIGATION(no_currency_FM, "esl/economics/currencies.hpp: currency_name (codes without a currency from FM)", (), require(is(currency('F', 'M', 'A'), "", "FMA")); require(is(currency('F', 'M', 'B'), "", "FMB")); require(is(currency('F', 'M', 'C'), "", "FMC")); require(is(currency('F', 'M', 'D'), "", "FMD")); require(is(currency('F', 'M', 'E'), "", "FME")); require(is(currency('F', 'M', 'F'), "", "FMF")); require(is(currency('F', 'M', 'G'), "", "FMG")); require(is(currency('F', 'M', 'H'), "", "FMH")); require(is(currency('F', 'M', 'I'), "", "FMI")); require(is(currency('F', 'M', 'J'), "", "FMJ")); require(is(currency('F', 'M', 'K'), "", "FMK")); require(is(currency('F', 'M', 'L'), "", "FML")); require(is(currency('F', 'M', 'M'), "", "FMM")); require(is(currency('F', 'M', 'N'), "", "FMN")); require(is(currency('F', 'M', 'O'), "", "FMO")); require(is(currency('F', 'M', 'P'), "", "FMP")); require(is(currency('F', 'M', 'Q'), "", "FMQ")); require(is(currency('F', 'M', 'R'), "", "FMR")); require(is(currency('F', 'M', 'S'), "", "FMS")); require(is(currency('F', 'M', 'T'), "", "FMT")); require(is(currency('F', 'M', 'U'), "", "FMU")); require(is(currency('F', 'M', 'V'), "", "FMV")); require(is(currency('F', 'M', 'W'), "", "FMW")); require(is(currency('F', 'M', 'X'), "", "FMX")); require(is(currency('F', 'M', 'Y'), "", "FMY")); require(is(currency('F', 'M', 'Z'), "", "FMZ"));)
OBLIGATION(no_currency_FN, "esl/economics/currencies.hpp: currency_name (codes without a currency from FN)", (), require(is(currency('F', 'N', 'A'), "", "FNA")); require(is(currency('F', 'N', 'B'), "", "FNB")); require(is(currency('F', 'N', 'C'), "", "FNC")); require(is(currency('F', 'N', 'D'), "", "FND")); require(is(currency('F', 'N', 'E'), "", "FNE")); require(is(currency('F', 'N', 'F'), "", "FNF")); require(is(currency('F', 'N', 'G'), "", "FNG")); require(is(currency('F', 'N', 'H'), "", "FNH")); require(is(currency('F', 'N', 'I'), "", "FNI")); require(is(currency('F', 'N', 'J'), "", "FNJ")); require(is(currency('F', 'N', 'K'), "", "FNK")); require(is(currency('F', 'N', 'L'), "", "FNL")); require(is(currency('F', 'N', 'M'), "", "FNM")); require(is(currency('F', 'N', 'N'), "", "FNN")); require(is(currency('F', 'N', 'O'), "", "FNO")); require(is(currency('F', 'N', 'P'), "", "FNP")); require(is(currency('F', 'N', 'Q'), "", "FNQ")); require(is(currency('F', 'N', 'R'), "", "FNR")); require(is(currency('F', 'N', 'S'), "", "FNS")); require(is(currency('F', 'N', 'T'), "", "FNT")); require(is(currency('F', 'N', 'U'), "", "FNU")); require(is(currency('F', 'N', 'V'), "", "FNV")); require(is(currency('F', 'N', 'W'), "", "FNW")); require(is(currency('F', 'N', 'X'), "", "FNX")); require(is(currency('F', 'N', 'Y'), "", "FNY")); require(is(currency('F', 'N', 'Z'), "", "FNZ"));)
OBLIGATION(no_currency_FO, "esl/economics/currencies.hpp: currency_name (codes without a currency from FO)", (), require(is(currency('F', 'O', 'A'), "", "FOA")); require(is(currency('F', 'O', 'B'), "", "FOB")); require(is(currency('F', 'O', 'C'), "", "FOC")); require(is(currency('F', 'O', 'D'), "", "FOD")); require(is(currency('F', 'O', 'E'), "", "FOE")); require(is(currency('F', 'O', 'F'), "", "FOF")); require(is(currency('F', 'O', 'G'), "", "FOG")); require(is(currency('F', 'O', 'H'), "", "FOH")); require(is(currency('F', 'O', 'I'), "", "FOI")); require(is(currency('F', 'O', 'J'), "", "FOJ")); require(is(currency('F', 'O', 'K'), "", "FOK")); require(is(currency('F', 'O', 'L'), "", "FOL")); require(is(currency('F', 'O', 'M'), "", "FOM")); require(is(currency('F', 'O', 'N'), "", "FON")); require(is(currency('F', 'O', 'O'), "", "FOO")); require(is(currency('F', 'O', 'P'), "", "FOP")); require(is(currency('F', 'O', 'Q'), "", "FOQ")); require(is(currency('F', 'O', 'R'), "", "FOR")); require(is(currency('F', 'O', 'S'), "", "FOS")); require(is(currency('F', 'O', 'T'), "", "FOT")); require(is(currency('F', 'O', 'U'), "", "FOU")); require(is(currency('F', 'O', 'V'), "", "FOV")); require(is(currency('F', 'O', 'W'), "", "FOW")); require(is(currency('F', 'O', 'X'), "", "FOX")); require(is(currency('F', 'O', 'Y'), "", "FOY")); require(is(currency('F', 'O', 'Z'), "", "FOZ"));)
OBLIGATION(no_currency_FP, "esl/economics/currencies.hpp: currency_name (codes without a currency from FP)", (), require(is(currency('F', 'P', 'A'), "", "FPA")); require(is(currency('F', 'P', 'B'), "", "FPB")); require(is(currency('F', 'P', 'C'), "", "FPC")); require(is(currency('F', 'P', 'D'), "", "FPD")); require(is(currency('F', 'P', 'E'), "", "FPE")); require(is(currency('F', 'P', 'F'), "", "FPF")); require(is(currency('F', 'P', 'G'), "", "FPG")); require(is(currency('F', 'P', 'H'), "", "FPH")); require(is(currency('F', 'P', 'I'), "", "FPI")); require(is(currency('F', 'P', 'J'), "", "FPJ")); require(is(currency('F', 'P', 'K'), "", "FPK")); require(is(currency('F', 'P', 'L'), "", "FPL")); require(is(currency('F', 'P', 'M'), "", "FPM")); require(is(currency('F', 'P', 'N'), "", "FPN")); require(is(currency('F', 'P', 'O'), "", "FPO")); require(is(currency('F', 'P', 'P'), "", "FPP")); require(is(currency('F', 'P', 'Q'), "", "FPQ")); require(is(currency('F', 'P', 'R'), "", "FPR")); require(is(currency('F', 'P', 'S'), "", "FPS")); require(is(currency('F', 'P', 'T'), "", "FPT")); require(is(currency('F', 'P', 'U'), "", "FPU")); require(is(currency('F', 'P', 'V'), "", "FPV")); require(is(currency('F', 'P', 'W'), "", "FPW")); require(is(currency('F', 'P', 'X'), "", "FPX")); require(is(currency('F', 'P', 'Y'), "", "FPY")); require(is(currency('F', 'P', 'Z'), "", "FPZ"));)
OBLIGATION(no_currency_FQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from FQ)", (), require(is(currency('F', 'Q', 'A'), "", "FQA")); require(is(currency('F', 'Q', 'B'), "", "FQB")); require(is(currency('F', 'Q', 'C'), "", "FQC")); require(is(currency('F', 'Q', 'D'), "", "FQD")); require(is(currency('F', 'Q', 'E'), "", "FQE")); require(is(currency('F', 'Q', 'F'), "", "FQF")); require(is(currency('F', 'Q', 'G'), "", "FQG")); require(is(currency('F', 'Q', 'H'), "", "FQH")); require(is(currency('F', 'Q', 'I'), "", "FQI")); require(is(currency('F', 'Q', 'J'), "", "FQJ")); require(is(currency('F', 'Q', 'K'), "", "FQK")); require(is(currency('F', 'Q', 'L'), "", "FQL")); require(is(currency('F', 'Q', 'M'), "", "FQM")); require(is(currency('F', 'Q', 'N'), "", "FQN")); require(is(currency('F', 'Q', 'O'), "", "FQO")); require(is(currency('F', 'Q', 'P'), "", "FQP")); require(is(currency('F', 'Q', 'Q'), "", "FQQ")); require(is(currency('F', 'Q', 'R'), "", "FQR")); require(is(currency('F', 'Q', 'S'), "", "FQS")); require(is(currency('F', 'Q', 'T'), "", "FQT")); require(is(currency('F', 'Q', 'U'), "", "FQU")); require(is(currency('F', 'Q', 'V'), "", "FQV")); require(is(currency('F', 'Q', 'W'), "", "FQW")); require(is(currency('F', 'Q', 'X'), "", "FQX")); require(is(currency('F', 'Q', 'Y'), "", "FQY")); require(is(currency('F', 'Q', 'Z'), "", "FQZ"));)
OBLIGATION(no_currency_FR, "esl/economics/currencies.hpp: currency_name (codes without a currency from FR)", (), require(is(currency('F', 'R', 'A'), "", "FRA")); require(is(currency('F', 'R', 'B'), "", "FRB")); require(is(currency('F', 'R', 'C'), "", "FRC")); require(is(currency('F', 'R', 'D'), "", "FRD")); require(is(currency('F', 'R', 'E'), "", "FRE")); require(is(currency('F', 'R', 'F'), "", "FRF")); require(is(currency('F', 'R', 'G'), "", "FRG")); require(is(currency('F', 'R', 'H'), "", "FRH")); require(is(currency('F', 'R', 'I'), "", "FRI")); require(is(currency('F', 'R', 'J'), "", "FRJ")); require(is(currency('F', 'R', 'K'), "", "FRK")); require(is(currency('F', 'R', 'L'), "", "FRL")); require(is(currency('F', 'R', 'M'), "", "FRM")); require(is(currency('F', 'R', 'N'), "", "FRN")); require(is(currency('F', 'R', 'O'), "", "FRO")); require(is(currency('F', 'R', 'P'), "", "FRP")); require(is(currency('F', 'R', 'Q'), "", "FRQ")); require(is(currency('F', 'R', 'R'), "", "FRR")); require(is(currency('F', 'R', 'S'), "", "FRS")); require(is(currency('F', 'R', 'T'), "", "FRT")); require(is(currency('F', 'R', 'U'), "", "FRU")); require(is(currency('F', 'R', 'V'), "", "FRV")); require(is(currency('F', 'R', 'W'), "", "FRW")); require(is(currency('F', 'R', 'X'), "", "FRX")); require(is(currency('F', 'R', 'Y'), "", "FRY")); require(is(currency('F', 'R', 'Z'), "", "FRZ"));)
OBLIGATION(no_currency_FS, "esl/economics/currencies.hpp: currency_name (codes without a currency from FS)", (), require(is(currency('F', 'S', 'A'), "", "FSA")); require(is(currency('F', 'S', 'B'), "", "FSB")); require(is(currency('F', 'S', 'C'), "", "FSC")); require(is(currency('F', 'S', 'D'), "", "FSD")); require(is(currency('F', 'S', 'E'), "", "FSE")); require(is(currency('F', 'S', 'F'), "", "FSF")); require(is(currency('F', 'S', 'G'), "", "FSG")); require(is(currency('F', 'S', 'H'), "", "FSH")); require(is(currency('F', 'S', 'I'), "", "FSI")); require(is(currency('F', 'S', 'J'), "", "FSJ")); require(is(currency('F', 'S', 'K'), "", "FSK")); require(is(currency('F', 'S', 'L'), "", "FSL")); require(is(currency('F', 'S', 'M'), "", "FSM")); require(is(currency('F', 'S', 'N'), "", "FSN")); require(is(currency('F', 'S', 'O'), "", "FSO")); require(is(currency('F', 'S', 'P'), "", "FSP")); require(is(currency('F', 'S', 'Q'), "", "FSQ")); require(is(currency('F', 'S', 'R'), "", "FSR")); require(is(currency('F', 'S', 'S'), "", "FSS")); require(is(currency('F', 'S', 'T'), "", "FST")); require(is(currency('F', 'S', 'U'), "", "FSU")); require(is(currency('F', 'S', 'V'), "", "FSV")); require(is(currency('F', 'S', 'W'), "", "FSW")); require(is(currency('F', 'S', 'X'), "", "FSX")); require(is(currency('F', 'S', 'Y'), "", "FSY")); require(is(currency('F', 'S', 'Z'), "", "FSZ"));)
OBLIGATION(no_currency_FT, "esl/economics/currencies.hpp: currency_name (codes without a currency from FT)", (), require(is(currency('F', 'T', 'A'), "", "FTA")); require(is(currency('F', 'T', 'B'), "", "FTB")); require(is(currency('F', 'T', 'C'), "", "FTC")); require(is(currency('F', 'T', 'D'), "", "FTD")); require(is(currency('F', 'T', 'E'), "", "FTE")); require(is(currency('F', 'T', 'F'), "", "FTF")); require(is(currency('F', 'T', 'G'), "", "FTG")); require(is(currency('F', 'T', 'H'), "", "FTH")); require(is(currency('F', 'T', 'I'), "", "FTI")); require(is(currency('F', 'T', 'J'), "", "FTJ")); require(is(currency('F', 'T', 'K'), "", "FTK")); require(is(currency('F', 'T', 'L'), "", "FTL")); require(is(currency('F', 'T', 'M'), "", "FTM")); require(is(currency('F', 'T', 'N'), "", "FTN")); require(is(currency('F', 'T', 'O'), "", "FTO")); require(is(currency('F', 'T', 'P'), "", "FTP")); require(is(currency('F', 'T', 'Q'), "", "FTQ")); require(is(currency('F', 'T', 'R'), "", "FTR")); require(is(currency('F', 'T', 'S'), "", "FTS")); require(is(currency('F', 'T', 'T'), "", "FTT")); require(is(currency('F', 'T', 'U'), "", "FTU")); require(is(currency('F', 'T', 'V'), "", "FTV")); require(is(currency('F', 'T', 'W'), "", "FTW")); require(is(currency('F', 'T', 'X'), "", "FTX")); require(is(currency('F', 'T', 'Y'), "", "FTY")); require(is(currency('F', 'T', 'Z'), "", "FTZ"));)
OBLIGATION(no_currency_FU, "esl/economics/currencies.hpp: currency_name (codes without a currency from FU)", (), require(is(currency('F', 'U', 'A'), "", "FUA")); require(is(currency('F', 'U', 'B'), "", "FUB")); require(is(currency('F', 'U', 'C'), "", "FUC")); require(is(currency('F', 'U', 'D'), "", "FUD")); require(is(currency('F', 'U', 'E'), "", "FUE")); require(is(currency('F', 'U', 'F'), "", "FUF")); require(is(currency('F', 'U', 'G'), "", "FUG")); require(is(currency('F', 'U', 'H'), "", "FUH")); require(is(currency('F', 'U', 'I'), "", "FUI")); require(is(currency('F', 'U', 'J'), "", "FUJ")); require(is(currency('F', 'U', 'K'), "", "FUK")); require(is(currency('F', 'U', 'L'), "", "FUL")); require(is(currency('F', 'U', 'M'), "", "FUM")); require(is(currency('F', 'U', 'N'), "", "FUN")); require(is(currency('F', 'U', 'O'), "", "FUO")); require(is(currency('F', 'U', 'P'), "", "FUP")); require(is(currency('F', 'U', 'Q'), "", "FUQ")); require(is(currency('F', 'U', 'R'), "", "FUR")); require(is(currency('F', 'U', 'S'), "", "FUS")); require(is(currency('F', 'U', 'T'), "", "FUT")); require(is(currency('F', 'U', 'U'), "", "FUU")); require(is(currency('F', 'U', 'V'), "", "FUV")); require(is(currency('F', 'U', 'W'), "", "FUW")); require(is(currency('F', 'U', 'X'), "", "FUX")); require(is(currency('F', 'U', 'Y'), "", "FUY")); require(is(currency('F', 'U', 'Z'), "", "FUZ"));)
OBLIGATION(no_currency_FV, "esl/economics/currencies.hpp: currency_name (codes without a currency from FV)", (), require(is(currency('F', 'V', 'A'), "", "FVA")); require(is(currency('F', 'V', 'B'), "", "FVB")); require(is(currency('F', 'V', 'C'), "", "FVC")); require(is(currency('F', 'V', 'D'), "", "FVD")); require(is(currency('F', 'V', 'E'), "", "FVE")); require(is(currency('F', 'V', 'F'), "", "FVF")); require(is(currency('F', 'V', 'G'), "", "FVG")); require(is(currency('F', 'V', 'H'), "", "FVH")); require(is(currency('F', 'V', 'I'), "", "FVI")); require(is(currency('F', 'V', 'J'), "", "FVJ")); require(is(currency('F', 'V', 'K'), "", "FVK")); require(is(currency('F', 'V', 'L'), "", "FVL")); require(is(currency('F', 'V', 'M'), "", "FVM")); require(is(currency('F', 'V', 'N'), "", "FVN")); require(is(currency('F', 'V', 'O'), "", "FVO")); require(is(currency('F', 'V', 'P'), "", "FVP")); require(is(currency('F', 'V', 'Q'), "", "FVQ")); require(is(currency('F', 'V', 'R'), "", "FVR")); require(is(currency('F', 'V', 'S'), "", "FVS")); require(is(currency('F', 'V', 'T'), "", "FVT")); require(is(currency('F', 'V', 'U'), "", "FVU")); require(is(currency('F', 'V', 'V'), "", "FVV")); require(is(currency('F', 'V', 'W'), "", "FVW")); require(is(currency('F', 'V', 'X'), "", "FVX")); require(is(currency('F', 'V', 'Y'), "", "FVY")); require(is(currency('F', 'V', 'Z'), "", "FVZ"));)
OBLIGATION(no_currency_FW, "esl/economics/currencies.hpp: currency_name (codes without a currency from FW)", (), require(is(currency('F', 'W', 'A'), "", "FWA")); require(is(currency('F', 'W', 'B'), "", "FWB")); require(is(currency('F', 'W', 'C'), "", "FWC")); require(is(currency('F', 'W', 'D'), "", "FWD")); require(is(currency('F', 'W', 'E'), "", "FWE")); require(is(currency('F', 'W', 'F'), "", "FWF")); require(is(currency('F', 'W', 'G'), "", "FWG")); require(is(currency('F', 'W', 'H'), "", "FWH")); require(is(currency('F', 'W', 'I'), "", "FWI")); require(is(currency('F', 'W', 'J'), "", "FWJ")); require(is(currency('F', 'W', 'K'), "", "FWK")); require(is(currency('F', 'W', 'L'), "", "FWL")); require(is(currency('F', 'W', 'M'), "", "FWM")); require(is(currency('F', 'W', 'N'), "", "FWN")); require(is(currency('F', 'W', 'O'), "", "FWO")); require(is(currency('F', 'W', 'P'), "", "FWP")); require(is(currency('F', 'W', 'Q'), "", "FWQ")); require(is(currency('F', 'W', 'R'), "", "FWR")); require(is(currency('F', 'W', 'S'), "", "FWS")); require(is(currency('F', 'W', 'T'), "", "FWT")); require(is(currency('F', 'W', 'U'), "", "FWU")); require(is(currency('F', 'W', 'V'), "", "FWV")); require(is(currency('F', 'W', 'W'), "", "FWW")); require(is(currency('F', 'W', 'X'), "", "FWX")); require(is(currency('F', 'W', 'Y'), "", "FWY")); require(is(currency('F', 'W', 'Z'), "", "FWZ"));)
OBLIGATION(no_currency_FX, "esl/economics/currencies.hpp: currency_name (codes without a currency from FX)", (), require(is(currency('F', 'X', 'A'), "", "FXA")); require(is(currency('F', 'X', 'B'), "", "FXB")); require(is(currency('F', 'X', 'C'), "", "FXC")); require(is(currency('F', 'X', 'D'), "", "FXD")); require(is(currency('F', 'X', 'E'), "", "FXE")); require(is(currency('F', 'X', 'F'), "", "FXF")); require(is(currency('F', 'X', 'G'), "", "FXG")); require(is(currency('F', 'X', 'H'), "", "FXH")); require(is(currency('F', 'X', 'I'), "", "FXI")); require(is(currency('F', 'X', 'J'), "", "FXJ")); require(is(currency('F', 'X', 'K'), "", "FXK")); require(is(currency('F', 'X', 'L'), "", "FXL")); require(is(currency('F', 'X', 'M'), "", "FXM")); require(is(currency('F', 'X', 'N'), "", "FXN")); require(is(currency('F', 'X', 'O'), "", "FXO")); require(is(currency('F', 'X', 'P'), "", "FXP")); require(is(currency('F', 'X', 'Q'), "", "FXQ")); require(is(currency('F', 'X', 'R'), "", "FXR")); require(is(currency('F', 'X', 'S'), "", "FXS")); require(is(currency('F', 'X', 'T'), "", "FXT")); require(is(currency('F', 'X', 'U'), "", "FXU")); require(is(currency('F', 'X', 'V'), "", "FXV")); require(is(currency('F', 'X', 'W'), "", "FXW")); require(is(currency('F', 'X', 'X'), "", "FXX")); require(is(currency('F', 'X', 'Y'), "", "FXY")); require(is(currency('F', 'X', 'Z'), "", "FXZ"));)
OBLIGATION(no_currency_FY, "esl/economics/currencies.hpp: currency_name (codes without a currency from FY)", (), require(is(currency('F', 'Y', 'A'), "", "FYA")); require(is(currency('F', 'Y', 'B'), "", "FYB")); require(is(currency('F', 'Y', 'C'), "", "FYC")); require(is(currency('F', 'Y', 'D'), "", "FYD")); require(is(currency('F', 'Y', 'E'), "", "FYE")); require(is(currency('F', 'Y', 'F'), "", "FYF")); require(is(currency('F', 'Y', 'G'), "", "FYG")); require(is(currency('F', 'Y', 'H'), "", "FYH")); require(is(currency('F', 'Y', 'I'), "", "FYI")); require(is(currency('F', 'Y', 'J'), "", "FYJ")); require(is(currency('F', 'Y', 'K'), "", "FYK")); require(is(currency('F', 'Y', 'L'), "", "FYL")); require(is(currency('F', 'Y', 'M'), "", "FYM")); require(is(currency('F', 'Y', 'N'), "", "FYN")); require(is(currency('F', 'Y', 'O'), "", "FYO")); require(is(currency('F', 'Y', 'P'), "", "FYP")); require(is(currency('F', 'Y', 'Q'), "", "FYQ")); require(is(currency('F', 'Y', 'R'), "", "FYR")); require(is(currency('F', 'Y', 'S'), "", "FYS")); require(is(currency('F', 'Y', 'T'), "", "FYT")); require(is(currency('F', 'Y', 'U'), "", "FYU")); require(is(currency('F', 'Y', 'V'), "", "FYV")); require(is(currency('F', 'Y', 'W'), "", "FYW")); require(is(currency('F', 'Y', 'X'), "", "FYX")); require(is(currency('F', 'Y', 'Y'), "", "FYY")); require(is(currency('F', 'Y', 'Z'), "", "FYZ"));)
OBLIGATION(no_currency_FZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from FZ)", (), require(is(currency('F', 'Z', 'A'), "", "FZA")); require(is(currency('F', 'Z', 'B'), "", "FZB")); require(is(currency('F', 'Z', 'C'), "", "FZC")); require(is(currency('F', 'Z', 'D'), "", "FZD")); require(is(currency('F', 'Z', 'E'), "", "FZE")); require(is(currency('F', 'Z', 'F'), "", "FZF")); require(is(currency('F', 'Z', 'G'), "", "FZG")); require(is(currency('F', 'Z', 'H'), "", "FZH")); require(is(currency('F', 'Z', 'I'), "", "FZI")); require(is(currency('F', 'Z', 'J'), "", "FZJ")); require(is(currency('F', 'Z', 'K'), "", "FZK")); require(is(currency('F', 'Z', 'L'), "", "FZL")); require(is(currency('F', 'Z', 'M'), "", "FZM")); require(is(currency('F', 'Z', 'N'), "", "FZN")); require(is(currency('F', 'Z', 'O'), "", "FZO")); require(is(currency('F', 'Z', 'P'), "", "FZP")); require(is(currency('F', 'Z', 'Q'), "", "FZQ")); require(is(currency('F', 'Z', 'R'), "", "FZR")); require(is(currency('F', 'Z', 'S'), "", "FZS")); require(is(currency('F', 'Z', 'T'), "", "FZT")); require(is(currency('F', 'Z', 'U'), "", "FZU")); require(is(currency('F', 'Z', 'V'), "", "FZV")); require(is(currency('F', 'Z', 'W'), "", "FZW")); require(is(currency('F', 'Z', 'X'), "", "FZX")); require(is(currency('F', 'Z', 'Y'), "", "FZY")); require(is(currency('F', 'Z', 'Z'), "", "FZZ"));)
OBLIGATION(no_currency_GA, "esl/economics/currencies.hpp: currency_name (codes without a currency from GA)", (), require(is(currency('G', 'A', 'A'), "", "GAA")); require(is(currency('G', 'A', 'B'), "", "GAB")); require(is(currency('G', 'A', 'C'), "", "GAC")); require(is(currency('G', 'A', 'D'), "", "GAD")); require(is(currency('G', 'A', 'E'), "", "GAE")); require(is(currency('G', 'A', 'F'), "", "GAF")); require(is(currency('G', 'A', 'G'), "", "GAG")); require(is(currency('G', 'A', 'H'), "", "GAH")); require(is(currency('G', 'A', 'I'), "", "GAI")); require(is(currency('G', 'A', 'J'), "", "GAJ")); require(is(currency('G', 'A', 'K'), "", "GAK")); require(is(currency('G', 'A', 'L'), "", "GAL")); require(is(currency('G', 'A', 'M'), "", "GAM")); require(is(currency('G', 'A', 'N'), "", "GAN")); require(is(currency('G', 'A', 'O'), "", "GAO")); require(is(currency('G', 'A', 'P'), "", "GAP")); require(is(currency('G', 'A', 'Q'), "", "GAQ")); require(is(currency('G', 'A', 'R'), "", "GAR")); require(is(currency('G', 'A', 'S'), "", "GAS")); require(is(currency('G', 'A', 'T'), "", "GAT")); require(is(currency('G', 'A', 'U'), "", "GAU")); require(is(currency('G', 'A', 'V'), "", "GAV")); require(is(currency('G', 'A', 'W'), "", "GAW")); require(is(currency('G', 'A', 'X'), "", "GAX")); require(is(currency('G', 'A', 'Y'), "", "GAY")); require(is(currency('G', 'A', 'Z'), "", "GAZ"));)
OBLIGATION(no_currency_GB, "esl/economics/currencies.hpp: currency_name (codes without a currency from GB)", (), require(is(currency('G', 'B', 'A'), "", "GBA")); require(is(currency('G', 'B', 'B'), "", "GBB")); require(is(currency('G', 'B', 'C'), "", "GBC")); require(is(currency('G', 'B', 'D'), "", "GBD")); require(is(currency('G', 'B', 'E'), "", "GBE")); require(is(currency('G', 'B', 'F'), "", "GBF")); require(is(currency('G', 'B', 'G'), "", "GBG")); require(is(currency('G', 'B', 'H'), "", "GBH")); require(is(currency('G', 'B', 'I'), "", "GBI")); require(is(currency('G', 'B', 'J'), "", "GBJ")); require(is(currency('G', 'B', 'K'), "", "GBK")); require(is(currency('G', 'B', 'L'), "", "GBL")); require(is(currency('G', 'B', 'M'), "", "GBM")); require(is(currency('G', 'B', 'N'), "", "GBN")); require(is(currency('G', 'B', 'O'), "", "GBO")); require(is(currency('G', 'B', 'Q'), "", "GBQ")); require(is(currency('G', 'B', 'R'), "", "GBR")); require(is(currency('G', 'B', 'S'), "", "GBS")); require(is(currency('G', 'B', 'T'), "", "GBT")); require(is(currency('G', 'B', 'U'), "", "GBU")); require(is(currency('G', 'B', 'V'), "", "GBV")); require(is(currency('G', 'B', 'W'), "", "GBW")); require(is(currency('G', 'B', 'X'), "", "GBX")); require(is(currency('G', 'B', 'Y'), "", "GBY")); require(is(currency('G', 'B', 'Z'), "", "GBZ"));)
OBLIGATION(no_currency_GC, "esl/economics/currencies.hpp: currency_name (codes without a currency from GC)", (), require(is(currency('G', 'C', 'A'), "", "GCA")); require(is(currency('G', 'C', 'B'), "", "GCB")); require(is(currency('G', 'C', 'C'), "", "GCC")); require(is(currency('G', 'C', 'D'), "", "GCD")); require(is(currency('G', 'C', 'E'), "", "GCE")); require(is(currency('G', 'C', 'F'), "", "GCF")); require(is(currency('G', 'C', 'G'), "", "GCG")); require(is(currency('G', 'C', 'H'), "", "GCH")); require(is(currency('G', 'C', 'I'), "", "GCI")); require(is(currency('G', 'C', 'J'), "", "GCJ")); require(is(currency('G', 'C', 'K'), "", "GCK")); require(is(currency('G', 'C', 'L'), "", "GCL")); require(is(currency('G', 'C', 'M'), "", "GCM")); require(is(currency('G', 'C', 'N'), "", "GCN")); require(is(currency('G', 'C', 'O'), "", "GCO")); require(is(currency('G', 'C', 'P'), "", "GCP")); require(is(currency('G', 'C', 'Q'), "", "GCQ")); require(is(currency('G', 'C', 'R'), "", "GCR")); require(is(currency('G', 'C', 'S'), "", "GCS")); require(is(currency('G', 'C', 'T'), "", "GCT")); require(is(currency('G', 'C', 'U'), "", "GCU")); require(is(currency('G', 'C', 'V'), "", "GCV")); require(is(currency('G', 'C', 'W'), "", "GCW")); require(is(currency('G', 'C', 'X'), "", "GCX")); require(is(currency('G', 'C', 'Y'), "", "GCY")); require(is(currency('G', 'C', 'Z'), "", "GCZ"));)
OBLIGATION(no_currency_GD, "esl/economics/currencies.hpp: currency_name (codes without a currency from GD)", (), require(is(currency('G', 'D', 'A'), "", "GDA")); require(is(currency('G', 'D', 'B'), "", "GDB")); require(is(currency('G', 'D', 'C'), "", "GDC")); require(is(currency('G', 'D', 'D'), "", "GDD")); require(is(currency('G', 'D', 'E'), "", "GDE")); require(is(currency('G', 'D', 'F'), "", "GDF")); require(is(currency('G', 'D', 'G'), "", "GDG")); require(is(currency('G', 'D', 'H'), "", "GDH")); require(is(currency('G', 'D', 'I'), "", "GDI")); require(is(currency('G', 'D', 'J'), "", "GDJ")); require(is(currency('G', 'D', 'K'), "", "GDK")); require(is(currency('G', 'D', 'L'), "", "GDL")); require(is(currency('G', 'D', 'M'), "", "GDM")); require(is(currency('G', 'D', 'N'), "", "GDN")); require(is(currency('G', 'D', 'O'), "", "GDO")); require(is(currency('G', 'D', 'P'), "", "GDP")); require(is(currency('G', 'D', 'Q'), "", "GDQ")); require(is(currency('G', 'D', 'R'), "", "GDR")); require(is(currency('G', 'D', 'S'), "", "GDS")); require(is(currency('G', 'D', 'T'), "", "GDT")); require(is(currency('G', 'D', 'U'), "", "GDU")); require(is(currency('G', 'D', 'V'), "", "GDV")); require(is(currency('G', 'D', 'W'), "", "GDW")); require(is(currency('G', 'D', 'X'), "", "GDX")); require(is(currency('G', 'D', 'Y'), "", "GDY")); require(is(currency('G', 'D', 'Z'), "", "GDZ"));)
OBLIGATION(no_currency_GE, "esl/economics/currencies.hpp: currency_name (codes without a currency from GE)", (), require(is(currency('G', 'E', 'A'), "", "GEA")); require(is(currency('G', 'E', 'B'), "", "GEB")); require(is(currency('G', 'E', 'C'), "", "GEC")); require(is(currency('G', 'E', 'D'), "", "GED")); require(is(currency('G', 'E', 'E'), "", "GEE")); require(is(currency('G', 'E', 'F'), "", "GEF")); require(is(currency('G', 'E', 'G'), "", "GEG")); require(is(currency('G', 'E', 'H'), "", "GEH")); require(is(currency('G', 'E', 'I'), "", "GEI")); require(is(currency('G', 'E', 'J'), "", "GEJ")); require(is(currency('G', 'E', 'K'), "", "GEK")); require(is(currency('G', 'E', 'M'), "", "GEM")); require(is(currency('G', 'E', 'N'), "", "GEN")); require(is(currency('G', 'E', 'O'), "", "GEO")); require(is(currency('G', 'E', 'P'), "", "GEP")); require(is(currency('G', 'E', 'Q'), "", "GEQ")); require(is(currency('G', 'E', 'R'), "", "GER")); require(is(currency('G', 'E', 'S'), "", "GES")); require(is(currency('G', 'E', 'T'), "", "GET")); require(is(currency('G', 'E', 'U'), "", "GEU")); require(is(currency('G', 'E', 'V'), "", "GEV")); require(is(currency('G', 'E', 'W'), "", "GEW")); require(is(currency('G', 'E', 'X'), "", "GEX")); require(is(currency('G', 'E', 'Y'), "", "GEY")); require(is(currency('G', 'E', 'Z'), "", "GEZ"));)
OBLIGATION(no_currency_GF, "esl/economics/currencies.hpp: currency_name (codes without a currency from GF)", (), require(is(currency('G', 'F', 'A'), "", "GFA")); require(is(currency('G', 'F', 'B'), "", "GFB")); require(is(currency('G', 'F', 'C'), "", "GFC")); require(is(currency('G', 'F', 'D'), "", "GFD")); require(is(currency('G', 'F', 'E'), "", "GFE")); require(is(currency('G', 'F', 'F'), "", "GFF")); require(is(currency('G', 'F', 'G'), "", "GFG")); require(is(currency('G', 'F', 'H'), "", "GFH")); require(is(currency('G', 'F', 'I'), "", "GFI")); require(is(currency('G', 'F', 'J'), "", "GFJ")); require(is(currency('G', 'F', 'K'), "", "GFK")); require(is(currency('G', 'F', 'L'), "", "GFL")); require(is(currency('G', 'F', 'M'), "", "GFM")); require(is(currency('G', 'F', 'N'), "", "GFN")); require(is(currency('G', 'F', 'O'), "", "GFO")); require(is(currency('G', 'F', 'P'), "", "GFP")); require(is(currency('G', 'F', 'Q'), "", "GFQ")); require(is(currency('G', 'F', 'R'), "", "GFR")); require(is(currency('G', 'F', 'S'), "", "GFS")); require(is(currency('G', 'F', 'T'), "", "GFT")); require(is(currency('G', 'F', 'U'), "", "GFU")); require(is(currency('G', 'F', 'V'), "", "GFV")); require(is(currency('G', 'F', 'W'), "", "GFW")); require(is(currency('G', 'F', 'X'), "", "GFX")); require(is(currency('G', 'F', 'Y'), "", "GFY")); require(is(currency('G', 'F', 'Z'), "", "GFZ"));)
OBLIGATION(no_currency_GG, "esl/economics/currencies.hpp: currency_name (codes without a currency from GG)", (), require(is(currency('G', 'G', 'A'), "", "GGA")); require(is(currency('G', 'G', 'B'), "", "GGB")); require(is(currency('G', 'G', 'C'), "", "GGC")); require(is(currency('G', 'G', 'D'), "", "GGD")); require(is(currency('G', 'G', 'E'), "", "GGE")); require(is(currency('G', 'G', 'F'), "", "GGF")); require(is(currency('G', 'G', 'G'), "", "GGG")); require(is(currency('G', 'G', 'H'), "", "GGH")); require(is(currency('G', 'G', 'I'), "", "GGI")); require(is(currency('G', 'G', 'J'), "", "GGJ")); require(is(currency('G', 'G', 'K'), "", "GGK")); require(is(currency('G', 'G', 'L'), "", "GGL")); require(is(currency('G', 'G', 'M'), "", "GGM")); require(is(currency('G', 'G', 'N'), "", "GGN")); require(is(currency('G', 'G', 'O'), "", "GGO")); require(is(currency('G', 'G', 'P'), "", "GGP")); require(is(currency('G', 'G', 'Q'), "", "GGQ")); require(is(currency('G', 'G', 'R'), "", "GGR")); require(is(currency('G', 'G', 'S'), "", "GGS")); require(is(currency('G', 'G', 'T'), "", "GGT")); require(is(currency('G', 'G', 'U'), "", "GGU")); require(is(currency('G', 'G', 'V'), "", "GGV")); require(is(currency('G', 'G', 'W'), "", "GGW")); require(is(currency('G', 'G', 'X'), "", "GGX")); require(is(currency('G', 'G', 'Y'), "", "GGY")); require(is(currency('G', 'G', 'Z'), "", "GGZ"));)
OBLIGATION(no_currency_GH, "esl/economics/currencies.hpp: currency_name (codes without a currency from GH)", (), require(is(currency('G', 'H', 'A'), "", "GHA")); require(is(currency('G', 'H', 'B'), "", "GHB")); require(is(currency('G', 'H', 'C'), "", "GHC")); require(is(currency('G', 'H', 'D'), "", "GHD")); require(is(currency('G', 'H', 'E'), "", "GHE")); require(is(currency('G', 'H', 'F'), "", "GHF")); require(is(currency('G', 'H', 'G'), "", "GHG")); require(is(currency('G', 'H', 'H'), "", "GHH")); require(is(currency('G', 'H', 'I'), "", "GHI")); require(is(currency('G', 'H', 'J'), "", "GHJ")); require(is(currency('G', 'H', 'K'), "", "GHK")); require(is(currency('G', 'H', 'L'), "", "GHL")); require(is(currency('G', 'H', 'M'), "", "GHM")); require(is(currency('G', 'H', 'N'), "", "GHN")); require(is(currency('G', 'H', 'O'), "", "GHO")); require(is(currency('G', 'H', 'P'), "", "GHP")); require(is(currency('G', 'H', 'Q'), "", "GHQ")); require(is(currency('G', 'H', 'R'), "", "GHR")); require(is(currency('G', 'H', 'T'), "", "GHT")); require(is(currency('G', 'H', 'U'), "", "GHU")); require(is(currency('G', 'H', 'V'), "", "GHV")); require(is(currency('G', 'H', 'W'), "", "GHW")); require(is(currency('G', 'H', 'X'), "", "GHX")); require(is(currency('G', 'H', 'Y'), "", "GHY")); require(is(currency('G', 'H', 'Z'), "", "GHZ"));)
OBLIGATION(no_currency_GI, "esl/economics/currencies.hpp: currency_name (codes without a currency from GI)", (), require(is(currency('G', 'I', 'A'), "", "GIA")); require(is(currency('G', 'I', 'B'), "", "GIB")); require(is(currency('G', 'I', 'C'), "", "GIC")); require(is(currency('G', 'I', 'D'), "", "GID")); require(is(currency('G', 'I', 'E'), "", "GIE")); require(is(currency('G', 'I', 'F'), "", "GIF")); require(is(currency('G', 'I', 'G'), "", "GIG")); require(is(currency('G', 'I', 'H'), "", "GIH")); require(is(currency('G', 'I', 'I'), "", "GII")); require(is(currency('G', 'I', 'J'), "", "GIJ")); require(is(currency('G', 'I', 'K'), "", "GIK")); require(is(currency('G', 'I', 'L'), "", "GIL")); require(is(currency('G', 'I', 'M'), "", "GIM")); require(is(currency('G', 'I', 'N'), "", "GIN")); require(is(currency('G', 'I', 'O'), "", "GIO")); require(is(currency('G', 'I', 'Q'), "", "GIQ")); require(is(currency('G', 'I', 'R'), "", "GIR")); require(is(currency('G', 'I', 'S'), "", "GIS")); require(is(currency('G', 'I', 'T'), "", "GIT")); require(is(currency('G', 'I', 'U'), "", "GIU")); require(is(currency('G', 'I', 'V'), "", "GIV")); require(is(currency('G', 'I', 'W'), "", "GIW")); require(is(currency('G', 'I', 'X'), "", "GIX")); require(is(currency('G', 'I', 'Y'), "", "GIY")); require(is(currency('G', 'I', 'Z'), "", "GIZ"));)
OBLIGATION(no_currency_GJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from GJ)", (), require(is(currency('G', 'J', 'A'), "", "GJA")); require(is(currency('G', 'J', 'B'), "", "GJB")); require(is(currency('G', 'J', 'C'), "", "GJC")); require(is(currency('G', 'J', 'D'), "", "GJD")); require(is(currency('G', 'J', 'E'), "", "GJE")); require(is(currency('G', 'J', 'F'), "", "GJF")); require(is(currency('G', 'J', 'G'), "", "GJG")); require(is(currency('G', 'J', 'H'), "", "GJH")); require(is(currency('G', 'J', 'I'), "", "GJI")); require(is(currency('G', 'J', 'J'), "", "GJJ")); require(is(currency('G', 'J', 'K'), "", "GJK")); require(is(currency('G', 'J', 'L'), "", "GJL")); require(is(currency('G', 'J', 'M'), "", "GJM")); require(is(currency('G', 'J', 'N'), "", "GJN")); require(is(currency('G', 'J', 'O'), "", "GJO")); require(is(currency('G', 'J', 'P'), "", "GJP")); require(is(currency('G', 'J', 'Q'), "", "GJQ")); require(is(currency('G', 'J', 'R'), "", "GJR")); require(is(currency('G', 'J', 'S'), "", "GJS")); require(is(currency('G', 'J', 'T'), "", "GJT")); require(is(currency('G', 'J', 'U'), "", "GJU")); require(is(currency('G', 'J', 'V'), "", "GJV")); require(is(currency('G', 'J', 'W'), "", "GJW")); require(is(currency('G', 'J', 'X'), "", "GJX")); require(is(currency('G', 'J', 'Y'), "", "GJY")); require(is(currency('G', 'J', 'Z'), "", "GJZ"));)
OBLIGATION(no_currency_GK, "esl/economics/currencies.hpp: currency_name (codes without a currency from GK)", (), require(is(currency('G', 'K', 'A'), "", "GKA")); require(is(currency('G', 'K', 'B'), "", "GKB")); require(is(currency('G', 'K', 'C'), "", "GKC")); require(is(currency('G', 'K', 'D'), "", "GKD")); require(is(currency('G', 'K', 'E'), "", "GKE")); require(is(currency('G', 'K', 'F'), "", "GKF")); require(is(currency('G', 'K', 'G'), "", "GKG")); require(is(currency('G', 'K', 'H'), "", "GKH")); require(is(currency('G', 'K', 'I'), "", "GKI")); require(is(currency('G', 'K', 'J'), "", "GKJ")); require(is(currency('G', 'K', 'K'), "", "GKK")); require(is(currency('G', 'K', 'L'), "", "GKL")); require(is(currency('G', 'K', 'M'), "", "GKM")); require(is(currency('G', 'K', 'N'), "", "GKN")); require(is(currency('G', 'K', 'O'), "", "GKO")); require(is(currency('G', 'K', 'P'), "", "GKP")); require(is(currency('G', 'K', 'Q'), "", "GKQ")); require(is(currency('G', 'K', 'R'), "", "GKR")); require(is(currency('G', 'K', 'S'), "", "GKS")); require(is(currency('G', 'K', 'T'), "", "GKT")); require(is(currency('G', 'K', 'U'), "", "GKU")); require(is(currency('G', 'K', 'V'), "", "GKV")); require(is(currency('G', 'K', 'W'), "", "GKW")); require(is(currency('G', 'K', 'X'), "", "GKX")); require(is(currency('G', 'K', 'Y'), "", "GKY")); require(is(currency('G', 'K', 'Z'), "", "GKZ"));)
OBLIGATION(no_currency_GL, "esl/economics/currencies.hpp: currency_name (codes without a currency from GL)", (), require(is(currency('G', 'L', 'A'), "", "GLA")); require(is(currency('G', 'L', 'B'), "", "GLB")); require(is(currency('G', 'L', 'C'), "", "GLC")); require(is(currency('G', 'L', 'D'), "", "GLD")); require(is(currency('G', 'L', 'E'), "", "GLE")); require(is(currency('G', 'L', 'F'), "", "GLF")); require(is(currency('G', 'L', 'G'), "", "GLG")); require(is(currency('G', 'L', 'H'), "", "GLH")); require(is(currency('G', 'L', 'I'), "", "GLI")); require(is(currency('G', 'L', 'J'), "", "GLJ")); require(is(currency('G', 'L', 'K'), "", "GLK")); require(is(currency('G', 'L', 'L'), "", "GLL")); require(is(currency('G', 'L', 'M'), "", "GLM")); require(is(currency('G', 'L', 'N'), "", "GLN")); require(is(currency('G', 'L', 'O'), "", "GLO")); require(is(currency('G', 'L', 'P'), "", "GLP")); require(is(currency('G', 'L', 'Q'), "", "GLQ")); require(is(currency('G', 'L', 'R'), "", "GLR")); require(is(currency('G', 'L', 'S'), "", "GLS")); require(is(currency('G', 'L', 'T'), "", "GLT")); require(is(currency('G', 'L', 'U'), "", "GLU")); require(is(currency('G', 'L', 'V'), "", "GLV")); require(is(currency('G', 'L', 'W'), "", "GLW")); require(is(currency('G', 'L', 'X'), "", "GLX")); require(is(currency('G', 'L', 'Y'), "", "GLY")); require(is(currency('G', 'L', 'Z'), "", "GLZ"));)
OBLIGATION(no_currency_GM, "esl/economics/currencies.hpp: currency_name (codes without a currency from GM)", (), require(is(currency('G', 'M', 'A'), "", "GMA")); require(is(currency('G', 'M', 'B'), "", "GMB")); require(is(currency('G', 'M', 'C'), "", "GMC")); require(is(currency('G', 'M', 'E'), "", "GME")); require(is(currency('G', 'M', 'F'), "", "GMF")); require(is(currency('G', 'M', 'G'), "", "GMG")); require(is(currency('G', 'M', 'H'), "", "GMH")); require(is(currency('G', 'M', 'I'), "", "GMI")); require(is(currency('G', 'M', 'J'), "", "GMJ")); require(is(currency('G', 'M', 'K'), "", "GMK")); require(is(currency('G', 'M', 'L'), "", "GML")); require(is(currency('G', 'M', 'M'), "", "GMM")); require(is(currency('G', 'M', 'N'), "", "GMN")); require(is(currency('G', 'M', 'O'), "", "GMO")); require(is(currency('G', 'M', 'P'), "", "GMP")); require(is(currency('G', 'M', 'Q'), "", "GMQ")); require(is(currency('G', 'M', 'R'), "", "GMR")); require(is(currency('G', 'M', 'S'), "", "GMS")); require(is(currency('G', 'M', 'T'), "", "GMT")); require(is(currency('G', 'M', 'U'), "", "GMU")); require(is(currency('G', 'M', 'V'), "", "GMV")); require(is(currency('G', 'M', 'W'), "", "GMW")); require(is(currency('G', 'M', 'X'), "", "GMX")); require(is(currency('G', 'M', 'Y'), "", "GMY")); require(is(currency('G', 'M', 'Z'), "", "GMZ"));)
OBLIGATION(no_currency_GN, "esl/economics/currencies.hpp: currency_name (codes without a currency from GN)", (), require(is(currency('G', 'N', 'A'), "", "GNA")); require(is(currency('G', 'N', 'B'), "", "GNB")); require(is(currency('G', 'N', 'C'), "", "GNC")); require(is(currency('G', 'N', 'D'), "", "GND")); require(is(currency('G', 'N', 'E'), "", "GNE")); require(is(currency('G', 'N', 'G'), "", "GNG")); require(is(currency('G', 'N', 'H'), "", "GNH")); require(is(currency('G', 'N', 'I'), "", "GNI")); require(is(currency('G', 'N', 'J'), "", "GNJ")); require(is(currency('G', 'N', 'K'), "", "GNK")); require(is(currency('G', 'N', 'L'), "", "GNL")); require(is(currency('G', 'N', 'M'), "", "GNM")); require(is(currency('G', 'N', 'N'), "", "GNN")); require(is(currency('G', 'N', 'O'), "", "GNO")); require(is(currency('G', 'N', 'P'), "", "GNP")); require(is(currency('G', 'N', 'Q'), "", "GNQ")); require(is(currency('G', 'N', 'R'), "", "GNR")); require(is(currency('G', 'N', 'S'), "", "GNS")); require(is(currency('G', 'N', 'T'), "", "GNT")); require(is(currency('G', 'N', 'U'), "", "GNU")); require(is(currency('G', 'N', 'V'), "", "GNV")); require(is(currency('G', 'N', 'W'), "", "GNW")); require(is(currency('G', 'N', 'X'), "", "GNX")); require(is(currency('G', 'N', 'Y'), "", "GNY")); require(is(currency('G', 'N', 'Z'), "", "GNZ"));)
OBLIGATION(no_currency_GO, "esl/economics/currencies.hpp: currency_name (codes without a currency from GO)", (), require(is(currency('G', 'O', 'A'), "", "GOA")); require(is(currency('G', 'O', 'B'), "", "GOB")); require(is(currency('G', 'O', 'C'), "", "GOC")); require(is(currency('G', 'O', 'D'), "", "GOD")); require(is(currency('G', 'O', 'E'), "", "GOE")); require(is(currency('G', 'O', 'F'), "", "GOF")); require(is(currency('G', 'O', 'G'), "", "GOG")); require(is(currency('G', 'O', 'H'), "", "GOH")); require(is(currency('G', 'O', 'I'), "", "GOI")); require(is(currency('G', 'O', 'J'), "", "GOJ")); require(is(currency('G', 'O', 'K'), "", "GOK")); require(is(currency('G', 'O', 'L'), "", "GOL")); require(is(currency('G', 'O', 'M'), "", "GOM")); require(is(currency('G', 'O', 'N'), "", "GON")); require(is(currency('G', 'O', 'O'), "", "GOO")); require(is(currency('G', 'O', 'P'), "", "GOP")); require(is(currency('G', 'O', 'Q'), "", "GOQ")); require(is(currency('G', 'O', 'R'), "", "GOR")); require(is(currency('G', 'O', 'S'), "", "GOS")); require(is(currency('G', 'O', 'T'), "", "GOT")); require(is(currency('G', 'O', 'U'), "", "GOU")); require(is(currency('G', 'O', 'V'), "", "GOV")); require(is(currency('G', 'O', 'W'), "", "GOW")); require(is(currency('G', 'O', 'X'), "", "GOX")); require(is(currency('G', 'O', 'Y'), "", "GOY")); require(is(currency('G', 'O', 'Z'), "", "GOZ"));)
OBLIGATION(no_currency_GP, "esl/economics/currencies.hpp: currency_name (codes without a currency from GP)", (), require(is(currency('G', 'P', 'A'), "", "GPA")); require(is(currency('G', 'P', 'B'), "", "GPB")); require(is(currency('G', 'P', 'C'), "", "GPC")); require(is(currency('G', 'P', 'D'), "", "GPD")); require(is(currency('G', 'P', 'E'), "", "GPE")); require(is(currency('G', 'P', 'F'), "", "GPF")); require(is(currency('G', 'P', 'G'), "", "GPG")); require(is(currency('G', 'P', 'H'), "", "GPH")); require(is(currency('G', 'P', 'I'), "", "GPI")); require(is(currency('G', 'P', 'J'), "", "GPJ")); require(is(currency('G', 'P', 'K'), "", "GPK")); require(is(currency('G', 'P', 'L'), "", "GPL")); require(is(currency('G', 'P', 'M'), "", "GPM")); require(is(currency('G', 'P', 'N'), "", "GPN")); require(is(currency('G', 'P', 'O'), "", "GPO")); require(is(currency('G', 'P', 'P'), "", "GPP")); require(is(currency('G', 'P', 'Q'), "", "GPQ")); require(is(currency('G', 'P', 'R'), "", "GPR")); require(is(currency('G', 'P', 'S'), "", "GPS")); require(is(currency('G', 'P', 'T'), "", "GPT")); require(is(currency('G', 'P', 'U'), "", "GPU")); require(is(currency('G', 'P', 'V'), "", "GPV")); require(is(currency('G', 'P', 'W'), "", "GPW")); require(is(currency('G', 'P', 'X'), "", "GPX")); require(is(currency('G', 'P', 'Y'), "", "GPY")); require(is(currency('G', 'P', 'Z'), "", "GPZ"));)
OBLIGATION(no_currency_GQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from GQ)", (), require(is(currency('G', 'Q', 'A'), "", "GQA")); require(is(currency('G', 'Q', 'B'), "", "GQB")); require(is(currency('G', 'Q', 'C'), "", "GQC")); require(is(currency('G', 'Q', 'D'), "", "GQD")); require(is(currency('G', 'Q', 'E'), "", "GQE")); require(is(currency('G', 'Q', 'F'), "", "GQF")); require(is(currency('G', 'Q', 'G'), "", "GQG")); require(is(currency('G', 'Q', 'H'), "", "GQH")); require(is(currency('G', 'Q', 'I'), "", "GQI")); require(is(currency('G', 'Q', 'J'), "", "GQJ")); require(is(currency('G', 'Q', 'K'), "", "GQK")); require(is(currency('G', 'Q', 'L'), "", "GQL")); require(is(currency('G', 'Q', 'M'), "", "GQM")); require(is(currency('G', 'Q', 'N'), "", "GQN")); require(is(currency('G', 'Q', 'O'), "", "GQO")); require(is(currency('G', 'Q', 'P'), "", "GQP")); require(is(currency('G', 'Q', 'Q'), "", "GQQ")); require(is(currency('G', 'Q', 'R'), "", "GQR")); require(is(currency('G', 'Q', 'S'), "", "GQS")); require(is(currency('G', 'Q', 'T'), "", "GQT")); require(is(currency('G', 'Q', 'U'), "", "GQU")); require(is(currency('G', 'Q', 'V'), "", "GQV")); require(is(currency('G', 'Q', 'W'), "", "GQW")); require(is(currency('G', 'Q', 'X'), "", "GQX")); require(is(currency('G', 'Q', 'Y'), "", "GQY")); require(is(currency('G', 'Q', 'Z'), "", "GQZ"));)
OBLIGATION(no_currency_GR, "esl/economics/currencies.hpp: currency_name (codes without a currency from GR)", (), require(is(currency('G', 'R', 'A'), "", "GRA")); require(is(currency('G', 'R', 'B'), "", "GRB")); require(is(currency('G', 'R', 'C'), "", "GRC")); require(is(currency('G', 'R', 'D'), "", "GRD")); require(is(currency('G', 'R', 'E'), "", "GRE")); require(is(currency('G', 'R', 'F'), "", "GRF")); require(is(currency('G', 'R', 'G'), "", "GRG")); require(is(currency('G', 'R', 'H'), "", "GRH")); require(is(currency('G', 'R', 'I'), "", "GRI")); require(is(currency('G', 'R', 'J'), "", "GRJ")); require(is(currency('G', 'R', 'K'), "", "GRK")); require(is(currency('G', 'R', 'L'), "", "GRL")); require(is(currency('G', 'R', 'M'), "", "GRM")); require(is(currency('G', 'R', 'N'), "", "GRN")); require(is(currency('G', 'R', 'O'), "", "GRO")); require(is(currency('G', 'R', 'P'), "", "GRP")); require(is(currency('G', 'R', 'Q'), "", "GRQ")); require(is(currency('G', 'R', 'R'), "", "GRR")); require(is(currency('G', 'R', 'S'), "", "GRS")); require(is(currency('G', 'R', 'T'), "", "GRT")); require(is(currency('G', 'R', 'U'), "", "GRU")); require(is(currency('G', 'R', 'V'), "", "GRV")); require(is(currency('G', 'R', 'W'), "", "GRW")); require(is(currency('G', 'R', 'X'), "", "GRX")); require(is(currency('G', 'R', 'Y'), "", "GRY")); require(is(currency('G', 'R', 'Z'), "", "GRZ"));)
OBLIGATION(no_currency_GS, "esl/economics/currencies.hpp: currency_name (codes without a currency from GS)", (), require(is(currency('G', 'S', 'A'), "", "GSA")); require(is(currency('G', 'S', 'B'), "", "GSB")); require(is(currency('G', 'S', 'C'), "", "GSC")); require(is(currency('G', 'S', 'D'), "", "GSD")); require(is(currency('G', 'S', 'E'), "", "GSE")); require(is(currency('G', 'S', 'F'), "", "GSF")); require(is(currency('G', 'S', 'G'), "", "GSG")); require(is(currency('G', 'S', 'H'), "", "GSH")); require(is(currency('G', 'S', 'I'), "", "GSI")); require(is(currency('G', 'S', 'J'), "", "GSJ")); require(is(currency('G', 'S', 'K'), "", "GSK")); require(is(currency('G', 'S', 'L'), "", "GSL")); require(is(currency('G', 'S', 'M'), "", "GSM")); require(is(currency('G', 'S', 'N'), "", "GSN")); require(is(currency('G', 'S', 'O'), "", "GSO")); require(is(currency('G', 'S', 'P'), "", "GSP")); require(is(currency('G', 'S', 'Q'), "", "GSQ")); require(is(currency('G', 'S', 'R'), "", "GSR")); require(is(currency('G', 'S', 'S'), "", "GSS")); require(is(currency('G', 'S', 'T'), "", "GST")); require(is(currency('G', 'S', 'U'), "", "GSU")); require(is(currency('G', 'S', 'V'), "", "GSV")); require(is(currency('G', 'S', 'W'), "", "GSW")); require(is(currency('G', 'S', 'X'), "", "GSX")); require(is(currency('G', 'S', 'Y'), "", "GSY")); require(is(currency('G', 'S', 'Z'), "", "GSZ"));)
OBLIGATION(no_currency_GT, "esl/economics/currencies.hpp: currency_name (codes without a currency from GT)", (), require(is(currency('G', 'T', 'A'), "", "GTA")); require(is(currency('G', 'T', 'B'), "", "GTB")); require(is(currency('G', 'T', 'C'), "", "GTC")); require(is(currency('G', 'T', 'D'), "", "GTD")); require(is(currency('G', 'T', 'E'), "", "GTE")); require(is(currency('G', 'T', 'F'), "", "GTF")); require(is(currency('G', 'T', 'G'), "", "GTG")); require(is(currency('G', 'T', 'H'), "", "GTH")); require(is(currency('G', 'T', 'I'), "", "GTI")); require(is(currency('G', 'T', 'J'), "", "GTJ")); require(is(currency('G', 'T', 'K'), "", "GTK")); require(is(currency('G', 'T', 'L'), "", "GTL")); require(is(currency('G', 'T', 'M'), "", "GTM")); require(is(currency('G', 'T', 'N'), "", "GTN")); require(is(currency('G', 'T', 'O'), "", "GTO")); require(is(currency('G', 'T', 'P'), "", "GTP")); require(is(currency('G', 'T', 'R'), "", "GTR")); require(is(currency('G', 'T', 'S'), "", "GTS")); require(is(currency('G', 'T', 'T'), "", "GTT")); require(is(currency('G', 'T', 'U'), "", "GTU")); require(is(currency('G', 'T', 'V'), "", "GTV")); require(is(currency('G', 'T', 'W'), "", "GTW")); require(is(currency('G', 'T', 'X'), "", "GTX")); require(is(currency('G', 'T', 'Y'), "", "GTY")); require(is(currency('G', 'T', 'Z'), "", "GTZ"));)
OBLIGATION(no_currency_GU, "esl/economics/currencies.hpp: currency_name (codes without a currency from GU)", (), require(is(currency('G', 'U', 'A'), "", "GUA")); require(is(currency('G', 'U', 'B'), "", "GUB")); require(is(currency('G', 'U', 'C'), "", "GUC")); require(is(currency('G', 'U', 'D'), "", "GUD")); require(is(currency('G', 'U', 'E'), "", "GUE")); require(is(currency('G', 'U', 'F'), "", "GUF")); require(is(currency('G', 'U', 'G'), "", "GUG")); require(is(currency('G', 'U', 'H'), "", "GUH")); require(is(currency('G', 'U', 'I'), "", "GUI")); require(is(currency('G', 'U', 'J'), "", "GUJ")); require(is(currency('G', 'U', 'K'), "", "GUK")); require(is(currency('G', 'U', 'L'), "", "GUL")); require(is(currency('G', 'U', 'M'), "", "GUM")); require(is(currency('G', 'U', 'N'), "", "GUN")); require(is(currency('G', 'U', 'O'), "", "GUO")); require(is(currency('G', 'U', 'P'), "", "GUP")); require(is(currency('G', 'U', 'Q'), "", "GUQ")); require(is(currency('G', 'U', 'R'), "", "GUR")); require(is(currency('G', 'U', 'S'), "", "GUS")); require(is(currency('G', 'U', 'T'), "", "GUT")); require(is(currency('G', 'U', 'U'), "", "GUU")); require(is(currency('G', 'U', 'V'), "", "GUV")); require(is(currency('G', 'U', 'W'), "", "GUW")); require(is(currency('G', 'U', 'X'), "", "GUX")); require(is(currency('G', 'U', 'Y'), "", "GUY")); require(is(currency('G', 'U', 'Z'), "", "GUZ"));)
OBLIGATION(no_currency_GV, "esl/economics/currencies.hpp: currency_name (codes without a currency from GV)", (), require(is(currency('G', 'V', 'A'), "", "GVA")); require(is(currency('G', 'V', 'B'), "", "GVB")); require(is(currency('G', 'V', 'C'), "", "GVC")); require(is(currency('G', 'V', 'D'), "", "GVD")); require(is(currency('G', 'V', 'E'), "", "GVE")); require(is(currency('G', 'V', 'F'), "", "GVF")); require(is(currency('G', 'V', 'G'), "", "GVG")); require(is(currency('G', 'V', 'H'), "", "GVH")); require(is(currency('G', 'V', 'I'), "", "GVI")); require(is(currency('G', 'V', 'J'), "", "GVJ")); require(is(currency('G', 'V', 'K'), "", "GVK")); require(is(currency('G', 'V', 'L'), "", "GVL")); require(is(currency('G', 'V', 'M'), "", "GVM")); require(is(currency('G', 'V', 'N'), "", "GVN")); require(is(currency('G', 'V', 'O'), "", "GVO")); require(is(currency('G', 'V', 'P'), "", "GVP")); require(is(currency('G', 'V', 'Q'), "", "GVQ")); require(is(currency('G', 'V', 'R'), "", "GVR")); require(is(currency('G', 'V', 'S'), "", "GVS")); require(is(currency('G', 'V', 'T'), "", "GVT")); require(is(currency('G', 'V', 'U'), "", "GVU")); require(is(currency('G', 'V', 'V'), "", "GVV")); require(is(currency('G', 'V', 'W'), "", "GVW")); require(is(currency('G', 'V', 'X'), "", "GVX")); require(is(currency('G', 'V', 'Y'), "", "GVY")); require(is(currency('G', 'V', 'Z'), "", "GVZ"));)
OBLIGATION(no_currency_GW, "esl/economics/currencies.hpp: currency_name (codes without a currency from GW)", (), require(is(currency('G', 'W', 'A'), "", "GWA")); require(is(currency('G', 'W', 'B'), "", "GWB")); require(is(currency('G', 'W', 'C'), "", "GWC")); require(is(currency('G', 'W', 'D'), "", "GWD")); require(is(currency('G', 'W', 'E'), "", "GWE")); require(is(currency('G', 'W', 'F'), "", "GWF")); require(is(currency('G', 'W', 'G'), "", "GWG")); require(is(currency('G', 'W', 'H'), "", "GWH")); require(is(currency('G', 'W', 'I'), "", "GWI")); require(is(currency('G', 'W', 'J'), "", "GWJ")); require(is(currency('G', 'W', 'K'), "", "GWK")); require(is(currency('G', 'W', 'L'), "", "GWL")); require(is(currency('G', 'W', 'M'), "", "GWM")); require(is(currency('G', 'W', 'N'), "", "GWN")); require(is(currency('G', 'W', 'O'), "", "GWO")); require(is(currency('G', 'W', 'P'), "", "GWP")); require(is(currency('G', 'W', 'Q'), "", "GWQ")); require(is(currency('G', 'W', 'R'), "", "GWR")); require(is(currency('G', 'W', 'S'), "", "GWS")); require(is(currency('G', 'W', 'T'), "", "GWT")); require(is(currency('G', 'W', 'U'), "", "GWU")); require(is(currency('G', 'W', 'V'), "", "GWV")); require(is(currency('G', 'W', 'W'), "", "GWW")); require(is(currency('G', 'W', 'X'), "", "GWX")); require(is(currency('G', 'W', 'Y'), "", "GWY")); require(is(currency('G', 'W', 'Z'), "", "GWZ"));)
OBLIGATION(no_currency_GX, "esl/economics/currencies.hpp: currency_name (codes without a currency from GX)", (), require(is(currency('G', 'X', 'A'), "", "GXA")); require(is(currency('G', 'X', 'B'), "", "GXB")); require(is(currency('G', 'X', 'C'), "", "GXC")); require(is(currency('G', 'X', 'D'), "", "GXD")); require(is(currency('G', 'X', 'E'), "", "GXE")); require(is(currency('G', 'X', 'F'), "", "GXF")); require(is(currency('G', 'X', 'G'), "", "GXG")); require(is(currency('G', 'X', 'H'), "", "GXH")); require(is(currency('G', 'X', 'I'), "", "GXI")); require(is(currency('G', 'X', 'J'), "", "GXJ")); require(is(currency('G', 'X', 'K'), "", "GXK")); require(is(currency('G', 'X', 'L'), "", "GXL")); require(is(currency('G', 'X', 'M'), "", "GXM")); require(is(currency('G', 'X', 'N'), "", "GXN")); require(is(currency('G', 'X', 'O'), "", "GXO")); require(is(currency('G', 'X', 'P'), "", "GXP")); require(is(currency('G', 'X', 'Q'), "", "GXQ")); require(is(currency('G', 'X', 'R'), "", "GXR")); require(is(currency('G', 'X', 'S'), "", "GXS")); require(is(currency('G', 'X', 'T'), "", "GXT")); require(is(currency('G', 'X', 'U'), "", "GXU")); require(is(currency('G', 'X', 'V'), "", "GXV")); require(is(currency('G', 'X', 'W'), "", "GXW")); require(is(currency('G', 'X', 'X'), "", "GXX")); require(is(currency('G', 'X', 'Y'), "", "GXY")); require(is(currency('G', 'X', 'Z'), "", "GXZ"));)
OBLIGATION(no_currency_GY, "esl/economics/currencies.hpp: currency_name (codes without a currency from GY)", (), require(is(currency('G', 'Y', 'A'), "", "GYA")); require(is(currency('G', 'Y', 'B'), "", "GYB")); require(is(currency('G', 'Y', 'C'), "", "GYC")); require(is(currency('G', 'Y', 'E'), "", "GYE")); require(is(currency('G', 'Y', 'F'), "", "GYF")); require(is(currency('G', 'Y', 'G'), "", "GYG")); require(is(currency('G', 'Y', 'H'), "", "GYH")); require(is(currency('G', 'Y', 'I'), "", "GYI")); require(is(currency('G', 'Y', 'J'), "", "GYJ")); require(is(currency('G', 'Y', 'K'), "", "GYK")); require(is(currency('G', 'Y', 'L'), "", "GYL")); require(is(currency('G', 'Y', 'M'), "", "GYM")); require(is(currency('G', 'Y', 'N'), "", "GYN")); require(is(currency('G', 'Y', 'O'), "", "GYO")); require(is(currency('G', 'Y', 'P'), "", "GYP")); require(is(currency('G', 'Y', 'Q'), "", "GYQ")); require(is(currency('G', 'Y', 'R'), "", "GYR")); require(is(currency('G', 'Y', 'S'), "", "GYS")); require(is(currency('G', 'Y', 'T'), "", "GYT")); require(is(currency('G', 'Y', 'U'), "", "GYU")); require(is(currency('G', 'Y', 'V'), "", "GYV")); require(is(currency('G', 'Y', 'W'), "", "GYW")); require(is(currency('G', 'Y', 'X'), "", "GYX")); require(is(currency('G', 'Y', 'Y'), "", "GYY")); require(is(currency('G', 'Y', 'Z'), "", "GYZ"));)
OBLIGATION(no_currency_GZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from GZ)", (), require(is(currency('G', 'Z', 'A'), "", "GZA")); require(is(currency('G', 'Z', 'B'), "", "GZB")); require(is(currency('G', 'Z', 'C'), "", "GZC")); require(is(currency('G', 'Z', 'D'), "", "GZD")); require(is(currency('G', 'Z', 'E'), "", "GZE")); require(is(currency('G', 'Z', 'F'), "", "GZF")); require(is(currency('G', 'Z', 'G'), "", "GZG")); require(is(currency('G', 'Z', 'H'), "", "GZH")); require(is(currency('G', 'Z', 'I'), "", "GZI")); require(is(currency('G', 'Z', 'J'), "", "GZJ")); require(is(currency('G', 'Z', 'K'), "", "GZK")); require(is(currency('G', 'Z', 'L'), "", "GZL")); require(is(currency('G', 'Z', 'M'), "", "GZM")); require(is(currency('G', 'Z', 'N'), "", "GZN")); require(is(currency('G', 'Z', 'O'), "", "GZO")); require(is(currency('G', 'Z', 'P'), "", "GZP")); require(is(currency('G', 'Z', 'Q'), "", "GZQ")); require(is(currency('G', 'Z', 'R'), "", "GZR")); require(is(currency('G', 'Z', 'S'), "", "GZS")); require(is(currency('G', 'Z', 'T'), "", "GZT")); require(is(currency('G', 'Z', 'U'), "", "GZU")); require(is(currency('G', 'Z', 'V'), "", "GZV")); require(is(currency('G', 'Z', 'W'), "", "GZW")); require(is(currency('G', 'Z', 'X'), "", "GZX")); require(is(currency('G', 'Z', 'Y'), "", "GZY")); require(is(currency('G', 'Z', 'Z'), "", "GZZ"));)
OBLIGATION(no_currency_HA, "esl/economics/currencies.hpp: currency_name (codes without a currency from HA)", (), require(is(currency('H', 'A', 'A'), "", "HAA")); require(is(currency('H', 'A', 'B'), "", "HAB")); require(is(currency('H', 'A', 'C'), "", "HAC")); require(is(currency('H', 'A', 'D'), "", "HAD")); require(is(currency('H', 'A', 'E'), "", "HAE")); require(is(currency('H', 'A', 'F'), "", "HAF")); require(is(currency('H', 'A', 'G'), "", "HAG")); require(is(currency('H', 'A', 'H'), "", "HAH")); require(is(currency('H', 'A', 'I'), "", "HAI")); require(is(currency('H', 'A', 'J'), "", "HAJ")); require(is(currency('H', 'A', 'K'), "", "HAK")); require(is(currency('H', 'A', 'L'), "", "HAL")); require(is(currency('H', 'A', 'M'), "", "HAM")); require(is(currency('H', 'A', 'N'), "", "HAN")); require(is(currency('H', 'A', 'O'), "", "HAO")); require(is(currency('H', 'A', 'P'), "", "HAP")); require(is(currency('H', 'A', 'Q'), "", "HAQ")); require(is(currency('H', 'A', 'R'), "", "HAR")); require(is(currency('H', 'A', 'S'), "", "HAS")); require(is(currency('H', 'A', 'T'), "", "HAT")); require(is(currency('H', 'A', 'U'), "", "HAU")); require(is(currency('H', 'A', 'V'), "", "HAV")); require(is(currency('H', 'A', 'W'), "", "HAW")); require(is(currency('H', 'A', 'X'), "", "HAX")); require(is(currency('H', 'A', 'Y'), "", "HAY")); require(is(currency('H', 'A', 'Z'), "", "HAZ"));)
OBLIGATION(no_currency_HB, "esl/economics/currencies.hpp: currency_name (codes without a currency from HB)", (), require(is(currency('H', 'B', 'A'), "", "HBA")); require(is(currency('H', 'B', 'B'), "", "HBB")); require(is(currency('H', 'B', 'C'), "", "HBC")); require(is(currency('H', 'B', 'D'), "", "HBD")); require(is(currency('H', 'B', 'E'), "", "HBE")); require(is(currency('H', 'B', 'F'), "", "HBF")); require(is(currency('H', 'B', 'G'), "", "HBG")); require(is(currency('H', 'B', 'H'), "", "HBH")); require(is(currency('H', 'B', 'I'), "", "HBI")); require(is(currency('H', 'B', 'J'), "", "HBJ")); require(is(currency('H', 'B', 'K'), "", "HBK")); require(is(currency('H', 'B', 'L'), "", "HBL")); require(is(currency('H', 'B', 'M'), "", "HBM")); require(is(currency('H', 'B', 'N'), "", "HBN")); require(is(currency('H', 'B', 'O'), "", "HBO")); require(is(currency('H', 'B', 'P'), "", "HBP")); require(is(currency('H', 'B', 'Q'), "", "HBQ")); require(is(currency('H', 'B', 'R'), "", "HBR")); require(is(currency('H', 'B', 'S'), "", "HBS")); require(is(currency('H', 'B', 'T'), "", "HBT")); require(is(currency('H', 'B', 'U'), "", "HBU")); require(is(currency('H', 'B', 'V'), "", "HBV")); require(is(currency('H', 'B', 'W'), "", "HBW")); require(is(currency('H', 'B', 'X'), "", "HBX")); require(is(currency('H', 'B', 'Y'), "", "HBY")); require(is(currency('H', 'B', 'Z'), "", "HBZ"));)
OBLIGATION(no_currency_HC, "esl/economics/currencies.hpp: currency_name (codes without a currency from HC)", (), require(is(currency('H', 'C', 'A'), "", "HCA")); require(is(currency('H', 'C', 'B'), "", "HCB")); require(is(currency('H', 'C', 'C'), "", "HCC")); require(is(currency('H', 'C', 'D'), "", "HCD")); require(is(currency('H', 'C', 'E'), "", "HCE")); require(is(currency('H', 'C', 'F'), "", "HCF")); require(is(currency('H', 'C', 'G'), "", "HCG")); require(is(currency('H', 'C', 'H'), "", "HCH")); require(is(currency('H', 'C', 'I'), "", "HCI")); require(is(currency('H', 'C', 'J'), "", "HCJ")); require(is(currency('H', 'C', 'K'), "", "HCK")); require(is(currency('H', 'C', 'L'), "", "HCL")); require(is(currency('H', 'C', 'M'), "", "HCM")); require(is(currency('H', 'C', 'N'), "", "HCN")); require(is(currency('H', 'C', 'O'), "", "HCO")); require(is(currency('H', 'C', 'P'), "", "HCP")); require(is(currency('H', 'C', 'Q'), "", "HCQ")); require(is(currency('H', 'C', 'R'), "", "HCR")); require(is(currency('H', 'C', 'S'), "", "HCS")); require(is(currency('H', 'C', 'T'), "", "HCT")); require(is(currency('H', 'C', 'U'), "", "HCU")); require(is(currency('H', 'C', 'V'), "", "HCV")); require(is(currency('H', 'C', 'W'), "", "HCW")); require(is(currency('H', 'C', 'X'), "", "HCX")); require(is(currency('H', 'C', 'Y'), "", "HCY")); require(is(currency('H', 'C', 'Z'), "", "HCZ"));)
OBLIGATION(no_currency_HD, "esl/economics/currencies.hpp: currency_name (codes without a currency from HD)", (), require(is(currency('H', 'D', 'A'), "", "HDA")); require(is(currency('H', 'D', 'B'), "", "HDB")); require(is(currency('H', 'D', 'C'), "", "HDC")); require(is(currency('H', 'D', 'D'), "", "HDD")); require(is(currency('H', 'D', 'E'), "", "HDE")); require(is(currency('H', 'D', 'F'), "", "HDF")); require(is(currency('H', 'D', 'G'), "", "HDG")); require(is(currency('H', 'D', 'H'), "", "HDH")); require(is(currency('H', 'D', 'I'), "", "HDI")); require(is(currency('H', 'D', 'J'), "", "HDJ")); require(is(currency('H', 'D', 'K'), "", "HDK")); require(is(currency('H', 'D', 'L'), "", "HDL")); require(is(currency('H', 'D', 'M'), "", "HDM")); require(is(currency('H', 'D', 'N'), "", "HDN")); require(is(currency('H', 'D', 'O'), "", "HDO")); require(is(currency('H', 'D', 'P'), "", "HDP")); require(is(currency('H', 'D', 'Q'), "", "HDQ")); require(is(currency('H', 'D', 'R'), "", "HDR")); require(is(currency('H', 'D', 'S'), "", "HDS")); require(is(currency('H', 'D', 'T'), "", "HDT")); require(is(currency('H', 'D', 'U'), "", "HDU")); require(is(currency('H', 'D', 'V'), "", "HDV")); require(is(currency('H', 'D', 'W'), "", "HDW")); require(is(currency('H', 'D', 'X'), "", "HDX")); require(is(currency('H', 'D', 'Y'), "", "HDY")); require(is(currency('H', 'D', 'Z'), "", "HDZ"));)
OBLIGATION(no_currency_HE, "esl/economics/currencies.hpp: currency_name (codes without a currency from HE)", (), require(is(currency('H', 'E', 'A'), "", "HEA")); require(is(currency('H', 'E', 'B'), "", "HEB")); require(is(currency('H', 'E', 'C'), "", "HEC")); require(is(currency('H', 'E', 'D'), "", "HED")); require(is(currency('H', 'E', 'E'), "", "HEE")); require(is(currency('H', 'E', 'F'), "", "HEF")); require(is(currency('H', 'E', 'G'), "", "HEG")); require(is(currency('H', 'E', 'H'), "", "HEH")); require(is(currency('H', 'E', 'I'), "", "HEI")); require(is(currency('H', 'E', 'J'), "", "HEJ")); require(is(currency('H', 'E', 'K'), "", "HEK")); require(is(currency('H', 'E', 'L'), "", "HEL")); require(is(currency('H', 'E', 'M'), "", "HEM")); require(is(currency('H', 'E', 'N'), "", "HEN")); require(is(currency('H', 'E', 'O'), "", "HEO")); require(is(currency('H', 'E', 'P'), "", "HEP")); require(is(currency('H', 'E', 'Q'), "", "HEQ")); require(is(currency('H', 'E', 'R'), "", "HER")); require(is(currency('H', 'E', 'S'), "", "HES")); require(is(currency('H', 'E', 'T'), "", "HET")); require(is(currency('H', 'E', 'U'), "", "HEU")); require(is(currency('H', 'E', 'V'), "", "HEV")); require(is(currency('H', 'E', 'W'), "", "HEW")); require(is(currency('H', 'E', 'X'), "", "HEX")); require(is(currency('H', 'E', 'Y'), "", "HEY")); require(is(currency('H', 'E', 'Z'), "", "HEZ"));)
OBLIGATION(no_currency_HF, "esl/economics/currencies.hpp: currency_name (codes without a currency from HF)", (), require(is(currency('H', 'F', 'A'), "", "HFA")); require(is(currency('H', 'F', 'B'), "", "HFB")); require(is(currency('H', 'F', 'C'), "", "HFC")); require(is(currency('H', 'F', 'D'), "", "HFD")); require(is(currency('H', 'F', 'E'), "", "HFE")); require(is(currency('H', 'F', 'F'), "", "HFF")); require(is(currency('H', 'F', 'G'), "", "HFG")); require(is(currency('H', 'F', 'H'), "", "HFH")); require(is(currency('H', 'F', 'I'), "", "HFI")); require(is(currency('H', 'F', 'J'), "", "HFJ")); require(is(currency('H', 'F', 'K'), "", "HFK")); require(is(currency('H', 'F', 'L'), "", "HFL")); require(is(currency('H', 'F', 'M'), "", "HFM")); require(is(currency('H', 'F', 'N'), "", "HFN")); require(is(currency('H', 'F', 'O'), "", "HFO")); require(is(currency('H', 'F', 'P'), "", "HFP")); require(is(currency('H', 'F', 'Q'), "", "HFQ")); require(is(currency('H', 'F', 'R'), "", "HFR")); require(is(currency('H', 'F', 'S'), "", "HFS")); require(is(currency('H', 'F', 'T'), "", "HFT")); require(is(currency('H', 'F', 'U'), "", "HFU")); require(is(currency('H', 'F', 'V'), "", "HFV")); require(is(currency('H', 'F', 'W'), "", "HFW")); require(is(currency('H', 'F', 'X'), "", "HFX")); require(is(currency('H', 'F', 'Y'), "", "HFY")); require(is(currency('H', 'F', 'Z'), "", "HFZ"));)
OBLIGATION(no_currency_HG, "esl/economics/currencies.hpp: currency_name (codes without a currency from HG)", (), require(is(currency('H', 'G', 'A'), "", "HGA")); require(is(currency('H', 'G', 'B'), "", "HGB")); require(is(currency('H', 'G', 'C'), "", "HGC")); require(is(currency('H', 'G', 'D'), "", "HGD")); require(is(currency('H', 'G', 'E'), "", "HGE")); require(is(currency('H', 'G', 'F'), "", "HGF")); require(is(currency('H', 'G', 'G'), "", "HGG")); require(is(currency('H', 'G', 'H'), "", "HGH")); require(is(currency('H', 'G', 'I'), "", "HGI")); require(is(currency('H', 'G', 'J'), "", "HGJ")); require(is(currency('H', 'G', 'K'), "", "HGK")); require(is(currency('H', 'G', 'L'), "", "HGL")); require(is(currency('H', 'G', 'M'), "", "HGM")); require(is(currency('H', 'G', 'N'), "", "HGN")); require(is(currency('H', 'G', 'O'), "", "HGO")); require(is(currency('H', 'G', 'P'), "", "HGP")); require(is(currency('H', 'G', 'Q'), "", "HGQ")); require(is(currency('H', 'G', 'R'), "", "HGR")); require(is(currency('H', 'G', 'S'), "", "HGS")); require(is(currency('H', 'G', 'T'), "", "HGT")); require(is(currency('H', 'G', 'U'), "", "HGU")); require(is(currency('H', 'G', 'V'), "", "HGV")); require(is(currency('H', 'G', 'W'), "", "HGW")); require(is(currency('H', 'G', 'X'), "", "HGX")); require(is(currency('H', 'G', 'Y'), "", "HGY")); require(is(currency('H', 'G', 'Z'), "", "HGZ"));)
OBLIGATION(no_currency_HH, "esl/economics/currencies.hpp: currency_name (codes without a currency from HH)", (), require(is(currency('H', 'H', 'A'), "", "HHA")); require(is(currency('H', 'H', 'B'), "", "HHB")); require(is(currency('H', 'H', 'C'), "", "HHC")); require(is(currency('H', 'H', 'D'), "", "HHD")); require(is(currency('H', 'H', 'E'), "", "HHE")); require(is(currency('H', 'H', 'F'), "", "HHF")); require(is(currency('H', 'H', 'G'), "", "HHG")); require(is(currency('H', 'H', 'H'), "", "HHH")); require(is(currency('H', 'H', 'I'), "", "HHI")); require(is(currency('H', 'H', 'J'), "", "HHJ")); require(is(currency('H', 'H', 'K'), "", "HHK")); require(is(currency('H', 'H', 'L'), "", "HHL")); require(is(currency('H', 'H', 'M'), "", "HHM")); require(is(currency('H', 'H', 'N'), "", "HHN")); require(is(currency('H', 'H', 'O'), "", "HHO")); require(is(currency('H', 'H', 'P'), "", "HHP")); require(is(currency('H', 'H', 'Q'), "", "HHQ")); require(is(currency('H', 'H', 'R'), "", "HHR")); require(is(currency('H', 'H', 'S'), "", "HHS")); require(is(currency('H', 'H', 'T'), "", "HHT")); require(is(currency('H', 'H', 'U'), "", "HHU")); require(is(currency('H', 'H', 'V'), "", "HHV")); require(is(currency('H', 'H', 'W'), "", "HHW")); require(is(currency('H', 'H', 'X'), "", "HHX")); require(is(currency('H', 'H', 'Y'), "", "HHY")); require(is(currency('H', 'H', 'Z'), "", "HHZ"));)
OBLIGATION(no_currency_HI, "esl/economics/currencies.hpp: currency_name (codes without a currency from HI)", (), require(is(currency('H', 'I', 'A'), "", "HIA")); require(is(currency('H', 'I', 'B'), "", "HIB")); require(is(currency('H', 'I', 'C'), "", "HIC")); require(is(currency('H', 'I', 'D'), "", "HID")); require(is(currency('H', 'I', 'E'), "", "HIE")); require(is(currency('H', 'I', 'F'), "", "HIF")); require(is(currency('H', 'I', 'G'), "", "HIG")); require(is(currency('H', 'I', 'H'), "", "HIH")); require(is(currency('H', 'I', 'I'), "", "HII")); require(is(currency('H', 'I', 'J'), "", "HIJ")); require(is(currency('H', 'I', 'K'), "", "HIK")); require(is(currency('H', 'I', 'L'), "", "HIL")); require(is(currency('H', 'I', 'M'), "", "HIM")); require(is(currency('H', 'I', 'N'), "", "HIN")); require(is(currency('H', 'I', 'O'), "", "HIO")); require(is(currency('H', 'I', 'P'), "", "HIP")); require(is(currency('H', 'I', 'Q'), "", "HIQ")); require(is(currency('H', 'I', 'R'), "", "HIR")); require(is(currency('H', 'I', 'S'), "", "HIS")); require(is(currency('H', 'I', 'T'), "", "HIT")); require(is(currency('H', 'I', 'U'), "", "HIU")); require(is(currency('H', 'I', 'V'), "", "HIV")); require(is(currency('H', 'I', 'W'), "", "HIW")); require(is(currency('H', 'I', 'X'), "", "HIX")); require(is(currency('H', 'I', 'Y'), "", "HIY")); require(is(currency('H', 'I', 'Z'), "", "HIZ"));)
OBLIGATION(no_currency_HJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from HJ)", (), require(is(currency('H', 'J', 'A'), "", "HJA")); require(is(currency('H', 'J', 'B'), "", "HJB")); require(is(currency('H', 'J', 'C'), "", "HJC")); require(is(currency('H', 'J', 'D'), "", "HJD")); require(is(currency('H', 'J', 'E'), "", "HJE")); require(is(currency('H', 'J', 'F'), "", "HJF")); require(is(currency('H', 'J', 'G'), "", "HJG")); require(is(currency('H', 'J', 'H'), "", "HJH")); require(is(currency('H', 'J', 'I'), "", "HJI")); require(is(currency('H', 'J', 'J'), "", "HJJ")); require(is(currency('H', 'J', 'K'), "", "HJK")); require(is(currency('H', 'J', 'L'), "", "HJL")); require(is(currency('H', 'J', 'M'), "", "HJM")); require(is(currency('H', 'J', 'N'), "", "HJN")); require(is(currency('H', 'J', 'O'), "", "HJO")); require(is(currency('H', 'J', 'P'), "", "HJP")); require(is(currency('H', 'J', 'Q'), "", "HJQ")); require(is(currency('H', 'J', 'R'), "", "HJR")); require(is(currency('H', 'J', 'S'), "", "HJS")); require(is(currency('H', 'J', 'T'), "", "HJT")); require(is(currency('H', 'J', 'U'), "", "HJU")); require(is(currency('H', 'J', 'V'), "", "HJV")); require(is(currency('H', 'J', 'W'), "", "HJW")); require(is(currency('H', 'J', 'X'), "", "HJX")); require(is(currency('H', 'J', 'Y'), "", "HJY")); require(is(currency('H', 'J', 'Z'), "", "HJZ"));)
OBLIGATION(no_currency_HK, "esl/economics/currencies.hpp: currency_name (codes without a currency from HK)", (), require(is(currency('H', 'K', 'A'), "", "HKA")); require(is(currency('H', 'K', 'B'), "", "HKB")); require(is(currency('H', 'K', 'C'), "", "HKC")); require(is(currency('H', 'K', 'E'), "", "HKE")); require(is(currency('H', 'K', 'F'), "", "HKF")); require(is(currency('H', 'K', 'G'), "", "HKG")); require(is(currency('H', 'K', 'H'), "", "HKH")); require(is(currency('H', 'K', 'I'), "", "HKI")); require(is(currency('H', 'K', 'J'), "", "HKJ")); require(is(currency('H', 'K', 'K'), "", "HKK")); require(is(currency('H', 'K', 'L'), "", "HKL")); require(is(currency('H', 'K', 'M'), "", "HKM")); require(is(currency('H', 'K', 'N'), "", "HKN")); require(is(currency('H', 'K', 'O'), "", "HKO")); require(is(currency('H', 'K', 'P'), "", "HKP")); require(is(currency('H', 'K', 'Q'), "", "HKQ")); require(is(currency('H', 'K', 'R'), "", "HKR")); require(is(currency('H', 'K', 'S'), "", "HKS")); require(is(currency('H', 'K', 'T'), "", "HKT")); require(is(currency('H', 'K', 'U'), "", "HKU")); require(is(currency('H', 'K', 'V'), "", "HKV")); require(is(currency('H', 'K', 'W'), "", "HKW")); require(is(currency('H', 'K', 'X'), "", "HKX")); require(is(currency('H', 'K', 'Y'), "", "HKY")); require(is(currency('H', 'K', 'Z'), "", "HKZ"));)
OBLIGATION(no_currency_HL, "esl/economics/currencies.hpp: currency_name (codes without a currency from HL)", (), require(is(currency('H', 'L', 'A'), "", "HLA")); require(is(currency('H', 'L', 'B'), "", "HLB")); require(is(currency('H', 'L', 'C'), "", "HLC")); require(is(currency('H', 'L', 'D'), "", "HLD")); require(is(currency('H', 'L', 'E'), "", "HLE")); require(is(currency('H', 'L', 'F'), "", "HLF")); require(is(currency('H', 'L', 'G'), "", "HLG")); require(is(currency('H', 'L', 'H'), "", "HLH")); require(is(currency('H', 'L', 'I'), "", "HLI")); require(is(currency('H', 'L', 'J'), "", "HLJ")); require(is(currency('H', 'L', 'K'), "", "HLK")); require(is(currency('H', 'L', 'L'), "", "HLL")); require(is(currency('H', 'L', 'M'), "", "HLM")); require(is(currency('H', 'L', 'N'), "", "HLN")); require(is(currency('H', 'L', 'O'), "", "HLO")); require(is(currency('H', 'L', 'P'), "", "HLP")); require(is(currency('H', 'L', 'Q'), "", "HLQ")); require(is(currency('H', 'L', 'R'), "", "HLR")); require(is(currency('H', 'L', 'S'), "", "HLS")); require(is(currency('H', 'L', 'T'), "", "HLT")); require(is(currency('H', 'L', 'U'), "", "HLU")); require(is(currency('H', 'L', 'V'), "", "HLV")); require(is(currency('H', 'L', 'W'), "", "HLW")); require(is(currency('H', 'L', 'X'), "", "HLX")); require(is(currency('H', 'L', 'Y'), "", "HLY")); require(is(currency('H', 'L', 'Z'), "", "HLZ"));)
OBLIGATION(no_currency_HM, "esl/economics/currencies.hpp: currency_name (codes without a currency from HM)", (), require(is(currency('H', 'M', 'A'), "", "HMA")); require(is(currency('H', 'M', 'B'), "", "HMB")); require(is(currency('H', 'M', 'C'), "", "HMC")); require(is(currency('H', 'M', 'D'), "", "HMD")); require(is(currency('H', 'M', 'E'), "", "HME")); require(is(currency('H', 'M', 'F'), "", "HMF")); require(is(currency('H', 'M', 'G'), "", "HMG")); require(is(currency('H', 'M', 'H'), "", "HMH")); require(is(currency('H', 'M', 'I'), "", "HMI")); require(is(currency('H', 'M', 'J'), "", "HMJ")); require(is(currency('H', 'M', 'K'), "", "HMK")); require(is(currency('H', 'M', 'L'), "", "HML")); require(is(currency('H', 'M', 'M'), "", "HMM")); require(is(currency('H', 'M', 'N'), "", "HMN")); require(is(currency('H', 'M', 'O'), "", "HMO")); require(is(currency('H', 'M', 'P'), "", "HMP")); require(is(currency('H', 'M', 'Q'), "", "HMQ")); require(is(currency('H', 'M', 'R'), "", "HMR")); require(is(currency('H', 'M', 'S'), "", "HMS")); require(is(currency('H', 'M', 'T'), "", "HMT")); require(is(currency('H', 'M', 'U'), "", "HMU")); require(is(currency('H', 'M', 'V'), "", "HMV")); require(is(currency('H', 'M', 'W'), "", "HMW")); require(is(currency('H', 'M', 'X'), "", "HMX")); require(is(currency('H', 'M', 'Y'), "", "HMY")); require(is(currency('H', 'M', 'Z'), "", "HMZ"));)
OBLIGATION(no_currency_HN, "esl/economics/currencies.hpp: currency_name (codes without a currency from HN)", (), require(is(currency('H', 'N', 'A'), "", "HNA")); require(is(currency('H', 'N', 'B'), "", "HNB")); require(is(currency('H', 'N', 'C'), "", "HNC")); require(is(currency('H', 'N', 'D'), "", "HND")); require(is(currency('H', 'N', 'E'), "", "HNE")); require(is(currency('H', 'N', 'F'), "", "HNF")); require(is(currency('H', 'N', 'G'), "", "HNG")); require(is(currency('H', 'N', 'H'), "", "HNH")); require(is(currency('H', 'N', 'I'), "", "HNI")); require(is(currency('H', 'N', 'J'), "", "HNJ")); require(is(currency('H', 'N', 'K'), "", "HNK")); require(is(currency('H', 'N', 'M'), "", "HNM")); require(is(currency('H', 'N', 'N'), "", "HNN")); require(is(currency('H', 'N', 'O'), "", "HNO")); require(is(currency('H', 'N', 'P'), "", "HNP")); require(is(currency('H', 'N', 'Q'), "", "HNQ")); require(is(currency('H', 'N', 'R'), "", "HNR")); require(is(currency('H', 'N', 'S'), "", "HNS")); require(is(currency('H', 'N', 'T'), "", "HNT")); require(is(currency('H', 'N', 'U'), "", "HNU")); require(is(currency('H', 'N', 'V'), "", "HNV")); require(is(currency('H', 'N', 'W'), "", "HNW")); require(is(currency('H', 'N', 'X'), "", "HNX")); require(is(currency('H', 'N', 'Y'), "", "HNY")); require(is(currency('H', 'N', 'Z'), "", "HNZ"));)
OBLIGATION(no_currency_HO, "esl/economics/currencies.hpp: currency_name (codes without a currency from HO)", (), require(is(currency('H', 'O', 'A'), "", "HOA")); require(is(currency('H', 'O', 'B'), "", "HOB")); require(is(currency('H', 'O', 'C'), "", "HOC")); require(is(currency('H', 'O', 'D'), "", "HOD")); require(is(currency('H', 'O', 'E'), "", "HOE")); require(is(currency('H', 'O', 'F'), "", "HOF")); require(is(currency('H', 'O', 'G'), "", "HOG")); require(is(currency('H', 'O', 'H'), "", "HOH")); require(is(currency('H', 'O', 'I'), "", "HOI")); require(is(currency('H', 'O', 'J'), "", "HOJ")); require(is(currency('H', 'O', 'K'), "", "HOK")); require(is(currency('H', 'O', 'L'), "", "HOL")); require(is(currency('H', 'O', 'M'), "", "HOM")); require(is(currency('H', 'O', 'N'), "", "HON")); require(is(currency('H', 'O', 'O'), "", "HOO")); require(is(currency('H', 'O', 'P'), "", "HOP")); require(is(currency('H', 'O', 'Q'), "", "HOQ")); require(is(currency('H', 'O', 'R'), "", "HOR")); require(is(currency('H', 'O', 'S'), "", "HOS")); require(is(currency('H', 'O', 'T'), "", "HOT")); require(is(currency('H', 'O', 'U'), "", "HOU")); require(is(currency('H', 'O', 'V'), "", "HOV")); require(is(currency('H', 'O', 'W'), "", "HOW")); require(is(currency('H', 'O', 'X'), "", "HOX")); require(is(currency('H', 'O', 'Y'), "", "HOY")); require(is(currency('H', 'O', 'Z'), "", "HOZ"));)
OBLIGATION(no_currency_HP, "esl/economics/currencies.hpp: currency_name (codes without a currency from HP)", (), require(is(currency('H', 'P', 'A'), "", "HPA")); require(is(currency('H', 'P', 'B'), "", "HPB")); require(is(currency('H', 'P', 'C'), "", "HPC")); require(is(currency('H', 'P', 'D'), "", "HPD")); require(is(currency('H', 'P', 'E'), "", "HPE")); require(is(currency('H', 'P', 'F'), "", "HPF")); require(is(currency('H', 'P', 'G'), "", "HPG")); require(is(currency('H', 'P', 'H'), "", "HPH")); require(is(currency('H', 'P', 'I'), "", "HPI")); require(is(currency('H', 'P', 'J'), "", "HPJ")); require(is(currency('H', 'P', 'K'), "", "HPK")); require(is(currency('H', 'P', 'L'), "", "HPL")); require(is(currency('H', 'P', 'M'), "", "HPM")); require(is(currency('H', 'P', 'N'), "", "HPN")); require(is(currency('H', 'P', 'O'), "", "HPO")); require(is(currency('H', 'P', 'P'), "", "HPP")); require(is(currency('H', 'P', 'Q'), "", "HPQ")); require(is(currency('H', 'P', 'R'), "", "HPR")); require(is(currency('H', 'P', 'S'), "", "HPS")); require(is(currency('H', 'P', 'T'), "", "HPT")); require(is(currency('H', 'P', 'U'), "", "HPU")); require(is(currency('H', 'P', 'V'), "", "HPV")); require(is(currency('H', 'P', 'W'), "", "HPW")); require(is(currency('H', 'P', 'X'), "", "HPX")); require(is(currency('H', 'P', 'Y'), "", "HPY")); require(is(currency('H', 'P', 'Z'), "", "HPZ"));)
OBLIGATION(no_currency_HQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from HQ)", (), require(is(currency('H', 'Q', 'A'), "", "HQA")); require(is(currency('H', 'Q', 'B'), "", "HQB")); require(is(currency('H', 'Q', 'C'), "", "HQC")); require(is(currency('H', 'Q', 'D'), "", "HQD")); require(is(currency('H', 'Q', 'E'), "", "HQE")); require(is(currency('H', 'Q', 'F'), "", "HQF")); require(is(currency('H', 'Q', 'G'), "", "HQG")); require(is(currency('H', 'Q', 'H'), "", "HQH")); require(is(currency('H', 'Q', 'I'), "", "HQI")); require(is(currency('H', 'Q', 'J'), "", "HQJ")); require(is(currency('H', 'Q', 'K'), "", "HQK")); require(is(currency('H', 'Q', 'L'), "", "HQL")); require(is(currency('H', 'Q', 'M'), "", "HQM")); require(is(currency('H', 'Q', 'N'), "", "HQN")); require(is(currency('H', 'Q', 'O'), "", "HQO")); require(is(currency('H', 'Q', 'P'), "", "HQP")); require(is(currency('H', 'Q', 'Q'), "", "HQQ")); require(is(currency('H', 'Q', 'R'), "", "HQR")); require(is(currency('H', 'Q', 'S'), "", "HQS")); require(is(currency('H', 'Q', 'T'), "", "HQT")); require(is(currency('H', 'Q', 'U'), "", "HQU")); require(is(currency('H', 'Q', 'V'), "", "HQV")); require(is(currency('H', 'Q', 'W'), "", "HQW")); require(is(currency('H', 'Q', 'X'), "", "HQX")); require(is(currency('H', 'Q', 'Y'), "", "HQY")); require(is(currency('H', 'Q', 'Z'), "", "HQZ"));)
OBLIGATION(no_currency_HR, "esl/economics/currencies.hpp: currency_name (codes without a currency from HR)", (), require(is(currency('H', 'R', 'A'), "", "HRA")); require(is(currency('H', 'R', 'B'), "", "HRB")); require(is(currency('H', 'R', 'C'), "", "HRC")); require(is(currency('H', 'R', 'D'), "", "HRD")); require(is(currency('H', 'R', 'E'), "", "HRE")); require(is(currency('H', 'R', 'F'), "", "HRF")); require(is(currency('H', 'R', 'G'), "", "HRG")); require(is(currency('H', 'R', 'H'), "", "HRH")); require(is(currency('H', 'R', 'I'), "", "HRI")); require(is(currency('H', 'R', 'J'), "", "HRJ")); require(is(currency('H', 'R', 'L'), "", "HRL")); require(is(currency('H', 'R', 'M'), "", "HRM")); require(is(currency('H', 'R', 'N'), "", "HRN")); require(is(currency('H', 'R', 'O'), "", "HRO")); require(is(currency('H', 'R', 'P'), "", "HRP")); require(is(currency('H', 'R', 'Q'), "", "HRQ")); require(is(currency('H', 'R', 'R'), "", "HRR")); require(is(currency('H', 'R', 'S'), "", "HRS")); require(is(currency('H', 'R', 'T'), "", "HRT")); require(is(currency('H', 'R', 'U'), "", "HRU")); require(is(currency('H', 'R', 'V'), "", "HRV")); require(is(currency('H', 'R', 'W'), "", "HRW")); require(is(currency('H', 'R', 'X'), "", "HRX")); require(is(currency('H', 'R', 'Y'), "", "HRY")); require(is(currency('H', 'R', 'Z'), "", "HRZ"));)
OBLIGATION(no_currency_HS, "esl/economics/currencies.hpp: currency_name (codes without a currency from HS)", (), require(is(currency('H', 'S', 'A'), "", "HSA")); require(is(currency('H', 'S', 'B'), "", "HSB")); require(is(currency('H', 'S', 'C'), "", "HSC")); require(is(currency('H', 'S', 'D'), "", "HSD")); require(is(currency('H', 'S', 'E'), "", "HSE")); require(is(currency('H', 'S', 'F'), "", "HSF")); require(is(currency('H', 'S', 'G'), "", "HSG")); require(is(currency('H', 'S', 'H'), "", "HSH")); require(is(currency('H', 'S', 'I'), "", "HSI")); require(is(currency('H', 'S', 'J'), "", "HSJ")); require(is(currency('H', 'S', 'K'), "", "HSK")); require(is(currency('H', 'S', 'L'), "", "HSL")); require(is(currency('H', 'S', 'M'), "", "HSM")); require(is(currency('H', 'S', 'N'), "", "HSN")); require(is(currency('H', 'S', 'O'), "", "HSO")); require(is(currency('H', 'S', 'P'), "", "HSP")); require(is(currency('H', 'S', 'Q'), "", "HSQ")); require(is(currency('H', 'S', 'R'), "", "HSR")); require(is(currency('H', 'S', 'S'), "", "HSS")); require(is(currency('H', 'S', 'T'), "", "HST")); require(is(currency('H', 'S', 'U'), "", "HSU")); require(is(currency('H', 'S', 'V'), "", "HSV")); require(is(currency('H', 'S', 'W'), "", "HSW")); require(is(currency('H', 'S', 'X'), "", "HSX")); require(is(currency('H', 'S', 'Y'), "", "HSY")); require(is(currency('H', 'S', 'Z'), "", "HSZ"));)
OBLIGATION(no_currency_HT, "esl/economics/currencies.hpp: currency_name (codes without a currency from HT)", (), require(is(currency('H', 'T', 'A'), "", "HTA")); require(is(currency('H', 'T', 'B'), "", "HTB")); require(is(currency('H', 'T', 'C'), "", "HTC")); require(is(currency('H', 'T', 'D'), "", "HTD")); require(is(currency('H', 'T', 'E'), "", "HTE")); require(is(currency('H', 'T', 'F'), "", "HTF")); require(is(currency('H', 'T', 'H'), "", "HTH")); require(is(currency('H', 'T', 'I'), "", "HTI")); require(is(currency('H', 'T', 'J'), "", "HTJ")); require(is(currency('H', 'T', 'K'), "", "HTK")); require(is(currency('H', 'T', 'L'), "", "HTL")); require(is(currency('H', 'T', 'M'), "", "HTM")); require(is(currency('H', 'T', 'N'), "", "HTN")); require(is(currency('H', 'T', 'O'), "", "HTO")); require(is(currency('H', 'T', 'P'), "", "HTP")); require(is(currency('H', 'T', 'Q'), "", "HTQ")); require(is(currency('H', 'T', 'R'), "", "HTR")); require(is(currency('H', 'T', 'S'), "", "HTS")); require(is(currency('H', 'T', 'T'), "", "HTT")); require(is(currency('H', 'T', 'U'), "", "HTU")); require(is(currency('H', 'T', 'V'), "", "HTV")); require(is(currency('H', 'T', 'W'), "", "HTW")); require(is(currency('H', 'T', 'X'), "", "HTX")); require(is(currency('H', 'T', 'Y'), "", "HTY")); require(is(currency('H', 'T', 'Z'), "", "HTZ"));)
OBLIGATION(no_currency_HU, "esl/economics/currencies.hpp: currency_name (codes without a currency from HU)", (), require(is(currency('H', 'U', 'A'), "", "HUA")); require(is(currency('H', 'U', 'B'), "", "HUB")); require(is(currency('H', 'U', 'C'), "", "HUC")); require(is(currency('H', 'U', 'D'), "", "HUD")); require(is(currency('H', 'U', 'E'), "", "HUE")); require(is(currency('H', 'U', 'G'), "", "HUG")); require(is(currency('H', 'U', 'H'), "", "HUH")); require(is(currency('H', 'U', 'I'), "", "HUI")); require(is(currency('H', 'U', 'J'), "", "HUJ")); require(is(currency('H', 'U', 'K'), "", "HUK")); require(is(currency('H', 'U', 'L'), "", "HUL")); require(is(currency('H', 'U', 'M'), "", "HUM")); require(is(currency('H', 'U', 'N'), "", "HUN")); require(is(currency('H', 'U', 'O'), "", "HUO")); require(is(currency('H', 'U', 'P'), "", "HUP")); require(is(currency('H', 'U', 'Q'), "", "HUQ")); require(is(currency('H', 'U', 'R'), "", "HUR")); require(is(currency('H', 'U', 'S'), "", "HUS")); require(is(currency('H', 'U', 'T'), "", "HUT")); require(is(currency('H', 'U', 'U'), "", "HUU")); require(is(currency('H', 'U', 'V'), "", "HUV")); require(is(currency('H', 'U', 'W'), "", "HUW")); require(is(currency('H', 'U', 'X'), "", "HUX")); require(is(currency('H', 'U', 'Y'), "", "HUY")); require(is(currency('H', 'U', 'Z'), "", "HUZ"));)
OBLIGATION(no_currency_HV, "esl/economics/currencies.hpp: currency_name (codes without a currency from HV)", (), require(is(currency('H', 'V', 'A'), "", "HVA")); require(is(currency('H', 'V', 'B'), "", "HVB")); require(is(currency('H', 'V', 'C'), "", "HVC")); require(is(currency('H', 'V', 'D'), "", "HVD")); require(is(currency('H', 'V', 'E'), "", "HVE")); require(is(currency('H', 'V', 'F'), "", "HVF")); require(is(currency('H', 'V', 'G'), "", "HVG")); require(is(currency('H', 'V', 'H'), "", "HVH")); require(is(currency('H', 'V', 'I'), "", "HVI")); require(is(currency('H', 'V', 'J'), "", "HVJ")); require(is(currency('H', 'V', 'K'), "", "HVK")); require(is(currency('H', 'V', 'L'), "", "HVL")); require(is(currency('H', 'V', 'M'), "", "HVM")); require(is(currency('H', 'V', 'N'), "", "HVN")); require(is(currency('H', 'V', 'O'), "", "HVO")); require(is(currency('H', 'V', 'P'), "", "HVP")); require(is(currency('H', 'V', 'Q'), "", "HVQ")); require(is(currency('H', 'V', 'R'), "", "HVR")); require(is(currency('H', 'V', 'S'), "", "HVS")); require(is(currency('H', 'V', 'T'), "", "HVT")); require(is(currency('H', 'V', 'U'), "", "HVU")); require(is(currency('H', 'V', 'V'), "", "HVV")); require(is(currency('H', 'V', 'W'), "", "HVW")); require(is(currency('H', 'V', 'X'), "", "HVX")); require(is(currency('H', 'V', 'Y'), "", "HVY")); require(is(currency('H', 'V', 'Z'), "", "HVZ"));)
OBLIGATION(no_currency_HW, "esl/economics/currencies.hpp: currency_name (codes without a currency from HW)", (), require(is(currency('H', 'W', 'A'), "", "HWA")); require(is(currency('H', 'W', 'B'), "", "HWB")); require(is(currency('H', 'W', 'C'), "", "HWC")); require(is(currency('H', 'W', 'D'), "", "HWD")); require(is(currency('H', 'W', 'E'), "", "HWE")); require(is(currency('H', 'W', 'F'), "", "HWF")); require(is(currency('H', 'W', 'G'), "", "HWG")); require(is(currency('H', 'W', 'H'), "", "HWH")); require(is(currency('H', 'W', 'I'), "", "HWI")); require(is(currency('H', 'W', 'J'), "", "HWJ")); require(is(currency('H', 'W', 'K'), "", "HWK")); require(is(currency('H', 'W', 'L'), "", "HWL")); require(is(currency('H', 'W', 'M'), "", "HWM")); require(is(currency('H', 'W', 'N'), "", "HWN")); require(is(currency('H', 'W', 'O'), "", "HWO")); require(is(currency('H', 'W', 'P'), "", "HWP")); require(is(currency('H', 'W', 'Q'), "", "HWQ")); require(is(currency('H', 'W', 'R'), "", "HWR")); require(is(currency('H', 'W', 'S'), "", "HWS")); require(is(currency('H', 'W', 'T'), "", "HWT")); require(is(currency('H', 'W', 'U'), "", "HWU")); require(is(currency('H', 'W', 'V'), "", "HWV")); require(is(currency('H', 'W', 'W'), "", "HWW")); require(is(currency('H', 'W', 'X'), "", "HWX")); require(is(currency('H', 'W', 'Y'), "", "HWY")); require(is(currency('H', 'W', 'Z'), "", "HWZ"));)
OBLIGATION(no_currency_HX, "esl/economics/currencies.hpp: currency_name (codes without a currency from HX)", (), require(is(currency('H', 'X', 'A'), "", "HXA")); require(is(currency('H', 'X', 'B'), "", "HXB")); require(is(currency('H', 'X', 'C'), "", "HXC")); require(is(currency('H', 'X', 'D'), "", "HXD")); require(is(currency('H', 'X', 'E'), "", "HXE")); require(is(currency('H', 'X', 'F'), "", "HXF")); require(is(currency('H', 'X', 'G'), "", "HXG")); require(is(currency('H', 'X', 'H'), "", "HXH")); require(is(currency('H', 'X', 'I'), "", "HXI")); require(is(currency('H', 'X', 'J'), "", "HXJ")); require(is(currency('H', 'X', 'K'), "", "HXK")); require(is(currency('H', 'X', 'L'), "", "HXL")); require(is(currency('H', 'X', 'M'), "", "HXM")); require(is(currency('H', 'X', 'N'), "", "HXN")); require(is(currency('H', 'X', 'O'), "", "HXO")); require(is(currency('H', 'X', 'P'), "", "HXP")); require(is(currency('H', 'X', 'Q'), "", "HXQ")); require(is(currency('H', 'X', 'R'), "", "HXR")); require(is(currency('H', 'X', 'S'), "", "HXS")); require(is(currency('H', 'X', 'T'), "", "HXT")); require(is(currency('H', 'X', 'U'), "", "HXU")); require(is(currency('H', 'X', 'V'), "", "HXV")); require(is(currency('H', 'X', 'W'), "", "HXW")); require(is(currency('H', 'X', 'X'), "", "HXX")); require(is(currency('H', 'X', 'Y'), "", "HXY")); require(is(currency('H', 'X', 'Z'), "", "HXZ"));)
OBLIGATION(no_currency_HY, "esl/economics/currencies.hpp: currency_name (codes without a currency from HY)", (), require(is(currency('H', 'Y', 'A'), "", "HYA")); require(is(currency('H', 'Y', 'B'), "", "HYB")); require(is(currency('H', 'Y', 'C'), "", "HYC")); require(is(currency('H', 'Y', 'D'), "", "HYD")); require(is(currency('H', 'Y', 'E'), "", "HYE")); require(is(currency('H', 'Y', 'F'), "", "HYF")); require(is(currency('H', 'Y', 'G'), "", "HYG")); require(is(currency('H', 'Y', 'H'), "", "HYH")); require(is(currency('H', 'Y', 'I'), "", "HYI")); require(is(currency('H', 'Y', 'J'), "", "HYJ")); require(is(currency('H', 'Y', 'K'), "", "HYK")); require(is(currency('H', 'Y', 'L'), "", "HYL")); require(is(currency('H', 'Y', 'M'), "", "HYM")); require(is(currency('H', 'Y', 'N'), "", "HYN")); require(is(currency('H', 'Y', 'O'), "", "HYO")); require(is(currency('H', 'Y', 'P'), "", "HYP")); require(is(currency('H', 'Y', 'Q'), "", "HYQ")); require(is(currency('H', 'Y', 'R'), "", "HYR")); require(is(currency('H', 'Y', 'S'), "", "HYS")); require(is(currency('H', 'Y', 'T'), "", "HYT")); require(is(currency('H', 'Y', 'U'), "", "HYU")); require(is(currency('H', 'Y', 'V'), "", "HYV")); require(is(currency('H', 'Y', 'W'), "", "HYW")); require(is(currency('H', 'Y', 'X'), "", "HYX")); require(is(currency('H', 'Y', 'Y'), "", "HYY")); require(is(currency('H', 'Y', 'Z'), "", "HYZ"));)
OBLIGATION(no_currency_HZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from HZ)", (), require(is(currency('H', 'Z', 'A'), "", "HZA")); require(is(currency('H', 'Z', 'B'), "", "HZB")); require(is(currency('H', 'Z', 'C'), "", "HZC")); require(is(currency('H', 'Z', 'D'), "", "HZD")); require(is(currency('H', 'Z', 'E'), "", "HZE")); require(is(currency('H', 'Z', 'F'), "", "HZF")); require(is(currency('H', 'Z', 'G'), "", "HZG")); require(is(currency('H', 'Z', 'H'), "", "HZH")); require(is(currency('H', 'Z', 'I'), "", "HZI")); require(is(currency('H', 'Z', 'J'), "", "HZJ")); require(is(currency('H', 'Z', 'K'), "", "HZK")); require(is(currency('H', 'Z', 'L'), "", "HZL")); require(is(currency('H', 'Z', 'M'), "", "HZM")); require(is(currency('H', 'Z', 'N'), "", "HZN")); require(is(currency('H', 'Z', 'O'), "", "HZO")); require(is(currency('H', 'Z', 'P'), "", "HZP")); require(is(currency('H', 'Z', 'Q'), "", "HZQ")); require(is(currency('H', 'Z', 'R'), "", "HZR")); require(is(currency('H', 'Z', 'S'), "", "HZS")); require(is(currency('H', 'Z', 'T'), "", "HZT")); require(is(currency('H', 'Z', 'U'), "", "HZU")); require(is(currency('H', 'Z', 'V'), "", "HZV")); require(is(currency('H', 'Z', 'W'), "", "HZW")); require(is(currency('H', 'Z', 'X'), "", "HZX")); require(is(currency('H', 'Z', 'Y'), "", "HZY")); require(is(currency('H', 'Z', 'Z'), "", "HZZ"));)
OBLIGATION(no_currency_IA, "esl/economics/currencies.hpp: currency_name (codes without a currency from IA)", (), require(is(currency('I', 'A', 'A'), "", "IAA")); require(is(currency('I', 'A', 'B'), "", "IAB")); require(is(currency('I', 'A', 'C'), "", "IAC")); require(is(currency('I', 'A', 'D'), "", "IAD")); require(is(currency('I', 'A', 'E'), "", "IAE")); require(is(currency('I', 'A', 'F'), "", "IAF")); require(is(currency('I', 'A', 'G'), "", "IAG")); require(is(currency('I', 'A', 'H'), "", "IAH")); require(is(currency('I', 'A', 'I'), "", "IAI")); require(is(currency('I', 'A', 'J'), "", "IAJ")); require(is(currency('I', 'A', 'K'), "", "IAK")); require(is(currency('I', 'A', 'L'), "", "IAL")); require(is(currency('I', 'A', 'M'), "", "IAM")); require(is(currency('I', 'A', 'N'), "", "IAN")); require(is(currency('I', 'A', 'O'), "", "IAO")); require(is(currency('I', 'A', 'P'), "", "IAP")); require(is(currency('I', 'A', 'Q'), "", "IAQ")); require(is(currency('I', 'A', 'R'), "", "IAR")); require(is(currency('I', 'A', 'S'), "", "IAS")); require(is(currency('I', 'A', 'T'), "", "IAT")); require(is(currency('I', 'A', 'U'), "", "IAU")); require(is(currency('I', 'A', 'V'), "", "IAV")); require(is(currency('I', 'A', 'W'), "", "IAW")); require(is(currency('I', 'A', 'X'), "", "IAX")); require(is(currency('I', 'A', 'Y'), "", "IAY")); require(is(currency('I', 'A', 'Z'), "", "IAZ"));)
OBLIGATION(no_currency_IB, "esl/economics/currencies.hpp: currency_name (codes without a currency from IB)", (), require(is(currency('I', 'B', 'A'), "", "IBA")); require(is(currency('I', 'B', 'B'), "", "IBB")); require(is(currency('I', 'B', 'C'), "", "IBC")); require(is(currency('I', 'B', 'D'), "", "IBD")); require(is(currency('I', 'B', 'E'), "", "IBE")); require(is(currency('I', 'B', 'F'), "", "IBF")); require(is(currency('I', 'B', 'G'), "", "IBG")); require(is(currency('I', 'B', 'H'), "", "IBH")); require(is(currency('I', 'B', 'I'), "", "IBI")); require(is(currency('I', 'B', 'J'), "", "IBJ")); require(is(currency('I', 'B', 'K'), "", "IBK")); require(is(currency('I', 'B', 'L'), "", "IBL")); require(is(currency('I', 'B', 'M'), "", "IBM")); require(is(currency('I', 'B', 'N'), "", "IBN")); require(is(currency('I', 'B', 'O'), "", "IBO")); require(is(currency('I', 'B', 'P'), "", "IBP")); require(is(currency('I', 'B', 'Q'), "", "IBQ")); require(is(currency('I', 'B', 'R'), "", "IBR")); require(is(currency('I', 'B', 'S'), "", "IBS")); require(is(currency('I', 'B', 'T'), "", "IBT")); require(is(currency('I', 'B', 'U'), "", "IBU")); require(is(currency('I', 'B', 'V'), "", "IBV")); require(is(currency('I', 'B', 'W'), "", "IBW")); require(is(currency('I', 'B', 'X'), "", "IBX")); require(is(currency('I', 'B', 'Y'), "", "IBY")); require(is(currency('I', 'B', 'Z'), "", "IBZ"));)
OBLIGATION(no_currency_IC, "esl/economics/currencies.hpp: currency_name (codes without a currency from IC)", (), require(is(currency('I', 'C', 'A'), "", "ICA")); require(is(currency('I', 'C', 'B'), "", "ICB")); require(is(currency('I', 'C', 'C'), "", "ICC")); require(is(currency('I', 'C', 'D'), "", "ICD")); require(is(currency('I', 'C', 'E'), "", "ICE")); require(is(currency('I', 'C', 'F'), "", "ICF")); require(is(currency('I', 'C', 'G'), "", "ICG")); require(is(currency('I', 'C', 'H'), "", "ICH")); require(is(currency('I', 'C', 'I'), "", "ICI")); require(is(currency('I', 'C', 'J'), "", "ICJ")); require(is(currency('I', 'C', 'K'), "", "ICK")); require(is(currency('I', 'C', 'L'), "", "ICL")); require(is(currency('I', 'C', 'M'), "", "ICM")); require(is(currency('I', 'C', 'N'), "", "ICN")); require(is(currency('I', 'C', 'O'), "", "ICO")); require(is(currency('I', 'C', 'P'), "", "ICP")); require(is(currency('I', 'C', 'Q'), "", "ICQ")); require(is(currency('I', 'C', 'R'), "", "ICR")); require(is(currency('I', 'C', 'S'), "", "ICS")); require(is(currency('I', 'C', 'T'), "", "ICT")); require(is(currency('I', 'C', 'U'), "", "ICU")); require(is(currency('I', 'C', 'V'), "", "ICV")); require(is(currency('I', 'C', 'W'), "", "ICW")); require(is(currency('I', 'C', 'X'), "", "ICX")); require(is(currency('I', 'C', 'Y'), "", "ICY")); require(is(currency('I', 'C', 'Z'), "", "ICZ"));)
OBLIGATION(no_currency_ID, "esl/economics/currencies.hpp: currency_name (codes without a currency from ID)", (), require(is(currency('I', 'D', 'A'), "", "IDA")); require(is(currency('I', 'D', 'B'), "", "IDB")); require(is(currency('I', 'D', 'C'), "", "IDC")); require(is(currency('I', 'D', 'D'), "", "IDD")); require(is(currency('I', 'D', 'E'), "", "IDE")); require(is(currency('I', 'D', 'F'), "", "IDF")); require(is(currency('I', 'D', 'G'), "", "IDG")); require(is(currency('I', 'D', 'H'), "", "IDH")); require(is(currency('I', 'D', 'I'), "", "IDI")); require(is(currency('I', 'D', 'J'), "", "IDJ")); require(is(currency('I', 'D', 'K'), "", "IDK")); require(is(currency('I', 'D', 'L'), "", "IDL")); require(is(currency('I', 'D', 'M'), "", "IDM")); require(is(currency('I', 'D', 'N'), "", "IDN")); require(is(currency('I', 'D', 'O'), "", "IDO")); require(is(currency('I', 'D', 'P'), "", "IDP")); require(is(currency('I', 'D', 'Q'), "", "IDQ")); require(is(currency('I', 'D', 'S'), "", "IDS")); require(is(currency('I', 'D', 'T'), "", "IDT")); require(is(currency('I', 'D', 'U'), "", "IDU")); require(is(currency('I', 'D', 'V'), "", "IDV")); require(is(currency('I', 'D', 'W'), "", "IDW")); require(is(currency('I', 'D', 'X'), "", "IDX")); require(is(currency('I', 'D', 'Y'), "", "IDY")); require(is(currency('I', 'D', 'Z'), "", "IDZ"));)
OBLIGATION(no_currency_IE, "esl/economics/currencies.hpp: currency_name (codes without a currency from IE)", (), require(is(currency('I', 'E', 'A'), "", "IEA")); require(is(currency('I', 'E', 'B'), "", "IEB")); require(is(currency('I', 'E', 'C'), "", "IEC")); require(is(currency('I', 'E', 'D'), "", "IED")); require(is(currency('I', 'E', 'E'), "", "IEE")); require(is(currency('I', 'E', 'F'), "", "IEF")); require(is(currency('I', 'E', 'G'), "", "IEG")); require(is(currency('I', 'E', 'H'), "", "IEH")); require(is(currency('I', 'E', 'I'), "", "IEI")); require(is(currency('I', 'E', 'J'), "", "IEJ")); require(is(currency('I', 'E', 'K'), "", "IEK")); require(is(currency('I', 'E', 'L'), "", "IEL")); require(is(currency('I', 'E', 'M'), "", "IEM")); require(is(currency('I', 'E', 'N'), "", "IEN")); require(is(currency('I', 'E', 'O'), "", "IEO")); require(is(currency('I', 'E', 'P'), "", "IEP")); require(is(currency('I', 'E', 'Q'), "", "IEQ")); require(is(currency('I', 'E', 'R'), "", "IER")); require(is(currency('I', 'E', 'S'), "", "IES")); require(is(currency('I', 'E', 'T'), "", "IET")); require(is(currency('I', 'E', 'U'), "", "IEU")); require(is(currency('I', 'E', 'V'), "", "IEV")); require(is(currency('I', 'E', 'W'), "", "IEW")); require(is(currency('I', 'E', 'X'), "", "IEX")); require(is(currency('I', 'E', 'Y'), "", "IEY")); require(is(currency('I', 'E', 'Z'), "", "IEZ"));)
OBLIGATION(no_currency_IF, "esl/economics/currencies.hpp: currency_name (codes without a currency from IF)", (), require(is(currency('I', 'F', 'A'), "", "IFA")); require(is(currency('I', 'F', 'B'), "", "IFB")); require(is(currency('I', 'F', 'C'), "", "IFC")); require(is(currency('I', 'F', 'D'), "", "IFD")); require(is(currency('I', 'F', 'E'), "", "IFE")); require(is(currency('I', 'F', 'F'), "", "IFF")); require(is(currency('I', 'F', 'G'), "", "IFG")); require(is(currency('I', 'F', 'H'), "", "IFH")); require(is(currency('I', 'F', 'I'), "", "IFI")); require(is(currency('I', 'F', 'J'), "", "IFJ")); require(is(currency('I', 'F', 'K'), "", "IFK")); require(is(currency('I', 'F', 'L'), "", "IFL")); require(is(currency('I', 'F', 'M'), "", "IFM")); require(is(currency('I', 'F', 'N'), "", "IFN")); require(is(currency('I', 'F', 'O'), "", "IFO")); require(is(currency('I', 'F', 'P'), "", "IFP")); require(is(currency('I', 'F', 'Q'), "", "IFQ")); require(is(currency('I', 'F', 'R'), "", "IFR")); require(is(currency('I', 'F', 'S'), "", "IFS")); require(is(currency('I', 'F', 'T'), "", "IFT")); require(is(currency('I', 'F', 'U'), "", "IFU")); require(is(currency('I', 'F', 'V'), "", "IFV")); require(is(currency('I', 'F', 'W'), "", "IFW")); require(is(currency('I', 'F', 'X'), "", "IFX")); require(is(currency('I', 'F', 'Y'), "", "IFY")); require(is(currency('I', 'F', 'Z'), "", "IFZ"));)
OBLIGATION(no_currency_IG, "esl/economics/currencies.hpp: currency_name (codes without a currency from IG)", (), require(is(currency('I', 'G', 'A'), "", "IGA")); require(is(currency('I', 'G', 'B'), "", "IGB")); require(is(currency('I', 'G', 'C'), "", "IGC")); require(is(currency('I', 'G', 'D'), "", "IGD")); require(is(currency('I', 'G', 'E'), "", "IGE")); require(is(currency('I', 'G', 'F'), "", "IGF")); require(is(currency('I', 'G', 'G'), "", "IGG")); require(is(currency('I', 'G', 'H'), "", "IGH")); require(is(currency('I', 'G', 'I'), "", "IGI")); require(is(currency('I', 'G', 'J'), "", "IGJ")); require(is(currency('I', 'G', 'K'), "", "IGK")); require(is(currency('I', 'G', 'L'), "", "IGL")); require(is(currency('I', 'G', 'M'), "", "IGM")); require(is(currency('I', 'G', 'N'), "", "IGN")); require(is(currency('I', 'G', 'O'), "", "IGO")); require(is(currency('I', 'G', 'P'), "", "IGP")); require(is(currency('I', 'G', 'Q'), "", "IGQ")); require(is(currency('I', 'G', 'R'), "", "IGR")); require(is(currency('I', 'G', 'S'), "", "IGS")); require(is(currency('I', 'G', 'T'), "", "IGT")); require(is(currency('I', 'G', 'U'), "", "IGU")); require(is(currency('I', 'G', 'V'), "", "IGV")); require(is(currency('I', 'G', 'W'), "", "IGW")); require(is(currency('I', 'G', 'X'), "", "IGX")); require(is(currency('I', 'G', 'Y'), "", "IGY")); require(is(currency('I', 'G', 'Z'), "", "IGZ"));)
OBLIGATION(no_currency_IH, "esl/economics/currencies.hpp: currency_name (codes without a currency from IH)", (), require(is(currency('I', 'H', 'A'), "", "IHA")); require(is(currency('I', 'H', 'B'), "", "IHB")); require(is(currency('I', 'H', 'C'), "", "IHC")); require(is(currency('I', 'H', 'D'), "", "IHD")); require(is(currency('I', 'H', 'E'), "", "IHE")); require(is(currency('I', 'H', 'F'), "", "IHF")); require(is(currency('I', 'H', 'G'), "", "IHG")); require(is(currency('I', 'H', 'H'), "", "IHH")); require(is(currency('I', 'H', 'I'), "", "IHI")); require(is(currency('I', 'H', 'J'), "", "IHJ")); require(is(currency('I', 'H', 'K'), "", "IHK")); require(is(currency('I', 'H', 'L'), "", "IHL")); require(is(currency('I', 'H', 'M'), "", "IHM")); require(is(currency('I', 'H', 'N'), "", "IHN")); require(is(currency('I', 'H', 'O'), "", "IHO")); require(is(currency('I', 'H', 'P'), "", "IHP")); require(is(currency('I', 'H', 'Q'), "", "IHQ")); require(is(currency('I', 'H', 'R'), "", "IHR")); require(is(currency('I', 'H', 'S'), "", "IHS")); require(is(currency('I', 'H', 'T'), "", "IHT")); require(is(currency('I', 'H', 'U'), "", "IHU")); require(is(currency('I', 'H', 'V'), "", "IHV")); require(is(currency('I', 'H', 'W'), "", "IHW")); require(is(currency('I', 'H', 'X'), "", "IHX")); require(is(currency('I', 'H', 'Y'), "", "IHY")); require(is(currency('I', 'H', 'Z'), "", "IHZ"));)
OBLIGATION(no_currency_II, "esl/economics/currencies.hpp: currency_name (codes without a currency from II)", (), require(is(currency('I', 'I', 'A'), "", "IIA")); require(is(currency('I', 'I', 'B'), "", "IIB")); require(is(currency('I', 'I', 'C'), "", "IIC")); require(is(currency('I', 'I', 'D'), "", "IID")); require(is(currency('I', 'I', 'E'), "", "IIE")); require(is(currency('I', 'I', 'F'), "", "IIF")); require(is(currency('I', 'I', 'G'), "", "IIG")); require(is(currency('I', 'I', 'H'), "", "IIH")); require(is(currency('I', 'I', 'I'), "", "III")); require(is(currency('I', 'I', 'J'), "", "IIJ")); require(is(currency('I', 'I', 'K'), "", "IIK")); require(is(currency('I', 'I', 'L'), "", "IIL")); require(is(currency('I', 'I', 'M'), "", "IIM")); require(is(currency('I', 'I', 'N'), "", "IIN")); require(is(currency('I', 'I', 'O'), "", "IIO")); require(is(currency('I', 'I', 'P'), "", "IIP")); require(is(currency('I', 'I', 'Q'), "", "IIQ")); require(is(currency('I', 'I', 'R'), "", "IIR")); require(is(currency('I', 'I', 'S'), "", "IIS")); require(is(currency('I', 'I', 'T'), "", "IIT")); require(is(currency('I', 'I', 'U'), "", "IIU")); require(is(currency('I', 'I', 'V'), "", "IIV")); require(is(currency('I', 'I', 'W'), "", "IIW")); require(is(currency('I', 'I', 'X'), "", "IIX")); require(is(currency('I', 'I', 'Y'), "", "IIY")); require(is(currency('I', 'I', 'Z'), "", "IIZ"));)
OBLIGATION(no_currency_IJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from IJ)", (), require(is(currency('I', 'J', 'A'), "", "IJA")); require(is(currency('I', 'J', 'B'), "", "IJB")); require(is(currency('I', 'J', 'C'), "", "IJC")); require(is(currency('I', 'J', 'D'), "", "IJD")); require(is(currency('I', 'J', 'E'), "", "IJE")); require(is(currency('I', 'J', 'F'), "", "IJF")); require(is(currency('I', 'J', 'G'), "", "IJG")); require(is(currency('I', 'J', 'H'), "", "IJH")); require(is(currency('I', 'J', 'I'), "", "IJI")); require(is(currency('I', 'J', 'J'), "", "IJJ")); require(is(currency('I', 'J', 'K'), "", "IJK")); require(is(currency('I', 'J', 'L'), "", "IJL")); require(is(currency('I', 'J', 'M'), "", "IJM")); require(is(currency('I', 'J', 'N'), "", "IJN")); require(is(currency('I', 'J', 'O'), "", "IJO")); require(is(currency('I', 'J', 'P'), "", "IJP")); require(is(currency('I', 'J', 'Q'), "", "IJQ")); require(is(currency('I', 'J', 'R'), "", "IJR")); require(is(currency('I', 'J', 'S'), "", "IJS")); require(is(currency('I', 'J', 'T'), "", "IJT")); require(is(currency('I', 'J', 'U'), "", "IJU")); require(is(currency('I', 'J', 'V'), "", "IJV")); require(is(currency('I', 'J', 'W'), "", "IJW")); require(is(currency('I', 'J', 'X'), "", "IJX")); require(is(currency('I', 'J', 'Y'), "", "IJY")); require(is(currency('I', 'J', 'Z'), "", "IJZ"));)
OBLIGATION(no_currency_IK, "esl/economics/currencies.hpp: currency_name (codes without a currency from IK)", (), require(is(currency('I', 'K', 'A'), "", "IKA")); require(is(currency('I', 'K', 'B'), "", "IKB")); require(is(currency('I', 'K', 'C'), "", "IKC")); require(is(currency('I', 'K', 'D'), "", "IKD")); require(is(currency('I', 'K', 'E'), "", "IKE")); require(is(currency('I', 'K', 'F'), "", "IKF")); require(is(currency('I', 'K', 'G'), "", "IKG")); require(is(currency('I', 'K', 'H'), "", "IKH")); require(is(currency('I', 'K', 'I'), "", "IKI")); require(is(currency('I', 'K', 'J'), "", "IKJ")); require(is(currency('I', 'K', 'K'), "", "IKK")); require(is(currency('I', 'K', 'L'), "", "IKL")); require(is(currency('I', 'K', 'M'), "", "IKM")); require(is(currency('I', 'K', 'N'), "", "IKN")); require(is(currency('I', 'K', 'O'), "", "IKO")); require(is(currency('I', 'K', 'P'), "", "IKP")); require(is(currency('I', 'K', 'Q'), "", "IKQ")); require(is(currency('I', 'K', 'R'), "", "IKR")); require(is(currency('I', 'K', 'S'), "", "IKS")); require(is(currency('I', 'K', 'T'), "", "IKT")); require(is(currency('I', 'K', 'U'), "", "IKU")); require(is(currency('I', 'K', 'V'), "", "IKV")); require(is(currency('I', 'K', 'W'), "", "IKW")); require(is(currency('I', 'K', 'X'), "", "IKX")); require(is(currency('I', 'K', 'Y'), "", "IKY")); require(is(currency('I', 'K', 'Z'), "", "IKZ"));)
OBLIGATION(no_currency_IL, "esl/economics/currencies.hpp: currency_name (codes without a currency from IL)", (), require(is(currency('I', 'L', 'A'), "", "ILA")); require(is(currency('I', 'L', 'B'), "", "ILB")); require(is(currency('I', 'L', 'C'), "", "ILC")); require(is(currency('I', 'L', 'D'), "", "ILD")); require(is(currency('I', 'L', 'E'), "", "ILE")); require(is(currency('I', 'L', 'F'), "", "ILF")); require(is(currency('I', 'L', 'G'), "", "ILG")); require(is(currency('I', 'L', 'H'), "", "ILH")); require(is(currency('I', 'L', 'I'), "", "ILI")); require(is(currency('I', 'L', 'J'), "", "ILJ")); require(is(currency('I', 'L', 'K'), "", "ILK")); require(is(currency('I', 'L', 'L'), "", "ILL")); require(is(currency('I', 'L', 'M'), "", "ILM")); require(is(currency('I', 'L', 'N'), "", "ILN")); require(is(currency('I', 'L', 'O'), "", "ILO")); require(is(currency('I', 'L', 'P'), "", "ILP")); require(is(currency('I', 'L', 'Q'), "", "ILQ")); require(is(currency('I', 'L', 'R'), "", "ILR")); require(is(currency('I', 'L', 'T'), "", "ILT")); require(is(currency('I', 'L', 'U'), "", "ILU")); require(is(currency('I', 'L', 'V'), "", "ILV")); require(is(currency('I', 'L', 'W'), "", "ILW")); require(is(currency('I', 'L', 'X'), "", "ILX")); require(is(currency('I', 'L', 'Y'), "", "ILY")); require(is(currency('I', 'L', 'Z'), "", "ILZ"));)
OBLIGATION(no_currency_IM, "esl/economics/currencies.hpp: currency_name (codes without a currency from IM)", (), require(is(currency('I', 'M', 'A'), "", "IMA")); require(is(currency('I', 'M', 'B'), "", "IMB")); require(is(currency('I', 'M', 'C'), "", "IMC")); require(is(currency('I', 'M', 'D'), "", "IMD")); require(is(currency('I', 'M', 'E'), "", "IME")); require(is(currency('I', 'M', 'F'), "", "IMF")); require(is(currency('I', 'M', 'G'), "", "IMG")); require(is(currency('I', 'M', 'H'), "", "IMH")); require(is(currency('I', 'M', 'I'), "", "IMI")); require(is(currency('I', 'M', 'J'), "", "IMJ")); require(is(currency('I', 'M', 'K'), "", "IMK")); require(is(currency('I', 'M', 'L'), "", "IML")); require(is(currency('I', 'M', 'M'), "", "IMM")); require(is(currency('I', 'M', 'N'), "", "IMN")); require(is(currency('I', 'M', 'O'), "", "IMO")); require(is(currency('I', 'M', 'P'), "", "IMP")); require(is(currency('I', 'M', 'Q'), "", "IMQ")); require(is(currency('I', 'M', 'R'), "", "IMR")); require(is(currency('I', 'M', 'S'), "", "IMS")); require(is(currency('I', 'M', 'T'), "", "IMT")); require(is(currency('I', 'M', 'U'), "", "IMU")); require(is(currency('I', 'M', 'V'), "", "IMV")); require(is(currency('I', 'M', 'W'), "", "IMW")); require(is(currency('I', 'M', 'X'), "", "IMX")); require(is(currency('I', 'M', 'Y'), "", "IMY")); require(is(currency('I', 'M', 'Z'), "", "IMZ"));)
OBLIGATION(no_currency_IN, "esl/economics/currencies.hpp: currency_name (codes without a currency from IN)", (), require(is(currency('I', 'N', 'A'), "", "INA")); require(is(currency('I', 'N', 'B'), "", "INB")); require(is(currency('I', 'N', 'C'), "", "INC")); require(is(currency('I', 'N', 'D'), "", "IND")); require(is(currency('I', 'N', 'E'), "", "INE")); require(is(currency('I', 'N', 'F'), "", "INF")); require(is(currency('I', 'N', 'G'), "", "ING")); require(is(currency('I', 'N', 'H'), "", "INH")); require(is(currency('I', 'N', 'I'), "", "INI")); require(is(currency('I', 'N', 'J'), "", "INJ")); require(is(currency('I', 'N', 'K'), "", "INK")); require(is(currency('I', 'N', 'L'), "", "INL")); require(is(currency('I', 'N', 'M'), "", "INM")); require(is(currency('I', 'N', 'N'), "", "INN")); require(is(currency('I', 'N', 'O'), "", "INO")); require(is(currency('I', 'N', 'P'), "", "INP")); require(is(currency('I', 'N', 'Q'), "", "INQ")); require(is(currency('I', 'N', 'S'), "", "INS")); require(is(currency('I', 'N', 'T'), "", "INT")); require(is(currency('I', 'N', 'U'), "", "INU")); require(is(currency('I', 'N', 'V'), "", "INV")); require(is(currency('I', 'N', 'W'), "", "INW")); require(is(currency('I', 'N', 'X'), "", "INX")); require(is(currency('I', 'N', 'Y'), "", "INY")); require(is(currency('I', 'N', 'Z'), "", "INZ"));)
OBLIGATION(no_currency_IO, "esl/economics/currencies.hpp: currency_name (codes without a currency from IO)", (), require(is(currency('I', 'O', 'A'), "", "IOA")); require(is(currency('I', 'O', 'B'), "", "IOB")); require(is(currency('I', 'O', 'C'), "", "IOC")); require(is(currency('I', 'O', 'D'), "", "IOD")); require(is(currency('I', 'O', 'E'), "", "IOE")); require(is(currency('I', 'O', 'F'), "", "IOF")); require(is(currency('I', 'O', 'G'), "", "IOG")); require(is(currency('I', 'O', 'H'), "", "IOH")); require(is(currency('I', 'O', 'I'), "", "IOI")); require(is(currency('I', 'O', 'J'), "", "IOJ")); require(is(currency('I', 'O', 'K'), "", "IOK")); require(is(currency('I', 'O', 'L'), "", "IOL")); require(is(currency('I', 'O', 'M'), "", "IOM")); require(is(currency('I', 'O', 'N'), "", "ION")); require(is(currency('I', 'O', 'O'), "", "IOO")); require(is(currency('I', 'O', 'P'), "", "IOP")); require(is(currency('I', 'O', 'Q'), "", "IOQ")); require(is(currency('I', 'O', 'R'), "", "IOR")); require(is(currency('I', 'O', 'S'), "", "IOS")); require(is(currency('I', 'O', 'T'), "", "IOT")); require(is(currency('I', 'O', 'U'), "", "IOU")); require(is(currency('I', 'O', 'V'), "", "IOV")); require(is(currency('I', 'O', 'W'), "", "IOW")); require(is(currency('I', 'O', 'X'), "", "IOX")); require(is(currency('I', 'O', 'Y'), "", "IOY")); require(is(currency('I', 'O', 'Z'), "", "IOZ"));)
OBLIGATION(no_currency_IP, "esl/economics/currencies.hpp: currency_name (codes without a currency from IP)", (), require(is(currency('I', 'P', 'A'), "", "IPA")); require(is(currency('I', 'P', 'B'), "", "IPB")); require(is(currency('I', 'P', 'C'), "", "IPC")); require(is(currency('I', 'P', 'D'), "", "IPD")); require(is(currency('I', 'P', 'E'), "", "IPE")); require(is(currency('I', 'P', 'F'), "", "IPF")); require(is(currency('I', 'P', 'G'), "", "IPG")); require(is(currency('I', 'P', 'H'), "", "IPH")); require(is(currency('I', 'P', 'I'), "", "IPI")); require(is(currency('I', 'P', 'J'), "", "IPJ")); require(is(currency('I', 'P', 'K'), "", "IPK")); require(is(currency('I', 'P', 'L'), "", "IPL")); require(is(currency('I', 'P', 'M'), "", "IPM")); require(is(currency('I', 'P', 'N'), "", "IPN")); require(is(currency('I', 'P', 'O'), "", "IPO")); require(is(currency('I', 'P', 'P'), "", "IPP")); require(is(currency('I', 'P', 'Q'), "", "IPQ")); require(is(currency('I', 'P', 'R'), "", "IPR")); require(is(currency('I', 'P', 'S'), "", "IPS")); require(is(currency('I', 'P', 'T'), "", "IPT")); require(is(currency('I', 'P', 'U'), "", "IPU")); require(is(currency('I', 'P', 'V'), "", "IPV")); require(is(currency('I', 'P', 'W'), "", "IPW")); require(is(currency('I', 'P', 'X'), "", "IPX")); require(is(currency('I', 'P', 'Y'), "", "IPY")); require(is(currency('I', 'P', 'Z'), "", "IPZ"));)
OBLIGATION(no_currency_IQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from IQ)", (), require(is(currency('I', 'Q', 'A'), "", "IQA")); require(is(currency('I', 'Q', 'B'), "", "IQB")); require(is(currency('I', 'Q', 'C'), "", "IQC")); require(is(currency('I', 'Q', 'E'), "", "IQE")); require(is(currency('I', 'Q', 'F'), "", "IQF")); require(is(currency('I', 'Q', 'G'), "", "IQG")); require(is(currency('I', 'Q', 'H'), "", "IQH")); require(is(currency('I', 'Q', 'I'), "", "IQI")); require(is(currency('I', 'Q', 'J'), "", "IQJ")); require(is(currency('I', 'Q', 'K'), "", "IQK")); require(is(currency('I', 'Q', 'L'), "", "IQL")); require(is(currency('I', 'Q', 'M'), "", "IQM")); require(is(currency('I', 'Q', 'N'), "", "IQN")); require(is(currency('I', 'Q', 'O'), "", "IQO")); require(is(currency('I', 'Q', 'P'), "", "IQP")); require(is(currency('I', 'Q', 'Q'), "", "IQQ")); require(is(currency('I', 'Q', 'R'), "", "IQR")); require(is(currency('I', 'Q', 'S'), "", "IQS")); require(is(currency('I', 'Q', 'T'), "", "IQT")); require(is(currency('I', 'Q', 'U'), "", "IQU")); require(is(currency('I', 'Q', 'V'), "", "IQV")); require(is(currency('I', 'Q', 'W'), "", "IQW")); require(is(currency('I', 'Q', 'X'), "", "IQX")); require(is(currency('I', 'Q', 'Y'), "", "IQY")); require(is(currency('I', 'Q', 'Z'), "", "IQZ"));)
OBLIGATION(no_currency_IR, "esl/economics/currencies.hpp: currency_name (codes without a currency from IR)", (), require(is(currency('I', 'R', 'A'), "", "IRA")); require(is(currency('I', 'R', 'B'), "", "IRB")); require(is(currency('I', 'R', 'C'), "", "IRC")); require(is(currency('I', 'R', 'D'), "", "IRD")); require(is(currency('I', 'R', 'E'), "", "IRE")); require(is(currency('I', 'R', 'F'), "", "IRF")); require(is(currency('I', 'R', 'G'), "", "IRG")); require(is(currency('I', 'R', 'H'), "", "IRH")); require(is(currency('I', 'R', 'I'), "", "IRI")); require(is(currency('I', 'R', 'J'), "", "IRJ")); require(is(currency('I', 'R', 'K'), "", "IRK")); require(is(currency('I', 'R', 'L'), "", "IRL")); require(is(currency('I', 'R', 'M'), "", "IRM")); require(is(currency('I', 'R', 'N'), "", "IRN")); require(is(currency('I', 'R', 'O'), "", "IRO")); require(is(currency('I', 'R', 'P'), "", "IRP")); require(is(currency('I', 'R', 'Q'), "", "IRQ")); require(is(currency('I', 'R', 'S'), "", "IRS")); require(is(currency('I', 'R', 'T'), "", "IRT")); require(is(currency('I', 'R', 'U'), "", "IRU")); require(is(currency('I', 'R', 'V'), "", "IRV")); require(is(currency('I', 'R', 'W'), "", "IRW")); require(is(currency('I', 'R', 'X'), "", "IRX")); require(is(currency('I', 'R', 'Y'), "", "IRY")); require(is(currency('I', 'R', 'Z'), "", "IRZ"));)
OBLIGATION(no_currency_IS, "esl/economics/currencies.hpp: currency_name (codes without a currency from IS)", (), require(is(currency('I', 'S', 'A'), "", "ISA")); require(is(currency('I', 'S', 'B'), "", "ISB")); require(is(currency('I', 'S', 'C'), "", "ISC")); require(is(currency('I', 'S', 'D'), "", "ISD")); require(is(currency('I', 'S', 'E'), "", "ISE")); require(is(currency('I', 'S', 'F'), "", "ISF")); require(is(currency('I', 'S', 'G'), "", "ISG")); require(is(currency('I', 'S', 'H'), "", "ISH")); require(is(currency('I', 'S', 'I'), "", "ISI")); require(is(currency('I', 'S', 'J'), "", "ISJ")); require(is(currency('I', 'S', 'L'), "", "ISL")); require(is(currency('I', 'S', 'M'), "", "ISM")); require(is(currency('I', 'S', 'N'), "", "ISN")); require(is(currency('I', 'S', 'O'), "", "ISO")); require(is(currency('I', 'S', 'P'), "", "ISP")); require(is(currency('I', 'S', 'Q'), "", "ISQ")); require(is(currency('I', 'S', 'R'), "", "ISR")); require(is(currency('I', 'S', 'S'), "", "ISS")); require(is(currency('I', 'S', 'T'), "", "IST")); require(is(currency('I', 'S', 'U'), "", "ISU")); require(is(currency('I', 'S', 'V'), "", "ISV")); require(is(currency('I', 'S', 'W'), "", "ISW")); require(is(currency('I', 'S', 'X'), "", "ISX")); require(is(currency('I', 'S', 'Y'), "", "ISY")); require(is(currency('I', 'S', 'Z'), "", "ISZ"));)
OBLIGATION(no_currency_IT, "esl/economics/currencies.hpp: currency_name (codes without a currency from IT)", (), require(is(currency('I', 'T', 'A'), "", "ITA")); require(is(currency('I', 'T', 'B'), "", "ITB")); require(is(currency('I', 'T', 'C'), "", "ITC")); require(is(currency('I', 'T', 'D'), "", "ITD")); require(is(currency('I', 'T', 'E'), "", "ITE")); require(is(currency('I', 'T', 'F'), "", "ITF")); require(is(currency('I', 'T', 'G'), "", "ITG")); require(is(currency('I', 'T', 'H'), "", "ITH")); require(is(currency('I', 'T', 'I'), "", "ITI")); require(is(currency('I', 'T', 'J'), "", "ITJ")); require(is(currency('I', 'T', 'K'), "", "ITK")); require(is(currency('I', 'T', 'L'), "", "ITL")); require(is(currency('I', 'T', 'M'), "", "ITM")); require(is(currency('I', 'T', 'N'), "", "ITN")); require(is(currency('I', 'T', 'O'), "", "ITO")); require(is(currency('I', 'T', 'P'), "", "ITP")); require(is(currency('I', 'T', 'Q'), "", "ITQ")); require(is(currency('I', 'T', 'R'), "", "ITR")); require(is(currency('I', 'T', 'S'), "", "ITS")); require(is(currency('I', 'T', 'T'), "", "ITT")); require(is(currency('I', 'T', 'U'), "", "ITU")); require(is(currency('I', 'T', 'V'), "", "ITV")); require(is(currency('I', 'T', 'W'), "", "ITW")); require(is(currency('I', 'T', 'X'), "", "ITX")); require(is(currency('I', 'T', 'Y'), "", "ITY")); require(is(currency('I', 'T', 'Z'), "", "ITZ"));)
OBLIGATION(no_currency_IU, "esl/economics/currencies.hpp: currency_name (codes without a currency from IU)", (), require(is(currency('I', 'U', 'A'), "", "IUA")); require(is(currency('I', 'U', 'B'), "", "IUB")); require(is(currency('I', 'U', 'C'), "", "IUC")); require(is(currency('I', 'U', 'D'), "", "IUD")); require(is(currency('I', 'U', 'E'), "", "IUE")); require(is(currency('I', 'U', 'F'), "", "IUF")); require(is(currency('I', 'U', 'G'), "", "IUG")); require(is(currency('I', 'U', 'H'), "", "IUH")); require(is(currency('I', 'U', 'I'), "", "IUI")); require(is(currency('I', 'U', 'J'), "", "IUJ")); require(is(currency('I', 'U', 'K'), "", "IUK")); require(is(currency('I', 'U', 'L'), "", "IUL")); require(is(currency('I', 'U', 'M'), "", "IUM")); require(is(currency('I', 'U', 'N'), "", "IUN")); require(is(currency('I', 'U', 'O'), "", "IUO")); require(is(currency('I', 'U', 'P'), "", "IUP")); require(is(currency('I', 'U', 'Q'), "", "IUQ")); require(is(currency('I', 'U', 'R'), "", "IUR")); require(is(currency('I', 'U', 'S'), "", "IUS")); require(is(currency('I', 'U', 'T'), "", "IUT")); require(is(currency('I', 'U', 'U'), "", "IUU")); require(is(currency('I', 'U', 'V'), "", "IUV")); require(is(currency('I', 'U', 'W'), "", "IUW")); require(is(currency('I', 'U', 'X'), "", "IUX")); require(is(currency('I', 'U', 'Y'), "", "IUY")); require(is(currency('I', 'U', 'Z'), "", "IUZ"));)
OBLIGATION(no_currency_IV, "esl/economics/currencies.hpp: currency_name (codes without a currency from IV)", (), require(is(currency('I', 'V', 'A'), "", "IVA")); require(is(currency('I', 'V', 'B'), "", "IVB")); require(is(currency('I', 'V', 'C'), "", "IVC")); require(is(currency('I', 'V', 'D'), "", "IVD")); require(is(currency('I', 'V', 'E'), "", "IVE")); require(is(currency('I', 'V', 'F'), "", "IVF")); require(is(currency('I', 'V', 'G'), "", "IVG")); require(is(currency('I', 'V', 'H'), "", "IVH")); require(is(currency('I', 'V', 'I'), "", "IVI")); require(is(currency('I', 'V', 'J'), "", "IVJ")); require(is(currency('I', 'V', 'K'), "", "IVK")); require(is(currency('I', 'V', 'L'), "", "IVL")); require(is(currency('I', 'V', 'M'), "", "IVM")); require(is(currency('I', 'V', 'N'), "", "IVN")); require(is(currency('I', 'V', 'O'), "", "IVO")); require(is(currency('I', 'V', 'P'), "", "IVP")); require(is(currency('I', 'V', 'Q'), "", "IVQ")); require(is(currency('I', 'V', 'R'), "", "IVR")); require(is(currency('I', 'V', 'S'), "", "IVS")); require(is(currency('I', 'V', 'T'), "", "IVT")); require(is(currency('I', 'V', 'U'), "", "IVU")); require(is(currency('I', 'V', 'V'), "", "IVV")); require(is(currency('I', 'V', 'W'), "", "IVW")); require(is(currency('I', 'V', 'X'), "", "IVX")); require(is(currency('I', 'V', 'Y'), "", "IVY")); require(is(currency('I', 'V', 'Z'), "", "IVZ"));)
OBLIGATION(no_currency_IW, "esl/economics/currencies.hpp: currency_name (codes without a currency from IW)", (), require(is(currency('I', 'W', 'A'), "", "IWA")); require(is(currency('I', 'W', 'B'), "", "IWB")); require(is(currency('I', 'W', 'C'), "", "IWC")); require(is(currency('I', 'W', 'D'), "", "IWD")); require(is(currency('I', 'W', 'E'), "", "IWE")); require(is(currency('I', 'W', 'F'), "", "IWF")); require(is(currency('I', 'W', 'G'), "", "IWG")); require(is(currency('I', 'W', 'H'), "", "IWH")); require(is(currency('I', 'W', 'I'), "", "IWI")); require(is(currency('I', 'W', 'J'), "", "IWJ")); require(is(currency('I', 'W', 'K'), "", "IWK")); require(is(currency('I', 'W', 'L'), "", "IWL")); require(is(currency('I', 'W', 'M'), "", "IWM")); require(is(currency('I', 'W', 'N'), "", "IWN")); require(is(currency('I', 'W', 'O'), "", "IWO")); require(is(currency('I', 'W', 'P'), "", "IWP")); require(is(currency('I', 'W', 'Q'), "", "IWQ")); require(is(currency('I', 'W', 'R'), "", "IWR")); require(is(currency('I', 'W', 'S'), "", "IWS")); require(is(currency('I', 'W', 'T'), "", "IWT")); require(is(currency('I', 'W', 'U'), "", "IWU")); require(is(currency('I', 'W', 'V'), "", "IWV")); require(is(currency('I', 'W', 'W'), "", "IWW")); require(is(currency('I', 'W', 'X'), "", "IWX")); require(is(currency('I', 'W', 'Y'), "", "IWY")); require(is(currency('I', 'W', 'Z'), "", "IWZ"));)
OBLIGATION(no_currency_IX, "esl/economics/currencies.hpp: currency_name (codes without a currency from IX)", (), require(is(currency('I', 'X', 'A'), "", "IXA")); require(is(currency('I', 'X', 'B'), "", "IXB")); require(is(currency('I', 'X', 'C'), "", "IXC")); require(is(currency('I', 'X', 'D'), "", "IXD")); require(is(currency('I', 'X', 'E'), "", "IXE")); require(is(currency('I', 'X', 'F'), "", "IXF")); require(is(currency('I', 'X', 'G'), "", "IXG")); require(is(currency('I', 'X', 'H'), "", "IXH")); require(is(currency('I', 'X', 'I'), "", "IXI")); require(is(currency('I', 'X', 'J'), "", "IXJ")); require(is(currency('I', 'X', 'K'), "", "IXK")); require(is(currency('I', 'X', 'L'), "", "IXL")); require(is(currency('I', 'X', 'M'), "", "IXM")); require(is(currency('I', 'X', 'N'), "", "IXN")); require(is(currency('I', 'X', 'O'), "", "IXO")); require(is(currency('I', 'X', 'P'), "", "IXP")); require(is(currency('I', 'X', 'Q'), "", "IXQ")); require(is(currency('I', 'X', 'R'), "", "IXR")); require(is(currency('I', 'X', 'S'), "", "IXS")); require(is(currency('I', 'X', 'T'), "", "IXT")); require(is(currency('I', 'X', 'U'), "", "IXU")); require(is(currency('I', 'X', 'V'), "", "IXV")); require(is(currency('I', 'X', 'W'), "", "IXW")); require(is(currency('I', 'X', 'X'), "", "IXX")); require(is(currency('I', 'X', 'Y'), "", "IXY")); require(is(currency('I', 'X', 'Z'), "", "IXZ"));)
OBLIGATION(no_currency_IY, "esl/economics/currencies.hpp: currency_name (codes without a currency from IY)", (), require(is(currency('I', 'Y', 'A'), "", "IYA")); require(is(currency('I', 'Y', 'B'), "", "IYB")); require(is(currency('I', 'Y', 'C'), "", "IYC")); require(is(currency('I', 'Y', 'D'), "", "IYD")); require(is(currency('I', 'Y', 'E'), "", "IYE")); require(is(currency('I', 'Y', 'F'), "", "IYF")); require(is(currency('I', 'Y', 'G'), "", "IYG")); require(is(currency('I', 'Y', 'H'), "", "IYH")); require(is(currency('I', 'Y', 'I'), "", "IYI")); require(is(currency('I', 'Y', 'J'), "", "IYJ")); require(is(currency('I', 'Y', 'K'), "", "IYK")); require(is(currency('I', 'Y', 'L'), "", "IYL")); require(is(currency('I', 'Y', 'M'), "", "IYM")); require(is(currency('I', 'Y', 'N'), "", "IYN")); require(is(currency('I', 'Y', 'O'), "", "IYO")); require(is(currency('I', 'Y', 'P'), "", "IYP")); require(is(currency('I', 'Y', 'Q'), "", "IYQ")); require(is(currency('I', 'Y', 'R'), "", "IYR")); require(is(currency('I', 'Y', 'S'), "", "IYS")); require(is(currency('I', 'Y', 'T'), "", "IYT")); require(is(currency('I', 'Y', 'U'), "", "IYU")); require(is(currency('I', 'Y', 'V'), "", "IYV")); require(is(currency('I', 'Y', 'W'), "", "IYW")); require(is(currency('I', 'Y', 'X'), "", "IYX")); require(is(currency('I', 'Y', 'Y'), "", "IYY")); require(is(currency('I', 'Y', 'Z'), "", "IYZ"));)
OBLIGATION(no_currency_IZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from IZ)", (), require(is(currency('I', 'Z', 'A'), "", "IZA")); require(is(currency('I', 'Z', 'B'), "", "IZB")); require(is(currency('I', 'Z', 'C'), "", "IZC")); require(is(currency('I', 'Z', 'D'), "", "IZD")); require(is(currency('I', 'Z', 'E'), "", "IZE")); require(is(currency('I', 'Z', 'F'), "", "IZF")); require(is(currency('I', 'Z', 'G'), "", "IZG")); require(is(currency('I', 'Z', 'H'), "", "IZH")); require(is(currency('I', 'Z', 'I'), "", "IZI")); require(is(currency('I', 'Z', 'J'), "", "IZJ")); require(is(currency('I', 'Z', 'K'), "", "IZK")); require(is(currency('I', 'Z', 'L'), "", "IZL")); require(is(currency('I', 'Z', 'M'), "", "IZM")); require(is(currency('I', 'Z', 'N'), "", "IZN")); require(is(currency('I', 'Z', 'O'), "", "IZO")); require(is(currency('I', 'Z', 'P'), "", "IZP")); require(is(currency('I', 'Z', 'Q'), "", "IZQ")); require(is(currency('I', 'Z', 'R'), "", "IZR")); require(is(currency('I', 'Z', 'S'), "", "IZS")); require(is(currency('I', 'Z', 'T'), "", "IZT")); require(is(currency('I', 'Z', 'U'), "", "IZU")); require(is(currency('I', 'Z', 'V'), "", "IZV")); require(is(currency('I', 'Z', 'W'), "", "IZW")); require(is(currency('I', 'Z', 'X'), "", "IZX")); require(is(currency('I', 'Z', 'Y'), "", "IZY")); require(is(currency('I', 'Z', 'Z'), "", "IZZ"));)
OBLIGATION(no_currency_JA, "esl/economics/currencies.hpp: currency_name (codes without a currency from JA)", (), require(is(currency('J', 'A', 'A'), "", "JAA")); require(is(currency('J', 'A', 'B'), "", "JAB")); require(is(currency('J', 'A', 'C'), "", "JAC")); require(is(currency('J', 'A', 'D'), "", "JAD")); require(is(currency('J', 'A', 'E'), "", "JAE")); require(is(currency('J', 'A', 'F'), "", "JAF")); require(is(currency('J', 'A', 'G'), "", "JAG")); require(is(currency('J', 'A', 'H'), "", "JAH")); require(is(currency('J', 'A', 'I'), "", "JAI")); require(is(currency('J', 'A', 'J'), "", "JAJ")); require(is(currency('J', 'A', 'K'), "", "JAK")); require(is(currency('J', 'A', 'L'), "", "JAL")); require(is(currency('J', 'A', 'M'), "", "JAM")); require(is(currency('J', 'A', 'N'), "", "JAN")); require(is(currency('J', 'A', 'O'), "", "JAO")); require(is(currency('J', 'A', 'P'), "", "JAP")); require(is(currency('J', 'A', 'Q'), "", "JAQ")); require(is(currency('J', 'A', 'R'), "", "JAR")); require(is(currency('J', 'A', 'S'), "", "JAS")); require(is(currency('J', 'A', 'T'), "", "JAT")); require(is(currency('J', 'A', 'U'), "", "JAU")); require(is(currency('J', 'A', 'V'), "", "JAV")); require(is(currency('J', 'A', 'W'), "", "JAW")); require(is(currency('J', 'A', 'X'), "", "JAX")); require(is(currency('J', 'A', 'Y'), "", "JAY")); require(is(currency('J', 'A', 'Z'), "", "JAZ"));)
OBLIGATION(no_currency_JB, "esl/economics/currencies.hpp: currency_name (codes without a currency from JB)", (), require(is(currency('J', 'B', 'A'), "", "JBA")); require(is(currency('J', 'B', 'B'), "", "JBB")); require(is(currency('J', 'B', 'C'), "", "JBC")); require(is(currency('J', 'B', 'D'), "", "JBD")); require(is(currency('J', 'B', 'E'), "", "JBE")); require(is(currency('J', 'B', 'F'), "", "JBF")); require(is(currency('J', 'B', 'G'), "", "JBG")); require(is(currency('J', 'B', 'H'), "", "JBH")); require(is(currency('J', 'B', 'I'), "", "JBI")); require(is(currency('J', 'B', 'J'), "", "JBJ")); require(is(currency('J', 'B', 'K'), "", "JBK")); require(is(currency('J', 'B', 'L'), "", "JBL")); require(is(currency('J', 'B', 'M'), "", "JBM")); require(is(currency('J', 'B', 'N'), "", "JBN")); require(is(currency('J', 'B', 'O'), "", "JBO")); require(is(currency('J', 'B', 'P'), "", "JBP")); require(is(currency('J', 'B', 'Q'), "", "JBQ")); require(is(currency('J', 'B', 'R'), "", "JBR")); require(is(currency('J', 'B', 'S'), "", "JBS")); require(is(currency('J', 'B', 'T'), "", "JBT")); require(is(currency('J', 'B', 'U'), "", "JBU")); require(is(currency('J', 'B', 'V'), "", "JBV")); require(is(currency('J', 'B', 'W'), "", "JBW")); require(is(currency('J', 'B', 'X'), "", "JBX")); require(is(currency('J', 'B', 'Y'), "", "JBY")); require(is(currency('J', 'B', 'Z'), "", "JBZ"));)
OBLIGATION(no_currency_JC, "esl/economics/currencies.hpp: currency_name (codes without a currency from JC)", (), require(is(currency('J', 'C', 'A'), "", "JCA")); require(is(currency('J', 'C', 'B'), "", "JCB")); require(is(currency('J', 'C', 'C'), "", "JCC")); require(is(currency('J', 'C', 'D'), "", "JCD")); require(is(currency('J', 'C', 'E'), "", "JCE")); require(is(currency('J', 'C', 'F'), "", "JCF")); require(is(currency('J', 'C', 'G'), "", "JCG")); require(is(currency('J', 'C', 'H'), "", "JCH")); require(is(currency('J', 'C', 'I'), "", "JCI")); require(is(currency('J', 'C', 'J'), "", "JCJ")); require(is(currency('J', 'C', 'K'), "", "JCK")); require(is(currency('J', 'C', 'L'), "", "JCL")); require(is(currency('J', 'C', 'M'), "", "JCM")); require(is(currency('J', 'C', 'N'), "", "JCN")); require(is(currency('J', 'C', 'O'), "", "JCO")); require(is(currency('J', 'C', 'P'), "", "JCP")); require(is(currency('J', 'C', 'Q'), "", "JCQ")); require(is(currency('J', 'C', 'R'), "", "JCR")); require(is(currency('J', 'C', 'S'), "", "JCS")); require(is(currency('J', 'C', 'T'), "", "JCT")); require(is(currency('J', 'C', 'U'), "", "JCU")); require(is(currency('J', 'C', 'V'), "", "JCV")); require(is(currency('J', 'C', 'W'), "", "JCW")); require(is(currency('J', 'C', 'X'), "", "JCX")); require(is(currency('J', 'C', 'Y'), "", "JCY")); require(is(currency('J', 'C', 'Z'), "", "JCZ"));)
OBLIGATION(no_currency_JD, "esl/economics/currencies.hpp: currency_name (codes without a currency from JD)", (), require(is(currency('J', 'D', 'A'), "", "JDA")); require(is(currency('J', 'D', 'B'), "", "JDB")); require(is(currency('J', 'D', 'C'), "", "JDC")); require(is(currency('J', 'D', 'D'), "", "JDD")); require(is(currency('J', 'D', 'E'), "", "JDE")); require(is(currency('J', 'D', 'F'), "", "JDF")); require(is(currency('J', 'D', 'G'), "", "JDG")); require(is(currency('J', 'D', 'H'), "", "JDH")); require(is(currency('J', 'D', 'I'), "", "JDI")); require(is(currency('J', 'D', 'J'), "", "JDJ")); require(is(currency('J', 'D', 'K'), "", "JDK")); require(is(currency('J', 'D', 'L'), "", "JDL")); require(is(currency('J', 'D', 'M'), "", "JDM")); require(is(currency('J', 'D', 'N'), "", "JDN")); require(is(currency('J', 'D', 'O'), "", "JDO")); require(is(currency('J', 'D', 'P'), "", "JDP")); require(is(currency('J', 'D', 'Q'), "", "JDQ")); require(is(currency('J', 'D', 'R'), "", "JDR")); require(is(currency('J', 'D', 'S'), "", "JDS")); require(is(currency('J', 'D', 'T'), "", "JDT")); require(is(currency('J', 'D', 'U'), "", "JDU")); require(is(currency('J', 'D', 'V'), "", "JDV")); require(is(currency('J', 'D', 'W'), "", "JDW")); require(is(currency('J', 'D', 'X'), "", "JDX")); require(is(currency('J', 'D', 'Y'), "", "JDY")); require(is(currency('J', 'D', 'Z'), "", "JDZ"));)
OBLIGATION(no_currency_JE, "esl/economics/currencies.hpp: currency_name (codes without a currency from JE)", (), require(is(currency('J', 'E', 'A'), "", "JEA")); require(is(currency('J', 'E', 'B'), "", "JEB")); require(is(currency('J', 'E', 'C'), "", "JEC")); require(is(currency('J', 'E', 'D'), "", "JED")); require(is(currency('J', 'E', 'E'), "", "JEE")); require(is(currency('J', 'E', 'F'), "", "JEF")); require(is(currency('J', 'E', 'G'), "", "JEG")); require(is(currency('J', 'E', 'H'), "", "JEH")); require(is(currency('J', 'E', 'I'), "", "JEI")); require(is(currency('J', 'E', 'J'), "", "JEJ")); require(is(currency('J', 'E', 'K'), "", "JEK")); require(is(currency('J', 'E', 'L'), "", "JEL")); require(is(currency('J', 'E', 'M'), "", "JEM")); require(is(currency('J', 'E', 'N'), "", "JEN")); require(is(currency('J', 'E', 'O'), "", "JEO")); require(is(currency('J', 'E', 'P'), "", "JEP")); require(is(currency('J', 'E', 'Q'), "", "JEQ")); require(is(currency('J', 'E', 'R'), "", "JER")); require(is(currency('J', 'E', 'S'), "", "JES")); require(is(currency('J', 'E', 'T'), "", "JET")); require(is(currency('J', 'E', 'U'), "", "JEU")); require(is(currency('J', 'E', 'V'), "", "JEV")); require(is(currency('J', 'E', 'W'), "", "JEW")); require(is(currency('J', 'E', 'X'), "", "JEX")); require(is(currency('J', 'E', 'Y'), "", "JEY")); require(is(currency('J', 'E', 'Z'), "", "JEZ"));)
OBLIGATION(no_currency_JF, "esl/economics/currencies.hpp: currency_name (codes without a currency from JF)", (), require(is(currency('J', 'F', 'A'), "", "JFA")); require(is(currency('J', 'F', 'B'), "", "JFB")); require(is(currency('J', 'F', 'C'), "", "JFC")); require(is(currency('J', 'F', 'D'), "", "JFD")); require(is(currency('J', 'F', 'E'), "", "JFE")); require(is(currency('J', 'F', 'F'), "", "JFF")); require(is(currency('J', 'F', 'G'), "", "JFG")); require(is(currency('J', 'F', 'H'), "", "JFH")); require(is(currency('J', 'F', 'I'), "", "JFI")); require(is(currency('J', 'F', 'J'), "", "JFJ")); require(is(currency('J', 'F', 'K'), "", "JFK")); require(is(currency('J', 'F', 'L'), "", "JFL")); require(is(currency('J', 'F', 'M'), "", "JFM")); require(is(currency('J', 'F', 'N'), "", "JFN")); require(is(currency('J', 'F', 'O'), "", "JFO")); require(is(currency('J', 'F', 'P'), "", "JFP")); require(is(currency('J', 'F', 'Q'), "", "JFQ")); require(is(currency('J', 'F', 'R'), "", "JFR")); require(is(currency('J', 'F', 'S'), "", "JFS")); require(is(currency('J', 'F', 'T'), "", "JFT")); require(is(currency('J', 'F', 'U'), "", "JFU")); require(is(currency('J', 'F', 'V'), "", "JFV")); require(is(currency('J', 'F', 'W'), "", "JFW")); require(is(currency('J', 'F', 'X'), "", "JFX")); require(is(currency('J', 'F', 'Y'), "", "JFY")); require(is(currency('J', 'F', 'Z'), "", "JFZ"));)
OBLIGATION(no_currency_JG, "esl/economics/currencies.hpp: currency_name (codes without a currency from JG)", (), require(is(currency('J', 'G', 'A'), "", "JGA")); require(is(currency('J', 'G', 'B'), "", "JGB")); require(is(currency('J', 'G', 'C'), "", "JGC")); require(is(currency('J', 'G', 'D'), "", "JGD")); require(is(currency('J', 'G', 'E'), "", "JGE")); require(is(currency('J', 'G', 'F'), "", "JGF")); require(is(currency('J', 'G', 'G'), "", "JGG")); require(is(currency('J', 'G', 'H'), "", "JGH")); require(is(currency('J', 'G', 'I'), "", "JGI")); require(is(currency('J', 'G', 'J'), "", "JGJ")); require(is(currency('J', 'G', 'K'), "", "JGK")); require(is(currency('J', 'G', 'L'), "", "JGL")); require(is(currency('J', 'G', 'M'), "", "JGM")); require(is(currency('J', 'G', 'N'), "", "JGN")); require(is(currency('J', 'G', 'O'), "", "JGO")); require(is(currency('J', 'G', 'P'), "", "JGP")); require(is(currency('J', 'G', 'Q'), "", "JGQ")); require(is(currency('J', 'G', 'R'), "", "JGR")); require(is(currency('J', 'G', 'S'), "", "JGS")); require(is(currency('J', 'G', 'T'), "", "JGT")); require(is(currency('J', 'G', 'U'), "", "JGU")); require(is(currency('J', 'G', 'V'), "", "JGV")); require(is(currency('J', 'G', 'W'), "", "JGW")); require(is(currency('J', 'G', 'X'), "", "JGX")); require(is(currency('J', 'G', 'Y'), "", "JGY")); require(is(currency('J', 'G', 'Z'), "", "JGZ"));)
OBLIGATION(no_currency_JH, "esl/economics/currencies.hpp: currency_name (codes without a currency from JH)", (), require(is(currency('J', 'H', 'A'), "", "JHA")); require(is(currency('J', 'H', 'B'), "", "JHB")); require(is(currency('J', 'H', 'C'), "", "JHC")); require(is(currency('J', 'H', 'D'), "", "JHD")); require(is(currency('J', 'H', 'E'), "", "JHE")); require(is(currency('J', 'H', 'F'), "", "JHF")); require(is(currency('J', 'H', 'G'), "", "JHG")); require(is(currency('J', 'H', 'H'), "", "JHH")); require(is(currency('J', 'H', 'I'), "", "JHI")); require(is(currency('J', 'H', 'J'), "", "JHJ")); require(is(currency('J', 'H', 'K'), "", "JHK")); require(is(currency('J', 'H', 'L'), "", "JHL")); require(is(currency('J', 'H', 'M'), "", "JHM")); require(is(currency('J', 'H', 'N'), "", "JHN")); require(is(currency('J', 'H', 'O'), "", "JHO")); require(is(currency('J', 'H', 'P'), "", "JHP")); require(is(currency('J', 'H', 'Q'), "", "JHQ")); require(is(currency('J', 'H', 'R'), "", "JHR")); require(is(currency('J', 'H', 'S'), "", "JHS")); require(is(currency('J', 'H', 'T'), "", "JHT")); require(is(currency('J', 'H', 'U'), "", "JHU")); require(is(currency('J', 'H', 'V'), "", "JHV")); require(is(currency('J', 'H', 'W'), "", "JHW")); require(is(currency('J', 'H', 'X'), "", "JHX")); require(is(currency('J', 'H', 'Y'), "", "JHY")); require(is(currency('J', 'H', 'Z'), "", "JHZ"));)
OBLIGATION(no_currency_JI, "esl/economics/currencies.hpp: currency_name (codes without a currency from JI)", (), require(is(currency('J', 'I', 'A'), "", "JIA")); require(is(currency('J', 'I', 'B'), "", "JIB")); require(is(currency('J', 'I', 'C'), "", "JIC")); require(is(currency('J', 'I', 'D'), "", "JID")); require(is(currency('J', 'I', 'E'), "", "JIE")); require(is(currency('J', 'I', 'F'), "", "JIF")); require(is(currency('J', 'I', 'G'), "", "JIG")); require(is(currency('J', 'I', 'H'), "", "JIH")); require(is(currency('J', 'I', 'I'), "", "JII")); require(is(currency('J', 'I', 'J'), "", "JIJ")); require(is(currency('J', 'I', 'K'), "", "JIK")); require(is(currency('J', 'I', 'L'), "", "JIL")); require(is(currency('J', 'I', 'M'), "", "JIM")); require(is(currency('J', 'I', 'N'), "", "JIN")); require(is(currency('J', 'I', 'O'), "", "JIO")); require(is(currency('J', 'I', 'P'), "", "JIP")); require(is(currency('J', 'I', 'Q'), "", "JIQ")); require(is(currency('J', 'I', 'R'), "", "JIR")); require(is(currency('J', 'I', 'S'), "", "JIS")); require(is(currency('J', 'I', 'T'), "", "JIT")); require(is(currency('J', 'I', 'U'), "", "JIU")); require(is(currency('J', 'I', 'V'), "", "JIV")); require(is(currency('J', 'I', 'W'), "", "JIW")); require(is(currency('J', 'I', 'X'), "", "JIX")); require(is(currency('J', 'I', 'Y'), "", "JIY")); require(is(currency('J', 'I', 'Z'), "", "JIZ"));)
OBLIGATION(no_currency_JJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from JJ)", (), require(is(currency('J', 'J', 'A'), "", "JJA")); require(is(currency('J', 'J', 'B'), "", "JJB")); require(is(currency('J', 'J', 'C'), "", "JJC")); require(is(currency('J', 'J', 'D'), "", "JJD")); require(is(currency('J', 'J', 'E'), "", "JJE")); require(is(currency('J', 'J', 'F'), "", "JJF")); require(is(currency('J', 'J', 'G'), "", "JJG")); require(is(currency('J', 'J', 'H'), "", "JJH")); require(is(currency('J', 'J', 'I'), "", "JJI")); require(is(currency('J', 'J', 'J'), "", "JJJ")); require(is(currency('J', 'J', 'K'), "", "JJK")); require(is(currency('J', 'J', 'L'), "", "JJL")); require(is(currency('J', 'J', 'M'), "", "JJM")); require(is(currency('J', 'J', 'N'), "", "JJN")); require(is(currency('J', 'J', 'O'), "", "JJO")); require(is(currency('J', 'J', 'P'), "", "JJP")); require(is(currency('J', 'J', 'Q'), "", "JJQ")); require(is(currency('J', 'J', 'R'), "", "JJR")); require(is(currency('J', 'J', 'S'), "", "JJS")); require(is(currency('J', 'J', 'T'), "", "JJT")); require(is(currency('J', 'J', 'U'), "", "JJU")); require(is(currency('J', 'J', 'V'), "", "JJV")); require(is(currency('J', 'J', 'W'), "", "JJW")); require(is(currency('J', 'J', 'X'), "", "JJX")); require(is(currency('J', 'J', 'Y'), "", "JJY")); require(is(currency('J', 'J', 'Z'), "", "JJZ"));)
OBLIGATION(no_currency_JK, "esl/economics/currencies.hpp: currency_name (codes without a currency from JK)", (), require(is(currency('J', 'K', 'A'), "", "JKA")); require(is(currency('J', 'K', 'B'), "", "JKB")); require(is(currency('J', 'K', 'C'), "", "JKC")); require(is(currency('J', 'K', 'D'), "", "JKD")); require(is(currency('J', 'K', 'E'), "", "JKE")); require(is(currency('J', 'K', 'F'), "", "JKF")); require(is(currency('J', 'K', 'G'), "", "JKG")); require(is(currency('J', 'K', 'H'), "", "JKH")); require(is(currency('J', 'K', 'I'), "", "JKI")); require(is(currency('J', 'K', 'J'), "", "JKJ")); require(is(currency('J', 'K', 'K'), "", "JKK")); require(is(currency('J', 'K', 'L'), "", "JKL")); require(is(currency('J', 'K', 'M'), "", "JKM")); require(is(currency('J', 'K', 'N'), "", "JKN")); require(is(currency('J', 'K', 'O'), "", "JKO")); require(is(currency('J', 'K', 'P'), "", "JKP")); require(is(currency('J', 'K', 'Q'), "", "JKQ")); require(is(currency('J', 'K', 'R'), "", "JKR")); require(is(currency('J', 'K', 'S'), "", "JKS")); require(is(currency('J', 'K', 'T'), "", "JKT")); require(is(currency('J', 'K', 'U'), "", "JKU")); require(is(currency('J', 'K', 'V'), "", "JKV")); require(is(currency('J', 'K', 'W'), "", "JKW")); require(is(currency('J', 'K', 'X'), "", "JKX")); require(is(currency('J', 'K', 'Y'), "", "JKY")); require(is(currency('J', 'K', 'Z'), "", "JKZ"));)
OBLIGATION(no_currency_JL, "esl/economics/currencies.hpp: currency_name (codes without a currency from JL)", (), require(is(currency('J', 'L', 'A'), "", "JLA")); require(is(currency('J', 'L', 'B'), "", "JLB")); require(is(currency('J', 'L', 'C'), "", "JLC")); require(is(currency('J', 'L', 'D'), "", "JLD")); require(is(currency('J', 'L', 'E'), "", "JLE")); require(is(currency('J', 'L', 'F'), "", "JLF")); require(is(currency('J', 'L', 'G'), "", "JLG")); require(is(currency('J', 'L', 'H'), "", "JLH")); require(is(currency('J', 'L', 'I'), "", "JLI")); require(is(currency('J', 'L', 'J'), "", "JLJ")); require(is(currency('J', 'L', 'K'), "", "JLK")); require(is(currency('J', 'L', 'L'), "", "JLL")); require(is(currency('J', 'L', 'M'), "", "JLM")); require(is(currency('J', 'L', 'N'), "", "JLN")); require(is(currency('J', 'L', 'O'), "", "JLO")); require(is(currency('J', 'L', 'P'), "", "JLP")); require(is(currency('J', 'L', 'Q'), "", "JLQ")); require(is(currency('J', 'L', 'R'), "", "JLR")); require(is(currency('J', 'L', 'S'), "", "JLS")); require(is(currency('J', 'L', 'T'), "", "JLT")); require(is(currency('J', 'L', 'U'), "", "JLU")); require(is(currency('J', 'L', 'V'), "", "JLV")); require(is(currency('J', 'L', 'W'), "", "JLW")); require(is(currency('J', 'L', 'X'), "", "JLX")); require(is(currency('J', 'L', 'Y'), "", "JLY")); require(is(currency('J', 'L', 'Z'), "", "JLZ"));)
OBLIGATION(no_currency_JM, "esl/economics/currencies.hpp: currency_name (codes without a currency from JM)", (), require(is(currency('J', 'M', 'A'), "", "JMA")); require(is(currency('J', 'M', 'B'), "", "JMB")); require(is(currency('J', 'M', 'C'), "", "JMC")); require(is(currency('J', 'M', 'E'), "", "JME")); require(is(currency('J', 'M', 'F'), "", "JMF")); require(is(currency('J', 'M', 'G'), "", "JMG")); require(is(currency('J', 'M', 'H'), "", "JMH")); require(is(currency('J', 'M', 'I'), "", "JMI")); require(is(currency('J', 'M', 'J'), "", "JMJ")); require(is(currency('J', 'M', 'K'), "", "JMK")); require(is(currency('J', 'M', 'L'), "", "JML")); require(is(currency('J', 'M', 'M'), "", "JMM")); require(is(currency('J', 'M', 'N'), "", "JMN")); require(is(currency('J', 'M', 'O'), "", "JMO")); require(is(currency('J', 'M', 'P'), "", "JMP")); require(is(currency('J', 'M', 'Q'), "", "JMQ")); require(is(currency('J', 'M', 'R'), "", "JMR")); require(is(currency('J', 'M', 'S'), "", "JMS")); require(is(currency('J', 'M', 'T'), "", "JMT")); require(is(currency('J', 'M', 'U'), "", "JMU")); require(is(currency('J', 'M', 'V'), "", "JMV")); require(is(currency('J', 'M', 'W'), "", "JMW")); require(is(currency('J', 'M', 'X'), "", "JMX")); require(is(currency('J', 'M', 'Y'), "", "JMY")); require(is(currency('J', 'M', 'Z'), "", "JMZ"));)
OBLIGATION(no_currency_JN, "esl/economics/currencies.hpp: currency_name (codes without a currency from JN)", (), require(is(currency('J', 'N', 'A'), "", "JNA")); require(is(currency('J', 'N', 'B'), "", "JNB")); require(is(currency('J', 'N', 'C'), "", "JNC")); require(is(currency('J', 'N', 'D'), "", "JND")); require(is(currency('J', 'N', 'E'), "", "JNE")); require(is(currency('J', 'N', 'F'), "", "JNF")); require(is(currency('J', 'N', 'G'), "", "JNG")); require(is(currency('J', 'N', 'H'), "", "JNH")); require(is(currency('J', 'N', 'I'), "", "JNI")); require(is(currency('J', 'N', 'J'), "", "JNJ")); require(is(currency('J', 'N', 'K'), "", "JNK")); require(is(currency('J', 'N', 'L'), "", "JNL")); require(is(currency('J', 'N', 'M'), "", "JNM")); require(is(currency('J', 'N', 'N'), "", "JNN")); require(is(currency('J', 'N', 'O'), "", "JNO")); require(is(currency('J', 'N', 'P'), "", "JNP")); require(is(currency('J', 'N', 'Q'), "", "JNQ")); require(is(currency('J', 'N', 'R'), "", "JNR")); require(is(currency('J', 'N', 'S'), "", "JNS")); require(is(currency('J', 'N', 'T'), "", "JNT")); require(is(currency('J', 'N', 'U'), "", "JNU")); require(is(currency('J', 'N', 'V'), "", "JNV")); require(is(currency('J', 'N', 'W'), "", "JNW")); require(is(currency('J', 'N', 'X'), "", "JNX")); require(is(currency('J', 'N', 'Y'), "", "JNY")); require(is(currency('J', 'N', 'Z'), "", "JNZ"));)
OBLIGATION(no_currency_JO, "esl/economics/currencies.hpp: currency_name (codes without a currency from JO)", (), require(is(currency('J', 'O', 'A'), "", "JOA")); require(is(currency('J', 'O', 'B'), "", "JOB")); require(is(currency('J', 'O', 'C'), "", "JOC")); require(is(currency('J', 'O', 'E'), "", "JOE")); require(is(currency('J', 'O', 'F'), "", "JOF")); require(is(currency('J', 'O', 'G'), "", "JOG")); require(is(currency('J', 'O', 'H'), "", "JOH")); require(is(currency('J', 'O', 'I'), "", "JOI")); require(is(currency('J', 'O', 'J'), "", "JOJ")); require(is(currency('J', 'O', 'K'), "", "JOK")); require(is(currency('J', 'O', 'L'), "", "JOL")); require(is(currency('J', 'O', 'M'), "", "JOM")); require(is(currency('J', 'O', 'N'), "", "JON")); require(is(currency('J', 'O', 'O'), "", "JOO")); require(is(currency('J', 'O', 'P'), "", "JOP")); require(is(currency('J', 'O', 'Q'), "", "JOQ")); require(is(currency('J', 'O', 'R'), "", "JOR")); require(is(currency('J', 'O', 'S'), "", "JOS")); require(is(currency('J', 'O', 'T'), "", "JOT")); require(is(currency('J', 'O', 'U'), "", "JOU")); require(is(currency('J', 'O', 'V'), "", "JOV")); require(is(currency('J', 'O', 'W'), "", "JOW")); require(is(currency('J', 'O', 'X'), "", "JOX")); require(is(currency('J', 'O', 'Y'), "", "JOY")); require(is(currency('J', 'O', 'Z'), "", "JOZ"));)
OBLIGATION(no_currency_JP, "esl/economics/currencies.hpp: currency_name (codes without a currency from JP)", (), require(is(currency('J', 'P', 'A'), "", "JPA")); require(is(currency('J', 'P', 'B'), "", "JPB")); require(is(currency('J', 'P', 'C'), "", "JPC")); require(is(currency('J', 'P', 'D'), "", "JPD")); require(is(currency('J', 'P', 'E'), "", "JPE")); require(is(currency('J', 'P', 'F'), "", "JPF")); require(is(currency('J', 'P', 'G'), "", "JPG")); require(is(currency('J', 'P', 'H'), "", "JPH")); require(is(currency('J', 'P', 'I'), "", "JPI")); require(is(currency('J', 'P', 'J'), "", "JPJ")); require(is(currency('J', 'P', 'K'), "", "JPK")); require(is(currency('J', 'P', 'L'), "", "JPL")); require(is(currency('J', 'P', 'M'), "", "JPM")); require(is(currency('J', 'P', 'N'), "", "JPN")); require(is(currency('J', 'P', 'O'), "", "JPO")); require(is(currency('J', 'P', 'P'), "", "JPP")); require(is(currency('J', 'P', 'Q'), "", "JPQ")); require(is(currency('J', 'P', 'R'), "", "JPR")); require(is(currency('J', 'P', 'S'), "", "JPS")); require(is(currency('J', 'P', 'T'), "", "JPT")); require(is(currency('J', 'P', 'U'), "", "JPU")); require(is(currency('J', 'P', 'V'), "", "JPV")); require(is(currency('J', 'P', 'W'), "", "JPW")); require(is(currency('J', 'P', 'X'), "", "JPX")); require(is(currency('J', 'P', 'Z'), "", "JPZ"));)
OBLIGATION(no_currency_JQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from JQ)", (), require(is(currency('J', 'Q', 'A'), "", "JQA")); require(is(currency('J', 'Q', 'B'), "", "JQB")); require(is(currency('J', 'Q', 'C'), "", "JQC")); require(is(currency('J', 'Q', 'D'), "", "JQD")); require(is(currency('J', 'Q', 'E'), "", "JQE")); require(is(currency('J', 'Q', 'F'), "", "JQF")); require(is(currency('J', 'Q', 'G'), "", "JQG")); require(is(currency('J', 'Q', 'H'), "", "JQH")); require(is(currency('J', 'Q', 'I'), "", "JQI")); require(is(currency('J', 'Q', 'J'), "", "JQJ")); require(is(currency('J', 'Q', 'K'), "", "JQK")); require(is(currency('J', 'Q', 'L'), "", "JQL")); require(is(currency('J', 'Q', 'M'), "", "JQM")); require(is(currency('J', 'Q', 'N'), "", "JQN")); require(is(currency('J', 'Q', 'O'), "", "JQO")); require(is(currency('J', 'Q', 'P'), "", "JQP")); require(is(currency('J', 'Q', 'Q'), "", "JQQ")); require(is(currency('J', 'Q', 'R'), "", "JQR")); require(is(currency('J', 'Q', 'S'), "", "JQS")); require(is(currency('J', 'Q', 'T'), "", "JQT")); require(is(currency('J', 'Q', 'U'), "", "JQU")); require(is(currency('J', 'Q', 'V'), "", "JQV")); require(is(currency('J', 'Q', 'W'), "", "JQW")); require(is(currency('J', 'Q', 'X'), "", "JQX")); require(is(currency('J', 'Q', 'Y'), "", "JQY")); require(is(currency('J', 'Q', 'Z'), "", "JQZ"));)
OBLIGATION(no_currency_JR, "esl/economics/currencies.hpp: currency_name (codes without a currency from JR)", (), require(is(currency('J', 'R', 'A'), "", "JRA")); require(is(currency('J', 'R', 'B'), "", "JRB")); require(is(currency('J', 'R', 'C'), "", "JRC")); require(is(currency('J', 'R', 'D'), "", "JRD")); require(is(currency('J', 'R', 'E'), "", "JRE")); require(is(currency('J', 'R', 'F'), "", "JRF")); require(is(currency('J', 'R', 'G'), "", "JRG")); require(is(currency('J', 'R', 'H'), "", "JRH")); require(is(currency('J', 'R', 'I'), "", "JRI")); require(is(currency('J', 'R', 'J'), "", "JRJ")); require(is(currency('J', 'R', 'K'), "", "JRK")); require(is(currency('J', 'R', 'L'), "", "JRL")); require(is(currency('J', 'R', 'M'), "", "JRM")); require(is(currency('J', 'R', 'N'), "", "JRN")); require(is(currency('J', 'R', 'O'), "", "JRO")); require(is(currency('J', 'R', 'P'), "", "JRP")); require(is(currency('J', 'R', 'Q'), "", "JRQ")); require(is(currency('J', 'R', 'R'), "", "JRR")); require(is(currency('J', 'R', 'S'), "", "JRS")); require(is(currency('J', 'R', 'T'), "", "JRT")); require(is(currency('J', 'R', 'U'), "", "JRU")); require(is(currency('J', 'R', 'V'), "", "JRV")); require(is(currency('J', 'R', 'W'), "", "JRW")); require(is(currency('J', 'R', 'X'), "", "JRX")); require(is(currency('J', 'R', 'Y'), "", "JRY")); require(is(currency('J', 'R', 'Z'), "", "JRZ"));)
OBLIGATION(no_currency_JS, "esl/economics/currencies.hpp: currency_name (codes without a currency from JS)", (), require(is(currency('J', 'S', 'A'), "", "JSA")); require(is(currency('J', 'S', 'B'), "", "JSB")); require(is(currency('J', 'S', 'C'), "", "JSC")); require(is(currency('J', 'S', 'D'), "", "JSD")); require(is(currency('J', 'S', 'E'), "", "JSE")); require(is(currency('J', 'S', 'F'), "", "JSF")); require(is(currency('J', 'S', 'G'), "", "JSG")); require(is(currency('J', 'S', 'H'), "", "JSH")); require(is(currency('J', 'S', 'I'), "", "JSI")); require(is(currency('J', 'S', 'J'), "", "JSJ")); require(is(currency('J', 'S', 'K'), "", "JSK")); require(is(currency('J', 'S', 'L'), "", "JSL")); require(is(currency('J', 'S', 'M'), "", "JSM")); require(is(currency('J', 'S', 'N'), "", "JSN")); require(is(currency('J', 'S', 'O'), "", "JSO")); require(is(currency('J', 'S', 'P'), "", "JSP")); require(is(currency('J', 'S', 'Q'), "", "JSQ")); require(is(currency('J', 'S', 'R'), "", "JSR")); require(is(currency('J', 'S', 'S'), "", "JSS")); require(is(currency('J', 'S', 'T'), "", "JST")); require(is(currency('J', 'S', 'U'), "", "JSU")); require(is(currency('J', 'S', 'V'), "", "JSV")); require(is(currency('J', 'S', 'W'), "", "JSW")); require(is(currency('J', 'S', 'X'), "", "JSX")); require(is(currency('J', 'S', 'Y'), "", "JSY")); require(is(currency('J', 'S', 'Z'), "", "JSZ"));)
OBLIGATION(no_currency_JT, "esl/economics/currencies.hpp: currency_name (codes without a currency from JT)", (), require(is(currency('J', 'T', 'A'), "", "JTA")); require(is(currency('J', 'T', 'B'), "", "JTB")); require(is(currency('J', 'T', 'C'), "", "JTC")); require(is(currency('J', 'T', 'D'), "", "JTD")); require(is(currency('J', 'T', 'E'), "", "JTE")); require(is(currency('J', 'T', 'F'), "", "JTF")); require(is(currency('J', 'T', 'G'), "", "JTG")); require(is(currency('J', 'T', 'H'), "", "JTH")); require(is(currency('J', 'T', 'I'), "", "JTI")); require(is(currency('J', 'T', 'J'), "", "JTJ")); require(is(currency('J', 'T', 'K'), "", "JTK")); require(is(currency('J', 'T', 'L'), "", "JTL")); require(is(currency('J', 'T', 'M'), "", "JTM")); require(is(currency('J', 'T', 'N'), "", "JTN")); require(is(currency('J', 'T', 'O'), "", "JTO")); require(is(currency('J', 'T', 'P'), "", "JTP")); require(is(currency('J', 'T', 'Q'), "", "JTQ")); require(is(currency('J', 'T', 'R'), "", "JTR")); require(is(currency('J', 'T', 'S'), "", "JTS")); require(is(currency('J', 'T', 'T'), "", "JTT")); require(is(currency('J', 'T', 'U'), "", "JTU")); require(is(currency('J', 'T', 'V'), "", "JTV")); require(is(currency('J', 'T', 'W'), "", "JTW")); require(is(currency('J', 'T', 'X'), "", "JTX")); require(is(currency('J', 'T', 'Y'), "", "JTY")); require(is(currency('J', 'T', 'Z'), "", "JTZ"));)
OBLIGATION(no_currency_JU, "esl/economics/currencies.hpp: currency_name (codes without a currency from JU)", (), require(is(currency('J', 'U', 'A'), "", "JUA")); require(is(currency('J', 'U', 'B'), "", "JUB")); require(is(currency('J', 'U', 'C'), "", "JUC")); require(is(currency('J', 'U', 'D'), "", "JUD")); require(is(currency('J', 'U', 'E'), "", "JUE")); require(is(currency('J', 'U', 'F'), "", "JUF")); require(is(currency('J', 'U', 'G'), "", "JUG")); require(is(currency('J', 'U', 'H'), "", "JUH")); require(is(currency('J', 'U', 'I'), "", "JUI")); require(is(currency('J', 'U', 'J'), "", "JUJ")); require(is(currency('J', 'U', 'K'), "", "JUK")); require(is(currency('J', 'U', 'L'), "", "JUL")); require(is(currency('J', 'U', 'M'), "", "JUM")); require(is(currency('J', 'U', 'N'), "", "JUN")); require(is(currency('J', 'U', 'O'), "", "JUO")); require(is(currency('J', 'U', 'P'), "", "JUP")); require(is(currency('J', 'U', 'Q'), "", "JUQ")); require(is(currency('J', 'U', 'R'), "", "JUR")); require(is(currency('J', 'U', 'S'), "", "JUS")); require(is(currency('J', 'U', 'T'), "", "JUT")); require(is(currency('J', 'U', 'U'), "", "JUU")); require(is(currency('J', 'U', 'V'), "", "JUV")); require(is(currency('J', 'U', 'W'), "", "JUW")); require(is(currency('J', 'U', 'X'), "", "JUX")); require(is(currency('J', 'U', 'Y'), "", "JUY")); require(is(currency('J', 'U', 'Z'), "", "JUZ"));)
OBLIGATION(no_currency_JV, "esl/economics/currencies.hpp: currency_name (codes without a currency from JV)", (), require(is(currency('J', 'V', 'A'), "", "JVA")); require(is(currency('J', 'V', 'B'), "", "JVB")); require(is(currency('J', 'V', 'C'), "", "JVC")); require(is(currency('J', 'V', 'D'), "", "JVD")); require(is(currency('J', 'V', 'E'), "", "JVE")); require(is(currency('J', 'V', 'F'), "", "JVF")); require(is(currency('J', 'V', 'G'), "", "JVG")); require(is(currency('J', 'V', 'H'), "", "JVH")); require(is(currency('J', 'V', 'I'), "", "JVI")); require(is(currency('J', 'V', 'J'), "", "JVJ")); require(is(currency('J', 'V', 'K'), "", "JVK")); require(is(currency('J', 'V', 'L'), "", "JVL")); require(is(currency('J', 'V', 'M'), "", "JVM")); require(is(currency('J', 'V', 'N'), "", "JVN")); require(is(currency('J', 'V', 'O'), "", "JVO")); require(is(currency('J', 'V', 'P'), "", "JVP")); require(is(currency('J', 'V', 'Q'), "", "JVQ")); require(is(currency('J', 'V', 'R'), "", "JVR")); require(is(currency('J', 'V', 'S'), "", "JVS")); require(is(currency('J', 'V', 'T'), "", "JVT")); require(is(currency('J', 'V', 'U'), "", "JVU")); require(is(currency('J', 'V', 'V'), "", "JVV")); require(is(currency('J', 'V', 'W'), "", "JVW")); require(is(currency('J', 'V', 'X'), "", "JVX")); require(is(currency('J', 'V', 'Y'), "", "JVY")); require(is(currency('J', 'V', 'Z'), "", "JVZ"));)
OBLIGATION(no_currency_JW, "esl/economics/currencies.hpp: currency_name (codes without a currency from JW)", (), require(is(currency('J', 'W', 'A'), "", "JWA")); require(is(currency('J', 'W', 'B'), "", "JWB")); require(is(currency('J', 'W', 'C'), "", "JWC")); require(is(currency('J', 'W', 'D'), "", "JWD")); require(is(currency('J', 'W', 'E'), "", "JWE")); require(is(currency('J', 'W', 'F'), "", "JWF")); require(is(currency('J', 'W', 'G'), "", "JWG")); require(is(currency('J', 'W', 'H'), "", "JWH")); require(is(currency('J', 'W', 'I'), "", "JWI")); require(is(currency('J', 'W', 'J'), "", "JWJ")); require(is(currency('J', 'W', 'K'), "", "JWK")); require(is(currency('J', 'W', 'L'), "", "JWL")); require(is(currency('J', 'W', 'M'), "", "JWM")); require(is(currency('J', 'W', 'N'), "", "JWN")); require(is(currency('J', 'W', 'O'), "", "JWO")); require(is(currency('J', 'W', 'P'), "", "JWP")); require(is(currency('J', 'W', 'Q'), "", "JWQ")); require(is(currency('J', 'W', 'R'), "", "JWR")); require(is(currency('J', 'W', 'S'), "", "JWS")); require(is(currency('J', 'W', 'T'), "", "JWT")); require(is(currency('J', 'W', 'U'), "", "JWU")); require(is(currency('J', 'W', 'V'), "", "JWV")); require(is(currency('J', 'W', 'W'), "", "JWW")); require(is(currency('J', 'W', 'X'), "", "JWX")); require(is(currency('J', 'W', 'Y'), "", "JWY")); require(is(currency('J', 'W', 'Z'), "", "JWZ"));)
OBLIGATION(no_currency_JX, "esl/economics/currencies.hpp: currency_name (codes without a currency from JX)", (), require(is(currency('J', 'X', 'A'), "", "JXA")); require(is(currency('J', 'X', 'B'), "", "JXB")); require(is(currency('J', 'X', 'C'), "", "JXC")); require(is(currency('J', 'X', 'D'), "", "JXD")); require(is(currency('J', 'X', 'E'), "", "JXE")); require(is(currency('J', 'X', 'F'), "", "JXF")); require(is(currency('J', 'X', 'G'), "", "JXG")); require(is(currency('J', 'X', 'H'), "", "JXH")); require(is(currency('J', 'X', 'I'), "", "JXI")); require(is(currency('J', 'X', 'J'), "", "JXJ")); require(is(currency('J', 'X', 'K'), "", "JXK")); require(is(currency('J', 'X', 'L'), "", "JXL")); require(is(currency('J', 'X', 'M'), "", "JXM")); require(is(currency('J', 'X', 'N'), "", "JXN")); require(is(currency('J', 'X', 'O'), "", "JXO")); require(is(currency('J', 'X', 'P'), "", "JXP")); require(is(currency('J', 'X', 'Q'), "", "JXQ")); require(is(currency('J', 'X', 'R'), "", "JXR")); require(is(currency('J', 'X', 'S'), "", "JXS")); require(is(currency('J', 'X', 'T'), "", "JXT")); require(is(currency('J', 'X', 'U'), "", "JXU")); require(is(currency('J', 'X', 'V'), "", "JXV")); require(is(currency('J', 'X', 'W'), "", "JXW")); require(is(currency('J', 'X', 'X'), "", "JXX")); require(is(currency('J', 'X', 'Y'), "", "JXY")); require(is(currency('J', 'X', 'Z'), "", "JXZ"));)
OBLIGATION(no_currency_JY, "esl/economics/currencies.hpp: currency_name (codes without a currency from JY)", (), require(is(currency('J', 'Y', 'A'), "", "JYA")); require(is(currency('J', 'Y', 'B'), "", "JYB")); require(is(currency('J', 'Y', 'C'), "", "JYC")); require(is(currency('J', 'Y', 'D'), "", "JYD")); require(is(currency('J', 'Y', 'E'), "", "JYE")); require(is(currency('J', 'Y', 'F'), "", "JYF")); require(is(currency('J', 'Y', 'G'), "", "JYG")); require(is(currency('J', 'Y', 'H'), "", "JYH")); require(is(currency('J', 'Y', 'I'), "", "JYI")); require(is(currency('J', 'Y', 'J'), "", "JYJ")); require(is(currency('J', 'Y', 'K'), "", "JYK")); require(is(currency('J', 'Y', 'L'), "", "JYL")); require(is(currency('J', 'Y', 'M'), "", "JYM")); require(is(currency('J', 'Y', 'N'), "", "JYN")); require(is(currency('J', 'Y', 'O'), "", "JYO")); require(is(currency('J', 'Y', 'P'), "", "JYP")); require(is(currency('J', 'Y', 'Q'), "", "JYQ")); require(is(currency('J', 'Y', 'R'), "", "JYR")); require(is(currency('J', 'Y', 'S'), "", "JYS")); require(is(currency('J', 'Y', 'T'), "", "JYT")); require(is(currency('J', 'Y', 'U'), "", "JYU")); require(is(currency('J', 'Y', 'V'), "", "JYV")); require(is(currency('J', 'Y', 'W'), "", "JYW")); require(is(currency('J', 'Y', 'X'), "", "JYX")); require(is(currency('J', 'Y', 'Y'), "", "JYY")); require(is(currency('J', 'Y', 'Z'), "", "JYZ"));)
OBLIGATION(no_currency_JZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from JZ)", (), require(is(currency('J', 'Z', 'A'), "", "JZA")); require(is(currency('J', 'Z', 'B'), "", "JZB")); require(is(currency('J', 'Z', 'C'), "", "JZC")); require(is(currency('J', 'Z', 'D'), "", "JZD")); require(is(currency('J', 'Z', 'E'), "", "JZE")); require(is(currency('J', 'Z', 'F'), "", "JZF")); require(is(currency('J', 'Z', 'G'), "", "JZG")); require(is(currency('J', 'Z', 'H'), "", "JZH")); require(is(currency('J', 'Z', 'I'), "", "JZI")); require(is(currency('J', 'Z', 'J'), "", "JZJ")); require(is(currency('J', 'Z', 'K'), "", "JZK")); require(is(currency('J', 'Z', 'L'), "", "JZL")); require(is(currency('J', 'Z', 'M'), "", "JZM")); require(is(currency('J', 'Z', 'N'), "", "JZN")); require(is(currency('J', 'Z', 'O'), "", "JZO")); require(is(currency('J', 'Z', 'P'), "", "JZP")); require(is(currency('J', 'Z', 'Q'), "", "JZQ")); require(is(currency('J', 'Z', 'R'), "", "JZR")); require(is(currency('J', 'Z', 'S'), "", "JZS")); require(is(currency('J', 'Z', 'T'), "", "JZT")); require(is(currency('J', 'Z', 'U'), "", "JZU")); require(is(currency('J', 'Z', 'V'), "", "JZV")); require(is(currency('J', 'Z', 'W'), "", "JZW")); require(is(currency('J', 'Z', 'X'), "", "JZX")); require(is(currency('J', 'Z', 'Y'), "", "JZY")); require(is(currency('J', 'Z', 'Z'), "", "JZZ"));)
OBLIGATION(no_currency_KA, "esl/economics/currencies.hpp: currency_name (codes without a currency from KA)", (), require(is(currency('K', 'A', 'A'), "", "KAA")); require(is(currency('K', 'A', 'B'), "", "KAB")); require(is(currency('K', 'A', 'C'), "", "KAC")); require(is(currency('K', 'A', 'D'), "", "KAD")); require(is(currency('K', 'A', 'E'), "", "KAE")); require(is(currency('K', 'A', 'F'), "", "KAF")); require(is(currency('K', 'A', 'G'), "", "KAG")); require(is(currency('K', 'A', 'H'), "", "KAH")); require(is(currency('K', 'A', 'I'), "", "KAI")); require(is(currency('K', 'A', 'J'), "", "KAJ")); require(is(currency('K', 'A', 'K'), "", "KAK")); require(is(currency('K', 'A', 'L'), "", "KAL")); require(is(currency('K', 'A', 'M'), "", "KAM")); require(is(currency('K', 'A', 'N'), "", "KAN")); require(is(currency('K', 'A', 'O'), "", "KAO")); require(is(currency('K', 'A', 'P'), "", "KAP")); require(is(currency('K', 'A', 'Q'), "", "KAQ")); require(is(currency('K', 'A', 'R'), "", "KAR")); require(is(currency('K', 'A', 'S'), "", "KAS")); require(is(currency('K', 'A', 'T'), "", "KAT")); require(is(currency('K', 'A', 'U'), "", "KAU")); require(is(currency('K', 'A', 'V'), "", "KAV")); require(is(currency('K', 'A', 'W'), "", "KAW")); require(is(currency('K', 'A', 'X'), "", "KAX")); require(is(currency('K', 'A', 'Y'), "", "KAY")); require(is(currency('K', 'A', 'Z'), "", "KAZ"));)
OBLIGATION(no_currency_KB, "esl/economics/currencies.hpp: currency_name (codes without a currency from KB)", (), require(is(currency('K', 'B', 'A'), "", "KBA")); require(is(currency('K', 'B', 'B'), "", "KBB")); require(is(currency('K', 'B', 'C'), "", "KBC")); require(is(currency('K', 'B', 'D'), "", "KBD")); require(is(currency('K', 'B', 'E'), "", "KBE")); require(is(currency('K', 'B', 'F'), "", "KBF")); require(is(currency('K', 'B', 'G'), "", "KBG")); require(is(currency('K', 'B', 'H'), "", "KBH")); require(is(currency('K', 'B', 'I'), "", "KBI")); require(is(currency('K', 'B', 'J'), "", "KBJ")); require(is(currency('K', 'B', 'K'), "", "KBK")); require(is(currency('K', 'B', 'L'), "", "KBL")); require(is(currency('K', 'B', 'M'), "", "KBM")); require(is(currency('K', 'B', 'N'), "", "KBN")); require(is(currency('K', 'B', 'O'), "", "KBO")); require(is(currency('K', 'B', 'P'), "", "KBP")); require(is(currency('K', 'B', 'Q'), "", "KBQ")); require(is(currency('K', 'B', 'R'), "", "KBR")); require(is(currency('K', 'B', 'S'), "", "KBS")); require(is(currency('K', 'B', 'T'), "", "KBT")); require(is(currency('K', 'B', 'U'), "", "KBU")); require(is(currency('K', 'B', 'V'), "", "KBV")); require(is(currency('K', 'B', 'W'), "", "KBW")); require(is(currency('K', 'B', 'X'), "", "KBX")); require(is(currency('K', 'B', 'Y'), "", "KBY")); require(is(currency('K', 'B', 'Z'), "", "KBZ"));)
OBLIGATION(no_currency_KC, "esl/economics/currencies.hpp: currency_name (codes without a currency from KC)", (), require(is(currency('K', 'C', 'A'), "", "KCA")); require(is(currency('K', 'C', 'B'), "", "KCB")); require(is(currency('K', 'C', 'C'), "", "KCC")); require(is(currency('K', 'C', 'D'), "", "KCD")); require(is(currency('K', 'C', 'E'), "", "KCE")); require(is(currency('K', 'C', 'F'), "", "KCF")); require(is(currency('K', 'C', 'G'), "", "KCG")); require(is(currency('K', 'C', 'H'), "", "KCH")); require(is(currency('K', 'C', 'I'), "", "KCI")); require(is(currency('K', 'C', 'J'), "", "KCJ")); require(is(currency('K', 'C', 'K'), "", "KCK")); require(is(currency('K', 'C', 'L'), "", "KCL")); require(is(currency('K', 'C', 'M'), "", "KCM")); require(is(currency('K', 'C', 'N'), "", "KCN")); require(is(currency('K', 'C', 'O'), "", "KCO")); require(is(currency('K', 'C', 'P'), "", "KCP")); require(is(currency('K', 'C', 'Q'), "", "KCQ")); require(is(currency('K', 'C', 'R'), "", "KCR")); require(is(currency('K', 'C', 'S'), "", "KCS")); require(is(currency('K', 'C', 'T'), "", "KCT")); require(is(currency('K', 'C', 'U'), "", "KCU")); require(is(currency('K', 'C', 'V'), "", "KCV")); require(is(currency('K', 'C', 'W'), "", "KCW")); require(is(currency('K', 'C', 'X'), "", "KCX")); require(is(currency('K', 'C', 'Y'), "", "KCY")); require(is(currency('K', 'C', 'Z'), "", "KCZ"));)
OBLIGATION(no_currency_KD, "esl/economics/currencies.hpp: currency_name (codes without a currency from KD)", (), require(is(currency('K', 'D', 'A'), "", "KDA")); require(is(currency('K', 'D', 'B'), "", "KDB")); require(is(currency('K', 'D', 'C'), "", "KDC")); require(is(currency('K', 'D', 'D'), "", "KDD")); require(is(currency('K', 'D', 'E'), "", "KDE")); require(is(currency('K', 'D', 'F'), "", "KDF")); require(is(currency('K', 'D', 'G'), "", "KDG")); require(is(currency('K', 'D', 'H'), "", "KDH")); require(is(currency('K', 'D', 'I'), "", "KDI")); require(is(currency('K', 'D', 'J'), "", "KDJ")); require(is(currency('K', 'D', 'K'), "", "KDK")); require(is(currency('K', 'D', 'L'), "", "KDL")); require(is(currency('K', 'D', 'M'), "", "KDM")); require(is(currency('K', 'D', 'N'), "", "KDN")); require(is(currency('K', 'D', 'O'), "", "KDO")); require(is(currency('K', 'D', 'P'), "", "KDP")); require(is(currency('K', 'D', 'Q'), "", "KDQ")); require(is(currency('K', 'D', 'R'), "", "KDR")); require(is(currency('K', 'D', 'S'), "", "KDS")); require(is(currency('K', 'D', 'T'), "", "KDT")); require(is(currency('K', 'D', 'U'), "", "KDU")); require(is(currency('K', 'D', 'V'), "", "KDV")); require(is(currency('K', 'D', 'W'), "", "KDW")); require(is(currency('K', 'D', 'X'), "", "KDX")); require(is(currency('K', 'D', 'Y'), "", "KDY")); require(is(currency('K', 'D', 'Z'), "", "KDZ"));)
OBLIGATION(no_currency_KE, "esl/economics/currencies.hpp: currency_name (codes without a currency from KE)", (), require(is(currency('K', 'E', 'A'), "", "KEA")); require(is(currency('K', 'E', 'B'), "", "KEB")); require(is(currency('K', 'E', 'C'), "", "KEC")); require(is(currency('K', 'E', 'D'), "", "KED")); require(is(currency('K', 'E', 'E'), "", "KEE")); require(is(currency('K', 'E', 'F'), "", "KEF")); require(is(currency('K', 'E', 'G'), "", "KEG")); require(is(currency('K', 'E', 'H'), "", "KEH")); require(is(currency('K', 'E', 'I'), "", "KEI")); require(is(currency('K', 'E', 'J'), "", "KEJ")); require(is(currency('K', 'E', 'K'), "", "KEK")); require(is(currency('K', 'E', 'L'), "", "KEL")); require(is(currency('K', 'E', 'M'), "", "KEM")); require(is(currency('K', 'E', 'N'), "", "KEN")); require(is(currency('K', 'E', 'O'), "", "KEO")); require(is(currency('K', 'E', 'P'), "", "KEP")); require(is(currency('K', 'E', 'Q'), "", "KEQ")); require(is(currency('K', 'E', 'R'), "", "KER")); require(is(currency('K', 'E', 'T'), "", "KET")); require(is(currency('K', 'E', 'U'), "", "KEU")); require(is(currency('K', 'E', 'V'), "", "KEV")); require(is(currency('K', 'E', 'W'), "", "KEW")); require(is(currency('K', 'E', 'X'), "", "KEX")); require(is(currency('K', 'E', 'Y'), "", "KEY")); require(is(currency('K', 'E', 'Z'), "", "KEZ"));)
OBLIGATION(no_currency_KF, "esl/economics/currencies.hpp: currency_name (codes without a currency from KF)", (), require(is(currency('K', 'F', 'A'), "", "KFA")); require(is(currency('K', 'F', 'B'), "", "KFB")); require(is(currency('K', 'F', 'C'), "", "KFC")); require(is(currency('K', 'F', 'D'), "", "KFD")); require(is(currency('K', 'F', 'E'), "", "KFE")); require(is(currency('K', 'F', 'F'), "", "KFF")); require(is(currency('K', 'F', 'G'), "", "KFG")); require(is(currency('K', 'F', 'H'), "", "KFH")); require(is(currency('K', 'F', 'I'), "", "KFI")); require(is(currency('K', 'F', 'J'), "", "KFJ")); require(is(currency('K', 'F', 'K'), "", "KFK")); require(is(currency('K', 'F', 'L'), "", "KFL")); require(is(currency('K', 'F', 'M'), "", "KFM")); require(is(currency('K', 'F', 'N'), "", "KFN")); require(is(currency('K', 'F', 'O'), "", "KFO")); require(is(currency('K', 'F', 'P'), "", "KFP")); require(is(currency('K', 'F', 'Q'), "", "KFQ")); require(is(currency('K', 'F', 'R'), "", "KFR")); require(is(currency('K', 'F', 'S'), "", "KFS")); require(is(currency('K', 'F', 'T'), "", "KFT")); require(is(currency('K', 'F', 'U'), "", "KFU")); require(is(currency('K', 'F', 'V'), "", "KFV")); require(is(currency('K', 'F', 'W'), "", "KFW")); require(is(currency('K', 'F', 'X'), "", "KFX")); require(is(currency('K', 'F', 'Y'), "", "KFY")); require(is(currency('K', 'F', 'Z'), "", "KFZ"));)
OBLIGATION(no_currency_KG, "esl/economics/currencies.hpp: currency_name (codes without a currency from KG)", (), require(is(currency('K', 'G', 'A'), "", "KGA")); require(is(currency('K', 'G', 'B'), "", "KGB")); require(is(currency('K', 'G', 'C'), "", "KGC")); require(is(currency('K', 'G', 'D'), "", "KGD")); require(is(currency('K', 'G', 'E'), "", "KGE")); require(is(currency('K', 'G', 'F'), "", "KGF")); require(is(currency('K', 'G', 'G'), "", "KGG")); require(is(currency('K', 'G', 'H'), "", "KGH")); require(is(currency('K', 'G', 'I'), "", "KGI")); require(is(currency('K', 'G', 'J'), "", "KGJ")); require(is(currency('K', 'G', 'K'), "", "KGK")); require(is(currency('K', 'G', 'L'), "", "KGL")); require(is(currency('K', 'G', 'M'), "", "KGM")); require(is(currency('K', 'G', 'N'), "", "KGN")); require(is(currency('K', 'G', 'O'), "", "KGO")); require(is(currency('K', 'G', 'P'), "", "KGP")); require(is(currency('K', 'G', 'Q'), "", "KGQ")); require(is(currency('K', 'G', 'R'), "", "KGR")); require(is(currency('K', 'G', 'T'), "", "KGT")); require(is(currency('K', 'G', 'U'), "", "KGU")); require(is(currency('K', 'G', 'V'), "", "KGV")); require(is(currency('K', 'G', 'W'), "", "KGW")); require(is(currency('K', 'G', 'X'), "", "KGX")); require(is(currency('K', 'G', 'Y'), "", "KGY")); require(is(currency('K', 'G', 'Z'), "", "KGZ"));)
OBLIGATION(no_currency_KH, "esl/economics/currencies.hpp: currency_name (codes without a currency from KH)", (), require(is(currency('K', 'H', 'A'), "", "KHA")); require(is(currency('K', 'H', 'B'), "", "KHB")); require(is(currency('K', 'H', 'C'), "", "KHC")); require(is(currency('K', 'H', 'D'), "", "KHD")); require(is(currency('K', 'H', 'E'), "", "KHE")); require(is(currency('K', 'H', 'F'), "", "KHF")); require(is(currency('K', 'H', 'G'), "", "KHG")); require(is(currency('K', 'H', 'H'), "", "KHH")); require(is(currency('K', 'H', 'I'), "", "KHI")); require(is(currency('K', 'H', 'J'), "", "KHJ")); require(is(currency('K', 'H', 'K'), "", "KHK")); require(is(currency('K', 'H', 'L'), "", "KHL")); require(is(currency('K', 'H', 'M'), "", "KHM")); require(is(currency('K', 'H', 'N'), "", "KHN")); require(is(currency('K', 'H', 'O'), "", "KHO")); require(is(currency('K', 'H', 'P'), "", "KHP")); require(is(currency('K', 'H', 'Q'), "", "KHQ")); require(is(currency('K', 'H', 'S'), "", "KHS")); require(is(currency('K', 'H', 'T'), "", "KHT")); require(is(currency('K', 'H', 'U'), "", "KHU")); require(is(currency('K', 'H', 'V'), "", "KHV")); require(is(currency('K', 'H', 'W'), "", "KHW")); require(is(currency('K', 'H', 'X'), "", "KHX")); require(is(currency('K', 'H', 'Y'), "", "KHY")); require(is(currency('K', 'H', 'Z'), "", "KHZ"));)
OBLIGATION(no_currency_KI, "esl/economics/currencies.hpp: currency_name (codes without a currency from KI)", (), require(is(currency('K', 'I', 'A'), "", "KIA")); require(is(currency('K', 'I', 'B'), "", "KIB")); require(is(currency('K', 'I', 'C'), "", "KIC")); require(is(currency('K', 'I', 'D'), "", "KID")); require(is(currency('K', 'I', 'E'), "", "KIE")); require(is(currency('K', 'I', 'F'), "", "KIF")); require(is(currency('K', 'I', 'G'), "", "KIG")); require(is(currency('K', 'I', 'H'), "", "KIH")); require(is(currency('K', 'I', 'I'), "", "KII")); require(is(currency('K', 'I', 'J'), "", "KIJ")); require(is(currency('K', 'I', 'K'), "", "KIK")); require(is(currency('K', 'I', 'L'), "", "KIL")); require(is(currency('K', 'I', 'M'), "", "KIM")); require(is(currency('K', 'I', 'N'), "", "KIN")); require(is(currency('K', 'I', 'O'), "", "KIO")); require(is(currency('K', 'I', 'P'), "", "KIP")); require(is(currency('K', 'I', 'Q'), "", "KIQ")); require(is(currency('K', 'I', 'R'), "", "KIR")); require(is(currency('K', 'I', 'S'), "", "KIS")); require(is(currency('K', 'I', 'T'), "", "KIT")); require(is(currency('K', 'I', 'U'), "", "KIU")); require(is(currency('K', 'I', 'V'), "", "KIV")); require(is(currency('K', 'I', 'W'), "", "KIW")); require(is(currency('K', 'I', 'X'), "", "KIX")); require(is(currency('K', 'I', 'Y'), "", "KIY")); require(is(currency('K', 'I', 'Z'), "", "KIZ"));)
OBLIGATION(no_currency_KJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from KJ)", (), require(is(currency('K', 'J', 'A'), "", "KJA")); require(is(currency('K', 'J', 'B'), "", "KJB")); require(is(currency('K', 'J', 'C'), "", "KJC")); require(is(currency('K', 'J', 'D'), "", "KJD")); require(is(currency('K', 'J', 'E'), "", "KJE")); require(is(currency('K', 'J', 'F'), "", "KJF")); require(is(currency('K', 'J', 'G'), "", "KJG")); require(is(currency('K', 'J', 'H'), "", "KJH")); require(is(currency('K', 'J', 'I'), "", "KJI")); require(is(currency('K', 'J', 'J'), "", "KJJ")); require(is(currency('K', 'J', 'K'), "", "KJK")); require(is(currency('K', 'J', 'L'), "", "KJL")); require(is(currency('K', 'J', 'M'), "", "KJM")); require(is(currency('K', 'J', 'N'), "", "KJN")); require(is(currency('K', 'J', 'O'), "", "KJO")); require(is(currency('K', 'J', 'P'), "", "KJP")); require(is(currency('K', 'J', 'Q'), "", "KJQ")); require(is(currency('K', 'J', 'R'), "", "KJR")); require(is(currency('K', 'J', 'S'), "", "KJS")); require(is(currency('K', 'J', 'T'), "", "KJT")); require(is(currency('K', 'J', 'U'), "", "KJU")); require(is(currency('K', 'J', 'V'), "", "KJV")); require(is(currency('K', 'J', 'W'), "", "KJW")); require(is(currency('K', 'J', 'X'), "", "KJX")); require(is(currency('K', 'J', 'Y'), "", "KJY")); require(is(currency('K', 'J', 'Z'), "", "KJZ"));)
OBLIGATION(no_currency_KK, "esl/economics/currencies.hpp: currency_name (codes without a currency from KK)", (), require(is(currency('K', 'K', 'A'), "", "KKA")); require(is(currency('K', 'K', 'B'), "", "KKB")); require(is(currency('K', 'K', 'C'), "", "KKC")); require(is(currency('K', 'K', 'D'), "", "KKD")); require(is(currency('K', 'K', 'E'), "", "KKE")); require(is(currency('K', 'K', 'F'), "", "KKF")); require(is(currency('K', 'K', 'G'), "", "KKG")); require(is(currency('K', 'K', 'H'), "", "KKH")); require(is(currency('K', 'K', 'I'), "", "KKI")); require(is(currency('K', 'K', 'J'), "", "KKJ")); require(is(currency('K', 'K', 'K'), "", "KKK")); require(is(currency('K', 'K', 'L'), "", "KKL")); require(is(currency('K', 'K', 'M'), "", "KKM")); require(is(currency('K', 'K', 'N'), "", "KKN")); require(is(currency('K', 'K', 'O'), "", "KKO")); require(is(currency('K', 'K', 'P'), "", "KKP")); require(is(currency('K', 'K', 'Q'), "", "KKQ")); require(is(currency('K', 'K', 'R'), "", "KKR")); require(is(currency('K', 'K', 'S'), "", "KKS")); require(is(currency('K', 'K', 'T'), "", "KKT")); require(is(currency('K', 'K', 'U'), "", "KKU")); require(is(currency('K', 'K', 'V'), "", "KKV")); require(is(currency('K', 'K', 'W'), "", "KKW")); require(is(currency('K', 'K', 'X'), "", "KKX")); require(is(currency('K', 'K', 'Y'), "", "KKY")); require(is(currency('K', 'K', 'Z'), "", "KKZ"));)
OBLIGATION(no_currency_KL, "esl/economics/currencies.hpp: currency_name (codes without a currency from KL)", (), require(is(currency('K', 'L', 'A'), "", "KLA")); require(is(currency('K', 'L', 'B'), "", "KLB")); require(is(currency('K', 'L', 'C'), "", "KLC")); require(is(currency('K', 'L', 'D'), "", "KLD")); require(is(currency('K', 'L', 'E'), "", "KLE")); require(is(currency('K', 'L', 'F'), "", "KLF")); require(is(currency('K', 'L', 'G'), "", "KLG")); require(is(currency('K', 'L', 'H'), "", "KLH")); require(is(currency('K', 'L', 'I'), "", "KLI")); require(is(currency('K', 'L', 'J'), "", "KLJ")); require(is(currency('K', 'L', 'K'), "", "KLK")); require(is(currency('K', 'L', 'L'), "", "KLL")); require(is(currency('K', 'L', 'M'), "", "KLM")); require(is(currency('K', 'L', 'N'), "", "KLN")); require(is(currency('K', 'L', 'O'), "", "KLO")); require(is(currency('K', 'L', 'P'), "", "KLP")); require(is(currency('K', 'L', 'Q'), "", "KLQ")); require(is(currency('K', 'L', 'R'), "", "KLR")); require(is(currency('K', 'L', 'S'), "", "KLS")); require(is(currency('K', 'L', 'T'), "", "KLT")); require(is(currency('K', 'L', 'U'), "", "KLU")); require(is(currency('K', 'L', 'V'), "", "KLV")); require(is(currency('K', 'L', 'W'), "", "KLW")); require(is(currency('K', 'L', 'X'), "", "KLX")); require(is(currency('K', 'L', 'Y'), "", "KLY")); require(is(currency('K', 'L', 'Z'), "", "KLZ"));)
OBLIGATION(no_currency_KM, "esl/economics/currencies.hpp: currency_name (codes without a currency from KM)", (), require(is(currency('K', 'M', 'A'), "", "KMA")); require(is(currency('K', 'M', 'B'), "", "KMB")); require(is(currency('K', 'M', 'C'), "", "KMC")); require(is(currency('K', 'M', 'D'), "", "KMD")); require(is(currency('K', 'M', 'E'), "", "KME")); require(is(currency('K', 'M', 'G'), "", "KMG")); require(is(currency('K', 'M', 'H'), "", "KMH")); require(is(currency('K', 'M', 'I'), "", "KMI")); require(is(currency('K', 'M', 'J'), "", "KMJ")); require(is(currency('K', 'M', 'K'), "", "KMK")); require(is(currency('K', 'M', 'L'), "", "KML")); require(is(currency('K', 'M', 'M'), "", "KMM")); require(is(currency('K', 'M', 'N'), "", "KMN")); require(is(currency('K', 'M', 'O'), "", "KMO")); require(is(currency('K', 'M', 'P'), "", "KMP")); require(is(currency('K', 'M', 'Q'), "", "KMQ")); require(is(currency('K', 'M', 'R'), "", "KMR")); require(is(currency('K', 'M', 'S'), "", "KMS")); require(is(currency('K', 'M', 'T'), "", "KMT")); require(is(currency('K', 'M', 'U'), "", "KMU")); require(is(currency('K', 'M', 'V'), "", "KMV")); require(is(currency('K', 'M', 'W'), "", "KMW")); require(is(currency('K', 'M', 'X'), "", "KMX")); require(is(currency('K', 'M', 'Y'), "", "KMY")); require(is(currency('K', 'M', 'Z'), "", "KMZ"));)
OBLIGATION(no_currency_KN, "esl/economics/currencies.hpp: currency_name (codes without a currency from KN)", (), require(is(currency('K', 'N', 'A'), "", "KNA")); require(is(currency('K', 'N', 'B'), "", "KNB")); require(is(currency('K', 'N', 'C'), "", "KNC")); require(is(currency('K', 'N', 'D'), "", "KND")); require(is(currency('K', 'N', 'E'), "", "KNE")); require(is(currency('K', 'N', 'F'), "", "KNF")); require(is(currency('K', 'N', 'G'), "", "KNG")); require(is(currency('K', 'N', 'H'), "", "KNH")); require(is(currency('K', 'N', 'I'), "", "KNI")); require(is(currency('K', 'N', 'J'), "", "KNJ")); require(is(currency('K', 'N', 'K'), "", "KNK")); require(is(currency('K', 'N', 'L'), "", "KNL")); require(is(currency('K', 'N', 'M'), "", "KNM")); require(is(currency('K', 'N', 'N'), "", "KNN")); require(is(currency('K', 'N', 'O'), "", "KNO")); require(is(currency('K', 'N', 'P'), "", "KNP")); require(is(currency('K', 'N', 'Q'), "", "KNQ")); require(is(currency('K', 'N', 'R'), "", "KNR")); require(is(currency('K', 'N', 'S'), "", "KNS")); require(is(currency('K', 'N', 'T'), "", "KNT")); require(is(currency('K', 'N', 'U'), "", "KNU")); require(is(currency('K', 'N', 'V'), "", "KNV")); require(is(currency('K', 'N', 'W'), "", "KNW")); require(is(currency('K', 'N', 'X'), "", "KNX")); require(is(currency('K', 'N', 'Y'), "", "KNY")); require(is(currency('K', 'N', 'Z'), "", "KNZ"));)
OBLIGATION(no_currency_KO, "esl/economics/currencies.hpp: currency_name (codes without a currency from KO)", (), require(is(currency('K', 'O', 'A'), "", "KOA")); require(is(currency('K', 'O', 'B'), "", "KOB")); require(is(currency('K', 'O', 'C'), "", "KOC")); require(is(currency('K', 'O', 'D'), "", "KOD")); require(is(currency('K', 'O', 'E'), "", "KOE")); require(is(currency('K', 'O', 'F'), "", "KOF")); require(is(currency('K', 'O', 'G'), "", "KOG")); require(is(currency('K', 'O', 'H'), "", "KOH")); require(is(currency('K', 'O', 'I'), "", "KOI")); require(is(currency('K', 'O', 'J'), "", "KOJ")); require(is(currency('K', 'O', 'K'), "", "KOK")); require(is(currency('K', 'O', 'L'), "", "KOL")); require(is(currency('K', 'O', 'M'), "", "KOM")); require(is(currency('K', 'O', 'N'), "", "KON")); require(is(currency('K', 'O', 'O'), "", "KOO")); require(is(currency('K', 'O', 'P'), "", "KOP")); require(is(currency('K', 'O', 'Q'), "", "KOQ")); require(is(currency('K', 'O', 'R'), "", "KOR")); require(is(currency('K', 'O', 'S'), "", "KOS")); require(is(currency('K', 'O', 'T'), "", "KOT")); require(is(currency('K', 'O', 'U'), "", "KOU")); require(is(currency('K', 'O', 'V'), "", "KOV")); require(is(currency('K', 'O', 'W'), "", "KOW")); require(is(currency('K', 'O', 'X'), "", "KOX")); require(is(currency('K', 'O', 'Y'), "", "KOY")); require(is(currency('K', 'O', 'Z'), "", "KOZ"));)
OBLIGATION(no_currency_KP, "esl/economics/currencies.hpp: currency_name (codes without a currency from KP)", (), require(is(currency('K', 'P', 'A'), "", "KPA")); require(is(currency('K', 'P', 'B'), "", "KPB")); require(is(currency('K', 'P', 'C'), "", "KPC")); require(is(currency('K', 'P', 'D'), "", "KPD")); require(is(currency('K', 'P', 'E'), "", "KPE")); require(is(currency('K', 'P', 'F'), "", "KPF")); require(is(currency('K', 'P', 'G'), "", "KPG")); require(is(currency('K', 'P', 'H'), "", "KPH")); require(is(currency('K', 'P', 'I'), "", "KPI")); require(is(currency('K', 'P', 'J'), "", "KPJ")); require(is(currency('K', 'P', 'K'), "", "KPK")); require(is(currency('K', 'P', 'L'), "", "KPL")); require(is(currency('K', 'P', 'M'), "", "KPM")); require(is(currency('K', 'P', 'N'), "", "KPN")); require(is(currency('K', 'P', 'O'), "", "KPO")); require(is(currency('K', 'P', 'P'), "", "KPP")); require(is(currency('K', 'P', 'Q'), "", "KPQ")); require(is(currency('K', 'P', 'R'), "", "KPR")); require(is(currency('K', 'P', 'S'), "", "KPS")); require(is(currency('K', 'P', 'T'), "", "KPT")); require(is(currency('K', 'P', 'U'), "", "KPU")); require(is(currency('K', 'P', 'V'), "", "KPV")); require(is(currency('K', 'P', 'X'), "", "KPX")); require(is(currency('K', 'P', 'Y'), "", "KPY")); require(is(currency('K', 'P', 'Z'), "", "KPZ"));)
OBLIGATION(no_currency_KQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from KQ)", (), require(is(currency('K', 'Q', 'A'), "", "KQA")); require(is(currency('K', 'Q', 'B'), "", "KQB")); require(is(currency('K', 'Q', 'C'), "", "KQC")); require(is(currency('K', 'Q', 'D'), "", "KQD")); require(is(currency('K', 'Q', 'E'), "", "KQE")); require(is(currency('K', 'Q', 'F'), "", "KQF")); require(is(currency('K', 'Q', 'G'), "", "KQG")); require(is(currency('K', 'Q', 'H'), "", "KQH")); require(is(currency('K', 'Q', 'I'), "", "KQI")); require(is(currency('K', 'Q', 'J'), "", "KQJ")); require(is(currency('K', 'Q', 'K'), "", "KQK")); require(is(currency('K', 'Q', 'L'), "", "KQL")); require(is(currency('K', 'Q', 'M'), "", "KQM")); require(is(currency('K', 'Q', 'N'), "", "KQN")); require(is(currency('K', 'Q', 'O'), "", "KQO")); require(is(currency('K', 'Q', 'P'), "", "KQP")); require(is(currency('K', 'Q', 'Q'), "", "KQQ")); require(is(currency('K', 'Q', 'R'), "", "KQR")); require(is(currency('K', 'Q', 'S'), "", "KQS")); require(is(currency('K', 'Q', 'T'), "", "KQT")); require(is(currency('K', 'Q', 'U'), "", "KQU")); require(is(currency('K', 'Q', 'V'), "", "KQV")); require(is(currency('K', 'Q', 'W'), "", "KQW")); require(is(currency('K', 'Q', 'X'), "", "KQX")); require(is(currency('K', 'Q', 'Y'), "", "KQY")); require(is(currency('K', 'Q', 'Z'), "", "KQZ"));)
OBLIGATION(no_currency_KR, "esl/economics/currencies.hpp: currency_name (codes without a currency from KR)", (), require(is(currency('K', 'R', 'A'), "", "KRA")); require(is(currency('K', 'R', 'B'), "", "KRB")); require(is(currency('K', 'R', 'C'), "", "KRC")); require(is(currency('K', 'R', 'D'), "", "KRD")); require(is(currency('K', 'R', 'E'), "", "KRE")); require(is(currency('K', 'R', 'F'), "", "KRF")); require(is(currency('K', 'R', 'G'), "", "KRG")); require(is(currency('K', 'R', 'H'), "", "KRH")); require(is(currency('K', 'R', 'I'), "", "KRI")); require(is(currency('K', 'R', 'J'), "", "KRJ")); require(is(currency('K', 'R', 'K'), "", "KRK")); require(is(currency('K', 'R', 'L'), "", "KRL")); require(is(currency('K', 'R', 'M'), "", "KRM")); require(is(currency('K', 'R', 'N'), "", "KRN")); require(is(currency('K', 'R', 'O'), "", "KRO")); require(is(currency('K', 'R', 'P'), "", "KRP")); require(is(currency('K', 'R', 'Q'), "", "KRQ")); require(is(currency('K', 'R', 'R'), "", "KRR")); require(is(currency('K', 'R', 'S'), "", "KRS")); require(is(currency('K', 'R', 'T'), "", "KRT")); require(is(currency('K', 'R', 'U'), "", "KRU")); require(is(currency('K', 'R', 'V'), "", "KRV")); require(is(currency('K', 'R', 'X'), "", "KRX")); require(is(currency('K', 'R', 'Y'), "", "KRY")); require(is(currency('K', 'R', 'Z'), "", "KRZ"));)
OBLIGATION(no_currency_KS, "esl/economics/currencies.hpp: currency_name (codes without a currency from KS)", (), require(is(currency('K', 'S', 'A'), "", "KSA")); require(is(currency('K', 'S', 'B'), "", "KSB")); require(is(currency('K', 'S', 'C'), "", "KSC")); require(is(currency('K', 'S', 'D'), "", "KSD")); require(is(currency('K', 'S', 'E'), "", "KSE")); require(is(currency('K', 'S', 'F'), "", "KSF")); require(is(currency('K', 'S', 'G'), "", "KSG")); require(is(currency('K', 'S', 'H'), "", "KSH")); require(is(currency('K', 'S', 'I'), "", "KSI")); require(is(currency('K', 'S', 'J'), "", "KSJ")); require(is(currency('K', 'S', 'K'), "", "KSK")); require(is(currency('K', 'S', 'L'), "", "KSL")); require(is(currency('K', 'S', 'M'), "", "KSM")); require(is(currency('K', 'S', 'N'), "", "KSN")); require(is(currency('K', 'S', 'O'), "", "KSO")); require(is(currency('K', 'S', 'P'), "", "KSP")); require(is(currency('K', 'S', 'Q'), "", "KSQ")); require(is(currency('K', 'S', 'R'), "", "KSR")); require(is(currency('K', 'S', 'S'), "", "KSS")); require(is(currency('K', 'S', 'T'), "", "KST")); require(is(currency('K', 'S', 'U'), "", "KSU")); require(is(currency('K', 'S', 'V'), "", "KSV")); require(is(currency('K', 'S', 'W'), "", "KSW")); require(is(currency('K', 'S', 'X'), "", "KSX")); require(is(currency('K', 'S', 'Y'), "", "KSY")); require(is(currency('K', 'S', 'Z'), "", "KSZ"));)
OBLIGATION(no_currency_KT, "esl/economics/currencies.hpp: currency_name (codes without a currency from KT)", (), require(is(currency('K', 'T', 'A'), "", "KTA")); require(is(currency('K', 'T', 'B'), "", "KTB")); require(is(currency('K', 'T', 'C'), "", "KTC")); require(is(currency('K', 'T', 'D'), "", "KTD")); require(is(currency('K', 'T', 'E'), "", "KTE")); require(is(currency('K', 'T', 'F'), "", "KTF")); require(is(currency('K', 'T', 'G'), "", "KTG")); require(is(currency('K', 'T', 'H'), "", "KTH")); require(is(currency('K', 'T', 'I'), "", "KTI")); require(is(currency('K', 'T', 'J'), "", "KTJ")); require(is(currency('K', 'T', 'K'), "", "KTK")); require(is(currency('K', 'T', 'L'), "", "KTL")); require(is(currency('K', 'T', 'M'), "", "KTM")); require(is(currency('K', 'T', 'N'), "", "KTN")); require(is(currency('K', 'T', 'O'), "", "KTO")); require(is(currency('K', 'T', 'P'), "", "KTP")); require(is(currency('K', 'T', 'Q'), "", "KTQ")); require(is(currency('K', 'T', 'R'), "", "KTR")); require(is(currency('K', 'T', 'S'), "", "KTS")); require(is(currency('K', 'T', 'T'), "", "KTT")); require(is(currency('K', 'T', 'U'), "", "KTU")); require(is(currency('K', 'T', 'V'), "", "KTV")); require(is(currency('K', 'T', 'W'), "", "KTW")); require(is(currency('K', 'T', 'X'), "", "KTX")); require(is(currency('K', 'T', 'Y'), "", "KTY")); require(is(currency('K', 'T', 'Z'), "", "KTZ"));)
OBLIGATION(no_currency_KU, "esl/economics/currencies.hpp: currency_name (codes without a currency from KU)", (), require(is(currency('K', 'U', 'A'), "", "KUA")); require(is(currency('K', 'U', 'B'), "", "KUB")); require(is(currency('K', 'U', 'C'), "", "KUC")); require(is(currency('K', 'U', 'D'), "", "KUD")); require(is(currency('K', 'U', 'E'), "", "KUE")); require(is(currency('K', 'U', 'F'), "", "KUF")); require(is(currency('K', 'U', 'G'), "", "KUG")); require(is(currency('K', 'U', 'H'), "", "KUH")); require(is(currency('K', 'U', 'I'), "", "KUI")); require(is(currency('K', 'U', 'J'), "", "KUJ")); require(is(currency('K', 'U', 'K'), "", "KUK")); require(is(currency('K', 'U', 'L'), "", "KUL")); require(is(currency('K', 'U', 'M'), "", "KUM")); require(is(currency('K', 'U', 'N'), "", "KUN")); require(is(currency('K', 'U', 'O'), "", "KUO")); require(is(currency('K', 'U', 'P'), "", "KUP")); require(is(currency('K', 'U', 'Q'), "", "KUQ")); require(is(currency('K', 'U', 'R'), "", "KUR")); require(is(currency('K', 'U', 'S'), "", "KUS")); require(is(currency('K', 'U', 'T'), "", "KUT")); require(is(currency('K', 'U', 'U'), "", "KUU")); require(is(currency('K', 'U', 'V'), "", "KUV")); require(is(currency('K', 'U', 'W'), "", "KUW")); require(is(currency('K', 'U', 'X'), "", "KUX")); require(is(currency('K', 'U', 'Y'), "", "KUY")); require(is(currency('K', 'U', 'Z'), "", "KUZ"));)
OBLIGATION(no_currency_KV, "esl/economics/currencies.hpp: currency_name (codes without a currency from KV)", (), require(is(currency('K', 'V', 'A'), "", "KVA")); require(is(currency('K', 'V', 'B'), "", "KVB")); require(is(currency('K', 'V', 'C'), "", "KVC")); require(is(currency('K', 'V', 'D'), "", "KVD")); require(is(currency('K', 'V', 'E'), "", "KVE")); require(is(currency('K', 'V', 'F'), "", "KVF")); require(is(currency('K', 'V', 'G'), "", "KVG")); require(is(currency('K', 'V', 'H'), "", "KVH")); require(is(currency('K', 'V', 'I'), "", "KVI")); require(is(currency('K', 'V', 'J'), "", "KVJ")); require(is(currency('K', 'V', 'K'), "", "KVK")); require(is(currency('K', 'V', 'L'), "", "KVL")); require(is(currency('K', 'V', 'M'), "", "KVM")); require(is(currency('K', 'V', 'N'), "", "KVN")); require(is(currency('K', 'V', 'O'), "", "KVO")); require(is(currency('K', 'V', 'P'), "", "KVP")); require(is(currency('K', 'V', 'Q'), "", "KVQ")); require(is(currency('K', 'V', 'R'), "", "KVR")); require(is(currency('K', 'V', 'S'), "", "KVS")); require(is(currency('K', 'V', 'T'), "", "KVT")); require(is(currency('K', 'V', 'U'), "", "KVU")); require(is(currency('K', 'V', 'V'), "", "KVV")); require(is(currency('K', 'V', 'W'), "", "KVW")); require(is(currency('K', 'V', 'X'), "", "KVX")); require(is(currency('K', 'V', 'Y'), "", "KVY")); require(is(currency('K', 'V', 'Z'), "", "KVZ"));)
OBLIGATION(no_currency_KW, "esl/economics/currencies.hpp: currency_name (codes without a currency from KW)", (), require(is(currency('K', 'W', 'A'), "", "KWA")); require(is(currency('K', 'W', 'B'), "", "KWB")); require(is(currency('K', 'W', 'C'), "", "KWC")); require(is(currency('K', 'W', 'E'), "", "KWE")); require(is(currency('K', 'W', 'F'), "", "KWF")); require(is(currency('K', 'W', 'G'), "", "KWG")); require(is(currency('K', 'W', 'H'), "", "KWH")); require(is(currency('K', 'W', 'I'), "", "KWI")); require(is(currency('K', 'W', 'J'), "", "KWJ")); require(is(currency('K', 'W', 'K'), "", "KWK")); require(is(currency('K', 'W', 'L'), "", "KWL")); require(is(currency('K', 'W', 'M'), "", "KWM")); require(is(currency('K', 'W', 'N'), "", "KWN")); require(is(currency('K', 'W', 'O'), "", "KWO")); require(is(currency('K', 'W', 'P'), "", "KWP")); require(is(currency('K', 'W', 'Q'), "", "KWQ")); require(is(currency('K', 'W', 'R'), "", "KWR")); require(is(currency('K', 'W', 'S'), "", "KWS")); require(is(currency('K', 'W', 'T'), "", "KWT")); require(is(currency('K', 'W', 'U'), "", "KWU")); require(is(currency('K', 'W', 'V'), "", "KWV")); require(is(currency('K', 'W', 'W'), "", "KWW")); require(is(currency('K', 'W', 'X'), "", "KWX")); require(is(currency('K', 'W', 'Y'), "", "KWY")); require(is(currency('K', 'W', 'Z'), "", "KWZ"));)
OBLIGATION(no_currency_KX, "esl/economics/currencies.hpp: currency_name (codes without a currency from KX)", (), require(is(currency('K', 'X', 'A'), "", "KXA")); require(is(currency('K', 'X', 'B'), "", "KXB")); require(is(currency('K', 'X', 'C'), "", "KXC")); require(is(currency('K', 'X', 'D'), "", "KXD")); require(is(currency('K', 'X', 'E'), "", "KXE")); require(is(currency('K', 'X', 'F'), "", "KXF")); require(is(currency('K', 'X', 'G'), "", "KXG")); require(is(currency('K', 'X', 'H'), "", "KXH")); require(is(currency('K', 'X', 'I'), "", "KXI")); require(is(currency('K', 'X', 'J'), "", "KXJ")); require(is(currency('K', 'X', 'K'), "", "KXK")); require(is(currency('K', 'X', 'L'), "", "KXL")); require(is(currency('K', 'X', 'M'), "", "KXM")); require(is(currency('K', 'X', 'N'), "", "KXN")); require(is(currency('K', 'X', 'O'), "", "KXO")); require(is(currency('K', 'X', 'P'), "", "KXP")); require(is(currency('K', 'X', 'Q'), "", "KXQ")); require(is(currency('K', 'X', 'R'), "", "KXR")); require(is(currency('K', 'X', 'S'), "", "KXS")); require(is(currency('K', 'X', 'T'), "", "KXT")); require(is(currency('K', 'X', 'U'), "", "KXU")); require(is(currency('K', 'X', 'V'), "", "KXV")); require(is(currency('K', 'X', 'W'), "", "KXW")); require(is(currency('K', 'X', 'X'), "", "KXX")); require(is(currency('K', 'X', 'Y'), "", "KXY")); require(is(currency('K', 'X', 'Z'), "", "KXZ"));)
OBLIGATION(no_currency_KY, "esl/economics/currencies.hpp: currency_name (codes without a currency from KY)", (), require(is(currency('K', 'Y', 'A'), "", "KYA")); require(is(currency('K', 'Y', 'B'), "", "KYB")); require(is(currency('K', 'Y', 'C'), "", "KYC")); require(is(currency('K', 'Y', 'E'), "", "KYE")); require(is(currency('K', 'Y', 'F'), "", "KYF")); require(is(currency('K', 'Y', 'G'), "", "KYG")); require(is(currency('K', 'Y', 'H'), "", "KYH")); require(is(currency('K', 'Y', 'I'), "", "KYI")); require(is(currency('K', 'Y', 'J'), "", "KYJ")); require(is(currency('K', 'Y', 'K'), "", "KYK")); require(is(currency('K', 'Y', 'L'), "", "KYL")); require(is(currency('K', 'Y', 'M'), "", "KYM")); require(is(currency('K', 'Y', 'N'), "", "KYN")); require(is(currency('K', 'Y', 'O'), "", "KYO")); require(is(currency('K', 'Y', 'P'), "", "KYP")); require(is(currency('K', 'Y', 'Q'), "", "KYQ")); require(is(currency('K', 'Y', 'R'), "", "KYR")); require(is(currency('K', 'Y', 'S'), "", "KYS")); require(is(currency('K', 'Y', 'T'), "", "KYT")); require(is(currency('K', 'Y', 'U'), "", "KYU")); require(is(currency('K', 'Y', 'V'), "", "KYV")); require(is(currency('K', 'Y', 'W'), "", "KYW")); require(is(currency('K', 'Y', 'X'), "", "KYX")); require(is(currency('K', 'Y', 'Y'), "", "KYY")); require(is(currency('K', 'Y', 'Z'), "", "KYZ"));)
OBLIGATION(no_currency_KZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from KZ)", (), require(is(currency('K', 'Z', 'A'), "", "KZA")); require(is(currency('K', 'Z', 'B'), "", "KZB")); require(is(currency('K', 'Z', 'C'), "", "KZC")); require(is(currency('K', 'Z', 'D'), "", "KZD")); require(is(currency('K', 'Z', 'E'), "", "KZE")); require(is(currency('K', 'Z', 'F'), "", "KZF")); require(is(currency('K', 'Z', 'G'), "", "KZG")); require(is(currency('K', 'Z', 'H'), "", "KZH")); require(is(currency('K', 'Z', 'I'), "", "KZI")); require(is(currency('K', 'Z', 'J'), "", "KZJ")); require(is(currency('K', 'Z', 'K'), "", "KZK")); require(is(currency('K', 'Z', 'L'), "", "KZL")); require(is(currency('K', 'Z', 'M'), "", "KZM")); require(is(currency('K', 'Z', 'N'), "", "KZN")); require(is(currency('K', 'Z', 'O'), "", "KZO")); require(is(currency('K', 'Z', 'P'), "", "KZP")); require(is(currency('K', 'Z', 'Q'), "", "KZQ")); require(is(currency('K', 'Z', 'R'), "", "KZR")); require(is(currency('K', 'Z', 'S'), "", "KZS")); require(is(currency('K', 'Z', 'U'), "", "KZU")); require(is(currency('K', 'Z', 'V'), "", "KZV")); require(is(currency('K', 'Z', 'W'), "", "KZW")); require(is(currency('K', 'Z', 'X'), "", "KZX")); require(is(currency('K', 'Z', 'Y'), "", "KZY")); require(is(currency('K', 'Z', 'Z'), "", "KZZ"));)
OBLIGATION(no_currency_LA, "esl/economics/currencies.hpp: currency_name (codes without a currency from LA)", (), require(is(currency('L', 'A', 'A'), "", "LAA")); require(is(currency('L', 'A', 'B'), "", "LAB")); require(is(currency('L', 'A', 'C'), "", "LAC")); require(is(currency('L', 'A', 'D'), "", "LAD")); require(is(currency('L', 'A', 'E'), "", "LAE")); require(is(currency('L', 'A', 'F'), "", "LAF")); require(is(currency('L', 'A', 'G'), "", "LAG")); require(is(currency('L', 'A', 'H'), "", "LAH")); require(is(currency('L', 'A', 'I'), "", "LAI")); require(is(currency('L', 'A', 'J'), "", "LAJ")); require(is(currency('L', 'A', 'L'), "", "LAL")); require(is(currency('L', 'A', 'M'), "", "LAM")); require(is(currency('L', 'A', 'N'), "", "LAN")); require(is(currency('L', 'A', 'O'), "", "LAO")); require(is(currency('L', 'A', 'P'), "", "LAP")); require(is(currency('L', 'A', 'Q'), "", "LAQ")); require(is(currency('L', 'A', 'R'), "", "LAR")); require(is(currency('L', 'A', 'S'), "", "LAS")); require(is(currency('L', 'A', 'T'), "", "LAT")); require(is(currency('L', 'A', 'U'), "", "LAU")); require(is(currency('L', 'A', 'V'), "", "LAV")); require(is(currency('L', 'A', 'W'), "", "LAW")); require(is(currency('L', 'A', 'X'), "", "LAX")); require(is(currency('L', 'A', 'Y'), "", "LAY")); require(is(currency('L', 'A', 'Z'), "", "LAZ"));)
OBLIGATION(no_currency_LB, "esl/economics/currencies.hpp: currency_name (codes without a currency from LB)", (), require(is(currency('L', 'B', 'A'), "", "LBA")); require(is(currency('L', 'B', 'B'), "", "LBB")); require(is(currency('L', 'B', 'C'), "", "LBC")); require(is(currency('L', 'B', 'D'), "", "LBD")); require(is(currency('L', 'B', 'E'), "", "LBE")); require(is(currency('L', 'B', 'F'), "", "LBF")); require(is(currency('L', 'B', 'G'), "", "LBG")); require(is(currency('L', 'B', 'H'), "", "LBH")); require(is(currency('L', 'B', 'I'), "", "LBI")); require(is(currency('L', 'B', 'J'), "", "LBJ")); require(is(currency('L', 'B', 'K'), "", "LBK")); require(is(currency('L', 'B', 'L'), "", "LBL")); require(is(currency('L', 'B', 'M'), "", "LBM")); require(is(currency('L', 'B', 'N'), "", "LBN")); require(is(currency('L', 'B', 'O'), "", "LBO")); require(is(currency('L', 'B', 'Q'), "", "LBQ")); require(is(currency('L', 'B', 'R'), "", "LBR")); require(is(currency('L', 'B', 'S'), "", "LBS")); require(is(currency('L', 'B', 'T'), "", "LBT")); require(is(currency('L', 'B', 'U'), "", "LBU")); require(is(currency('L', 'B', 'V'), "", "LBV")); require(is(currency('L', 'B', 'W'), "", "LBW")); require(is(currency('L', 'B', 'X'), "", "LBX")); require(is(currency('L', 'B', 'Y'), "", "LBY")); require(is(currency('L', 'B', 'Z'), "", "LBZ"));)
OBLIGATION(no_currency_LC, "esl/economics/currencies.hpp: currency_name (codes without a currency from LC)", (), require(is(currency('L', 'C', 'A'), "", "LCA")); require(is(currency('L', 'C', 'B'), "", "LCB")); require(is(currency('L', 'C', 'C'), "", "LCC")); require(is(currency('L', 'C', 'D'), "", "LCD")); require(is(currency('L', 'C', 'E'), "", "LCE")); require(is(currency('L', 'C', 'F'), "", "LCF")); require(is(currency('L', 'C', 'G'), "", "LCG")); require(is(currency('L', 'C', 'H'), "", "LCH")); require(is(currency('L', 'C', 'I'), "", "LCI")); require(is(currency('L', 'C', 'J'), "", "LCJ")); require(is(currency('L', 'C', 'K'), "", "LCK")); require(is(currency('L', 'C', 'L'), "", "LCL")); require(is(currency('L', 'C', 'M'), "", "LCM")); require(is(currency('L', 'C', 'N'), "", "LCN")); require(is(currency('L', 'C', 'O'), "", "LCO")); require(is(currency('L', 'C', 'P'), "", "LCP")); require(is(currency('L', 'C', 'Q'), "", "LCQ")); require(is(currency('L', 'C', 'R'), "", "LCR")); require(is(currency('L', 'C', 'S'), "", "LCS")); require(is(currency('L', 'C', 'T'), "", "LCT")); require(is(currency('L', 'C', 'U'), "", "LCU")); require(is(currency('L', 'C', 'V'), "", "LCV")); require(is(currency('L', 'C', 'W'), "", "LCW")); require(is(currency('L', 'C', 'X'), "", "LCX")); require(is(currency('L', 'C', 'Y'), "", "LCY")); require(is(currency('L', 'C', 'Z'), "", "LCZ"));)
OBLIGATION(no_currency_LD, "esl/economics/currencies.hpp: currency_name (codes without a currency from LD)", (), require(is(currency('L', 'D', 'A'), "", "LDA")); require(is(currency('L', 'D', 'B'), "", "LDB")); require(is(currency('L', 'D', 'C'), "", "LDC")); require(is(currency('L', 'D', 'D'), "", "LDD")); require(is(currency('L', 'D', 'E'), "", "LDE")); require(is(currency('L', 'D', 'F'), "", "LDF")); require(is(currency('L', 'D', 'G'), "", "LDG")); require(is(currency('L', 'D', 'H'), "", "LDH")); require(is(currency('L', 'D', 'I'), "", "LDI")); require(is(currency('L', 'D', 'J'), "", "LDJ")); require(is(currency('L', 'D', 'K'), "", "LDK")); require(is(currency('L', 'D', 'L'), "", "LDL")); require(is(currency('L', 'D', 'M'), "", "LDM")); require(is(currency('L', 'D', 'N'), "", "LDN")); require(is(currency('L', 'D', 'O'), "", "LDO")); require(is(currency('L', 'D', 'P'), "", "LDP")); require(is(currency('L', 'D', 'Q'), "", "LDQ")); require(is(currency('L', 'D', 'R'), "", "LDR")); require(is(currency('L', 'D', 'S'), "", "LDS")); require(is(currency('L', 'D', 'T'), "", "LDT")); require(is(currency('L', 'D', 'U'), "", "LDU")); require(is(currency('L', 'D', 'V'), "", "LDV")); require(is(currency('L', 'D', 'W'), "", "LDW")); require(is(currency('L', 'D', 'X'), "", "LDX")); require(is(currency('L', 'D', 'Y'), "", "LDY")); require(is(currency('L', 'D', 'Z'), "", "LDZ"));)
OBLIGATION(no_currency_LE, "esl/economics/currencies.hpp: currency_name (codes without a currency from LE)", (), require(is(currency('L', 'E', 'A'), "", "LEA")); require(is(currency('L', 'E', 'B'), "", "LEB")); require(is(currency('L', 'E', 'C'), "", "LEC")); require(is(currency('L', 'E', 'D'), "", "LED")); require(is(currency('L', 'E', 'E'), "", "LEE")); require(is(currency('L', 'E', 'F'), "", "LEF")); require(is(currency('L', 'E', 'G'), "", "LEG")); require(is(currency('L', 'E', 'H'), "", "LEH")); require(is(currency('L', 'E', 'I'), "", "LEI")); require(is(currency('L', 'E', 'J'), "", "LEJ")); require(is(currency('L', 'E', 'K'), "", "LEK")); require(is(currency('L', 'E', 'L'), "", "LEL")); require(is(currency('L', 'E', 'M'), "", "LEM")); require(is(currency('L', 'E', 'N'), "", "LEN")); require(is(currency('L', 'E', 'O'), "", "LEO")); require(is(currency('L', 'E', 'P'), "", "LEP")); require(is(currency('L', 'E', 'Q'), "", "LEQ")); require(is(currency('L', 'E', 'R'), "", "LER")); require(is(currency('L', 'E', 'S'), "", "LES")); require(is(currency('L', 'E', 'T'), "", "LET")); require(is(currency('L', 'E', 'U'), "", "LEU")); require(is(currency('L', 'E', 'V'), "", "LEV")); require(is(currency('L', 'E', 'W'), "", "LEW")); require(is(currency('L', 'E', 'X'), "", "LEX")); require(is(currency('L', 'E', 'Y'), "", "LEY")); require(is(currency('L', 'E', 'Z'), "", "LEZ"));)
OBLIGATION(no_currency_LF, "esl/economics/currencies.hpp: currency_name (codes without a currency from LF)", (), require(is(currency('L', 'F', 'A'), "", "LFA")); require(is(currency('L', 'F', 'B'), "", "LFB")); require(is(currency('L', 'F', 'C'), "", "LFC")); require(is(currency('L', 'F', 'D'), "", "LFD")); require(is(currency('L', 'F', 'E'), "", "LFE")); require(is(currency('L', 'F', 'F'), "", "LFF")); require(is(currency('L', 'F', 'G'), "", "LFG")); require(is(currency('L', 'F', 'H'), "", "LFH")); require(is(currency('L', 'F', 'I'), "", "LFI")); require(is(currency('L', 'F', 'J'), "", "LFJ")); require(is(currency('L', 'F', 'K'), "", "LFK")); require(is(currency('L', 'F', 'L'), "", "LFL")); require(is(currency('L', 'F', 'M'), "", "LFM")); require(is(currency('L', 'F', 'N'), "", "LFN")); require(is(currency('L', 'F', 'O'), "", "LFO")); require(is(currency('L', 'F', 'P'), "", "LFP")); require(is(currency('L', 'F', 'Q'), "", "LFQ")); require(is(currency('L', 'F', 'R'), "", "LFR")); require(is(currency('L', 'F', 'S'), "", "LFS")); require(is(currency('L', 'F', 'T'), "", "LFT")); require(is(currency('L', 'F', 'U'), "", "LFU")); require(is(currency('L', 'F', 'V'), "", "LFV")); require(is(currency('L', 'F', 'W'), "", "LFW")); require(is(currency('L', 'F', 'X'), "", "LFX")); require(is(currency('L', 'F', 'Y'), "", "LFY")); require(is(currency('L', 'F', 'Z'), "", "LFZ"));)
OBLIGATION(no_currency_LG, "esl/economics/currencies.hpp: currency_name (codes without a currency from LG)", (), require(is(currency('L', 'G', 'A'), "", "LGA")); require(is(currency('L', 'G', 'B'), "", "LGB")); require(is(currency('L', 'G', 'C'), "", "LGC")); require(is(currency('L', 'G', 'D'), "", "LGD")); require(is(currency('L', 'G', 'E'), "", "LGE")); require(is(currency('L', 'G', 'F'), "", "LGF")); require(is(currency('L', 'G', 'G'), "", "LGG")); require(is(currency('L', 'G', 'H'), "", "LGH")); require(is(currency('L', 'G', 'I'), "", "LGI")); require(is(currency('L', 'G', 'J'), "", "LGJ")); require(is(currency('L', 'G', 'K'), "", "LGK")); require(is(currency('L', 'G', 'L'), "", "LGL")); require(is(currency('L', 'G', 'M'), "", "LGM")); require(is(currency('L', 'G', 'N'), "", "LGN")); require(is(currency('L', 'G', 'O'), "", "LGO")); require(is(currency('L', 'G', 'P'), "", "LGP")); require(is(currency('L', 'G', 'Q'), "", "LGQ")); require(is(currency('L', 'G', 'R'), "", "LGR")); require(is(currency('L', 'G', 'S'), "", "LGS")); require(is(currency('L', 'G', 'T'), "", "LGT")); require(is(currency('L', 'G', 'U'), "", "LGU")); require(is(currency('L', 'G', 'V'), "", "LGV")); require(is(currency('L', 'G', 'W'), "", "LGW")); require(is(currency('L', 'G', 'X'), "", "LGX")); require(is(currency('L', 'G', 'Y'), "", "LGY")); require(is(currency('L', 'G', 'Z'), "", "LGZ"));)
OBLIGATION(no_currency_LH, "esl/economics/currencies.hpp: currency_name (codes without a currency from LH)", (), require(is(currency('L', 'H', 'A'), "", "LHA")); require(is(currency('L', 'H', 'B'), "", "LHB")); require(is(currency('L', 'H', 'C'), "", "LHC")); require(is(currency('L', 'H', 'D'), "", "LHD")); require(is(currency('L', 'H', 'E'), "", "LHE")); require(is(currency('L', 'H', 'F'), "", "LHF")); require(is(currency('L', 'H', 'G'), "", "LHG")); require(is(currency('L', 'H', 'H'), "", "LHH")); require(is(currency('L', 'H', 'I'), "", "LHI")); require(is(currency('L', 'H', 'J'), "", "LHJ")); require(is(currency('L', 'H', 'K'), "", "LHK")); require(is(currency('L', 'H', 'L'), "", "LHL")); require(is(currency('L', 'H', 'M'), "", "LHM")); require(is(currency('L', 'H', 'N'), "", "LHN")); require(is(currency('L', 'H', 'O'), "", "LHO")); require(is(currency('L', 'H', 'P'), "", "LHP")); require(is(currency('L', 'H', 'Q'), "", "LHQ")); require(is(currency('L', 'H', 'R'), "", "LHR")); require(is(currency('L', 'H', 'S'), "", "LHS")); require(is(currency('L', 'H', 'T'), "", "LHT")); require(is(currency('L', 'H', 'U'), "", "LHU")); require(is(currency('L', 'H', 'V'), "", "LHV")); require(is(currency('L', 'H', 'W'), "", "LHW")); require(is(currency('L', 'H', 'X'), "", "LHX")); require(is(currency('L', 'H', 'Y'), "", "LHY")); require(is(currency('L', 'H', 'Z'), "", "LHZ"));)
OBLIGATION(no_currency_LI, "esl/economics/currencies.hpp: currency_name (codes without a currency from LI)", (), require(is(currency('L', 'I', 'A'), "", "LIA")); require(is(currency('L', 'I', 'B'), "", "LIB")); require(is(currency('L', 'I', 'C'), "", "LIC")); require(is(currency('L', 'I', 'D'), "", "LID")); require(is(currency('L', 'I', 'E'), "", "LIE")); require(is(currency('L', 'I', 'F'), "", "LIF")); require(is(currency('L', 'I', 'G'), "", "LIG")); require(is(currency('L', 'I', 'H'), "", "LIH")); require(is(currency('L', 'I', 'I'), "", "LII")); require(is(currency('L', 'I', 'J'), "", "LIJ")); require(is(currency('L', 'I', 'K'), "", "LIK")); require(is(currency('L', 'I', 'L'), "", "LIL")); require(is(currency('L', 'I', 'M'), "", "LIM")); require(is(currency('L', 'I', 'N'), "", "LIN")); require(is(currency('L', 'I', 'O'), "", "LIO")); require(is(currency('L', 'I', 'P'), "", "LIP")); require(is(currency('L', 'I', 'Q'), "", "LIQ")); require(is(currency('L', 'I', 'R'), "", "LIR")); require(is(currency('L', 'I', 'S'), "", "LIS")); require(is(currency('L', 'I', 'T'), "", "LIT")); require(is(currency('L', 'I', 'U'), "", "LIU")); require(is(currency('L', 'I', 'V'), "", "LIV")); require(is(currency('L', 'I', 'W'), "", "LIW")); require(is(currency('L', 'I', 'X'), "", "LIX")); require(is(currency('L', 'I', 'Y'), "", "LIY")); require(is(currency('L', 'I', 'Z'), "", "LIZ"));)
OBLIGATION(no_currency_LJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from LJ)", (), require(is(currency('L', 'J', 'A'), "", "LJA")); require(is(currency('L', 'J', 'B'), "", "LJB")); require(is(currency('L', 'J', 'C'), "", "LJC")); require(is(currency('L', 'J', 'D'), "", "LJD")); require(is(currency('L', 'J', 'E'), "", "LJE")); require(is(currency('L', 'J', 'F'), "", "LJF")); require(is(currency('L', 'J', 'G'), "", "LJG")); require(is(currency('L', 'J', 'H'), "", "LJH")); require(is(currency('L', 'J', 'I'), "", "LJI")); require(is(currency('L', 'J', 'J'), "", "LJJ")); require(is(currency('L', 'J', 'K'), "", "LJK")); require(is(currency('L', 'J', 'L'), "", "LJL")); require(is(currency('L', 'J', 'M'), "", "LJM")); require(is(currency('L', 'J', 'N'), "", "LJN")); require(is(currency('L', 'J', 'O'), "", "LJO")); require(is(currency('L', 'J', 'P'), "", "LJP")); require(is(currency('L', 'J', 'Q'), "", "LJQ")); require(is(currency('L', 'J', 'R'), "", "LJR")); require(is(currency('L', 'J', 'S'), "", "LJS")); require(is(currency('L', 'J', 'T'), "", "LJT")); require(is(currency('L', 'J', 'U'), "", "LJU")); require(is(currency('L', 'J', 'V'), "", "LJV")); require(is(currency('L', 'J', 'W'), "", "LJW")); require(is(currency('L', 'J', 'X'), "", "LJX")); require(is(currency('L', 'J', 'Y'), "", "LJY")); require(is(currency('L', 'J', 'Z'), "", "LJZ"));)
OBLIGATION(no_currency_LK, "esl/economics/currencies.hpp: currency_name (codes without a currency from LK)", (), require(is(currency('L', 'K', 'A'), "", "LKA")); require(is(currency('L', 'K', 'B'), "", "LKB")); require(is(currency('L', 'K', 'C'), "", "LKC")); require(is(currency('L', 'K', 'D'), "", "LKD")); require(is(currency('L', 'K', 'E'), "", "LKE")); require(is(currency('L', 'K', 'F'), "", "LKF")); require(is(currency('L', 'K', 'G'), "", "LKG")); require(is(currency('L', 'K', 'H'), "", "LKH")); require(is(currency('L', 'K', 'I'), "", "LKI")); require(is(currency('L', 'K', 'J'), "", "LKJ")); require(is(currency('L', 'K', 'K'), "", "LKK")); require(is(currency('L', 'K', 'L'), "", "LKL")); require(is(currency('L', 'K', 'M'), "", "LKM")); require(is(currency('L', 'K', 'N'), "", "LKN")); require(is(currency('L', 'K', 'O'), "", "LKO")); require(is(currency('L', 'K', 'P'), "", "LKP")); require(is(currency('L', 'K', 'Q'), "", "LKQ")); require(is(currency('L', 'K', 'S'), "", "LKS")); require(is(currency('L', 'K', 'T'), "", "LKT")); require(is(currency('L', 'K', 'U'), "", "LKU")); require(is(currency('L', 'K', 'V'), "", "LKV")); require(is(currency('L', 'K', 'W'), "", "LKW")); require(is(currency('L', 'K', 'X'), "", "LKX")); require(is(currency('L', 'K', 'Y'), "", "LKY")); require(is(currency('L', 'K', 'Z'), "", "LKZ"));)
OBLIGATION(no_currency_LL, "esl/economics/currencies.hpp: currency_name (codes without a currency from LL)", (), require(is(currency('L', 'L', 'A'), "", "LLA")); require(is(currency('L', 'L', 'B'), "", "LLB")); require(is(currency('L', 'L', 'C'), "", "LLC")); require(is(currency('L', 'L', 'D'), "", "LLD")); require(is(currency('L', 'L', 'E'), "", "LLE")); require(is(currency('L', 'L', 'F'), "", "LLF")); require(is(currency('L', 'L', 'G'), "", "LLG")); require(is(currency('L', 'L', 'H'), "", "LLH")); require(is(currency('L', 'L', 'I'), "", "LLI")); require(is(currency('L', 'L', 'J'), "", "LLJ")); require(is(currency('L', 'L', 'K'), "", "LLK")); require(is(currency('L', 'L', 'L'), "", "LLL")); require(is(currency('L', 'L', 'M'), "", "LLM")); require(is(currency('L', 'L', 'N'), "", "LLN")); require(is(currency('L', 'L', 'O'), "", "LLO")); require(is(currency('L', 'L', 'P'), "", "LLP")); require(is(currency('L', 'L', 'Q'), "", "LLQ")); require(is(currency('L', 'L', 'R'), "", "LLR")); require(is(currency('L', 'L', 'S'), "", "LLS")); require(is(currency('L', 'L', 'T'), "", "LLT")); require(is(currency('L', 'L', 'U'), "", "LLU")); require(is(currency('L', 'L', 'V'), "", "LLV")); require(is(currency('L', 'L', 'W'), "", "LLW")); require(is(currency('L', 'L', 'X'), "", "LLX")); require(is(currency('L', 'L', 'Y'), "", "LLY")); require(is(currency('L', 'L', 'Z'), "", "LLZ"));)
OBLIGATION(no_currency_LM, "esl/economics/currencies.hpp: currency_name (codes without a currency from LM)", (), require(is(currency('L', 'M', 'A'), "", "LMA")); require(is(currency('L', 'M', 'B'), "", "LMB")); require(is(currency('L', 'M', 'C'), "", "LMC")); require(is(currency('L', 'M', 'D'), "", "LMD")); require(is(currency('L', 'M', 'E'), "", "LME")); require(is(currency('L', 'M', 'F'), "", "LMF")); require(is(currency('L', 'M', 'G'), "", "LMG")); require(is(currency('L', 'M', 'H'), "", "LMH")); require(is(currency('L', 'M', 'I'), "", "LMI")); require(is(currency('L', 'M', 'J'), "", "LMJ")); require(is(currency('L', 'M', 'K'), "", "LMK")); require(is(currency('L', 'M', 'L'), "", "LML")); require(is(currency('L', 'M', 'M'), "", "LMM")); require(is(currency('L', 'M', 'N'), "", "LMN")); require(is(currency('L', 'M', 'O'), "", "LMO")); require(is(currency('L', 'M', 'P'), "", "LMP")); require(is(currency('L', 'M', 'Q'), "", "LMQ")); require(is(currency('L', 'M', 'R'), "", "LMR")); require(is(currency('L', 'M', 'S'), "", "LMS")); require(is(currency('L', 'M', 'T'), "", "LMT")); require(is(currency('L', 'M', 'U'), "", "LMU")); require(is(currency('L', 'M', 'V'), "", "LMV")); require(is(currency('L', 'M', 'W'), "", "LMW")); require(is(currency('L', 'M', 'X'), "", "LMX")); require(is(currency('L', 'M', 'Y'), "", "LMY")); require(is(currency('L', 'M', 'Z'), "", "LMZ"));)
OBLIGATION(no_currency_LN, "esl/economics/currencies.hpp: currency_name (codes without a currency from LN)", (), require(is(currency('L', 'N', 'A'), "", "LNA")); require(is(currency('L', 'N', 'B'), "", "LNB")); require(is(currency('L', 'N', 'C'), "", "LNC")); require(is(currency('L', 'N', 'D'), "", "LND")); require(is(currency('L', 'N', 'E'), "", "LNE")); require(is(currency('L', 'N', 'F'), "", "LNF")); require(is(currency('L', 'N', 'G'), "", "LNG")); require(is(currency('L', 'N', 'H'), "", "LNH")); require(is(currency('L', 'N', 'I'), "", "LNI")); require(is(currency('L', 'N', 'J'), "", "LNJ")); require(is(currency('L', 'N', 'K'), "", "LNK")); require(is(currency('L', 'N', 'L'), "", "LNL")); require(is(currency('L', 'N', 'M'), "", "LNM")); require(is(currency('L', 'N', 'N'), "", "LNN")); require(is(currency('L', 'N', 'O'), "", "LNO")); require(is(currency('L', 'N', 'P'), "", "LNP")); require(is(currency('L', 'N', 'Q'), "", "LNQ")); require(is(currency('L', 'N', 'R'), "", "LNR")); require(is(currency('L', 'N', 'S'), "", "LNS")); require(is(currency('L', 'N', 'T'), "", "LNT")); require(is(currency('L', 'N', 'U'), "", "LNU")); require(is(currency('L', 'N', 'V'), "", "LNV")); require(is(currency('L', 'N', 'W'), "", "LNW")); require(is(currency('L', 'N', 'X'), "", "LNX")); require(is(currency('L', 'N', 'Y'), "", "LNY")); require(is(currency('L', 'N', 'Z'), "", "LNZ"));)
OBLIGATION(no_currency_LO, "esl/economics/currencies.hpp: currency_name (codes without a currency from LO)", (), require(is(currency('L', 'O', 'A'), "", "LOA")); require(is(currency('L', 'O', 'B'), "", "LOB")); require(is(currency('L', 'O', 'C'), "", "LOC")); require(is(currency('L', 'O', 'D'), "", "LOD")); require(is(currency('L', 'O', 'E'), "", "LOE")); require(is(currency('L', 'O', 'F'), "", "LOF")); require(is(currency('L', 'O', 'G'), "", "LOG")); require(is(currency('L', 'O', 'H'), "", "LOH")); require(is(currency('L', 'O', 'I'), "", "LOI")); require(is(currency('L', 'O', 'J'), "", "LOJ")); require(is(currency('L', 'O', 'K'), "", "LOK")); require(is(currency('L', 'O', 'L'), "", "LOL")); require(is(currency('L', 'O', 'M'), "", "LOM")); require(is(currency('L', 'O', 'N'), "", "LON")); require(is(currency('L', 'O', 'O'), "", "LOO")); require(is(currency('L', 'O', 'P'), "", "LOP")); require(is(currency('L', 'O', 'Q'), "", "LOQ")); require(is(currency('L', 'O', 'R'), "", "LOR")); require(is(currency('L', 'O', 'S'), "", "LOS")); require(is(currency('L', 'O', 'T'), "", "LOT")); require(is(currency('L', 'O', 'U'), "", "LOU")); require(is(currency('L', 'O', 'V'), "", "LOV")); require(is(currency('L', 'O', 'W'), "", "LOW")); require(is(currency('L', 'O', 'X'), "", "LOX")); require(is(currency('L', 'O', 'Y'), "", "LOY")); require(is(currency('L', 'O', 'Z'), "", "LOZ"));)
OBLIGATION(no_currency_LP, "esl/economics/currencies.hpp: currency_name (codes without a currency from LP)", (), require(is(currency('L', 'P', 'A'), "", "LPA")); require(is(currency('L', 'P', 'B'), "", "LPB")); require(is(currency('L', 'P', 'C'), "", "LPC")); require(is(currency('L', 'P', 'D'), "", "LPD")); require(is(currency('L', 'P', 'E'), "", "LPE")); require(is(currency('L', 'P', 'F'), "", "LPF")); require(is(currency('L', 'P', 'G'), "", "LPG")); require(is(currency('L', 'P', 'H'), "", "LPH")); require(is(currency('L', 'P', 'I'), "", "LPI")); require(is(currency('L', 'P', 'J'), "", "LPJ")); require(is(currency('L', 'P', 'K'), "", "LPK")); require(is(currency('L', 'P', 'L'), "", "LPL")); require(is(currency('L', 'P', 'M'), "", "LPM")); require(is(currency('L', 'P', 'N'), "", "LPN")); require(is(currency('L', 'P', 'O'), "", "LPO")); require(is(currency('L', 'P', 'P'), "", "LPP")); require(is(currency('L', 'P', 'Q'), "", "LPQ")); require(is(currency('L', 'P', 'R'), "", "LPR")); require(is(currency('L', 'P', 'S'), "", "LPS")); require(is(currency('L', 'P', 'T'), "", "LPT")); require(is(currency('L', 'P', 'U'), "", "LPU")); require(is(currency('L', 'P', 'V'), "", "LPV")); require(is(currency('L', 'P', 'W'), "", "LPW")); require(is(currency('L', 'P', 'X'), "", "LPX")); require(is(currency('L', 'P', 'Y'), "", "LPY")); require(is(currency('L', 'P', 'Z'), "", "LPZ"));)
OBLIGATION(no_currency_LQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from LQ)", (), require(is(currency('L', 'Q', 'A'), "", "LQA")); require(is(currency('L', 'Q', 'B'), "", "LQB")); require(is(currency('L', 'Q', 'C'), "", "LQC")); require(is(currency('L', 'Q', 'D'), "", "LQD")); require(is(currency('L', 'Q', 'E'), "", "LQE")); require(is(currency('L', 'Q', 'F'), "", "LQF")); require(is(currency('L', 'Q', 'G'), "", "LQG")); require(is(currency('L', 'Q', 'H'), "", "LQH")); require(is(currency('L', 'Q', 'I'), "", "LQI")); require(is(currency('L', 'Q', 'J'), "", "LQJ")); require(is(currency('L', 'Q', 'K'), "", "LQK")); require(is(currency('L', 'Q', 'L'), "", "LQL")); require(is(currency('L', 'Q', 'M'), "", "LQM")); require(is(currency('L', 'Q', 'N'), "", "LQN")); require(is(currency('L', 'Q', 'O'), "", "LQO")); require(is(currency('L', 'Q', 'P'), "", "LQP")); require(is(currency('L', 'Q', 'Q'), "", "LQQ")); require(is(currency('L', 'Q', 'R'), "", "LQR")); require(is(currency('L', 'Q', 'S'), "", "LQS")); require(is(currency('L', 'Q', 'T'), "", "LQT")); require(is(currency('L', 'Q', 'U'), "", "LQU")); require(is(currency('L', 'Q', 'V'), "", "LQV")); require(is(currency('L', 'Q', 'W'), "", "LQW")); require(is(currency('L', 'Q', 'X'), "", "LQX")); require(is(currency('L', 'Q', 'Y'), "", "LQY")); require(is(currency('L', 'Q', 'Z'), "", "LQZ"));)
OBLIGATION(no_currency_LR, "esl/economics/currencies.hpp: currency_name (codes without a currency from LR)", (), require(is(currency('L', 'R', 'A'), "", "LRA")); require(is(currency('L', 'R', 'B'), "", "LRB")); require(is(currency('L', 'R', 'C'), "", "LRC")); require(is(currency('L', 'R', 'E'), "", "LRE")); require(is(currency('L', 'R', 'F'), "", "LRF")); require(is(currency('L', 'R', 'G'), "", "LRG")); require(is(currency('L', 'R', 'H'), "", "LRH")); require(is(currency('L', 'R', 'I'), "", "LRI")); require(is(currency('L', 'R', 'J'), "", "LRJ")); require(is(currency('L', 'R', 'K'), "", "LRK")); require(is(currency('L', 'R', 'L'), "", "LRL")); require(is(currency('L', 'R', 'M'), "", "LRM")); require(is(currency('L', 'R', 'N'), "", "LRN")); require(is(currency('L', 'R', 'O'), "", "LRO")); require(is(currency('L', 'R', 'P'), "", "LRP")); require(is(currency('L', 'R', 'Q'), "", "LRQ")); require(is(currency('L', 'R', 'R'), "", "LRR")); require(is(currency('L', 'R', 'S'), "", "LRS")); require(is(currency('L', 'R', 'T'), "", "LRT")); require(is(currency('L', 'R', 'U'), "", "LRU")); require(is(currency('L', 'R', 'V'), "", "LRV")); require(is(currency('L', 'R', 'W'), "", "LRW")); require(is(currency('L', 'R', 'X'), "", "LRX")); require(is(currency('L', 'R', 'Y'), "", "LRY")); require(is(currency('L', 'R', 'Z'), "", "LRZ"));)
OBLIGATION(no_currency_LS, "esl/economics/currencies.hpp: currency_name (codes without a currency from LS)", (), require(is(currency('L', 'S', 'A'), "", "LSA")); require(is(currency('L', 'S', 'B'), "", "LSB")); require(is(currency('L', 'S', 'C'), "", "LSC")); require(is(currency('L', 'S', 'D'), "", "LSD")); require(is(currency('L', 'S', 'E'), "", "LSE")); require(is(currency('L', 'S', 'F'), "", "LSF")); require(is(currency('L', 'S', 'G'), "", "LSG")); require(is(currency('L', 'S', 'H'), "", "LSH")); require(is(currency('L', 'S', 'I'), "", "LSI")); require(is(currency('L', 'S', 'J'), "", "LSJ")); require(is(currency('L', 'S', 'K'), "", "LSK")); require(is(currency('L', 'S', 'M'), "", "LSM")); require(is(currency('L', 'S', 'N'), "", "LSN")); require(is(currency('L', 'S', 'O'), "", "LSO")); require(is(currency('L', 'S', 'P'), "", "LSP")); require(is(currency('L', 'S', 'Q'), "", "LSQ")); require(is(currency('L', 'S', 'R'), "", "LSR")); require(is(currency('L', 'S', 'S'), "", "LSS")); require(is(currency('L', 'S', 'T'), "", "LST")); require(is(currency('L', 'S', 'U'), "", "LSU")); require(is(currency('L', 'S', 'V'), "", "LSV")); require(is(currency('L', 'S', 'W'), "", "LSW")); require(is(currency('L', 'S', 'X'), "", "LSX")); require(is(currency('L', 'S', 'Y'), "", "LSY")); require(is(currency('L', 'S', 'Z'), "", "LSZ"));)
OBLIGATION(no_currency_LT, "esl/economics/currencies.hpp: currency_name (codes without a currency from LT)", (), require(is(currency('L', 'T', 'A'), "", "LTA")); require(is(currency('L', 'T', 'B'), "", "LTB")); require(is(currency('L', 'T', 'C'), "", "LTC")); require(is(currency('L', 'T', 'D'), "", "LTD")); require(is(currency('L', 'T', 'E'), "", "LTE")); require(is(currency('L', 'T', 'F'), "", "LTF")); require(is(currency('L', 'T', 'G'), "", "LTG")); require(is(currency('L', 'T', 'H'), "", "LTH")); require(is(currency('L', 'T', 'I'), "", "LTI")); require(is(currency('L', 'T', 'J'), "", "LTJ")); require(is(currency('L', 'T', 'K'), "", "LTK")); require(is(currency('L', 'T', 'L'), "", "LTL")); require(is(currency('L', 'T', 'M'), "", "LTM")); require(is(currency('L', 'T', 'N'), "", "LTN")); require(is(currency('L', 'T', 'O'), "", "LTO")); require(is(currency('L', 'T', 'P'), "", "LTP")); require(is(currency('L', 'T', 'Q'), "", "LTQ")); require(is(currency('L', 'T', 'R'), "", "LTR")); require(is(currency('L', 'T', 'S'), "", "LTS")); require(is(currency('L', 'T', 'T'), "", "LTT")); require(is(currency('L', 'T', 'U'), "", "LTU")); require(is(currency('L', 'T', 'V'), "", "LTV")); require(is(currency('L', 'T', 'W'), "", "LTW")); require(is(currency('L', 'T', 'X'), "", "LTX")); require(is(currency('L', 'T', 'Y'), "", "LTY")); require(is(currency('L', 'T', 'Z'), "", "LTZ"));)
OBLIGATION(no_currency_LU, "esl/economics/currencies.hpp: currency_name (codes without a currency from LU)", (), require(is(currency('L', 'U', 'A'), "", "LUA")); require(is(currency('L', 'U', 'B'), "", "LUB")); require(is(currency('L', 'U', 'C'), "", "LUC")); require(is(currency('L', 'U', 'D'), "", "LUD")); require(is(currency('L', 'U', 'E'), "", "LUE")); require(is(currency('L', 'U', 'F'), "", "LUF")); require(is(currency('L', 'U', 'G'), "", "LUG")); require(is(currency('L', 'U', 'H'), "", "LUH")); require(is(currency('L', 'U', 'I'), "", "LUI")); require(is(currency('L', 'U', 'J'), "", "LUJ")); require(is(currency('L', 'U', 'K'), "", "LUK")); require(is(currency('L', 'U', 'L'), "", "LUL")); require(is(currency('L', 'U', 'M'), "", "LUM")); require(is(currency('L', 'U', 'N'), "", "LUN")); require(is(currency('L', 'U', 'O'), "", "LUO")); require(is(currency('L', 'U', 'P'), "", "LUP")); require(is(currency('L', 'U', 'Q'), "", "LUQ")); require(is(currency('L', 'U', 'R'), "", "LUR")); require(is(currency('L', 'U', 'S'), "", "LUS")); require(is(currency('L', 'U', 'T'), "", "LUT")); require(is(currency('L', 'U', 'U'), "", "LUU")); require(is(currency('L', 'U', 'V'), "", "LUV")); require(is(currency('L', 'U', 'W'), "", "LUW")); require(is(currency('L', 'U', 'X'), "", "LUX")); require(is(currency('L', 'U', 'Y'), "", "LUY")); require(is(currency('L', 'U', 'Z'), "", "LUZ"));)
OBLIGATION(no_currency_LV, "esl/economics/currencies.hpp: currency_name (codes without a currency from LV)", (), require(is(currency('L', 'V', 'A'), "", "LVA")); require(is(currency('L', 'V', 'B'), "", "LVB")); require(is(currency('L', 'V', 'C'), "", "LVC")); require(is(currency('L', 'V', 'D'), "", "LVD")); require(is(currency('L', 'V', 'E'), "", "LVE")); require(is(currency('L', 'V', 'F'), "", "LVF")); require(is(currency('L', 'V', 'G'), "", "LVG")); require(is(currency('L', 'V', 'H'), "", "LVH")); require(is(currency('L', 'V', 'I'), "", "LVI")); require(is(currency('L', 'V', 'J'), "", "LVJ")); require(is(currency('L', 'V', 'K'), "", "LVK")); require(is(currency('L', 'V', 'L'), "", "LVL")); require(is(currency('L', 'V', 'M'), "", "LVM")); require(is(currency('L', 'V', 'N'), "", "LVN")); require(is(currency('L', 'V', 'O'), "", "LVO")); require(is(currency('L', 'V', 'P'), "", "LVP")); require(is(currency('L', 'V', 'Q'), "", "LVQ")); require(is(currency('L', 'V', 'R'), "", "LVR")); require(is(currency('L', 'V', 'S'), "", "LVS")); require(is(currency('L', 'V', 'T'), "", "LVT")); require(is(currency('L', 'V', 'U'), "", "LVU")); require(is(currency('L', 'V', 'V'), "", "LVV")); require(is(currency('L', 'V', 'W'), "", "LVW")); require(is(currency('L', 'V', 'X'), "", "LVX")); require(is(currency('L', 'V', 'Y'), "", "LVY")); require(is(currency('L', 'V', 'Z'), "", "LVZ"));)
OBLIGATION(no_currency_LW, "esl/economics/currencies.hpp: currency_name (codes without a currency from LW)", (), require(is(currency('L', 'W', 'A'), "", "LWA")); require(is(currency('L', 'W', 'B'), "", "LWB")); require(is(currency('L', 'W', 'C'), "", "LWC")); require(is(currency('L', 'W', 'D'), "", "LWD")); require(is(currency('L', 'W', 'E'), "", "LWE")); require(is(currency('L', 'W', 'F'), "", "LWF")); require(is(currency('L', 'W', 'G'), "", "LWG")); require(is(currency('L', 'W', 'H'), "", "LWH")); require(is(currency('L', 'W', 'I'), "", "LWI")); require(is(currency('L', 'W', 'J'), "", "LWJ")); require(is(currency('L', 'W', 'K'), "", "LWK")); require(is(currency('L', 'W', 'L'), "", "LWL")); require(is(currency('L', 'W', 'M'), "", "LWM")); require(is(currency('L', 'W', 'N'), "", "LWN")); require(is(currency('L', 'W', 'O'), "", "LWO")); require(is(currency('L', 'W', 'P'), "", "LWP")); require(is(currency('L', 'W', 'Q'), "", "LWQ")); require(is(currency('L', 'W', 'R'), "", "LWR")); require(is(currency('L', 'W', 'S'), "", "LWS")); require(is(currency('L', 'W', 'T'), "", "LWT")); require(is(currency('L', 'W', 'U'), "", "LWU")); require(is(currency('L', 'W', 'V'), "", "LWV")); require(is(currency('L', 'W', 'W'), "", "LWW")); require(is(currency('L', 'W', 'X'), "", "LWX")); require(is(currency('L', 'W', 'Y'), "", "LWY")); require(is(currency('L', 'W', 'Z'), "", "LWZ"));)
OBLIGATION(no_currency_LX, "esl/economics/currencies.hpp: currency_name (codes without a currency from LX)", (), require(is(currency('L', 'X', 'A'), "", "LXA")); require(is(currency('L', 'X', 'B'), "", "LXB")); require(is(currency('L', 'X', 'C'), "", "LXC")); require(is(currency('L', 'X', 'D'), "", "LXD")); require(is(currency('L', 'X', 'E'), "", "LXE")); require(is(currency('L', 'X', 'F'), "", "LXF")); require(is(currency('L', 'X', 'G'), "", "LXG")); require(is(currency('L', 'X', 'H'), "", "LXH")); require(is(currency('L', 'X', 'I'), "", "LXI")); require(is(currency('L', 'X', 'J'), "", "LXJ")); require(is(currency('L', 'X', 'K'), "", "LXK")); require(is(currency('L', 'X', 'L'), "", "LXL")); require(is(currency('L', 'X', 'M'), "", "LXM")); require(is(currency('L', 'X', 'N'), "", "LXN")); require(is(currency('L', 'X', 'O'), "", "LXO")); require(is(currency('L', 'X', 'P'), "", "LXP")); require(is(currency('L', 'X', 'Q'), "", "LXQ")); require(is(currency('L', 'X', 'R'), "", "LXR")); require(is(currency('L', 'X', 'S'), "", "LXS")); require(is(currency('L', 'X', 'T'), "", "LXT")); require(is(currency('L', 'X', 'U'), "", "LXU")); require(is(currency('L', 'X', 'V'), "", "LXV")); require(is(currency('L', 'X', 'W'), "", "LXW")); require(is(currency('L', 'X', 'X'), "", "LXX")); require(is(currency('L', 'X', 'Y'), "", "LXY")); require(is(currency('L', 'X', 'Z'), "", "LXZ"));)
OBLIGATION(no_currency_LY, "esl/economics/currencies.hpp: currency_name (codes without a currency from LY)", (), require(is(currency('L', 'Y', 'A'), "", "LYA")); require(is(currency('L', 'Y', 'B'), "", "LYB")); require(is(currency('L', 'Y', 'C'), "", "LYC")); require(is(currency('L', 'Y', 'E'), "", "LYE")); require(is(currency('L', 'Y', 'F'), "", "LYF")); require(is(currency('L', 'Y', 'G'), "", "LYG")); require(is(currency('L', 'Y', 'H'), "", "LYH")); require(is(currency('L', 'Y', 'I'), "", "LYI")); require(is(currency('L', 'Y', 'J'), "", "LYJ")); require(is(currency('L', 'Y', 'K'), "", "LYK")); require(is(currency('L', 'Y', 'L'), "", "LYL")); require(is(currency('L', 'Y', 'M'), "", "LYM")); require(is(currency('L', 'Y', 'N'), "", "LYN")); require(is(currency('L', 'Y', 'O'), "", "LYO")); require(is(currency('L', 'Y', 'P'), "", "LYP")); require(is(currency('L', 'Y', 'Q'), "", "LYQ")); require(is(currency('L', 'Y', 'R'), "", "LYR")); require(is(currency('L', 'Y', 'S'), "", "LYS")); require(is(currency('L', 'Y', 'T'), "", "LYT")); require(is(currency('L', 'Y', 'U'), "", "LYU")); require(is(currency('L', 'Y', 'V'), "", "LYV")); require(is(currency('L', 'Y', 'W'), "", "LYW")); require(is(currency('L', 'Y', 'X'), "", "LYX")); require(is(currency('L', 'Y', 'Y'), "", "LYY")); require(is(currency('L', 'Y', 'Z'), "", "LYZ"));)
OBLIGATION(no_currency_LZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from LZ)", (), require(is(currency('L', 'Z', 'A'), "", "LZA")); require(is(currency('L', 'Z', 'B'), "", "LZB")); require(is(currency('L', 'Z', 'C'), "", "LZC")); require(is(currency('L', 'Z', 'D'), "", "LZD")); require(is(currency('L', 'Z', 'E'), "", "LZE")); require(is(currency('L', 'Z', 'F'), "", "LZF")); require(is(currency('L', 'Z', 'G'), "", "LZG")); require(is(currency('L', 'Z', 'H'), "", "LZH")); require(is(currency('L', 'Z', 'I'), "", "LZI")); require(is(currency('L', 'Z', 'J'), "", "LZJ")); require(is(currency('L', 'Z', 'K'), "", "LZK")); require(is(currency('L', 'Z', 'L'), "", "LZL")); require(is(currency('L', 'Z', 'M'), "", "LZM")); require(is(currency('L', 'Z', 'N'), "", "LZN")); require(is(currency('L', 'Z', 'O'), "", "LZO")); require(is(currency('L', 'Z', 'P'), "", "LZP")); require(is(currency('L', 'Z', 'Q'), "", "LZQ")); require(is(currency('L', 'Z', 'R'), "", "LZR")); require(is(currency('L', 'Z', 'S'), "", "LZS")); require(is(currency('L', 'Z', 'T'), "", "LZT")); require(is(currency('L', 'Z', 'U'), "", "LZU")); require(is(currency('L', 'Z', 'V'), "", "LZV")); require(is(currency('L', 'Z', 'W'), "", "LZW")); require(is(currency('L', 'Z', 'X'), "", "LZX")); require(is(currency('L', 'Z', 'Y'), "", "LZY")); require(is(currency('L', 'Z', 'Z'), "", "LZZ"));)
OBLIGATION(no_currency_MA, "esl/economics/currencies.hpp: currency_name (codes without a currency from MA)", (), require(is(currency('M', 'A', 'A'), "", "MAA")); require(is(currency('M', 'A', 'B'), "", "MAB")); require(is(currency('M', 'A', 'C'), "", "MAC")); require(is(currency('M', 'A', 'E'), "", "MAE")); require(is(currency('M', 'A', 'F'), "", "MAF")); require(is(currency('M', 'A', 'G'), "", "MAG")); require(is(currency('M', 'A', 'H'), "", "MAH")); require(is(currency('M', 'A', 'I'), "", "MAI")); require(is(currency('M', 'A', 'J'), "", "MAJ")); require(is(currency('M', 'A', 'K'), "", "MAK")); require(is(currency('M', 'A', 'L'), "", "MAL")); require(is(currency('M', 'A', 'M'), "", "MAM")); require(is(currency('M', 'A', 'N'), "", "MAN")); require(is(currency('M', 'A', 'O'), "", "MAO")); require(is(currency('M', 'A', 'P'), "", "MAP")); require(is(currency('M', 'A', 'Q'), "", "MAQ")); require(is(currency('M', 'A', 'R'), "", "MAR")); require(is(currency('M', 'A', 'S'), "", "MAS")); require(is(currency('M', 'A', 'T'), "", "MAT")); require(is(currency('M', 'A', 'U'), "", "MAU")); require(is(currency('M', 'A', 'V'), "", "MAV")); require(is(currency('M', 'A', 'W'), "", "MAW")); require(is(currency('M', 'A', 'X'), "", "MAX")); require(is(currency('M', 'A', 'Y'), "", "MAY")); require(is(currency('M', 'A', 'Z'), "", "MAZ"));)
OBLIGATION(no_currency_MB, "esl/economics/currencies.hpp: currency_name (codes without a currency from MB)", (), require(is(currency('M', 'B', 'A'), "", "MBA")); require(is(currency('M', 'B', 'B'), "", "MBB")); require(is(currency('M', 'B', 'C'), "", "MBC")); require(is(currency('M', 'B', 'D'), "", "MBD")); require(is(currency('M', 'B', 'E'), "", "MBE")); require(is(currency('M', 'B', 'F'), "", "MBF")); require(is(currency('M', 'B', 'G'), "", "MBG")); require(is(currency('M', 'B', 'H'), "", "MBH")); require(is(currency('M', 'B', 'I'), "", "MBI")); require(is(currency('M', 'B', 'J'), "", "MBJ")); require(is(currency('M', 'B', 'K'), "", "MBK")); require(is(currency('M', 'B', 'L'), "", "MBL")); require(is(currency('M', 'B', 'M'), "", "MBM")); require(is(currency('M', 'B', 'N'), "", "MBN")); require(is(currency('M', 'B', 'O'), "", "MBO")); require(is(currency('M', 'B', 'P'), "", "MBP")); require(is(currency('M', 'B', 'Q'), "", "MBQ")); require(is(currency('M', 'B', 'R'), "", "MBR")); require(is(currency('M', 'B', 'S'), "", "MBS")); require(is(currency('M', 'B', 'T'), "", "MBT")); require(is(currency('M', 'B', 'U'), "", "MBU")); require(is(currency('M', 'B', 'V'), "", "MBV")); require(is(currency('M', 'B', 'W'), "", "MBW")); require(is(currency('M', 'B', 'X'), "", "MBX")); require(is(currency('M', 'B', 'Y'), "", "MBY")); require(is(currency('M', 'B', 'Z'), "", "MBZ"));)
OBLIGATION(no_currency_MC, "esl/economics/currencies.hpp: currency_name (codes without a currency from MC)", (), require(is(currency('M', 'C', 'A'), "", "MCA")); require(is(currency('M', 'C', 'B'), "", "MCB")); require(is(currency('M', 'C', 'C'), "", "MCC")); require(is(currency('M', 'C', 'D'), "", "MCD")); require(is(currency('M', 'C', 'E'), "", "MCE")); require(is(currency('M', 'C', 'F'), "", "MCF")); require(is(currency('M', 'C', 'G'), "", "MCG")); require(is(currency('M', 'C', 'H'), "", "MCH")); require(is(currency('M', 'C', 'I'), "", "MCI")); require(is(currency('M', 'C', 'J'), "", "MCJ")); require(is(currency('M', 'C', 'K'), "", "MCK")); require(is(currency('M', 'C', 'L'), "", "MCL")); require(is(currency('M', 'C', 'M'), "", "MCM")); require(is(currency('M', 'C', 'N'), "", "MCN")); require(is(currency('M', 'C', 'O'), "", "MCO")); require(is(currency('M', 'C', 'P'), "", "MCP")); require(is(currency('M', 'C', 'Q'), "", "MCQ")); require(is(currency('M', 'C', 'R'), "", "MCR")); require(is(currency('M', 'C', 'S'), "", "MCS")); require(is(currency('M', 'C', 'T'), "", "MCT")); require(is(currency('M', 'C', 'U'), "", "MCU")); require(is(currency('M', 'C', 'V'), "", "MCV")); require(is(currency('M', 'C', 'W'), "", "MCW")); require(is(currency('M', 'C', 'X'), "", "MCX")); require(is(currency('M', 'C', 'Y'), "", "MCY")); require(is(currency('M', 'C', 'Z'), "", "MCZ"));)
OBLIGATION(no_currency_MD, "esl/economics/currencies.hpp: currency_name (codes without a currency from MD)", (), require(is(currency('M', 'D', 'A'), "", "MDA")); require(is(currency('M', 'D', 'B'), "", "MDB")); require(is(currency('M', 'D', 'C'), "", "MDC")); require(is(currency('M', 'D', 'D'), "", "MDD")); require(is(currency('M', 'D', 'E'), "", "MDE")); require(is(currency('M', 'D', 'F'), "", "MDF")); require(is(currency('M', 'D', 'G'), "", "MDG")); require(is(currency('M', 'D', 'H'), "", "MDH")); require(is(currency('M', 'D', 'I'), "", "MDI")); require(is(currency('M', 'D', 'J'), "", "MDJ")); require(is(currency('M', 'D', 'K'), "", "MDK")); require(is(currency('M', 'D', 'M'), "", "MDM")); require(is(currency('M', 'D', 'N'), "", "MDN")); require(is(currency('M', 'D', 'O'), "", "MDO")); require(is(currency('M', 'D', 'P'), "", "MDP")); require(is(currency('M', 'D', 'Q'), "", "MDQ")); require(is(currency('M', 'D', 'R'), "", "MDR")); require(is(currency('M', 'D', 'S'), "", "MDS")); require(is(currency('M', 'D', 'T'), "", "MDT")); require(is(currency('M', 'D', 'U'), "", "MDU")); require(is(currency('M', 'D', 'V'), "", "MDV")); require(is(currency('M', 'D', 'W'), "", "MDW")); require(is(currency('M', 'D', 'X'), "", "MDX")); require(is(currency('M', 'D', 'Y'), "", "MDY")); require(is(currency('M', 'D', 'Z'), "", "MDZ"));)
OBLIGATION(no_currency_ME, "esl/economics/currencies.hpp: currency_name (codes without a currency from ME)", (), require(is(currency('M', 'E', 'A'), "", "MEA")); require(is(currency('M', 'E', 'B'), "", "MEB")); require(is(currency('M', 'E', 'C'), "", "MEC")); require(is(currency('M', 'E', 'D'), "", "MED")); require(is(currency('M', 'E', 'E'), "", "MEE")); require(is(currency('M', 'E', 'F'), "", "MEF")); require(is(currency('M', 'E', 'G'), "", "MEG")); require(is(currency('M', 'E', 'H'), "", "MEH")); require(is(currency('M', 'E', 'I'), "", "MEI")); require(is(currency('M', 'E', 'J'), "", "MEJ")); require(is(currency('M', 'E', 'K'), "", "MEK")); require(is(currency('M', 'E', 'L'), "", "MEL")); require(is(currency('M', 'E', 'M'), "", "MEM")); require(is(currency('M', 'E', 'N'), "", "MEN")); require(is(currency('M', 'E', 'O'), "", "MEO")); require(is(currency('M', 'E', 'P'), "", "MEP")); require(is(currency('M', 'E', 'Q'), "", "MEQ")); require(is(currency('M', 'E', 'R'), "", "MER")); require(is(currency('M', 'E', 'S'), "", "MES")); require(is(currency('M', 'E', 'T'), "", "MET")); require(is(currency('M', 'E', 'U'), "", "MEU")); require(is(currency('M', 'E', 'V'), "", "MEV")); require(is(currency('M', 'E', 'W'), "", "MEW")); require(is(currency('M', 'E', 'X'), "", "MEX")); require(is(currency('M', 'E', 'Y'), "", "MEY")); require(is(currency('M', 'E', 'Z'), "", "MEZ"));)
OBLIGATION(no_currency_MF, "esl/economics/currencies.hpp: currency_name (codes without a currency from MF)", (), require(is(currency('M', 'F', 'A'), "", "MFA")); require(is(currency('M', 'F', 'B'), "", "MFB")); require(is(currency('M', 'F', 'C'), "", "MFC")); require(is(currency('M', 'F', 'D'), "", "MFD")); require(is(currency('M', 'F', 'E'), "", "MFE")); require(is(currency('M', 'F', 'F'), "", "MFF")); require(is(currency('M', 'F', 'G'), "", "MFG")); require(is(currency('M', 'F', 'H'), "", "MFH")); require(is(currency('M', 'F', 'I'), "", "MFI")); require(is(currency('M', 'F', 'J'), "", "MFJ")); require(is(currency('M', 'F', 'K'), "", "MFK")); require(is(currency('M', 'F', 'L'), "", "MFL")); require(is(currency('M', 'F', 'M'), "", "MFM")); require(is(currency('M', 'F', 'N'), "", "MFN")); require(is(currency('M', 'F', 'O'), "", "MFO")); require(is(currency('M', 'F', 'P'), "", "MFP")); require(is(currency('M', 'F', 'Q'), "", "MFQ")); require(is(currency('M', 'F', 'R'), "", "MFR")); require(is(currency('M', 'F', 'S'), "", "MFS")); require(is(currency('M', 'F', 'T'), "", "MFT")); require(is(currency('M', 'F', 'U'), "", "MFU")); require(is(currency('M', 'F', 'V'), "", "MFV")); require(is(currency('M', 'F', 'W'), "", "MFW")); require(is(currency('M', 'F', 'X'), "", "MFX")); require(is(currency('M', 'F', 'Y'), "", "MFY")); require(is(currency('M', 'F', 'Z'), "", "MFZ"));)
OBLIGATION(no_currency_MG, "esl/economics/currencies.hpp: currency_name (codes without a currency from MG)", (), require(is(currency('M', 'G', 'B'), "", "MGB")); require(is(currency('M', 'G', 'C'), "", "MGC")); require(is(currency('M', 'G', 'D'), "", "MGD")); require(is(currency('M', 'G', 'E'), "", "MGE")); require(is(currency('M', 'G', 'F'), "", "MGF")); require(is(currency('M', 'G', 'G'), "", "MGG")); require(is(currency('M', 'G', 'H'), "", "MGH")); require(is(currency('M', 'G', 'I'), "", "MGI")); require(is(currency('M', 'G', 'J'), "", "MGJ")); require(is(currency('M', 'G', 'K'), "", "MGK")); require(is(currency('M', 'G', 'L'), "", "MGL")); require(is(currency('M', 'G', 'M'), "", "MGM")); require(is(currency('M', 'G', 'N'), "", "MGN")); require(is(currency('M', 'G', 'O'), "", "MGO")); require(is(currency('M', 'G', 'P'), "", "MGP")); require(is(currency('M', 'G', 'Q'), "", "MGQ")); require(is(currency('M', 'G', 'R'), "", "MGR")); require(is(currency('M', 'G', 'S'), "", "MGS")); require(is(currency('M', 'G', 'T'), "", "MGT")); require(is(currency('M', 'G', 'U'), "", "MGU")); require(is(currency('M', 'G', 'V'), "", "MGV")); require(is(currency('M', 'G', 'W'), "", "MGW")); require(is(currency('M', 'G', 'X'), "", "MGX")); require(is(currency('M', 'G', 'Y'), "", "MGY")); require(is(currency('M', 'G', 'Z'), "", "MGZ"));)
OBLIGATION(no_currency_MH, "esl/economics/currencies.hpp: currency_name (codes without a currency from MH)", (), require(is(currency('M', 'H', 'A'), "", "MHA")); require(is(currency('M', 'H', 'B'), "", "MHB")); require(is(currency('M', 'H', 'C'), "", "MHC")); require(is(currency('M', 'H', 'D'), "", "MHD")); require(is(currency('M', 'H', 'E'), "", "MHE")); require(is(currency('M', 'H', 'F'), "", "MHF")); require(is(currency('M', 'H', 'G'), "", "MHG")); require(is(currency('M', 'H', 'H'), "", "MHH")); require(is(currency('M', 'H', 'I'), "", "MHI")); require(is(currency('M', 'H', 'J'), "", "MHJ")); require(is(currency('M', 'H', 'K'), "", "MHK")); require(is(currency('M', 'H', 'L'), "", "MHL")); require(is(currency('M', 'H', 'M'), "", "MHM")); require(is(currency('M', 'H', 'N'), "", "MHN")); require(is(currency('M', 'H', 'O'), "", "MHO")); require(is(currency('M', 'H', 'P'), "", "MHP")); require(is(currency('M', 'H', 'Q'), "", "MHQ")); require(is(currency('M', 'H', 'R'), "", "MHR")); require(is(currency('M', 'H', 'S'), "", "MHS")); require(is(currency('M', 'H', 'T'), "", "MHT")); require(is(currency('M', 'H', 'U'), "", "MHU")); require(is(currency('M', 'H', 'V'), "", "MHV")); require(is(currency('M', 'H', 'W'), "", "MHW")); require(is(currency('M', 'H', 'X'), "", "MHX")); require(is(currency('M', 'H', 'Y'), "", "MHY")); require(is(currency('M', 'H', 'Z'), "", "MHZ"));)
OBLIGATION(no_currency_MI, "esl/economics/currencies.hpp: currency_name (codes without a currency from MI)", (), require(is(currency('M', 'I', 'A'), "", "MIA")); require(is(currency('M', 'I', 'B'), "", "MIB")); require(is(currency('M', 'I', 'C'), "", "MIC")); require(is(currency('M', 'I', 'D'), "", "MID")); require(is(currency('M', 'I', 'E'), "", "MIE")); require(is(currency('M', 'I', 'F'), "", "MIF")); require(is(currency('M', 'I', 'G'), "", "MIG")); require(is(currency('M', 'I', 'H'), "", "MIH")); require(is(currency('M', 'I', 'I'), "", "MII")); require(is(currency('M', 'I', 'J'), "", "MIJ")); require(is(currency('M', 'I', 'K'), "", "MIK")); require(is(currency('M', 'I', 'L'), "", "MIL")); require(is(currency('M', 'I', 'M'), "", "MIM")); require(is(currency('M', 'I', 'N'), "", "MIN")); require(is(currency('M', 'I', 'O'), "", "MIO")); require(is(currency('M', 'I', 'P'), "", "MIP")); require(is(currency('M', 'I', 'Q'), "", "MIQ")); require(is(currency('M', 'I', 'R'), "", "MIR")); require(is(currency('M', 'I', 'S'), "", "MIS")); require(is(currency('M', 'I', 'T'), "", "MIT")); require(is(currency('M', 'I', 'U'), "", "MIU")); require(is(currency('M', 'I', 'V'), "", "MIV")); require(is(currency('M', 'I', 'W'), "", "MIW")); require(is(currency('M', 'I', 'X'), "", "MIX")); require(is(currency('M', 'I', 'Y'), "", "MIY")); require(is(currency('M', 'I', 'Z'), "", "MIZ"));)
OBLIGATION(no_currency_MJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from MJ)", (), require(is(currency('M', 'J', 'A'), "", "MJA")); require(is(currency('M', 'J', 'B'), "", "MJB")); require(is(currency('M', 'J', 'C'), "", "MJC")); require(is(currency('M', 'J', 'D'), "", "MJD")); require(is(currency('M', 'J', 'E'), "", "MJE")); require(is(currency('M', 'J', 'F'), "", "MJF")); require(is(currency('M', 'J', 'G'), "", "MJG")); require(is(currency('M', 'J', 'H'), "", "MJH")); require(is(currency('M', 'J', 'I'), "", "MJI")); require(is(currency('M', 'J', 'J'), "", "MJJ")); require(is(currency('M', 'J', 'K'), "", "MJK")); require(is(currency('M', 'J', 'L'), "", "MJL")); require(is(currency('M', 'J', 'M'), "", "MJM")); require(is(currency('M', 'J', 'N'), "", "MJN")); require(is(currency('M', 'J', 'O'), "", "MJO")); require(is(currency('M', 'J', 'P'), "", "MJP")); require(is(currency('M', 'J', 'Q'), "", "MJQ")); require(is(currency('M', 'J', 'R'), "", "MJR")); require(is(currency('M', 'J', 'S'), "", "MJS")); require(is(currency('M', 'J', 'T'), "", "MJT")); require(is(currency('M', 'J', 'U'), "", "MJU")); require(is(currency('M', 'J', 'V'), "", "MJV")); require(is(currency('M', 'J', 'W'), "", "MJW")); require(is(currency('M', 'J', 'X'), "", "MJX")); require(is(currency('M', 'J', 'Y'), "", "MJY")); require(is(currency('M', 'J', 'Z'), "", "MJZ"));)
OBLIGATION(no_currency_MK, "esl/economics/currencies.hpp: currency_name (codes without a currency from MK)", (), require(is(currency('M', 'K', 'A'), "", "MKA")); require(is(currency('M', 'K', 'B'), "", "MKB")); require(is(currency('M', 'K', 'C'), "", "MKC")); require(is(currency('M', 'K', 'E'), "", "MKE")); require(is(currency('M', 'K', 'F'), "", "MKF")); require(is(currency('M', 'K', 'G'), "", "MKG")); require(is(currency('M', 'K', 'H'), "", "MKH")); require(is(currency('M', 'K', 'I'), "", "MKI")); require(is(currency('M', 'K', 'J'), "", "MKJ")); require(is(currency('M', 'K', 'K'), "", "MKK")); require(is(currency('M', 'K', 'L'), "", "MKL")); require(is(currency('M', 'K', 'M'), "", "MKM")); require(is(currency('M', 'K', 'N'), "", "MKN")); require(is(currency('M', 'K', 'O'), "", "MKO")); require(is(currency('M', 'K', 'P'), "", "MKP")); require(is(currency('M', 'K', 'Q'), "", "MKQ")); require(is(currency('M', 'K', 'R'), "", "MKR")); require(is(currency('M', 'K', 'S'), "", "MKS")); require(is(currency('M', 'K', 'T'), "", "MKT")); require(is(currency('M', 'K', 'U'), "", "MKU")); require(is(currency('M', 'K', 'V'), "", "MKV")); require(is(currency('M', 'K', 'W'), "", "MKW")); require(is(currency('M', 'K', 'X'), "", "MKX")); require(is(currency('M', 'K', 'Y'), "", "MKY")); require(is(currency('M', 'K', 'Z'), "", "MKZ"));)
OBLIGATION(no_currency_ML, "esl/economics/currencies.hpp: currency_name (codes without a currency from ML)", (), require(is(currency('M', 'L', 'A'), "", "MLA")); require(is(currency('M', 'L', 'B'), "", "MLB")); require(is(currency('M', 'L', 'C'), "", "MLC")); require(is(currency('M', 'L', 'D'), "", "MLD")); require(is(currency('M', 'L', 'E'), "", "MLE")); require(is(currency('M', 'L', 'F'), "", "MLF")); require(is(currency('M', 'L', 'G'), "", "MLG")); require(is(currency('M', 'L', 'H'), "", "MLH")); require(is(currency('M', 'L', 'I'), "", "MLI")); require(is(currency('M', 'L', 'J'), "", "MLJ")); require(is(currency('M', 'L', 'K'), "", "MLK")); require(is(currency('M', 'L', 'L'), "", "MLL")); require(is(currency('M', 'L', 'M'), "", "MLM")); require(is(currency('M', 'L', 'N'), "", "MLN")); require(is(currency('M', 'L', 'O'), "", "MLO")); require(is(currency('M', 'L', 'P'), "", "MLP")); require(is(currency('M', 'L', 'Q'), "", "MLQ")); require(is(currency('M', 'L', 'R'), "", "MLR")); require(is(currency('M', 'L', 'S'), "", "MLS")); require(is(currency('M', 'L', 'T'), "", "MLT")); require(is(currency('M', 'L', 'U'), "", "MLU")); require(is(currency('M', 'L', 'V'), "", "MLV")); require(is(currency('M', 'L', 'W'), "", "MLW")); require(is(currency('M', 'L', 'X'), "", "MLX")); require(is(currency('M', 'L', 'Y'), "", "MLY")); require(is(currency('M', 'L', 'Z'), "", "MLZ"));)
OBLIGATION(no_currency_MM, "esl/economics/currencies.hpp: currency_name (codes without a currency from MM)", (), require(is(currency('M', 'M', 'A'), "", "MMA")); require(is(currency('M', 'M', 'B'), "", "MMB")); require(is(currency('M', 'M', 'C'), "", "MMC")); require(is(currency('M', 'M', 'D'), "", "MMD")); require(is(currency('M', 'M', 'E'), "", "MME")); require(is(currency('M', 'M', 'F'), "", "MMF")); require(is(currency('M', 'M', 'G'), "", "MMG")); require(is(currency('M', 'M', 'H'), "", "MMH")); require(is(currency('M', 'M', 'I'), "", "MMI")); require(is(currency('M', 'M', 'J'), "", "MMJ")); require(is(currency('M', 'M', 'L'), "", "MML")); require(is(currency('M', 'M', 'M'), "", "MMM")); require(is(currency('M', 'M', 'N'), "", "MMN")); require(is(currency('M', 'M', 'O'), "", "MMO")); require(is(currency('M', 'M', 'P'), "", "MMP")); require(is(currency('M', 'M', 'Q'), "", "MMQ")); require(is(currency('M', 'M', 'R'), "", "MMR")); require(is(currency('M', 'M', 'S'), "", "MMS")); require(is(currency('M', 'M', 'T'), "", "MMT")); require(is(currency('M', 'M', 'U'), "", "MMU")); require(is(currency('M', 'M', 'V'), "", "MMV")); require(is(currency('M', 'M', 'W'), "", "MMW")); require(is(currency('M', 'M', 'X'), "", "MMX")); require(is(currency('M', 'M', 'Y'), "", "MMY")); require(is(currency('M', 'M', 'Z'), "", "MMZ"));)
OBLIGATION(no_currency_MN, "esl/economics/currencies.hpp: currency_name (codes without a currency from MN)", (), require(is(currency('M', 'N', 'A'), "", "MNA")); require(is(currency('M', 'N', 'B'), "", "MNB")); require(is(currency('M', 'N', 'C'), "", "MNC")); require(is(currency('M', 'N', 'D'), "", "MND")); require(is(currency('M', 'N', 'E'), "", "MNE")); require(is(currency('M', 'N', 'F'), "", "MNF")); require(is(currency('M', 'N', 'G'), "", "MNG")); require(is(currency('M', 'N', 'H'), "", "MNH")); require(is(currency('M', 'N', 'I'), "", "MNI")); require(is(currency('M', 'N', 'J'), "", "MNJ")); require(is(currency('M', 'N', 'K'), "", "MNK")); require(is(currency('M', 'N', 'L'), "", "MNL")); require(is(currency('M', 'N', 'M'), "", "MNM")); require(is(currency('M', 'N', 'N'), "", "MNN")); require(is(currency('M', 'N', 'O'), "", "MNO")); require(is(currency('M', 'N', 'P'), "", "MNP")); require(is(currency('M', 'N', 'Q'), "", "MNQ")); require(is(currency('M', 'N', 'R'), "", "MNR")); require(is(currency('M', 'N', 'S'), "", "MNS")); require(is(currency('M', 'N', 'U'), "", "MNU")); require(is(currency('M', 'N', 'V'), "", "MNV")); require(is(currency('M', 'N', 'W'), "", "MNW")); require(is(currency('M', 'N', 'X'), "", "MNX")); require(is(currency('M', 'N', 'Y'), "", "MNY")); require(is(currency('M', 'N', 'Z'), "", "MNZ"));)
OBLIGATION(no_currency_MO, "esl/economics/currencies.hpp: currency_name (codes without a currency from MO)", (), require(is(currency('M', 'O', 'A'), "", "MOA")); require(is(currency('M', 'O', 'B'), "", "MOB")); require(is(currency('M', 'O', 'C'), "", "MOC")); require(is(currency('M', 'O', 'D'), "", "MOD")); require(is(currency('M', 'O', 'E'), "", "MOE")); require(is(currency('M', 'O', 'F'), "", "MOF")); require(is(currency('M', 'O', 'G'), "", "MOG")); require(is(currency('M', 'O', 'H'), "", "MOH")); require(is(currency('M', 'O', 'I'), "", "MOI")); require(is(currency('M', 'O', 'J'), "", "MOJ")); require(is(currency('M', 'O', 'K'), "", "MOK")); require(is(currency('M', 'O', 'L'), "", "MOL")); require(is(currency('M', 'O', 'M'), "", "MOM")); require(is(currency('M', 'O', 'N'), "", "MON")); require(is(currency('M', 'O', 'O'), "", "MOO")); require(is(currency('M', 'O', 'Q'), "", "MOQ")); require(is(currency('M', 'O', 'R'), "", "MOR")); require(is(currency('M', 'O', 'S'), "", "MOS")); require(is(currency('M', 'O', 'T'), "", "MOT")); require(is(currency('M', 'O', 'U'), "", "MOU")); require(is(currency('M', 'O', 'V'), "", "MOV")); require(is(currency('M', 'O', 'W'), "", "MOW")); require(is(currency('M', 'O', 'X'), "", "MOX")); require(is(currency('M', 'O', 'Y'), "", "MOY")); require(is(currency('M', 'O', 'Z'), "", "MOZ"));)
OBLIGATION(no_currency_MP, "esl/economics/currencies.hpp: currency_name (codes without a currency from MP)", (), require(is(currency('M', 'P', 'A'), "", "MPA")); require(is(currency('M', 'P', 'B'), "", "MPB")); require(is(currency('M', 'P', 'C'), "", "MPC")); require(is(currency('M', 'P', 'D'), "", "MPD")); require(is(currency('M', 'P', 'E'), "", "MPE")); require(is(currency('M', 'P', 'F'), "", "MPF")); require(is(currency('M', 'P', 'G'), "", "MPG")); require(is(currency('M', 'P', 'H'), "", "MPH")); require(is(currency('M', 'P', 'I'), "", "MPI")); require(is(currency('M', 'P', 'J'), "", "MPJ")); require(is(currency('M', 'P', 'K'), "", "MPK")); require(is(currency('M', 'P', 'L'), "", "MPL")); require(is(currency('M', 'P', 'M'), "", "MPM")); require(is(currency('M', 'P', 'N'), "", "MPN")); require(is(currency('M', 'P', 'O'), "", "MPO")); require(is(currency('M', 'P', 'P'), "", "MPP")); require(is(currency('M', 'P', 'Q'), "", "MPQ")); require(is(currency('M', 'P', 'R'), "", "MPR")); require(is(currency('M', 'P', 'S'), "", "MPS")); require(is(currency('M', 'P', 'T'), "", "MPT")); require(is(currency('M', 'P', 'U'), "", "MPU")); require(is(currency('M', 'P', 'V'), "", "MPV")); require(is(currency('M', 'P', 'W'), "", "MPW")); require(is(currency('M', 'P', 'X'), "", "MPX")); require(is(currency('M', 'P', 'Y'), "", "MPY")); require(is(currency('M', 'P', 'Z'), "", "MPZ"));)
OBLIGATION(no_currency_MQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from MQ)", (), require(is(currency('M', 'Q', 'A'), "", "MQA")); require(is(currency('M', 'Q', 'B'), "", "MQB")); require(is(currency('M', 'Q', 'C'), "", "MQC")); require(is(currency('M', 'Q', 'D'), "", "MQD")); require(is(currency('M', 'Q', 'E'), "", "MQE")); require(is(currency('M', 'Q', 'F'), "", "MQF")); require(is(currency('M', 'Q', 'G'), "", "MQG")); require(is(currency('M', 'Q', 'H'), "", "MQH")); require(is(currency('M', 'Q', 'I'), "", "MQI")); require(is(currency('M', 'Q', 'J'), "", "MQJ")); require(is(currency('M', 'Q', 'K'), "", "MQK")); require(is(currency('M', 'Q', 'L'), "", "MQL")); require(is(currency('M', 'Q', 'M'), "", "MQM")); require(is(currency('M', 'Q', 'N'), "", "MQN")); require(is(currency('M', 'Q', 'O'), "", "MQO")); require(is(currency('M', 'Q', 'P'), "", "MQP")); require(is(currency('M', 'Q', 'Q'), "", "MQQ")); require(is(currency('M', 'Q', 'R'), "", "MQR")); require(is(currency('M', 'Q', 'S'), "", "MQS")); require(is(currency('M', 'Q', 'T'), "", "MQT")); require(is(currency('M', 'Q', 'U'), "", "MQU")); require(is(currency('M', 'Q', 'V'), "", "MQV")); require(is(currency('M', 'Q', 'W'), "", "MQW")); require(is(currency('M', 'Q', 'X'), "", "MQX")); require(is(currency('M', 'Q', 'Y'), "", "MQY")); require(is(currency('M', 'Q', 'Z'), "", "MQZ"));)
OBLIGATION(no_currency_MR, "esl/economics/currencies.hpp: currency_name (codes without a currency from MR)", (), require(is(currency('M', 'R', 'A'), "", "MRA")); require(is(currency('M', 'R', 'B'), "", "MRB")); require(is(currency('M', 'R', 'C'), "", "MRC")); require(is(currency('M', 'R', 'D'), "", "MRD")); require(is(currency('M', 'R', 'E'), "", "MRE")); require(is(currency('M', 'R', 'F'), "", "MRF")); require(is(currency('M', 'R', 'G'), "", "MRG")); require(is(currency('M', 'R', 'H'), "", "MRH")); require(is(currency('M', 'R', 'I'), "", "MRI")); require(is(currency('M', 'R', 'J'), "", "MRJ")); require(is(currency('M', 'R', 'K'), "", "MRK")); require(is(currency('M', 'R', 'L'), "", "MRL")); require(is(currency('M', 'R', 'M'), "", "MRM")); require(is(currency('M', 'R', 'N'), "", "MRN")); require(is(currency('M', 'R', 'O'), "", "MRO")); require(is(currency('M', 'R', 'P'), "", "MRP")); require(is(currency('M', 'R', 'Q'), "", "MRQ")); require(is(currency('M', 'R', 'R'), "", "MRR")); require(is(currency('M', 'R', 'S'), "", "MRS")); require(is(currency('M', 'R', 'T'), "", "MRT")); require(is(currency('M', 'R', 'V'), "", "MRV")); require(is(currency('M', 'R', 'W'), "", "MRW")); require(is(currency('M', 'R', 'X'), "", "MRX")); require(is(currency('M', 'R', 'Y'), "", "MRY")); require(is(currency('M', 'R', 'Z'), "", "MRZ"));)
OBLIGATION(no_currency_MS, "esl/economics/currencies.hpp: currency_name (codes without a currency from MS)", (), require(is(currency('M', 'S', 'A'), "", "MSA")); require(is(currency('M', 'S', 'B'), "", "MSB")); require(is(currency('M', 'S', 'C'), "", "MSC")); require(is(currency('M', 'S', 'D'), "", "MSD")); require(is(currency('M', 'S', 'E'), "", "MSE")); require(is(currency('M', 'S', 'F'), "", "MSF")); require(is(currency('M', 'S', 'G'), "", "MSG")); require(is(currency('M', 'S', 'H'), "", "MSH")); require(is(currency('M', 'S', 'I'), "", "MSI")); require(is(currency('M', 'S', 'J'), "", "MSJ")); require(is(currency('M', 'S', 'K'), "", "MSK")); require(is(currency('M', 'S', 'L'), "", "MSL")); require(is(currency('M', 'S', 'M'), "", "MSM")); require(is(currency('M', 'S', 'N'), "", "MSN")); require(is(currency('M', 'S', 'O'), "", "MSO")); require(is(currency('M', 'S', 'P'), "", "MSP")); require(is(currency('M', 'S', 'Q'), "", "MSQ")); require(is(currency('M', 'S', 'R'), "", "MSR")); require(is(currency('M', 'S', 'S'), "", "MSS")); require(is(currency('M', 'S', 'T'), "", "MST")); require(is(currency('M', 'S', 'U'), "", "MSU")); require(is(currency('M', 'S', 'V'), "", "MSV")); require(is(currency('M', 'S', 'W'), "", "MSW")); require(is(currency('M', 'S', 'X'), "", "MSX")); require(is(currency('M', 'S', 'Y'), "", "MSY")); require(is(currency('M', 'S', 'Z'), "", "MSZ"));)
OBLIGATION(no_currency_MT, "esl/economics/currencies.hpp: currency_name (codes without a currency from MT)", (), require(is(currency('M', 'T', 'A'), "", "MTA")); require(is(currency('M', 'T', 'B'), "", "MTB")); require(is(currency('M', 'T', 'C'), "", "MTC")); require(is(currency('M', 'T', 'D'), "", "MTD")); require(is(currency('M', 'T', 'E'), "", "MTE")); require(is(currency('M', 'T', 'F'), "", "MTF")); require(is(currency('M', 'T', 'G'), "", "MTG")); require(is(currency('M', 'T', 'H'), "", "MTH")); require(is(currency('M', 'T', 'I'), "", "MTI")); require(is(currency('M', 'T', 'J'), "", "MTJ")); require(is(currency('M', 'T', 'K'), "", "MTK")); require(is(currency('M', 'T', 'L'), "", "MTL")); require(is(currency('M', 'T', 'M'), "", "MTM")); require(is(currency('M', 'T', 'N'), "", "MTN")); require(is(currency('M', 'T', 'O'), "", "MTO")); require(is(currency('M', 'T', 'P'), "", "MTP")); require(is(currency('M', 'T', 'Q'), "", "MTQ")); require(is(currency('M', 'T', 'R'), "", "MTR")); require(is(currency('M', 'T', 'S'), "", "MTS")); require(is(currency('M', 'T', 'T'), "", "MTT")); require(is(currency('M', 'T', 'U'), "", "MTU")); require(is(currency('M', 'T', 'V'), "", "MTV")); require(is(currency('M', 'T', 'W'), "", "MTW")); require(is(currency('M', 'T', 'X'), "", "MTX")); require(is(currency('M', 'T', 'Y'), "", "MTY")); require(is(currency('M', 'T', 'Z'), "", "MTZ"));)
OBLIGATION(no_currency_MU, "esl/economics/currencies.hpp: currency_name (codes without a currency from MU)", (), require(is(currency('M', 'U', 'A'), "", "MUA")); require(is(currency('M', 'U', 'B'), "", "MUB")); require(is(currency('M', 'U', 'C'), "", "MUC")); require(is(currency('M', 'U', 'D'), "", "MUD")); require(is(currency('M', 'U', 'E'), "", "MUE")); require(is(currency('M', 'U', 'F'), "", "MUF")); require(is(currency('M', 'U', 'G'), "", "MUG")); require(is(currency('M', 'U', 'H'), "", "MUH")); require(is(currency('M', 'U', 'I'), "", "MUI")); require(is(currency('M', 'U', 'J'), "", "MUJ")); require(is(currency('M', 'U', 'K'), "", "MUK")); require(is(currency('M', 'U', 'L'), "", "MUL")); require(is(currency('M', 'U', 'M'), "", "MUM")); require(is(currency('M', 'U', 'N'), "", "MUN")); require(is(currency('M', 'U', 'O'), "", "MUO")); require(is(currency('M', 'U', 'P'), "", "MUP")); require(is(currency('M', 'U', 'Q'), "", "MUQ")); require(is(currency('M', 'U', 'S'), "", "MUS")); require(is(currency('M', 'U', 'T'), "", "MUT")); require(is(currency('M', 'U', 'U'), "", "MUU")); require(is(currency('M', 'U', 'V'), "", "MUV")); require(is(currency('M', 'U', 'W'), "", "MUW")); require(is(currency('M', 'U', 'X'), "", "MUX")); require(is(currency('M', 'U', 'Y'), "", "MUY")); require(is(currency('M', 'U', 'Z'), "", "MUZ"));)
OBLIGATION(no_currency_MV, "esl/economics/currencies.hpp: currency_name (codes without a currency from MV)", (), require(is(currency('M', 'V', 'A'), "", "MVA")); require(is(currency('M', 'V', 'B'), "", "MVB")); require(is(currency('M', 'V', 'C'), "", "MVC")); require(is(currency('M', 'V', 'D'), "", "MVD")); require(is(currency('M', 'V', 'E'), "", "MVE")); require(is(currency('M', 'V', 'F'), "", "MVF")); require(is(currency('M', 'V', 'G'), "", "MVG")); require(is(currency('M', 'V', 'H'), "", "MVH")); require(is(currency('M', 'V', 'I'), "", "MVI")); require(is(currency('M', 'V', 'J'), "", "MVJ")); require(is(currency('M', 'V', 'K'), "", "MVK")); require(is(currency('M', 'V', 'L'), "", "MVL")); require(is(currency('M', 'V', 'M'), "", "MVM")); require(is(currency('M', 'V', 'N'), "", "MVN")); require(is(currency('M', 'V', 'O'), "", "MVO")); require(is(currency('M', 'V', 'P'), "", "MVP")); require(is(currency('M', 'V', 'Q'), "", "MVQ")); require(is(currency('M', 'V', 'S'), "", "MVS")); require(is(currency('M', 'V', 'T'), "", "MVT")); require(is(currency('M', 'V', 'U'), "", "MVU")); require(is(currency('M', 'V', 'V'), "", "MVV")); require(is(currency('M', 'V', 'W'), "", "MVW")); require(is(currency('M', 'V', 'X'), "", "MVX")); require(is(currency('M', 'V', 'Y'), "", "MVY")); require(is(currency('M', 'V', 'Z'), "", "MVZ"));)
OBLIGATION(no_currency_MW, "esl/economics/currencies.hpp: currency_name (codes without a currency from MW)", (), require(is(currency('M', 'W', 'A'), "", "MWA")); require(is(currency('M', 'W', 'B'), "", "MWB")); require(is(currency('M', 'W', 'C'), "", "MWC")); require(is(currency('M', 'W', 'D'), "", "MWD")); require(is(currency('M', 'W', 'E'), "", "MWE")); require(is(currency('M', 'W', 'F'), "", "MWF")); require(is(currency('M', 'W', 'G'), "", "MWG")); require(is(currency('M', 'W', 'H'), "", "MWH")); require(is(currency('M', 'W', 'I'), "", "MWI")); require(is(currency('M', 'W', 'J'), "", "MWJ")); require(is(currency('M', 'W', 'L'), "", "MWL")); require(is(currency('M', 'W', 'M'), "", "MWM")); require(is(currency('M', 'W', 'N'), "", "MWN")); require(is(currency('M', 'W', 'O'), "", "MWO")); require(is(currency('M', 'W', 'P'), "", "MWP")); require(is(currency('M', 'W', 'Q'), "", "MWQ")); require(is(currency('M', 'W', 'R'), "", "MWR")); require(is(currency('M', 'W', 'S'), "", "MWS")); require(is(currency('M', 'W', 'T'), "", "MWT")); require(is(currency('M', 'W', 'U'), "", "MWU")); require(is(currency('M', 'W', 'V'), "", "MWV")); require(is(currency('M', 'W', 'W'), "", "MWW")); require(is(currency('M', 'W', 'X'), "", "MWX")); require(is(currency('M', 'W', 'Y'), "", "MWY")); require(is(currency('M', 'W', 'Z'), "", "MWZ"));)
OBLIGATION(no_currency_MX, "esl/economics/currencies.hpp: currency_name (codes without a currency from MX)", (), require(is(currency('M', 'X', 'A'), "", "MXA")); require(is(currency('M', 'X', 'B'), "", "MXB")); require(is(currency('M', 'X', 'C'), "", "MXC")); require(is(currency('M', 'X', 'D'), "", "MXD")); require(is(currency('M', 'X', 'E'), "", "MXE")); require(is(currency('M', 'X', 'F'), "", "MXF")); require(is(currency('M', 'X', 'G'), "", "MXG")); require(is(currency('M', 'X', 'H'), "", "MXH")); require(is(currency('M', 'X', 'I'), "", "MXI")); require(is(currency('M', 'X', 'J'), "", "MXJ")); require(is(currency('M', 'X', 'K'), "", "MXK")); require(is(currency('M', 'X', 'L'), "", "MXL")); require(is(currency('M', 'X', 'M'), "", "MXM")); require(is(currency('M', 'X', 'O'), "", "MXO")); require(is(currency('M', 'X', 'P'), "", "MXP")); require(is(currency('M', 'X', 'Q'), "", "MXQ")); require(is(currency('M', 'X', 'R'), "", "MXR")); require(is(currency('M', 'X', 'S'), "", "MXS")); require(is(currency('M', 'X', 'T'), "", "MXT")); require(is(currency('M', 'X', 'U'), "", "MXU")); require(is(currency('M', 'X', 'W'), "", "MXW")); require(is(currency('M', 'X', 'X'), "", "MXX")); require(is(currency('M', 'X', 'Y'), "", "MXY")); require(is(currency('M', 'X', 'Z'), "", "MXZ"));)
OBLIGATION(no_currency_MY, "esl/economics/currencies.hpp: currency_name (codes without a currency from MY)", (), require(is(currency('M', 'Y', 'A'), "", "MYA")); require(is(currency('M', 'Y', 'B'), "", "MYB")); require(is(currency('M', 'Y', 'C'), "", "MYC")); require(is(currency('M', 'Y', 'D'), "", "MYD")); require(is(currency('M', 'Y', 'E'), "", "MYE")); require(is(currency('M', 'Y', 'F'), "", "MYF")); require(is(currency('M', 'Y', 'G'), "", "MYG")); require(is(currency('M', 'Y', 'H'), "", "MYH")); require(is(currency('M', 'Y', 'I'), "", "MYI")); require(is(currency('M', 'Y', 'J'), "", "MYJ")); require(is(currency('M', 'Y', 'K'), "", "MYK")); require(is(currency('M', 'Y', 'L'), "", "MYL")); require(is(currency('M', 'Y', 'M'), "", "MYM")); require(is(currency('M', 'Y', 'N'), "", "MYN")); require(is(currency('M', 'Y', 'O'), "", "MYO")); require(is(currency('M', 'Y', 'P'), "", "MYP")); require(is(currency('M', 'Y', 'Q'), "", "MYQ")); require(is(currency('M', 'Y', 'S'), "", "MYS")); require(is(currency('M', 'Y', 'T'), "", "MYT")); require(is(currency('M', 'Y', 'U'), "", "MYU")); require(is(currency('M', 'Y', 'V'), "", "MYV")); require(is(currency('M', 'Y', 'W'), "", "MYW")); require(is(currency('M', 'Y', 'X'), "", "MYX")); require(is(currency('M', 'Y', 'Y'), "", "MYY")); require(is(currency('M', 'Y', 'Z'), "", "MYZ"));)
OBLIGATION(no_currency_MZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from MZ)", (), require(is(currency('M', 'Z', 'A'), "", "MZA")); require(is(currency('M', 'Z', 'B'), "", "MZB")); require(is(currency('M', 'Z', 'C'), "", "MZC")); require(is(currency('M', 'Z', 'D'), "", "MZD")); require(is(currency('M', 'Z', 'E'), "", "MZE")); require(is(currency('M', 'Z', 'F'), "", "MZF")); require(is(currency('M', 'Z', 'G'), "", "MZG")); require(is(currency('M', 'Z', 'H'), "", "MZH")); require(is(currency('M', 'Z', 'I'), "", "MZI")); require(is(currency('M', 'Z', 'J'), "", "MZJ")); require(is(currency('M', 'Z', 'K'), "", "MZK")); require(is(currency('M', 'Z', 'L'), "", "MZL")); require(is(currency('M', 'Z', 'M'), "", "MZM")); require(is(currency('M', 'Z', 'O'), "", "MZO")); require(is(currency('M', 'Z', 'P'), "", "MZP")); require(is(currency('M', 'Z', 'Q'), "", "MZQ")); require(is(currency('M', 'Z', 'R'), "", "MZR")); require(is(currency('M', 'Z', 'S'), "", "MZS")); require(is(currency('M', 'Z', 'T'), "", "MZT")); require(is(currency('M', 'Z', 'U'), "", "MZU")); require(is(currency('M', 'Z', 'V'), "", "MZV")); require(is(currency('M', 'Z', 'W'), "", "MZW")); require(is(currency('M', 'Z', 'X'), "", "MZX")); require(is(currency('M', 'Z', 'Y'), "", "MZY")); require(is(currency('M', 'Z', 'Z'), "", "MZZ"));)
OBLIGATION(no_currency_NA, "esl/economics/currencies.hpp: currency_name (codes without a currency from NA)", (), require(is(currency('N', 'A', 'A'), "", "NAA")); require(is(currency('N', 'A', 'B'), "", "NAB")); require(is(currency('N', 'A', 'C'), "", "NAC")); require(is(currency('N', 'A', 'E'), "", "NAE")); require(is(currency('N', 'A', 'F'), "", "NAF")); require(is(currency('N', 'A', 'G'), "", "NAG")); require(is(currency('N', 'A', 'H'), "", "NAH")); require(is(currency('N', 'A', 'I'), "", "NAI")); require(is(currency('N', 'A', 'J'), "", "NAJ")); require(is(currency('N', 'A', 'K'), "", "NAK")); require(is(currency('N', 'A', 'L'), "", "NAL")); require(is(currency('N', 'A', 'M'), "", "NAM")); require(is(currency('N', 'A', 'N'), "", "NAN")); require(is(currency('N', 'A', 'O'), "", "NAO")); require(is(currency('N', 'A', 'P'), "", "NAP")); require(is(currency('N', 'A', 'Q'), "", "NAQ")); require(is(currency('N', 'A', 'R'), "", "NAR")); require(is(currency('N', 'A', 'S'), "", "NAS")); require(is(currency('N', 'A', 'T'), "", "NAT")); require(is(currency('N', 'A', 'U'), "", "NAU")); require(is(currency('N', 'A', 'V'), "", "NAV")); require(is(currency('N', 'A', 'W'), "", "NAW")); require(is(currency('N', 'A', 'X'), "", "NAX")); require(is(currency('N', 'A', 'Y'), "", "NAY")); require(is(currency('N', 'A', 'Z'), "", "NAZ"));)
OBLIGATION(no_currency_NB, "esl/economics/currencies.hpp: currency_name (codes without a currency from NB)", (), require(is(currency('N', 'B', 'A'), "", "NBA")); require(is(currency('N', 'B', 'B'), "", "NBB")); require(is(currency('N', 'B', 'C'), "", "NBC")); require(is(currency('N', 'B', 'D'), "", "NBD")); require(is(currency('N', 'B', 'E'), "", "NBE")); require(is(currency('N', 'B', 'F'), "", "NBF")); require(is(currency('N', 'B', 'G'), "", "NBG")); require(is(currency('N', 'B', 'H'), "", "NBH")); require(is(currency('N', 'B', 'I'), "", "NBI")); require(is(currency('N', 'B', 'J'), "", "NBJ")); require(is(currency('N', 'B', 'K'), "", "NBK")); require(is(currency('N', 'B', 'L'), "", "NBL")); require(is(currency('N', 'B', 'M'), "", "NBM")); require(is(currency('N', 'B', 'N'), "", "NBN")); require(is(currency('N', 'B', 'O'), "", "NBO")); require(is(currency('N', 'B', 'P'), "", "NBP")); require(is(currency('N', 'B', 'Q'), "", "NBQ")); require(is(currency('N', 'B', 'R'), "", "NBR")); require(is(currency('N', 'B', 'S'), "", "NBS")); require(is(currency('N', 'B', 'T'), "", "NBT")); require(is(currency('N', 'B', 'U'), "", "NBU")); require(is(currency('N', 'B', 'V'), "", "NBV")); require(is(currency('N', 'B', 'W'), "", "NBW")); require(is(currency('N', 'B', 'X'), "", "NBX")); require(is(currency('N', 'B', 'Y'), "", "NBY")); require(is(currency('N', 'B', 'Z'), "", "NBZ"));)
OBLIGATION(no_currency_NC, "esl/economics/currencies.hpp: currency_name (codes without a currency from NC)", (), require(is(currency('N', 'C', 'A'), "", "NCA")); require(is(currency('N', 'C', 'B'), "", "NCB")); require(is(currency('N', 'C', 'C'), "", "NCC")); require(is(currency('N', 'C', 'D'), "", "NCD")); require(is(currency('N', 'C', 'E'), "", "NCE")); require(is(currency('N', 'C', 'F'), "", "NCF")); require(is(currency('N', 'C', 'G'), "", "NCG")); require(is(currency('N', 'C', 'H'), "", "NCH")); require(is(currency('N', 'C', 'I'), "", "NCI")); require(is(currency('N', 'C', 'J'), "", "NCJ")); require(is(currency('N', 'C', 'K'), "", "NCK")); require(is(currency('N', 'C', 'L'), "", "NCL")); require(is(currency('N', 'C', 'M'), "", "NCM")); require(is(currency('N', 'C', 'N'), "", "NCN")); require(is(currency('N', 'C', 'O'), "", "NCO")); require(is(currency('N', 'C', 'P'), "", "NCP")); require(is(currency('N', 'C', 'Q'), "", "NCQ")); require(is(currency('N', 'C', 'R'), "", "NCR")); require(is(currency('N', 'C', 'S'), "", "NCS")); require(is(currency('N', 'C', 'T'), "", "NCT")); require(is(currency('N', 'C', 'U'), "", "NCU")); require(is(currency('N', 'C', 'V'), "", "NCV")); require(is(currency('N', 'C', 'W'), "", "NCW")); require(is(currency('N', 'C', 'X'), "", "NCX")); require(is(currency('N', 'C', 'Y'), "", "NCY")); require(is(currency('N', 'C', 'Z'), "", "NCZ"));)
OBLIGATION(no_currency_ND, "esl/economics/currencies.hpp: currency_name (codes without a currency from ND)", (), require(is(currency('N', 'D', 'A'), "", "NDA")); require(is(currency('N', 'D', 'B'), "", "NDB")); require(is(currency('N', 'D', 'C'), "", "NDC")); require(is(currency('N', 'D', 'D'), "", "NDD")); require(is(currency('N', 'D', 'E'), "", "NDE")); require(is(currency('N', 'D', 'F'), "", "NDF")); require(is(currency('N', 'D', 'G'), "", "NDG")); require(is(currency('N', 'D', 'H'), "", "NDH")); require(is(currency('N', 'D', 'I'), "", "NDI")); require(is(currency('N', 'D', 'J'), "", "NDJ")); require(is(currency('N', 'D', 'K'), "", "NDK")); require(is(currency('N', 'D', 'L'), "", "NDL")); require(is(currency('N', 'D', 'M'), "", "NDM")); require(is(currency('N', 'D', 'N'), "", "NDN")); require(is(currency('N', 'D', 'O'), "", "NDO")); require(is(currency('N', 'D', 'P'), "", "NDP")); require(is(currency('N', 'D', 'Q'), "", "NDQ")); require(is(currency('N', 'D', 'R'), "", "NDR")); require(is(currency('N', 'D', 'S'), "", "NDS")); require(is(currency('N', 'D', 'T'), "", "NDT")); require(is(currency('N', 'D', 'U'), "", "NDU")); require(is(currency('N', 'D', 'V'), "", "NDV")); require(is(currency('N', 'D', 'W'), "", "NDW")); require(is(currency('N', 'D', 'X'), "", "NDX")); require(is(currency('N', 'D', 'Y'), "", "NDY")); require(is(currency('N', 'D', 'Z'), "", "NDZ"));)
OBLIGATION(no_currency_NE, "esl/economics/currencies.hpp: currency_name (codes without a currency from NE)", (), require(is(currency('N', 'E', 'A'), "", "NEA")); require(is(currency('N', 'E', 'B'), "", "NEB")); require(is(currency('N', 'E', 'C'), "", "NEC")); require(is(currency('N', 'E', 'D'), "", "NED")); require(is(currency('N', 'E', 'E'), "", "NEE")); require(is(currency('N', 'E', 'F'), "", "NEF")); require(is(currency('N', 'E', 'G'), "", "NEG")); require(is(currency('N', 'E', 'H'), "", "NEH")); require(is(currency('N', 'E', 'I'), "", "NEI")); require(is(currency('N', 'E', 'J'), "", "NEJ")); require(is(currency('N', 'E', 'K'), "", "NEK")); require(is(currency('N', 'E', 'L'), "", "NEL")); require(is(currency('N', 'E', 'M'), "", "NEM")); require(is(currency('N', 'E', 'N'), "", "NEN")); require(is(currency('N', 'E', 'O'), "", "NEO")); require(is(currency('N', 'E', 'P'), "", "NEP")); require(is(currency('N', 'E', 'Q'), "", "NEQ")); require(is(currency('N', 'E', 'R'), "", "NER")); require(is(currency('N', 'E', 'S'), "", "NES")); require(is(currency('N', 'E', 'T'), "", "NET")); require(is(currency('N', 'E', 'U'), "", "NEU")); require(is(currency('N', 'E', 'V'), "", "NEV")); require(is(currency('N', 'E', 'W'), "", "NEW")); require(is(currency('N', 'E', 'X'), "", "NEX")); require(is(currency('N', 'E', 'Y'), "", "NEY")); require(is(currency('N', 'E', 'Z'), "", "NEZ"));)
OBLIGATION(no_currency_NF, "esl/economics/currencies.hpp: currency_name (codes without a currency from NF)", (), require(is(currency('N', 'F', 'A'), "", "NFA")); require(is(currency('N', 'F', 'B'), "", "NFB")); require(is(currency('N', 'F', 'C'), "", "NFC")); require(is(currency('N', 'F', 'D'), "", "NFD")); require(is(currency('N', 'F', 'E'), "", "NFE")); require(is(currency('N', 'F', 'F'), "", "NFF")); require(is(currency('N', 'F', 'G'), "", "NFG")); require(is(currency('N', 'F', 'H'), "", "NFH")); require(is(currency('N', 'F', 'I'), "", "NFI")); require(is(currency('N', 'F', 'J'), "", "NFJ")); require(is(currency('N', 'F', 'K'), "", "NFK")); require(is(currency('N', 'F', 'L'), "", "NFL")); require(is(currency('N', 'F', 'M'), "", "NFM")); require(is(currency('N', 'F', 'N'), "", "NFN")); require(is(currency('N', 'F', 'O'), "", "NFO")); require(is(currency('N', 'F', 'P'), "", "NFP")); require(is(currency('N', 'F', 'Q'), "", "NFQ")); require(is(currency('N', 'F', 'R'), "", "NFR")); require(is(currency('N', 'F', 'S'), "", "NFS")); require(is(currency('N', 'F', 'T'), "", "NFT")); require(is(currency('N', 'F', 'U'), "", "NFU")); require(is(currency('N', 'F', 'V'), "", "NFV")); require(is(currency('N', 'F', 'W'), "", "NFW")); require(is(currency('N', 'F', 'X'), "", "NFX")); require(is(currency('N', 'F', 'Y'), "", "NFY")); require(is(currency('N', 'F', 'Z'), "", "NFZ"));)
OBLIGATION(no_currency_NG, "esl/economics/currencies.hpp: currency_name (codes without a currency from NG)", (), require(is(currency('N', 'G', 'A'), "", "NGA")); require(is(currency('N', 'G', 'B'), "", "NGB")); require(is(currency('N', 'G', 'C'), "", "NGC")); require(is(currency('N', 'G', 'D'), "", "NGD")); require(is(currency('N', 'G', 'E'), "", "NGE")); require(is(currency('N', 'G', 'F'), "", "NGF")); require(is(currency('N', 'G', 'G'), "", "NGG")); require(is(currency('N', 'G', 'H'), "", "NGH")); require(is(currency('N', 'G', 'I'), "", "NGI")); require(is(currency('N', 'G', 'J'), "", "NGJ")); require(is(currency('N', 'G', 'K'), "", "NGK")); require(is(currency('N', 'G', 'L'), "", "NGL")); require(is(currency('N', 'G', 'M'), "", "NGM")); require(is(currency('N', 'G', 'O'), "", "NGO")); require(is(currency('N', 'G', 'P'), "", "NGP")); require(is(currency('N', 'G', 'Q'), "", "NGQ")); require(is(currency('N', 'G', 'R'), "", "NGR")); require(is(currency('N', 'G', 'S'), "", "NGS")); require(is(currency('N', 'G', 'T'), "", "NGT")); require(is(currency('N', 'G', 'U'), "", "NGU")); require(is(currency('N', 'G', 'V'), "", "NGV")); require(is(currency('N', 'G', 'W'), "", "NGW")); require(is(currency('N', 'G', 'X'), "", "NGX")); require(is(currency('N', 'G', 'Y'), "", "NGY")); require(is(currency('N', 'G', 'Z'), "", "NGZ"));)
OBLIGATION(no_currency_NH, "esl/economics/currencies.hpp: currency_name (codes without a currency from NH)", (), require(is(currency('N', 'H', 'A'), "", "NHA")); require(is(currency('N', 'H', 'B'), "", "NHB")); require(is(currency('N', 'H', 'C'), "", "NHC")); require(is(currency('N', 'H', 'D'), "", "NHD")); require(is(currency('N', 'H', 'E'), "", "NHE")); require(is(currency('N', 'H', 'F'), "", "NHF")); require(is(currency('N', 'H', 'G'), "", "NHG")); require(is(currency('N', 'H', 'H'), "", "NHH")); require(is(currency('N', 'H', 'I'), "", "NHI")); require(is(currency('N', 'H', 'J'), "", "NHJ")); require(is(currency('N', 'H', 'K'), "", "NHK")); require(is(currency('N', 'H', 'L'), "", "NHL")); require(is(currency('N', 'H', 'M'), "", "NHM")); require(is(currency('N', 'H', 'N'), "", "NHN")); require(is(currency('N', 'H', 'O'), "", "NHO")); require(is(currency('N', 'H', 'P'), "", "NHP")); require(is(currency('N', 'H', 'Q'), "", "NHQ")); require(is(currency('N', 'H', 'R'), "", "NHR")); require(is(currency('N', 'H', 'S'), "", "NHS")); require(is(currency('N', 'H', 'T'), "", "NHT")); require(is(currency('N', 'H', 'U'), "", "NHU")); require(is(currency('N', 'H', 'V'), "", "NHV")); require(is(currency('N', 'H', 'W'), "", "NHW")); require(is(currency('N', 'H', 'X'), "", "NHX")); require(is(currency('N', 'H', 'Y'), "", "NHY")); require(is(currency('N', 'H', 'Z'), "", "NHZ"));)
OBLIGATION(no_currency_NI, "esl/economics/currencies.hpp: currency_name (codes without a currency from NI)", (), require(is(currency('N', 'I', 'A'), "", "NIA")); require(is(currency('N', 'I', 'B'), "", "NIB")); require(is(currency('N', 'I', 'C'), "", "NIC")); require(is(currency('N', 'I', 'D'), "", "NID")); require(is(currency('N', 'I', 'E'), "", "NIE")); require(is(currency('N', 'I', 'F'), "", "NIF")); require(is(currency('N', 'I', 'G'), "", "NIG")); require(is(currency('N', 'I', 'H'), "", "NIH")); require(is(currency('N', 'I', 'I'), "", "NII")); require(is(currency('N', 'I', 'J'), "", "NIJ")); require(is(currency('N', 'I', 'K'), "", "NIK")); require(is(currency('N', 'I', 'L'), "", "NIL")); require(is(currency('N', 'I', 'M'), "", "NIM")); require(is(currency('N', 'I', 'N'), "", "NIN")); require(is(currency('N', 'I', 'P'), "", "NIP")); require(is(currency('N', 'I', 'Q'), "", "NIQ")); require(is(currency('N', 'I', 'R'), "", "NIR")); require(is(currency('N', 'I', 'S'), "", "NIS")); require(is(currency('N', 'I', 'T'), "", "NIT")); require(is(currency('N', 'I', 'U'), "", "NIU")); require(is(currency('N', 'I', 'V'), "", "NIV")); require(is(currency('N', 'I', 'W'), "", "NIW")); require(is(currency('N', 'I', 'X'), "", "NIX")); require(is(currency('N', 'I', 'Y'), "", "NIY")); require(is(currency('N', 'I', 'Z'), "", "NIZ"));)
OBLIGATION(no_currency_NJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from NJ)", (), require(is(currency('N', 'J', 'A'), "", "NJA")); require(is(currency('N', 'J', 'B'), "", "NJB")); require(is(currency('N', 'J', 'C'), "", "NJC")); require(is(currency('N', 'J', 'D'), "", "NJD")); require(is(currency('N', 'J', 'E'), "", "NJE")); require(is(currency('N', 'J', 'F'), "", "NJF")); require(is(currency('N', 'J', 'G'), "", "NJG")); require(is(currency('N', 'J', 'H'), "", "NJH")); require(is(currency('N', 'J', 'I'), "", "NJI")); require(is(currency('N', 'J', 'J'), "", "NJJ")); require(is(currency('N', 'J', 'K'), "", "NJK")); require(is(currency('N', 'J', 'L'), "", "NJL")); require(is(currency('N', 'J', 'M'), "", "NJM")); require(is(currency('N', 'J', 'N'), "", "NJN")); require(is(currency('N', 'J', 'O'), "", "NJO")); require(is(currency('N', 'J', 'P'), "", "NJP")); require(is(currency('N', 'J', 'Q'), "", "NJQ")); require(is(currency('N', 'J', 'R'), "", "NJR")); require(is(currency('N', 'J', 'S'), "", "NJS")); require(is(currency('N', 'J', 'T'), "", "NJT")); require(is(currency('N', 'J', 'U'), "", "NJU")); require(is(currency('N', 'J', 'V'), "", "NJV")); require(is(currency('N', 'J', 'W'), "", "NJW")); require(is(currency('N', 'J', 'X'), "", "NJX")); require(is(currency('N', 'J', 'Y'), "", "NJY")); require(is(currency('N', 'J', 'Z'), "", "NJZ"));)
OBLIGATION(no_currency_NK, "esl/economics/currencies.hpp: currency_name (codes without a currency from NK)", (), require(is(currency('N', 'K', 'A'), "", "NKA")); require(is(currency('N', 'K', 'B'), "", "NKB")); require(is(currency('N', 'K', 'C'), "", "NKC")); require(is(currency('N', 'K', 'D'), "", "NKD")); require(is(currency('N', 'K', 'E'), "", "NKE")); require(is(currency('N', 'K', 'F'), "", "NKF")); require(is(currency('N', 'K', 'G'), "", "NKG")); require(is(currency('N', 'K', 'H'), "", "NKH")); require(is(currency('N', 'K', 'I'), "", "NKI")); require(is(currency('N', 'K', 'J'), "", "NKJ")); require(is(currency('N', 'K', 'K'), "", "NKK")); require(is(currency('N', 'K', 'L'), "", "NKL")); require(is(currency('N', 'K', 'M'), "", "NKM")); require(is(currency('N', 'K', 'N'), "", "NKN")); require(is(currency('N', 'K', 'O'), "", "NKO")); require(is(currency('N', 'K', 'P'), "", "NKP")); require(is(currency('N', 'K', 'Q'), "", "NKQ")); require(is(currency('N', 'K', 'R'), "", "NKR")); require(is(currency('N', 'K', 'S'), "", "NKS")); require(is(currency('N', 'K', 'T'), "", "NKT")); require(is(currency('N', 'K', 'U'), "", "NKU")); require(is(currency('N', 'K', 'V'), "", "NKV")); require(is(currency('N', 'K', 'W'), "", "NKW")); require(is(currency('N', 'K', 'X'), "", "NKX")); require(is(currency('N', 'K', 'Y'), "", "NKY")); require(is(currency('N', 'K', 'Z'), "", "NKZ"));)
OBLIGATION(no_currency_NL, "esl/economics/currencies.hpp: currency_name (codes without a currency from NL)", (), require(is(currency('N', 'L', 'A'), "", "NLA")); require(is(currency('N', 'L', 'B'), "", "NLB")); require(is(currency('N', 'L', 'C'), "", "NLC")); require(is(currency('N', 'L', 'D'), "", "NLD")); require(is(currency('N', 'L', 'E'), "", "NLE")); require(is(currency('N', 'L', 'F'), "", "NLF")); require(is(currency('N', 'L', 'G'), "", "NLG")); require(is(currency('N', 'L', 'H'), "", "NLH")); require(is(currency('N', 'L', 'I'), "", "NLI")); require(is(currency('N', 'L', 'J'), "", "NLJ")); require(is(currency('N', 'L', 'K'), "", "NLK")); require(is(currency('N', 'L', 'L'), "", "NLL")); require(is(currency('N', 'L', 'M'), "", "NLM")); require(is(currency('N', 'L', 'N'), "", "NLN")); require(is(currency('N', 'L', 'O'), "", "NLO")); require(is(currency('N', 'L', 'P'), "", "NLP")); require(is(currency('N', 'L', 'Q'), "", "NLQ")); require(is(currency('N', 'L', 'R'), "", "NLR")); require(is(currency('N', 'L', 'S'), "", "NLS")); require(is(currency('N', 'L', 'T'), "", "NLT")); require(is(currency('N', 'L', 'U'), "", "NLU")); require(is(currency('N', 'L', 'V'), "", "NLV")); require(is(currency('N', 'L', 'W'), "", "NLW")); require(is(currency('N', 'L', 'X'), "", "NLX")); require(is(currency('N', 'L', 'Y'), "", "NLY")); require(is(currency('N', 'L', 'Z'), "", "NLZ"));)
OBLIGATION(no_currency_NM, "esl/economics/currencies.hpp: currency_name (codes without a currency from NM)", (), require(is(currency('N', 'M', 'A'), "", "NMA")); require(is(currency('N', 'M', 'B'), "", "NMB")); require(is(currency('N', 'M', 'C'), "", "NMC")); require(is(currency('N', 'M', 'D'), "", "NMD")); require(is(currency('N', 'M', 'E'), "", "NME")); require(is(currency('N', 'M', 'F'), "", "NMF")); require(is(currency('N', 'M', 'G'), "", "NMG")); require(is(currency('N', 'M', 'H'), "", "NMH")); require(is(currency('N', 'M', 'I'), "", "NMI")); require(is(currency('N', 'M', 'J'), "", "NMJ")); require(is(currency('N', 'M', 'K'), "", "NMK")); require(is(currency('N', 'M', 'L'), "", "NML")); require(is(currency('N', 'M', 'M'), "", "NMM")); require(is(currency('N', 'M', 'N'), "", "NMN")); require(is(currency('N', 'M', 'O'), "", "NMO")); require(is(currency('N', 'M', 'P'), "", "NMP")); require(is(currency('N', 'M', 'Q'), "", "NMQ")); require(is(currency('N', 'M', 'R'), "", "NMR")); require(is(currency('N', 'M', 'S'), "", "NMS")); require(is(currency('N', 'M', 'T'), "", "NMT")); require(is(currency('N', 'M', 'U'), "", "NMU")); require(is(currency('N', 'M', 'V'), "", "NMV")); require(is(currency('N', 'M', 'W'), "", "NMW")); require(is(currency('N', 'M', 'X'), "", "NMX")); require(is(currency('N', 'M', 'Y'), "", "NMY")); require(is(currency('N', 'M', 'Z'), "", "NMZ"));)
OBLIGATION(no_currency_NN, "esl/economics/currencies.hpp: currency_name (codes without a currency from NN)", (), require(is(currency('N', 'N', 'A'), "", "NNA")); require(is(currency('N', 'N', 'B'), "", "NNB")); require(is(currency('N', 'N', 'C'), "", "NNC")); require(is(currency('N', 'N', 'D'), "", "NND")); require(is(currency('N', 'N', 'E'), "", "NNE")); require(is(currency('N', 'N', 'F'), "", "NNF")); require(is(currency('N', 'N', 'G'), "", "NNG")); require(is(currency('N', 'N', 'H'), "", "NNH")); require(is(currency('N', 'N', 'I'), "", "NNI")); require(is(currency('N', 'N', 'J'), "", "NNJ")); require(is(currency('N', 'N', 'K'), "", "NNK")); require(is(currency('N', 'N', 'L'), "", "NNL")); require(is(currency('N', 'N', 'M'), "", "NNM")); require(is(currency('N', 'N', 'N'), "", "NNN")); require(is(currency('N', 'N', 'O'), "", "NNO")); require(is(currency('N', 'N', 'P'), "", "NNP")); require(is(currency('N', 'N', 'Q'), "", "NNQ")); require(is(currency('N', 'N', 'R'), "", "NNR")); require(is(currency('N', 'N', 'S'), "", "NNS")); require(is(currency('N', 'N', 'T'), "", "NNT")); require(is(currency('N', 'N', 'U'), "", "NNU")); require(is(currency('N', 'N', 'V'), "", "NNV")); require(is(currency('N', 'N', 'W'), "", "NNW")); require(is(currency('N', 'N', 'X'), "", "NNX")); require(is(currency('N', 'N', 'Y'), "", "NNY")); require(is(currency('N', 'N', 'Z'), "", "NNZ"));)
OBLIGATION(no_currency_NO, "esl/economics/currencies.hpp: currency_name (codes without a currency from NO)", (), require(is(currency('N', 'O', 'A'), "", "NOA")); require(is(currency('N', 'O', 'B'), "", "NOB")); require(is(currency('N', 'O', 'C'), "", "NOC")); require(is(currency('N', 'O', 'D'), "", "NOD")); require(is(currency('N', 'O', 'E'), "", "NOE")); require(is(currency('N', 'O', 'F'), "", "NOF")); require(is(currency('N', 'O', 'G'), "", "NOG")); require(is(currency('N', 'O', 'H'), "", "NOH")); require(is(currency('N', 'O', 'I'), "", "NOI")); require(is(currency('N', 'O', 'J'), "", "NOJ")); require(is(currency('N', 'O', 'L'), "", "NOL")); require(is(currency('N', 'O', 'M'), "", "NOM")); require(is(currency('N', 'O', 'N'), "", "NON")); require(is(currency('N', 'O', 'O'), "", "NOO")); require(is(currency('N', 'O', 'P'), "", "NOP")); require(is(currency('N', 'O', 'Q'), "", "NOQ")); require(is(currency('N', 'O', 'R'), "", "NOR")); require(is(currency('N', 'O', 'S'), "", "NOS")); require(is(currency('N', 'O', 'T'), "", "NOT")); require(is(currency('N', 'O', 'U'), "", "NOU")); require(is(currency('N', 'O', 'V'), "", "NOV")); require(is(currency('N', 'O', 'W'), "", "NOW")); require(is(currency('N', 'O', 'X'), "", "NOX")); require(is(currency('N', 'O', 'Y'), "", "NOY")); require(is(currency('N', 'O', 'Z'), "", "NOZ"));)
OBLIGATION(no_currency_NP, "esl/economics/currencies.hpp: currency_name (codes without a currency from NP)", (), require(is(currency('N', 'P', 'A'), "", "NPA")); require(is(currency('N', 'P', 'B'), "", "NPB")); require(is(currency('N', 'P', 'C'), "", "NPC")); require(is(currency('N', 'P', 'D'), "", "NPD")); require(is(currency('N', 'P', 'E'), "", "NPE")); require(is(currency('N', 'P', 'F'), "", "NPF")); require(is(currency('N', 'P', 'G'), "", "NPG")); require(is(currency('N', 'P', 'H'), "", "NPH")); require(is(currency('N', 'P', 'I'), "", "NPI")); require(is(currency('N', 'P', 'J'), "", "NPJ")); require(is(currency('N', 'P', 'K'), "", "NPK")); require(is(currency('N', 'P', 'L'), "", "NPL")); require(is(currency('N', 'P', 'M'), "", "NPM")); require(is(currency('N', 'P', 'N'), "", "NPN")); require(is(currency('N', 'P', 'O'), "", "NPO")); require(is(currency('N', 'P', 'P'), "", "NPP")); require(is(currency('N', 'P', 'Q'), "", "NPQ")); require(is(currency('N', 'P', 'S'), "", "NPS")); require(is(currency('N', 'P', 'T'), "", "NPT")); require(is(currency('N', 'P', 'U'), "", "NPU")); require(is(currency('N', 'P', 'V'), "", "NPV")); require(is(currency('N', 'P', 'W'), "", "NPW")); require(is(currency('N', 'P', 'X'), "", "NPX")); require(is(currency('N', 'P', 'Y'), "", "NPY")); require(is(currency('N', 'P', 'Z'), "", "NPZ"));)
OBLIGATION(no_currency_NQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from NQ)", (), require(is(currency('N', 'Q', 'A'), "", "NQA")); require(is(currency('N', 'Q', 'B'), "", "NQB")); require(is(currency('N', 'Q', 'C'), "", "NQC")); require(is(currency('N', 'Q', 'D'), "", "NQD")); require(is(currency('N', 'Q', 'E'), "", "NQE")); require(is(currency('N', 'Q', 'F'), "", "NQF")); require(is(currency('N', 'Q', 'G'), "", "NQG")); require(is(currency('N', 'Q', 'H'), "", "NQH")); require(is(currency('N', 'Q', 'I'), "", "NQI")); require(is(currency('N', 'Q', 'J'), "", "NQJ")); require(is(currency('N', 'Q', 'K'), "", "NQK")); require(is(currency('N', 'Q', 'L'), "", "NQL")); require(is(currency('N', 'Q', 'M'), "", "NQM")); require(is(currency('N', 'Q', 'N'), "", "NQN")); require(is(currency('N', 'Q', 'O'), "", "NQO")); require(is(currency('N', 'Q', 'P'), "", "NQP")); require(is(currency('N', 'Q', 'Q'), "", "NQQ")); require(is(currency('N', 'Q', 'R'), "", "NQR")); require(is(currency('N', 'Q', 'S'), "", "NQS")); require(is(currency('N', 'Q', 'T'), "", "NQT")); require(is(currency('N', 'Q', 'U'), "", "NQU")); require(is(currency('N', 'Q', 'V'), "", "NQV")); require(is(currency('N', 'Q', 'W'), "", "NQW")); require(is(currency('N', 'Q', 'X'), "", "NQX")); require(is(currency('N', 'Q', 'Y'), "", "NQY")); require(is(currency('N', 'Q', 'Z'), "", "NQZ"));)
OBLIGATION(no_currency_NR, "esl/economics/currencies.hpp: currency_name (codes without a currency from NR)", (), require(is(currency('N', 'R', 'A'), "", "NRA")); require(is(currency('N', 'R', 'B'), "", "NRB")); require(is(currency('N', 'R', 'C'), "", "NRC")); require(is(currency('N', 'R', 'D'), "", "NRD")); require(is(currency('N', 'R', 'E'), "", "NRE")); require(is(currency('N', 'R', 'F'), "", "NRF")); require(is(currency('N', 'R', 'G'), "", "NRG")); require(is(currency('N', 'R', 'H'), "", "NRH")); require(is(currency('N', 'R', 'I'), "", "NRI")); require(is(currency('N', 'R', 'J'), "", "NRJ")); require(is(currency('N', 'R', 'K'), "", "NRK")); require(is(currency('N', 'R', 'L'), "", "NRL")); require(is(currency('N', 'R', 'M'), "", "NRM")); require(is(currency('N', 'R', 'N'), "", "NRN")); require(is(currency('N', 'R', 'O'), "", "NRO")); require(is(currency('N', 'R', 'P'), "", "NRP")); require(is(currency('N', 'R', 'Q'), "", "NRQ")); require(is(currency('N', 'R', 'R'), "", "NRR")); require(is(currency('N', 'R', 'S'), "", "NRS")); require(is(currency('N', 'R', 'T'), "", "NRT")); require(is(currency('N', 'R', 'U'), "", "NRU")); require(is(currency('N', 'R', 'V'), "", "NRV")); require(is(currency('N', 'R', 'W'), "", "NRW")); require(is(currency('N', 'R', 'X'), "", "NRX")); require(is(currency('N', 'R', 'Y'), "", "NRY")); require(is(currency('N', 'R', 'Z'), "", "NRZ"));)
OBLIGATION(no_currency_NS, "esl/economics/currencies.hpp: currency_name (codes without a currency from NS)", (), require(is(currency('N', 'S', 'A'), "", "NSA")); require(is(currency('N', 'S', 'B'), "", "NSB")); require(is(currency('N', 'S', 'C'), "", "NSC")); require(is(currency('N', 'S', 'D'), "", "NSD")); require(is(currency('N', 'S', 'E'), "", "NSE")); require(is(currency('N', 'S', 'F'), "", "NSF")); require(is(currency('N', 'S', 'G'), "", "NSG")); require(is(currency('N', 'S', 'H'), "", "NSH")); require(is(currency('N', 'S', 'I'), "", "NSI")); require(is(currency('N', 'S', 'J'), "", "NSJ")); require(is(currency('N', 'S', 'K'), "", "NSK")); require(is(currency('N', 'S', 'L'), "", "NSL")); require(is(currency('N', 'S', 'M'), "", "NSM")); require(is(currency('N', 'S', 'N'), "", "NSN")); require(is(currency('N', 'S', 'O'), "", "NSO")); require(is(currency('N', 'S', 'P'), "", "NSP")); require(is(currency('N', 'S', 'Q'), "", "NSQ")); require(is(currency('N', 'S', 'R'), "", "NSR")); require(is(currency('N', 'S', 'S'), "", "NSS")); require(is(currency('N', 'S', 'T'), "", "NST")); require(is(currency('N', 'S', 'U'), "", "NSU")); require(is(currency('N', 'S', 'V'), "", "NSV")); require(is(currency('N', 'S', 'W'), "", "NSW")); require(is(currency('N', 'S', 'X'), "", "NSX")); require(is(currency('N', 'S', 'Y'), "", "NSY")); require(is(currency('N', 'S', 'Z'), "", "NSZ"));)
OBLIGATION(no_currency_NT, "esl/economics/currencies.hpp: currency_name (codes without a currency from NT)", (), require(is(currency('N', 'T', 'A'), "", "NTA")); require(is(currency('N', 'T', 'B'), "", "NTB")); require(is(currency('N', 'T', 'C'), "", "NTC")); require(is(currency('N', 'T', 'D'), "", "NTD")); require(is(currency('N', 'T', 'E'), "", "NTE")); require(is(currency('N', 'T', 'F'), "", "NTF")); require(is(currency('N', 'T', 'G'), "", "NTG")); require(is(currency('N', 'T', 'H'), "", "NTH")); require(is(currency('N', 'T', 'I'), "", "NTI")); require(is(currency('N', 'T', 'J'), "", "NTJ")); require(is(currency('N', 'T', 'K'), "", "NTK")); require(is(currency('N', 'T', 'L'), "", "NTL")); require(is(currency('N', 'T', 'M'), "", "NTM")); require(is(currency('N', 'T', 'N'), "", "NTN")); require(is(currency('N', 'T', 'O'), "", "NTO")); require(is(currency('N', 'T', 'P'), "", "NTP")); require(is(currency('N', 'T', 'Q'), "", "NTQ")); require(is(currency('N', 'T', 'R'), "", "NTR")); require(is(currency('N', 'T', 'S'), "", "NTS")); require(is(currency('N', 'T', 'T'), "", "NTT")); require(is(currency('N', 'T', 'U'), "", "NTU")); require(is(currency('N', 'T', 'V'), "", "NTV")); require(is(currency('N', 'T', 'W'), "", "NTW")); require(is(currency('N', 'T', 'X'), "", "NTX")); require(is(currency('N', 'T', 'Y'), "", "NTY")); require(is(currency('N', 'T', 'Z'), "", "NTZ"));)
OBLIGATION(no_currency_NU, "esl/economics/currencies.hpp: currency_name (codes without a currency from NU)", (), require(is(currency('N', 'U', 'A'), "", "NUA")); require(is(currency('N', 'U', 'B'), "", "NUB")); require(is(currency('N', 'U', 'C'), "", "NUC")); require(is(currency('N', 'U', 'D'), "", "NUD")); require(is(currency('N', 'U', 'E'), "", "NUE")); require(is(currency('N', 'U', 'F'), "", "NUF")); require(is(currency('N', 'U', 'G'), "", "NUG")); require(is(currency('N', 'U', 'H'), "", "NUH")); require(is(currency('N', 'U', 'I'), "", "NUI")); require(is(currency('N', 'U', 'J'), "", "NUJ")); require(is(currency('N', 'U', 'K'), "", "NUK")); require(is(currency('N', 'U', 'L'), "", "NUL")); require(is(currency('N', 'U', 'M'), "", "NUM")); require(is(currency('N', 'U', 'N'), "", "NUN")); require(is(currency('N', 'U', 'O'), "", "NUO")); require(is(currency('N', 'U', 'P'), "", "NUP")); require(is(currency('N', 'U', 'Q'), "", "NUQ")); require(is(currency('N', 'U', 'R'), "", "NUR")); require(is(currency('N', 'U', 'S'), "", "NUS")); require(is(currency('N', 'U', 'T'), "", "NUT")); require(is(currency('N', 'U', 'U'), "", "NUU")); require(is(currency('N', 'U', 'V'), "", "NUV")); require(is(currency('N', 'U', 'W'), "", "NUW")); require(is(currency('N', 'U', 'X'), "", "NUX")); require(is(currency('N', 'U', 'Y'), "", "NUY")); require(is(currency('N', 'U', 'Z'), "", "NUZ"));)
OBLIGATION(no_currency_NV, "esl/economics/currencies.hpp: currency_name (codes without a currency from NV)", (), require(is(currency('N', 'V', 'A'), "", "NVA")); require(is(currency('N', 'V', 'B'), "", "NVB")); require(is(currency('N', 'V', 'C'), "", "NVC")); require(is(currency('N', 'V', 'D'), "", "NVD")); require(is(currency('N', 'V', 'E'), "", "NVE")); require(is(currency('N', 'V', 'F'), "", "NVF")); require(is(currency('N', 'V', 'G'), "", "NVG")); require(is(currency('N', 'V', 'H'), "", "NVH")); require(is(currency('N', 'V', 'I'), "", "NVI")); require(is(currency('N', 'V', 'J'), "", "NVJ")); require(is(currency('N', 'V', 'K'), "", "NVK")); require(is(currency('N', 'V', 'L'), "", "NVL")); require(is(currency('N', 'V', 'M'), "", "NVM")); require(is(currency('N', 'V', 'N'), "", "NVN")); require(is(currency('N', 'V', 'O'), "", "NVO")); require(is(currency('N', 'V', 'P'), "", "NVP")); require(is(currency('N', 'V', 'Q'), "", "NVQ")); require(is(currency('N', 'V', 'R'), "", "NVR")); require(is(currency('N', 'V', 'S'), "", "NVS")); require(is(currency('N', 'V', 'T'), "", "NVT")); require(is(currency('N', 'V', 'U'), "", "NVU")); require(is(currency('N', 'V', 'V'), "", "NVV")); require(is(currency('N', 'V', 'W'), "", "NVW")); require(is(currency('N', 'V', 'X'), "", "NVX")); require(is(currency('N', 'V', 'Y'), "", "NVY")); require(is(currency('N', 'V', 'Z'), "", "NVZ"));)
OBLIGATION(no_currency_NW, "esl/economics/currencies.hpp: currency_name (codes without a currency from NW)", (), require(is(currency('N', 'W', 'A'), "", "NWA")); require(is(currency('N', 'W', 'B'), "", "NWB")); require(is(currency('N', 'W', 'C'), "", "NWC")); require(is(currency('N', 'W', 'D'), "", "NWD")); require(is(currency('N', 'W', 'E'), "", "NWE")); require(is(currency('N', 'W', 'F'), "", "NWF")); require(is(currency('N', 'W', 'G'), "", "NWG")); require(is(currency('N', 'W', 'H'), "", "NWH")); require(is(currency('N', 'W', 'I'), "", "NWI")); require(is(currency('N', 'W', 'J'), "", "NWJ")); require(is(currency('N', 'W', 'K'), "", "NWK")); require(is(currency('N', 'W', 'L'), "", "NWL")); require(is(currency('N', 'W', 'M'), "", "NWM")); require(is(currency('N', 'W', 'N'), "", "NWN")); require(is(currency('N', 'W', 'O'), "", "NWO")); require(is(currency('N', 'W', 'P'), "", "NWP")); require(is(currency('N', 'W', 'Q'), "", "NWQ")); require(is(currency('N', 'W', 'R'), "", "NWR")); require(is(currency('N', 'W', 'S'), "", "NWS")); require(is(currency('N', 'W', 'T'), "", "NWT")); require(is(currency('N', 'W', 'U'), "", "NWU")); require(is(currency('N', 'W', 'V'), "", "NWV")); require(is(currency('N', 'W', 'W'), "", "NWW")); require(is(currency('N', 'W', 'X'), "", "NWX")); require(is(currency('N', 'W', 'Y'), "", "NWY")); require(is(currency('N', 'W', 'Z'), "", "NWZ"));)
OBLIGATION(no_currency_NX, "esl/economics/currencies.hpp: currency_name (codes without a currency from NX)", (), require(is(currency('N', 'X', 'A'), "", "NXA")); require(is(currency('N', 'X', 'B'), "", "NXB")); require(is(currency('N', 'X', 'C'), "", "NXC")); require(is(currency('N', 'X', 'D'), "", "NXD")); require(is(currency('N', 'X', 'E'), "", "NXE")); require(is(currency('N', 'X', 'F'), "", "NXF")); require(is(currency('N', 'X', 'G'), "", "NXG")); require(is(currency('N', 'X', 'H'), "", "NXH")); require(is(currency('N', 'X', 'I'), "", "NXI")); require(is(currency('N', 'X', 'J'), "", "NXJ")); require(is(currency('N', 'X', 'K'), "", "NXK")); require(is(currency('N', 'X', 'L'), "", "NXL")); require(is(currency('N', 'X', 'M'), "", "NXM")); require(is(currency('N', 'X', 'N'), "", "NXN")); require(is(currency('N', 'X', 'O'), "", "NXO")); require(is(currency('N', 'X', 'P'), "", "NXP")); require(is(currency('N', 'X', 'Q'), "", "NXQ")); require(is(currency('N', 'X', 'R'), "", "NXR")); require(is(currency('N', 'X', 'S'), "", "NXS")); require(is(currency('N', 'X', 'T'), "", "NXT")); require(is(currency('N', 'X', 'U'), "", "NXU")); require(is(currency('N', 'X', 'V'), "", "NXV")); require(is(currency('N', 'X', 'W'), "", "NXW")); require(is(currency('N', 'X', 'X'), "", "NXX")); require(is(currency('N', 'X', 'Y'), "", "NXY")); require(is(currency('N', 'X', 'Z'), "", "NXZ"));)
OBLIGATION(no_currency_NY, "esl/economics/currencies.hpp: currency_name (codes without a currency from NY)", (), require(is(currency('N', 'Y', 'A'), "", "NYA")); require(is(currency('N', 'Y', 'B'), "", "NYB")); require(is(currency('N', 'Y', 'C'), "", "NYC")); require(is(currency('N', 'Y', 'D'), "", "NYD")); require(is(currency('N', 'Y', 'E'), "", "NYE")); require(is(currency('N', 'Y', 'F'), "", "NYF")); require(is(currency('N', 'Y', 'G'), "", "NYG")); require(is(currency('N', 'Y', 'H'), "", "NYH")); require(is(currency('N', 'Y', 'I'), "", "NYI")); require(is(currency('N', 'Y', 'J'), "", "NYJ")); require(is(currency('N', 'Y', 'K'), "", "NYK")); require(is(currency('N', 'Y', 'L'), "", "NYL")); require(is(currency('N', 'Y', 'M'), "", "NYM")); require(is(currency('N', 'Y', 'N'), "", "NYN")); require(is(currency('N', 'Y', 'O'), "", "NYO")); require(is(currency('N', 'Y', 'P'), "", "NYP")); require(is(currency('N', 'Y', 'Q'), "", "NYQ")); require(is(currency('N', 'Y', 'R'), "", "NYR")); require(is(currency('N', 'Y', 'S'), "", "NYS")); require(is(currency('N', 'Y', 'T'), "", "NYT")); require(is(currency('N', 'Y', 'U'), "", "NYU")); require(is(currency('N', 'Y', 'V'), "", "NYV")); require(is(currency('N', 'Y', 'W'), "", "NYW")); require(is(currency('N', 'Y', 'X'), "", "NYX")); require(is(currency('N', 'Y', 'Y'), "", "NYY")); require(is(currency('N', 'Y', 'Z'), "", "NYZ"));)
OBLIGATION(no_currency_NZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from NZ)", (), require(is(currency('N', 'Z', 'A'), "", "NZA")); require(is(currency('N', 'Z', 'B'), "", "NZB")); require(is(currency('N', 'Z', 'C'), "", "NZC")); require(is(currency('N', 'Z', 'E'), "", "NZE")); require(is(currency('N', 'Z', 'F'), "", "NZF")); require(is(currency('N', 'Z', 'G'), "", "NZG")); require(is(currency('N', 'Z', 'H'), "", "NZH")); require(is(currency('N', 'Z', 'I'), "", "NZI")); require(is(currency('N', 'Z', 'J'), "", "NZJ")); require(is(currency('N', 'Z', 'K'), "", "NZK")); require(is(currency('N', 'Z', 'L'), "", "NZL")); require(is(currency('N', 'Z', 'M'), "", "NZM")); require(is(currency('N', 'Z', 'N'), "", "NZN")); require(is(currency('N', 'Z', 'O'), "", "NZO")); require(is(currency('N', 'Z', 'P'), "", "NZP")); require(is(currency('N', 'Z', 'Q'), "", "NZQ")); require(is(currency('N', 'Z', 'R'), "", "NZR")); require(is(currency('N', 'Z', 'S'), "", "NZS")); require(is(currency('N', 'Z', 'T'), "", "NZT")); require(is(currency('N', 'Z', 'U'), "", "NZU")); require(is(currency('N', 'Z', 'V'), "", "NZV")); require(is(currency('N', 'Z', 'W'), "", "NZW")); require(is(currency('N', 'Z', 'X'), "", "NZX")); require(is(currency('N', 'Z', 'Y'), "", "NZY")); require(is(currency('N', 'Z', 'Z'), "", "NZZ"));)
OBLIGATION(no_currency_OA, "esl/economics/currencies.hpp: currency_name (codes without a currency from OA)", (), require(is(currency('O', 'A', 'A'), "", "OAA")); require(is(currency('O', 'A', 'B'), "", "OAB")); require(is(currency('O', 'A', 'C'), "", "OAC")); require(is(currency('O', 'A', 'D'), "", "OAD")); require(is(currency('O', 'A', 'E'), "", "OAE")); require(is(currency('O', 'A', 'F'), "", "OAF")); require(is(currency('O', 'A', 'G'), "", "OAG")); require(is(currency('O', 'A', 'H'), "", "OAH")); require(is(currency('O', 'A', 'I'), "", "OAI")); require(is(currency('O', 'A', 'J'), "", "OAJ")); require(is(currency('O', 'A', 'K'), "", "OAK")); require(is(currency('O', 'A', 'L'), "", "OAL")); require(is(currency('O', 'A', 'M'), "", "OAM")); require(is(currency('O', 'A', 'N'), "", "OAN")); require(is(currency('O', 'A', 'O'), "", "OAO")); require(is(currency('O', 'A', 'P'), "", "OAP")); require(is(currency('O', 'A', 'Q'), "", "OAQ")); require(is(currency('O', 'A', 'R'), "", "OAR")); require(is(currency('O', 'A', 'S'), "", "OAS")); require(is(currency('O', 'A', 'T'), "", "OAT")); require(is(currency('O', 'A', 'U'), "", "OAU")); require(is(currency('O', 'A', 'V'), "", "OAV")); require(is(currency('O', 'A', 'W'), "", "OAW")); require(is(currency('O', 'A', 'X'), "", "OAX")); require(is(currency('O', 'A', 'Y'), "", "OAY")); require(is(currency('O', 'A', 'Z'), "", "OAZ"));)
OBLIGATION(no_currency_OB, "esl/economics/currencies.hpp: currency_name (codes without a currency from OB)", (), require(is(currency('O', 'B', 'A'), "", "OBA")); require(is(currency('O', 'B', 'B'), "", "OBB")); require(is(currency('O', 'B', 'C'), "", "OBC")); require(is(currency('O', 'B', 'D'), "", "OBD")); require(is(currency('O', 'B', 'E'), "", "OBE")); require(is(currency('O', 'B', 'F'), "", "OBF")); require(is(currency('O', 'B', 'G'), "", "OBG")); require(is(currency('O', 'B', 'H'), "", "OBH")); require(is(currency('O', 'B', 'I'), "", "OBI")); require(is(currency('O', 'B', 'J'), "", "OBJ")); require(is(currency('O', 'B', 'K'), "", "OBK")); require(is(currency('O', 'B', 'L'), "", "OBL")); require(is(currency('O', 'B', 'M'), "", "OBM")); require(is(currency('O', 'B', 'N'), "", "OBN")); require(is(currency('O', 'B', 'O'), "", "OBO")); require(is(currency('O', 'B', 'P'), "", "OBP")); require(is(currency('O', 'B', 'Q'), "", "OBQ")); require(is(currency('O', 'B', 'R'), "", "OBR")); require(is(currency('O', 'B', 'S'), "", "OBS")); require(is(currency('O', 'B', 'T'), "", "OBT")); require(is(currency('O', 'B', 'U'), "", "OBU")); require(is(currency('O', 'B', 'V'), "", "OBV")); require(is(currency('O', 'B', 'W'), "", "OBW")); require(is(currency('O', 'B', 'X'), "", "OBX")); require(is(currency('O', 'B', 'Y'), "", "OBY")); require(is(currency('O', 'B', 'Z'), "", "OBZ"));)
OBLIGATION(no_currency_OC, "esl/economics/currencies.hpp: currency_name (codes without a currency from OC)", (), require(is(currency('O', 'C', 'A'), "", "OCA")); require(is(currency('O', 'C', 'B'), "", "OCB")); require(is(currency('O', 'C', 'C'), "", "OCC")); require(is(currency('O', 'C', 'D'), "", "OCD")); require(is(currency('O', 'C', 'E'), "", "OCE")); require(is(currency('O', 'C', 'F'), "", "OCF")); require(is(currency('O', 'C', 'G'), "", "OCG")); require(is(currency('O', 'C', 'H'), "", "OCH")); require(is(currency('O', 'C', 'I'), "", "OCI")); require(is(currency('O', 'C', 'J'), "", "OCJ")); require(is(currency('O', 'C', 'K'), "", "OCK")); require(is(currency('O', 'C', 'L'), "", "OCL")); require(is(currency('O', 'C', 'M'), "", "OCM")); require(is(currency('O', 'C', 'N'), "", "OCN")); require(is(currency('O', 'C', 'O'), "", "OCO")); require(is(currency('O', 'C', 'P'), "", "OCP")); require(is(currency('O', 'C', 'Q'), "", "OCQ")); require(is(currency('O', 'C', 'R'), "", "OCR")); require(is(currency('O', 'C', 'S'), "", "OCS")); require(is(currency('O', 'C', 'T'), "", "OCT")); require(is(currency('O', 'C', 'U'), "", "OCU")); require(is(currency('O', 'C', 'V'), "", "OCV")); require(is(currency('O', 'C', 'W'), "", "OCW")); require(is(currency('O', 'C', 'X'), "", "OCX")); require(is(currency('O', 'C', 'Y'), "", "OCY")); require(is(currency('O', 'C', 'Z'), "", "OCZ"));)
OBLIGATION(no_currency_OD, "esl/economics/currencies.hpp: currency_name (codes without a currency from OD)", (), require(is(currency('O', 'D', 'A'), "", "ODA")); require(is(currency('O', 'D', 'B'), "", "ODB")); require(is(currency('O', 'D', 'C'), "", "ODC")); require(is(currency('O', 'D', 'D'), "", "ODD")); require(is(currency('O', 'D', 'E'), "", "ODE")); require(is(currency('O', 'D', 'F'), "", "ODF")); require(is(currency('O', 'D', 'G'), "", "ODG")); require(is(currency('O', 'D', 'H'), "", "ODH")); require(is(currency('O', 'D', 'I'), "", "ODI")); require(is(currency('O', 'D', 'J'), "", "ODJ")); require(is(currency('O', 'D', 'K'), "", "ODK")); require(is(currency('O', 'D', 'L'), "", "ODL")); require(is(currency('O', 'D', 'M'), "", "ODM")); require(is(currency('O', 'D', 'N'), "", "ODN")); require(is(currency('O', 'D', 'O'), "", "ODO")); require(is(currency('O', 'D', 'P'), "", "ODP")); require(is(currency('O', 'D', 'Q'), "", "ODQ")); require(is(currency('O', 'D', 'R'), "", "ODR")); require(is(currency('O', 'D', 'S'), "", "ODS")); require(is(currency('O', 'D', 'T'), "", "ODT")); require(is(currency('O', 'D', 'U'), "", "ODU")); require(is(currency('O', 'D', 'V'), "", "ODV")); require(is(currency('O', 'D', 'W'), "", "ODW")); require(is(currency('O', 'D', 'X'), "", "ODX")); require(is(currency('O', 'D', 'Y'), "", "ODY")); require(is(currency('O', 'D', 'Z'), "", "ODZ"));)
OBLIGATION(no_currency_OE, "esl/economics/currencies.hpp: currency_name (codes without a currency from OE)", (), require(is(currency('O', 'E', 'A'), "", "OEA")); require(is(currency('O', 'E', 'B'), "", "OEB")); require(is(currency('O', 'E', 'C'), "", "OEC")); require(is(currency('O', 'E', 'D'), "", "OED")); require(is(currency('O', 'E', 'E'), "", "OEE")); require(is(currency('O', 'E', 'F'), "", "OEF")); require(is(currency('O', 'E', 'G'), "", "OEG")); require(is(currency('O', 'E', 'H'), "", "OEH")); require(is(currency('O', 'E', 'I'), "", "OEI")); require(is(currency('O', 'E', 'J'), "", "OEJ")); require(is(currency('O', 'E', 'K'), "", "OEK")); require(is(currency('O', 'E', 'L'), "", "OEL")); require(is(currency('O', 'E', 'M'), "", "OEM")); require(is(currency('O', 'E', 'N'), "", "OEN")); require(is(currency('O', 'E', 'O'), "", "OEO")); require(is(currency('O', 'E', 'P'), "", "OEP")); require(is(currency('O', 'E', 'Q'), "", "OEQ")); require(is(currency('O', 'E', 'R'), "", "OER")); require(is(currency('O', 'E', 'S'), "", "OES")); require(is(currency('O', 'E', 'T'), "", "OET")); require(is(currency('O', 'E', 'U'), "", "OEU")); require(is(currency('O', 'E', 'V'), "", "OEV")); require(is(currency('O', 'E', 'W'), "", "OEW")); require(is(currency('O', 'E', 'X'), "", "OEX")); require(is(currency('O', 'E', 'Y'), "", "OEY")); require(is(currency('O', 'E', 'Z'), "", "OEZ"));)
OBLIGATION(no_currency_OF, "esl/economics/currencies.hpp: currency_name (codes without a currency from OF)", (), require(is(currency('O', 'F', 'A'), "", "OFA")); require(is(currency('O', 'F', 'B'), "", "OFB")); require(is(currency('O', 'F', 'C'), "", "OFC")); require(is(currency('O', 'F', 'D'), "", "OFD")); require(is(currency('O', 'F', 'E'), "", "OFE")); require(is(currency('O', 'F', 'F'), "", "OFF")); require(is(currency('O', 'F', 'G'), "", "OFG")); require(is(currency('O', 'F', 'H'), "", "OFH")); require(is(currency('O', 'F', 'I'), "", "OFI")); require(is(currency('O', 'F', 'J'), "", "OFJ")); require(is(currency('O', 'F', 'K'), "", "OFK")); require(is(currency('O', 'F', 'L'), "", "OFL")); require(is(currency('O', 'F', 'M'), "", "OFM")); require(is(currency('O', 'F', 'N'), "", "OFN")); require(is(currency('O', 'F', 'O'), "", "OFO")); require(is(currency('O', 'F', 'P'), "", "OFP")); require(is(currency('O', 'F', 'Q'), "", "OFQ")); require(is(currency('O', 'F', 'R'), "", "OFR")); require(is(currency('O', 'F', 'S'), "", "OFS")); require(is(currency('O', 'F', 'T'), "", "OFT")); require(is(currency('O', 'F', 'U'), "", "OFU")); require(is(currency('O', 'F', 'V'), "", "OFV")); require(is(currency('O', 'F', 'W'), "", "OFW")); require(is(currency('O', 'F', 'X'), "", "OFX")); require(is(currency('O', 'F', 'Y'), "", "OFY")); require(is(currency('O', 'F', 'Z'), "", "OFZ"));)
OBLIGATION(no_currency_OG, "esl/economics/currencies.hpp: currency_name (codes without a currency from OG)", (), require(is(currency('O', 'G', 'A'), "", "OGA")); require(is(currency('O', 'G', 'B'), "", "OGB")); require(is(currency('O', 'G', 'C'), "", "OGC")); require(is(currency('O', 'G', 'D'), "", "OGD")); require(is(currency('O', 'G', 'E'), "", "OGE")); require(is(currency('O', 'G', 'F'), "", "OGF")); require(is(currency('O', 'G', 'G'), "", "OGG")); require(is(currency('O', 'G', 'H'), "", "OGH")); require(is(currency('O', 'G', 'I'), "", "OGI")); require(is(currency('O', 'G', 'J'), "", "OGJ")); require(is(currency('O', 'G', 'K'), "", "OGK")); require(is(currency('O', 'G', 'L'), "", "OGL")); require(is(currency('O', 'G', 'M'), "", "OGM")); require(is(currency('O', 'G', 'N'), "", "OGN")); require(is(currency('O', 'G', 'O'), "", "OGO")); require(is(currency('O', 'G', 'P'), "", "OGP")); require(is(currency('O', 'G', 'Q'), "", "OGQ")); require(is(currency('O', 'G', 'R'), "", "OGR")); require(is(currency('O', 'G', 'S'), "", "OGS")); require(is(currency('O', 'G', 'T'), "", "OGT")); require(is(currency('O', 'G', 'U'), "", "OGU")); require(is(currency('O', 'G', 'V'), "", "OGV")); require(is(currency('O', 'G', 'W'), "", "OGW")); require(is(currency('O', 'G', 'X'), "", "OGX")); require(is(currency('O', 'G', 'Y'), "", "OGY")); require(is(currency('O', 'G', 'Z'), "", "OGZ"));)
OBLIGATION(no_currency_OH, "esl/economics/currencies.hpp: currency_name (codes without a currency from OH)", (), require(is(currency('O', 'H', 'A'), "", "OHA")); require(is(currency('O', 'H', 'B'), "", "OHB")); require(is(currency('O', 'H', 'C'), "", "OHC")); require(is(currency('O', 'H', 'D'), "", "OHD")); require(is(currency('O', 'H', 'E'), "", "OHE")); require(is(currency('O', 'H', 'F'), "", "OHF")); require(is(currency('O', 'H', 'G'), "", "OHG")); require(is(currency('O', 'H', 'H'), "", "OHH")); require(is(currency('O', 'H', 'I'), "", "OHI")); require(is(currency('O', 'H', 'J'), "", "OHJ")); require(is(currency('O', 'H', 'K'), "", "OHK")); require(is(currency('O', 'H', 'L'), "", "OHL")); require(is(currency('O', 'H', 'M'), "", "OHM")); require(is(currency('O', 'H', 'N'), "", "OHN")); require(is(currency('O', 'H', 'O'), "", "OHO")); require(is(currency('O', 'H', 'P'), "", "OHP")); require(is(currency('O', 'H', 'Q'), "", "OHQ")); require(is(currency('O', 'H', 'R'), "", "OHR")); require(is(currency('O', 'H', 'S'), "", "OHS")); require(is(currency('O', 'H', 'T'), "", "OHT")); require(is(currency('O', 'H', 'U'), "", "OHU")); require(is(currency('O', 'H', 'V'), "", "OHV")); require(is(currency('O', 'H', 'W'), "", "OHW")); require(is(currency('O', 'H', 'X'), "", "OHX")); require(is(currency('O', 'H', 'Y'), "", "OHY")); require(is(currency('O', 'H', 'Z'), "", "OHZ"));)
OBLIGATION(no_currency_OI, "esl/economics/currencies.hpp: currency_name (codes without a currency from OI)", (), require(is(currency('O', 'I', 'A'), "", "OIA")); require(is(currency('O', 'I', 'B'), "", "OIB")); require(is(currency('O', 'I', 'C'), "", "OIC")); require(is(currency('O', 'I', 'D'), "", "OID")); require(is(currency('O', 'I', 'E'), "", "OIE")); require(is(currency('O', 'I', 'F'), "", "OIF")); require(is(currency('O', 'I', 'G'), "", "OIG")); require(is(currency('O', 'I', 'H'), "", "OIH")); require(is(currency('O', 'I', 'I'), "", "OII")); require(is(currency('O', 'I', 'J'), "", "OIJ")); require(is(currency('O', 'I', 'K'), "", "OIK")); require(is(currency('O', 'I', 'L'), "", "OIL")); require(is(currency('O', 'I', 'M'), "", "OIM")); require(is(currency('O', 'I', 'N'), "", "OIN")); require(is(currency('O', 'I', 'O'), "", "OIO")); require(is(currency('O', 'I', 'P'), "", "OIP")); require(is(currency('O', 'I', 'Q'), "", "OIQ")); require(is(currency('O', 'I', 'R'), "", "OIR")); require(is(currency('O', 'I', 'S'), "", "OIS")); require(is(currency('O', 'I', 'T'), "", "OIT")); require(is(currency('O', 'I', 'U'), "", "OIU")); require(is(currency('O', 'I', 'V'), "", "OIV")); require(is(currency('O', 'I', 'W'), "", "OIW")); require(is(currency('O', 'I', 'X'), "", "OIX")); require(is(currency('O', 'I', 'Y'), "", "OIY")); require(is(currency('O', 'I', 'Z'), "", "OIZ"));)
OBLIGATION(no_currency_OJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from OJ)", (), require(is(currency('O', 'J', 'A'), "", "OJA")); require(is(currency('O', 'J', 'B'), "", "OJB")); require(is(currency('O', 'J', 'C'), "", "OJC")); require(is(currency('O', 'J', 'D'), "", "OJD")); require(is(currency('O', 'J', 'E'), "", "OJE")); require(is(currency('O', 'J', 'F'), "", "OJF")); require(is(currency('O', 'J', 'G'), "", "OJG")); require(is(currency('O', 'J', 'H'), "", "OJH")); require(is(currency('O', 'J', 'I'), "", "OJI")); require(is(currency('O', 'J', 'J'), "", "OJJ")); require(is(currency('O', 'J', 'K'), "", "OJK")); require(is(currency('O', 'J', 'L'), "", "OJL")); require(is(currency('O', 'J', 'M'), "", "OJM")); require(is(currency('O', 'J', 'N'), "", "OJN")); require(is(currency('O', 'J', 'O'), "", "OJO")); require(is(currency('O', 'J', 'P'), "", "OJP")); require(is(currency('O', 'J', 'Q'), "", "OJQ")); require(is(currency('O', 'J', 'R'), "", "OJR")); require(is(currency('O', 'J', 'S'), "", "OJS")); require(is(currency('O', 'J', 'T'), "", "OJT")); require(is(currency('O', 'J', 'U'), "", "OJU")); require(is(currency('O', 'J', 'V'), "", "OJV")); require(is(currency('O', 'J', 'W'), "", "OJW")); require(is(currency('O', 'J', 'X'), "", "OJX")); require(is(currency('O', 'J', 'Y'), "", "OJY")); require(is(currency('O', 'J', 'Z'), "", "OJZ"));)
OBLIGATION(no_currency_OK, "esl/economics/currencies.hpp: currency_name (codes without a currency from OK)", (), require(is(currency('O', 'K', 'A'), "", "OKA")); require(is(currency('O', 'K', 'B'), "", "OKB")); require(is(currency('O', 'K', 'C'), "", "OKC")); require(is(currency('O', 'K', 'D'), "", "OKD")); require(is(currency('O', 'K', 'E'), "", "OKE")); require(is(currency('O', 'K', 'F'), "", "OKF")); require(is(currency('O', 'K', 'G'), "", "OKG")); require(is(currency('O', 'K', 'H'), "", "OKH")); require(is(currency('O', 'K', 'I'), "", "OKI")); require(is(currency('O', 'K', 'J'), "", "OKJ")); require(is(currency('O', 'K', 'K'), "", "OKK")); require(is(currency('O', 'K', 'L'), "", "OKL")); require(is(currency('O', 'K', 'M'), "", "OKM")); require(is(currency('O', 'K', 'N'), "", "OKN")); require(is(currency('O', 'K', 'O'), "", "OKO")); require(is(currency('O', 'K', 'P'), "", "OKP")); require(is(currency('O', 'K', 'Q'), "", "OKQ")); require(is(currency('O', 'K', 'R'), "", "OKR")); require(is(currency('O', 'K', 'S'), "", "OKS")); require(is(currency('O', 'K', 'T'), "", "OKT")); require(is(currency('O', 'K', 'U'), "", "OKU")); require(is(currency('O', 'K', 'V'), "", "OKV")); require(is(currency('O', 'K', 'W'), "", "OKW")); require(is(currency('O', 'K', 'X'), "", "OKX")); require(is(currency('O', 'K', 'Y'), "", "OKY")); require(is(currency('O', 'K', 'Z'), "", "OKZ"));)
OBLIGATION(no_currency_OL, "esl/economics/currencies.hpp: currency_name (codes without a currency from OL)", (), require(is(currency('O', 'L', 'A'), "", "OLA")); require(is(currency('O', 'L', 'B'), "", "OLB")); require(is(currency('O', 'L', 'C'), "", "OLC")); require(is(currency('O', 'L', 'D'), "", "OLD")); require(is(currency('O', 'L', 'E'), "", "OLE")); require(is(currency('O', 'L', 'F'), "", "OLF")); require(is(currency('O', 'L', 'G'), "", "OLG")); require(is(currency('O', 'L', 'H'), "", "OLH")); require(is(currency('O', 'L', 'I'), "", "OLI")); require(is(currency('O', 'L', 'J'), "", "OLJ")); require(is(currency('O', 'L', 'K'), "", "OLK")); require(is(currency('O', 'L', 'L'), "", "OLL")); require(is(currency('O', 'L', 'M'), "", "OLM")); require(is(currency('O', 'L', 'N'), "", "OLN")); require(is(currency('O', 'L', 'O'), "", "OLO")); require(is(currency('O', 'L', 'P'), "", "OLP")); require(is(currency('O', 'L', 'Q'), "", "OLQ")); require(is(currency('O', 'L', 'R'), "", "OLR")); require(is(currency('O', 'L', 'S'), "", "OLS")); require(is(currency('O', 'L', 'T'), "", "OLT")); require(is(currency('O', 'L', 'U'), "", "OLU")); require(is(currency('O', 'L', 'V'), "", "OLV")); require(is(currency('O', 'L', 'W'), "", "OLW")); require(is(currency('O', 'L', 'X'), "", "OLX")); require(is(currency('O', 'L', 'Y'), "", "OLY")); require(is(currency('O', 'L', 'Z'), "", "OLZ"));)
OBLIGATION(no_currency_OM, "esl/economics/currencies.hpp: currency_name (codes without a currency from OM)", (), require(is(currency('O', 'M', 'A'), "", "OMA")); require(is(currency('O', 'M', 'B'), "", "OMB")); require(is(currency('O', 'M', 'C'), "", "OMC")); require(is(currency('O', 'M', 'D'), "", "OMD")); require(is(currency('O', 'M', 'E'), "", "OME")); require(is(currency('O', 'M', 'F'), "", "OMF")); require(is(currency('O', 'M', 'G'), "", "OMG")); require(is(currency('O', 'M', 'H'), "", "OMH")); require(is(currency('O', 'M', 'I'), "", "OMI")); require(is(currency('O', 'M', 'J'), "", "OMJ")); require(is(currency('O', 'M', 'K'), "", "OMK")); require(is(currency('O', 'M', 'L'), "", "OML")); require(is(currency('O', 'M', 'M'), "", "OMM")); require(is(currency('O', 'M', 'N'), "", "OMN")); require(is(currency('O', 'M', 'O'), "", "OMO")); require(is(currency('O', 'M', 'P'), "", "OMP")); require(is(currency('O', 'M', 'Q'), "", "OMQ")); require(is(currency('O', 'M', 'S'), "", "OMS")); require(is(currency('O', 'M', 'T'), "", "OMT")); require(is(currency('O', 'M', 'U'), "", "OMU")); require(is(currency('O', 'M', 'V'), "", "OMV")); require(is(currency('O', 'M', 'W'), "", "OMW")); require(is(currency('O', 'M', 'X'), "", "OMX")); require(is(currency('O', 'M', 'Y'), "", "OMY")); require(is(currency('O', 'M', 'Z'), "", "OMZ"));)
OBLIGATION(no_currency_ON, "esl/economics/currencies.hpp: currency_name (codes without a currency from ON)", (), require(is(currency('O', 'N', 'A'), "", "ONA")); require(is(currency('O', 'N', 'B'), "", "ONB")); require(is(currency('O', 'N', 'C'), "", "ONC")); require(is(currency('O', 'N', 'D'), "", "OND")); require(is(currency('O', 'N', 'E'), "", "ONE")); require(is(currency('O', 'N', 'F'), "", "ONF")); require(is(currency('O', 'N', 'G'), "", "ONG")); require(is(currency('O', 'N', 'H'), "", "ONH")); require(is(currency('O', 'N', 'I'), "", "ONI")); require(is(currency('O', 'N', 'J'), "", "ONJ")); require(is(currency('O', 'N', 'K'), "", "ONK")); require(is(currency('O', 'N', 'L'), "", "ONL")); require(is(currency('O', 'N', 'M'), "", "ONM")); require(is(currency('O', 'N', 'N'), "", "ONN")); require(is(currency('O', 'N', 'O'), "", "ONO")); require(is(currency('O', 'N', 'P'), "", "ONP")); require(is(currency('O', 'N', 'Q'), "", "ONQ")); require(is(currency('O', 'N', 'R'), "", "ONR")); require(is(currency('O', 'N', 'S'), "", "ONS")); require(is(currency('O', 'N', 'T'), "", "ONT")); require(is(currency('O', 'N', 'U'), "", "ONU")); require(is(currency('O', 'N', 'V'), "", "ONV")); require(is(currency('O', 'N', 'W'), "", "ONW")); require(is(currency('O', 'N', 'X'), "", "ONX")); require(is(currency('O', 'N', 'Y'), "", "ONY")); require(is(currency('O', 'N', 'Z'), "", "ONZ"));)
OBLIGATION(no_currency_OO, "esl/economics/currencies.hpp: currency_name (codes without a currency from OO)", (), require(is(currency('O', 'O', 'A'), "", "OOA")); require(is(currency('O', 'O', 'B'), "", "OOB")); require(is(currency('O', 'O', 'C'), "", "OOC")); require(is(currency('O', 'O', 'D'), "", "OOD")); require(is(currency('O', 'O', 'E'), "", "OOE")); require(is(currency('O', 'O', 'F'), "", "OOF")); require(is(currency('O', 'O', 'G'), "", "OOG")); require(is(currency('O', 'O', 'H'), "", "OOH")); require(is(currency('O', 'O', 'I'), "", "OOI")); require(is(currency('O', 'O', 'J'), "", "OOJ")); require(is(currency('O', 'O', 'K'), "", "OOK")); require(is(currency('O', 'O', 'L'), "", "OOL")); require(is(currency('O', 'O', 'M'), "", "OOM")); require(is(currency('O', 'O', 'N'), "", "OON")); require(is(currency('O', 'O', 'O'), "", "OOO")); require(is(currency('O', 'O', 'P'), "", "OOP")); require(is(currency('O', 'O', 'Q'), "", "OOQ")); require(is(currency('O', 'O', 'R'), "", "OOR")); require(is(currency('O', 'O', 'S'), "", "OOS")); require(is(currency('O', 'O', 'T'), "", "OOT")); require(is(currency('O', 'O', 'U'), "", "OOU")); require(is(currency('O', 'O', 'V'), "", "OOV")); require(is(currency('O', 'O', 'W'), "", "OOW")); require(is(currency('O', 'O', 'X'), "", "OOX")); require(is(currency('O', 'O', 'Y'), "", "OOY")); require(is(currency('O', 'O', 'Z'), "", "OOZ"));)
OBLIGATION(no_currency_OP, "esl/economics/currencies.hpp: currency_name (codes without a currency from OP)", (), require(is(currency('O', 'P', 'A'), "", "OPA")); require(is(currency('O', 'P', 'B'), "", "OPB")); require(is(currency('O', 'P', 'C'), "", "OPC")); require(is(currency('O', 'P', 'D'), "", "OPD")); require(is(currency('O', 'P', 'E'), "", "OPE")); require(is(currency('O', 'P', 'F'), "", "OPF")); require(is(currency('O', 'P', 'G'), "", "OPG")); require(is(currency('O', 'P', 'H'), "", "OPH")); require(is(currency('O', 'P', 'I'), "", "OPI")); require(is(currency('O', 'P', 'J'), "", "OPJ")); require(is(currency('O', 'P', 'K'), "", "OPK")); require(is(currency('O', 'P', 'L'), "", "OPL")); require(is(currency('O', 'P', 'M'), "", "OPM")); require(is(currency('O', 'P', 'N'), "", "OPN")); require(is(currency('O', 'P', 'O'), "", "OPO")); require(is(currency('O', 'P', 'P'), "", "OPP")); require(is(currency('O', 'P', 'Q'), "", "OPQ")); require(is(currency('O', 'P', 'R'), "", "OPR")); require(is(currency('O', 'P', 'S'), "", "OPS")); require(is(currency('O', 'P', 'T'), "", "OPT")); require(is(currency('O', 'P', 'U'), "", "OPU")); require(is(currency('O', 'P', 'V'), "", "OPV")); require(is(currency('O', 'P', 'W'), "", "OPW")); require(is(currency('O', 'P', 'X'), "", "OPX")); require(is(currency('O', 'P', 'Y'), "", "OPY")); require(is(currency('O', 'P', 'Z'), "", "OPZ"));)
OBLIGATION(no_currency_OQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from OQ)", (), require(is(currency('O', 'Q', 'A'), "", "OQA")); require(is(currency('O', 'Q', 'B'), "", "OQB")); require(is(currency('O', 'Q', 'C'), "", "OQC")); require(is(currency('O', 'Q', 'D'), "", "OQD")); require(is(currency('O', 'Q', 'E'), "", "OQE")); require(is(currency('O', 'Q', 'F'), "", "OQF")); require(is(currency('O', 'Q', 'G'), "", "OQG")); require(is(currency('O', 'Q', 'H'), "", "OQH")); require(is(currency('O', 'Q', 'I'), "", "OQI")); require(is(currency('O', 'Q', 'J'), "", "OQJ")); require(is(currency('O', 'Q', 'K'), "", "OQK")); require(is(currency('O', 'Q', 'L'), "", "OQL")); require(is(currency('O', 'Q', 'M'), "", "OQM")); require(is(currency('O', 'Q', 'N'), "", "OQN")); require(is(currency('O', 'Q', 'O'), "", "OQO")); require(is(currency('O', 'Q', 'P'), "", "OQP")); require(is(currency('O', 'Q', 'Q'), "", "OQQ")); require(is(currency('O', 'Q', 'R'), "", "OQR")); require(is(currency('O', 'Q', 'S'), "", "OQS")); require(is(currency('O', 'Q', 'T'), "", "OQT")); require(is(currency('O', 'Q', 'U'), "", "OQU")); require(is(currency('O', 'Q', 'V'), "", "OQV")); require(is(currency('O', 'Q', 'W'), "", "OQW")); require(is(currency('O', 'Q', 'X'), "", "OQX")); require(is(currency('O', 'Q', 'Y'), "", "OQY")); require(is(currency('O', 'Q', 'Z'), "", "OQZ"));)
OBLIGATION(no_currency_OR, "esl/economics/currencies.hpp: currency_name (codes without a currency from OR)", (), require(is(currency('O', 'R', 'A'), "", "ORA")); require(is(currency('O', 'R', 'B'), "", "ORB")); require(is(currency('O', 'R', 'C'), "", "ORC")); require(is(currency('O', 'R', 'D'), "", "ORD")); require(is(currency('O', 'R', 'E'), "", "ORE")); require(is(currency('O', 'R', 'F'), "", "ORF")); require(is(currency('O', 'R', 'G'), "", "ORG")); require(is(currency('O', 'R', 'H'), "", "ORH")); require(is(currency('O', 'R', 'I'), "", "ORI")); require(is(currency('O', 'R', 'J'), "", "ORJ")); require(is(currency('O', 'R', 'K'), "", "ORK")); require(is(currency('O', 'R', 'L'), "", "ORL")); require(is(currency('O', 'R', 'M'), "", "ORM")); require(is(currency('O', 'R', 'N'), "", "ORN")); require(is(currency('O', 'R', 'O'), "", "ORO")); require(is(currency('O', 'R', 'P'), "", "ORP")); require(is(currency('O', 'R', 'Q'), "", "ORQ")); require(is(currency('O', 'R', 'R'), "", "ORR")); require(is(currency('O', 'R', 'S'), "", "ORS")); require(is(currency('O', 'R', 'T'), "", "ORT")); require(is(currency('O', 'R', 'U'), "", "ORU")); require(is(currency('O', 'R', 'V'), "", "ORV")); require(is(currency('O', 'R', 'W'), "", "ORW")); require(is(currency('O', 'R', 'X'), "", "ORX")); require(is(currency('O', 'R', 'Y'), "", "ORY")); require(is(currency('O', 'R', 'Z'), "", "ORZ"));)
OBLIGATION(no_currency_OS, "esl/economics/currencies.hpp: currency_name (codes without a currency from OS)", (), require(is(currency('O', 'S', 'A'), "", "OSA")); require(is(currency('O', 'S', 'B'), "", "OSB")); require(is(currency('O', 'S', 'C'), "", "OSC")); require(is(currency('O', 'S', 'D'), "", "OSD")); require(is(currency('O', 'S', 'E'), "", "OSE")); require(is(currency('O', 'S', 'F'), "", "OSF")); require(is(currency('O', 'S', 'G'), "", "OSG")); require(is(currency('O', 'S', 'H'), "", "OSH")); require(is(currency('O', 'S', 'I'), "", "OSI")); require(is(currency('O', 'S', 'J'), "", "OSJ")); require(is(currency('O', 'S', 'K'), "", "OSK")); require(is(currency('O', 'S', 'L'), "", "OSL")); require(is(currency('O', 'S', 'M'), "", "OSM")); require(is(currency('O', 'S', 'N'), "", "OSN")); require(is(currency('O', 'S', 'O'), "", "OSO")); require(is(currency('O', 'S', 'P'), "", "OSP")); require(is(currency('O', 'S', 'Q'), "", "OSQ")); require(is(currency('O', 'S', 'R'), "", "OSR")); require(is(currency('O', 'S', 'S'), "", "OSS")); require(is(currency('O', 'S', 'T'), "", "OST")); require(is(currency('O', 'S', 'U'), "", "OSU")); require(is(currency('O', 'S', 'V'), "", "OSV")); require(is(currency('O', 'S', 'W'), "", "OSW")); require(is(currency('O', 'S', 'X'), "", "OSX")); require(is(currency('O', 'S', 'Y'), "", "OSY")); require(is(currency('O', 'S', 'Z'), "", "OSZ"));)
OBLIGATION(no_currency_OT, "esl/economics/currencies.hpp: currency_name (codes without a currency from OT)", (), require(is(currency('O', 'T', 'A'), "", "OTA")); require(is(currency('O', 'T', 'B'), "", "OTB")); require(is(currency('O', 'T', 'C'), "", "OTC")); require(is(currency('O', 'T', 'D'), "", "OTD")); require(is(currency('O', 'T', 'E'), "", "OTE")); require(is(currency('O', 'T', 'F'), "", "OTF")); require(is(currency('O', 'T', 'G'), "", "OTG")); require(is(currency('O', 'T', 'H'), "", "OTH")); require(is(currency('O', 'T', 'I'), "", "OTI")); require(is(currency('O', 'T', 'J'), "", "OTJ")); require(is(currency('O', 'T', 'K'), "", "OTK")); require(is(currency('O', 'T', 'L'), "", "OTL")); require(is(currency('O', 'T', 'M'), "", "OTM")); require(is(currency('O', 'T', 'N'), "", "OTN")); require(is(currency('O', 'T', 'O'), "", "OTO")); require(is(currency('O', 'T', 'P'), "", "OTP")); require(is(currency('O', 'T', 'Q'), "", "OTQ")); require(is(currency('O', 'T', 'R'), "", "OTR")); require(is(currency('O', 'T', 'S'), "", "OTS")); require(is(currency('O', 'T', 'T'), "", "OTT")); require(is(currency('O', 'T', 'U'), "", "OTU")); require(is(currency('O', 'T', 'V'), "", "OTV")); require(is(currency('O', 'T', 'W'), "", "OTW")); require(is(currency('O', 'T', 'X'), "", "OTX")); require(is(currency('O', 'T', 'Y'), "", "OTY")); require(is(currency('O', 'T', 'Z'), "", "OTZ"));)
OBLIGATION(no_currency_OU, "esl/economics/currencies.hpp: currency_name (codes without a currency from OU)", (), require(is(currency('O', 'U', 'A'), "", "OUA")); require(is(currency('O', 'U', 'B'), "", "OUB")); require(is(currency('O', 'U', 'C'), "", "OUC")); require(is(currency('O', 'U', 'D'), "", "OUD")); require(is(currency('O', 'U', 'E'), "", "OUE")); require(is(currency('O', 'U', 'F'), "", "OUF")); require(is(currency('O', 'U', 'G'), "", "OUG")); require(is(currency('O', 'U', 'H'), "", "OUH")); require(is(currency('O', 'U', 'I'), "", "OUI")); require(is(currency('O', 'U', 'J'), "", "OUJ")); require(is(currency('O', 'U', 'K'), "", "OUK")); require(is(currency('O', 'U', 'L'), "", "OUL")); require(is(currency('O', 'U', 'M'), "", "OUM")); require(is(currency('O', 'U', 'N'), "", "OUN")); require(is(currency('O', 'U', 'O'), "", "OUO")); require(is(currency('O', 'U', 'P'), "", "OUP")); require(is(currency('O', 'U', 'Q'), "", "OUQ")); require(is(currency('O', 'U', 'R'), "", "OUR")); require(is(currency('O', 'U', 'S'), "", "OUS")); require(is(currency('O', 'U', 'T'), "", "OUT")); require(is(currency('O', 'U', 'U'), "", "OUU")); require(is(currency('O', 'U', 'V'), "", "OUV")); require(is(currency('O', 'U', 'W'), "", "OUW")); require(is(currency('O', 'U', 'X'), "", "OUX")); require(is(currency('O', 'U', 'Y'), "", "OUY")); require(is(currency('O', 'U', 'Z'), "", "OUZ"));)
OBLIGATION(no_currency_OV, "esl/economics/currencies.hpp: currency_name (codes without a currency from OV)", (), require(is(currency('O', 'V', 'A'), "", "OVA")); require(is(currency('O', 'V', 'B'), "", "OVB")); require(is(currency('O', 'V', 'C'), "", "OVC")); require(is(currency('O', 'V', 'D'), "", "OVD")); require(is(currency('O', 'V', 'E'), "", "OVE")); require(is(currency('O', 'V', 'F'), "", "OVF")); require(is(currency('O', 'V', 'G'), "", "OVG")); require(is(currency('O', 'V', 'H'), "", "OVH")); require(is(currency('O', 'V', 'I'), "", "OVI")); require(is(currency('O', 'V', 'J'), "", "OVJ")); require(is(currency('O', 'V', 'K'), "", "OVK")); require(is(currency('O', 'V', 'L'), "", "OVL")); require(is(currency('O', 'V', 'M'), "", "OVM")); require(is(currency('O', 'V', 'N'), "", "OVN")); require(is(currency('O', 'V', 'O'), "", "OVO")); require(is(currency('O', 'V', 'P'), "", "OVP")); require(is(currency('O', 'V', 'Q'), "", "OVQ")); require(is(currency('O', 'V', 'R'), "", "OVR")); require(is(currency('O', 'V', 'S'), "", "OVS")); require(is(currency('O', 'V', 'T'), "", "OVT")); require(is(currency('O', 'V', 'U'), "", "OVU")); require(is(currency('O', 'V', 'V'), "", "OVV")); require(is(currency('O', 'V', 'W'), "", "OVW")); require(is(currency('O', 'V', 'X'), "", "OVX")); require(is(currency('O', 'V', 'Y'), "", "OVY")); require(is(currency('O', 'V', 'Z'), "", "OVZ"));)
OBLIGATION(no_currency_OW, "esl/economics/currencies.hpp: currency_name (codes without a currency from OW)", (), require(is(currency('O', 'W', 'A'), "", "OWA")); require(is(currency('O', 'W', 'B'), "", "OWB")); require(is(currency('O', 'W', 'C'), "", "OWC")); require(is(currency('O', 'W', 'D'), "", "OWD")); require(is(currency('O', 'W', 'E'), "", "OWE")); require(is(currency('O', 'W', 'F'), "", "OWF")); require(is(currency('O', 'W', 'G'), "", "OWG")); require(is(currency('O', 'W', 'H'), "", "OWH")); require(is(currency('O', 'W', 'I'), "", "OWI")); require(is(currency('O', 'W', 'J'), "", "OWJ")); require(is(currency('O', 'W', 'K'), "", "OWK")); require(is(currency('O', 'W', 'L'), "", "OWL")); require(is(currency('O', 'W', 'M'), "", "OWM")); require(is(currency('O', 'W', 'N'), "", "OWN")); require(is(currency('O', 'W', 'O'), "", "OWO")); require(is(currency('O', 'W', 'P'), "", "OWP")); require(is(currency('O', 'W', 'Q'), "", "OWQ")); require(is(currency('O', 'W', 'R'), "", "OWR")); require(is(currency('O', 'W', 'S'), "", "OWS")); require(is(currency('O', 'W', 'T'), "", "OWT")); require(is(currency('O', 'W', 'U'), "", "OWU")); require(is(currency('O', 'W', 'V'), "", "OWV")); require(is(currency('O', 'W', 'W'), "", "OWW")); require(is(currency('O', 'W', 'X'), "", "OWX")); require(is(currency('O', 'W', 'Y'), "", "OWY")); require(is(currency('O', 'W', 'Z'), "", "OWZ"));)
OBLIGATION(no_currency_OX, "esl/economics/currencies.hpp: currency_name (codes without a currency from OX)", (), require(is(currency('O', 'X', 'A'), "", "OXA")); require(is(currency('O', 'X', 'B'), "", "OXB")); require(is(currency('O', 'X', 'C'), "", "OXC")); require(is(currency('O', 'X', 'D'), "", "OXD")); require(is(currency('O', 'X', 'E'), "", "OXE")); require(is(currency('O', 'X', 'F'), "", "OXF")); require(is(currency('O', 'X', 'G'), "", "OXG")); require(is(currency('O', 'X', 'H'), "", "OXH")); require(is(currency('O', 'X', 'I'), "", "OXI")); require(is(currency('O', 'X', 'J'), "", "OXJ")); require(is(currency('O', 'X', 'K'), "", "OXK")); require(is(currency('O', 'X', 'L'), "", "OXL")); require(is(currency('O', 'X', 'M'), "", "OXM")); require(is(currency('O', 'X', 'N'), "", "OXN")); require(is(currency('O', 'X', 'O'), "", "OXO")); require(is(currency('O', 'X', 'P'), "", "OXP")); require(is(currency('O', 'X', 'Q'), "", "OXQ")); require(is(currency('O', 'X', 'R'), "", "OXR")); require(is(currency('O', 'X', 'S'), "", "OXS")); require(is(currency('O', 'X', 'T'), "", "OXT")); require(is(currency('O', 'X', 'U'), "", "OXU")); require(is(currency('O', 'X', 'V'), "", "OXV")); require(is(currency('O', 'X', 'W'), "", "OXW")); require(is(currency('O', 'X', 'X'), "", "OXX")); require(is(currency('O', 'X', 'Y'), "", "OXY")); require(is(currency('O', 'X', 'Z'), "", "OXZ"));)
OBLIGATION(no_currency_OY, "esl/economics/currencies.hpp: currency_name (codes without a currency from OY)", (), require(is(currency('O', 'Y', 'A'), "", "OYA")); require(is(currency('O', 'Y', 'B'), "", "OYB")); require(is(currency('O', 'Y', 'C'), "", "OYC")); require(is(currency('O', 'Y', 'D'), "", "OYD")); require(is(currency('O', 'Y', 'E'), "", "OYE")); require(is(currency('O', 'Y', 'F'), "", "OYF")); require(is(currency('O', 'Y', 'G'), "", "OYG")); require(is(currency('O', 'Y', 'H'), "", "OYH")); require(is(currency('O', 'Y', 'I'), "", "OYI")); require(is(currency('O', 'Y', 'J'), "", "OYJ")); require(is(currency('O', 'Y', 'K'), "", "OYK")); require(is(currency('O', 'Y', 'L'), "", "OYL")); require(is(currency('O', 'Y', 'M'), "", "OYM")); require(is(currency('O', 'Y', 'N'), "", "OYN")); require(is(currency('O', 'Y', 'O'), "", "OYO")); require(is(currency('O', 'Y', 'P'), "", "OYP")); require(is(currency('O', 'Y', 'Q'), "", "OYQ")); require(is(currency('O', 'Y', 'R'), "", "OYR")); require(is(currency('O', 'Y', 'S'), "", "OYS")); require(is(currency('O', 'Y', 'T'), "", "OYT")); require(is(currency('O', 'Y', 'U'), "", "OYU")); require(is(currency('O', 'Y', 'V'), "", "OYV")); require(is(currency('O', 'Y', 'W'), "", "OYW")); require(is(currency('O', 'Y', 'X'), "", "OYX")); require(is(currency('O', 'Y', 'Y'), "", "OYY")); require(is(currency('O', 'Y', 'Z'), "", "OYZ"));)
OBLIGATION(no_currency_OZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from OZ)", (), require(is(currency('O', 'Z', 'A'), "", "OZA")); require(is(currency('O', 'Z', 'B'), "", "OZB")); require(is(currency('O', 'Z', 'C'), "", "OZC")); require(is(currency('O', 'Z', 'D'), "", "OZD")); require(is(currency('O', 'Z', 'E'), "", "OZE")); require(is(currency('O', 'Z', 'F'), "", "OZF")); require(is(currency('O', 'Z', 'G'), "", "OZG")); require(is(currency('O', 'Z', 'H'), "", "OZH")); require(is(currency('O', 'Z', 'I'), "", "OZI")); require(is(currency('O', 'Z', 'J'), "", "OZJ")); require(is(currency('O', 'Z', 'K'), "", "OZK")); require(is(currency('O', 'Z', 'L'), "", "OZL")); require(is(currency('O', 'Z', 'M'), "", "OZM")); require(is(currency('O', 'Z', 'N'), "", "OZN")); require(is(currency('O', 'Z', 'O'), "", "OZO")); require(is(currency('O', 'Z', 'P'), "", "OZP")); require(is(currency('O', 'Z', 'Q'), "", "OZQ")); require(is(currency('O', 'Z', 'R'), "", "OZR")); require(is(currency('O', 'Z', 'S'), "", "OZS")); require(is(currency('O', 'Z', 'T'), "", "OZT")); require(is(currency('O', 'Z', 'U'), "", "OZU")); require(is(currency('O', 'Z', 'V'), "", "OZV")); require(is(currency('O', 'Z', 'W'), "", "OZW")); require(is(currency('O', 'Z', 'X'), "", "OZX")); require(is(currency('O', 'Z', 'Y'), "", "OZY")); require(is(currency('O', 'Z', 'Z'), "", "OZZ"));)
OBLIGATION(no_currency_PA, "esl/economics/currencies.hpp: currency_name (codes without a currency from PA)", (), require(is(currency('P', 'A', 'A'), "", "PAA")); require(is(currency('P', 'A', 'C'), "", "PAC")); require(is(currency('P', 'A', 'D'), "", "PAD")); require(is(currency('P', 'A', 'E'), "", "PAE")); require(is(currency('P', 'A', 'F'), "", "PAF")); require(is(currency('P', 'A', 'G'), "", "PAG")); require(is(currency('P', 'A', 'H'), "", "PAH")); require(is(currency('P', 'A', 'I'), "", "PAI")); require(is(currency('P', 'A', 'J'), "", "PAJ")); require(is(currency('P', 'A', 'K'), "", "PAK")); require(is(currency('P', 'A', 'L'), "", "PAL")); require(is(currency('P', 'A', 'M'), "", "PAM")); require(is(currency('P', 'A', 'N'), "", "PAN")); require(is(currency('P', 'A', 'O'), "", "PAO")); require(is(currency('P', 'A', 'P'), "", "PAP")); require(is(currency('P', 'A', 'Q'), "", "PAQ")); require(is(currency('P', 'A', 'R'), "", "PAR")); require(is(currency('P', 'A', 'S'), "", "PAS")); require(is(currency('P', 'A', 'T'), "", "PAT")); require(is(currency('P', 'A', 'U'), "", "PAU")); require(is(currency('P', 'A', 'V'), "", "PAV")); require(is(currency('P', 'A', 'W'), "", "PAW")); require(is(currency('P', 'A', 'X'), "", "PAX")); require(is(currency('P', 'A', 'Y'), "", "PAY")); require(is(currency('P', 'A', 'Z'), "", "PAZ"));)
OBLIGATION(no_currency_PB, "esl/economics/currencies.hpp: currency_name (codes without a currency from PB)", (), require(is(currency('P', 'B', 'A'), "", "PBA")); require(is(currency('P', 'B', 'B'), "", "PBB")); require(is(currency('P', 'B', 'C'), "", "PBC")); require(is(currency('P', 'B', 'D'), "", "PBD")); require(is(currency('P', 'B', 'E'), "", "PBE")); require(is(currency('P', 'B', 'F'), "", "PBF")); require(is(currency('P', 'B', 'G'), "", "PBG")); require(is(currency('P', 'B', 'H'), "", "PBH")); require(is(currency('P', 'B', 'I'), "", "PBI")); require(is(currency('P', 'B', 'J'), "", "PBJ")); require(is(currency('P', 'B', 'K'), "", "PBK")); require(is(currency('P', 'B', 'L'), "", "PBL")); require(is(currency('P', 'B', 'M'), "", "PBM")); require(is(currency('P', 'B', 'N'), "", "PBN")); require(is(currency('P', 'B', 'O'), "", "PBO")); require(is(currency('P', 'B', 'P'), "", "PBP")); require(is(currency('P', 'B', 'Q'), "", "PBQ")); require(is(currency('P', 'B', 'R'), "", "PBR")); require(is(currency('P', 'B', 'S'), "", "PBS")); require(is(currency('P', 'B', 'T'), "", "PBT")); require(is(currency('P', 'B', 'U'), "", "PBU")); require(is(currency('P', 'B', 'V'), "", "PBV")); require(is(currency('P', 'B', 'W'), "", "PBW")); require(is(currency('P', 'B', 'X'), "", "PBX")); require(is(currency('P', 'B', 'Y'), "", "PBY")); require(is(currency('P', 'B', 'Z'), "", "PBZ"));)
OBLIGATION(no_currency_PC, "esl/economics/currencies.hpp: currency_name (codes without a currency from PC)", (), require(is(currency('P', 'C', 'A'), "", "PCA")); require(is(currency('P', 'C', 'B'), "", "PCB")); require(is(currency('P', 'C', 'C'), "", "PCC")); require(is(currency('P', 'C', 'D'), "", "PCD")); require(is(currency('P', 'C', 'E'), "", "PCE")); require(is(currency('P', 'C', 'F'), "", "PCF")); require(is(currency('P', 'C', 'G'), "", "PCG")); require(is(currency('P', 'C', 'H'), "", "PCH")); require(is(currency('P', 'C', 'I'), "", "PCI")); require(is(currency('P', 'C', 'J'), "", "PCJ")); require(is(currency('P', 'C', 'K'), "", "PCK")); require(is(currency('P', 'C', 'L'), "", "PCL")); require(is(currency('P', 'C', 'M'), "", "PCM")); require(is(currency('P', 'C', 'N'), "", "PCN")); require(is(currency('P', 'C', 'O'), "", "PCO")); require(is(currency('P', 'C', 'P'), "", "PCP")); require(is(currency('P', 'C', 'Q'), "", "PCQ")); require(is(currency('P', 'C', 'R'), "", "PCR")); require(is(currency('P', 'C', 'S'), "", "PCS")); require(is(currency('P', 'C', 'T'), "", "PCT")); require(is(currency('P', 'C', 'U'), "", "PCU")); require(is(currency('P', 'C', 'V'), "", "PCV")); require(is(currency('P', 'C', 'W'), "", "PCW")); require(is(currency('P', 'C', 'X'), "", "PCX")); require(is(currency('P', 'C', 'Y'), "", "PCY")); require(is(currency('P', 'C', 'Z'), "", "PCZ"));)
OBLIGATION(no_currency_PD, "esl/economics/currencies.hpp: currency_name (codes without a currency from PD)", (), require(is(currency('P', 'D', 'A'), "", "PDA")); require(is(currency('P', 'D', 'B'), "", "PDB")); require(is(currency('P', 'D', 'C'), "", "PDC")); require(is(currency('P', 'D', 'D'), "", "PDD")); require(is(currency('P', 'D', 'E'), "", "PDE")); require(is(currency('P', 'D', 'F'), "", "PDF")); require(is(currency('P', 'D', 'G'), "", "PDG")); require(is(currency('P', 'D', 'H'), "", "PDH")); require(is(currency('P', 'D', 'I'), "", "PDI")); require(is(currency('P', 'D', 'J'), "", "PDJ")); require(is(currency('P', 'D', 'K'), "", "PDK")); require(is(currency('P', 'D', 'L'), "", "PDL")); require(is(currency('P', 'D', 'M'), "", "PDM")); require(is(currency('P', 'D', 'N'), "", "PDN")); require(is(currency('P', 'D', 'O'), "", "PDO")); require(is(currency('P', 'D', 'P'), "", "PDP")); require(is(currency('P', 'D', 'Q'), "", "PDQ")); require(is(currency('P', 'D', 'R'), "", "PDR")); require(is(currency('P', 'D', 'S'), "", "PDS")); require(is(currency('P', 'D', 'T'), "", "PDT")); require(is(currency('P', 'D', 'U'), "", "PDU")); require(is(currency('P', 'D', 'V'), "", "PDV")); require(is(currency('P', 'D', 'W'), "", "PDW")); require(is(currency('P', 'D', 'X'), "", "PDX")); require(is(currency('P', 'D', 'Y'), "", "PDY")); require(is(currency('P', 'D', 'Z'), "", "PDZ"));)
OBLIGATION(no_currency_PE, "esl/economics/currencies.hpp: currency_name (codes without a currency from PE)", (), require(is(currency('P', 'E', 'A'), "", "PEA")); require(is(currency('P', 'E', 'B'), "", "PEB")); require(is(currency('P', 'E', 'C'), "", "PEC")); require(is(currency('P', 'E', 'D'), "", "PED")); require(is(currency('P', 'E', 'E'), "", "PEE")); require(is(currency('P', 'E', 'F'), "", "PEF")); require(is(currency('P', 'E', 'G'), "", "PEG")); require(is(currency('P', 'E', 'H'), "", "PEH")); require(is(currency('P', 'E', 'I'), "", "PEI")); require(is(currency('P', 'E', 'J'), "", "PEJ")); require(is(currency('P', 'E', 'K'), "", "PEK")); require(is(currency('P', 'E', 'L'), "", "PEL")); require(is(currency('P', 'E', 'M'), "", "PEM")); require(is(currency('P', 'E', 'O'), "", "PEO")); require(is(currency('P', 'E', 'P'), "", "PEP")); require(is(currency('P', 'E', 'Q'), "", "PEQ")); require(is(currency('P', 'E', 'R'), "", "PER")); require(is(currency('P', 'E', 'S'), "", "PES")); require(is(currency('P', 'E', 'T'), "", "PET")); require(is(currency('P', 'E', 'U'), "", "PEU")); require(is(currency('P', 'E', 'V'), "", "PEV")); require(is(currency('P', 'E', 'W'), "", "PEW")); require(is(currency('P', 'E', 'X'), "", "PEX")); require(is(currency('P', 'E', 'Y'), "", "PEY")); require(is(currency('P', 'E', 'Z'), "", "PEZ"));)
OBLIGATION(no_currency_PF, "esl/economics/currencies.hpp: currency_name (codes without a currency from PF)", (), require(is(currency('P', 'F', 'A'), "", "PFA")); require(is(currency('P', 'F', 'B'), "", "PFB")); require(is(currency('P', 'F', 'C'), "", "PFC")); require(is(currency('P', 'F', 'D'), "", "PFD")); require(is(currency('P', 'F', 'E'), "", "PFE")); require(is(currency('P', 'F', 'F'), "", "PFF")); require(is(currency('P', 'F', 'G'), "", "PFG")); require(is(currency('P', 'F', 'H'), "", "PFH")); require(is(currency('P', 'F', 'I'), "", "PFI")); require(is(currency('P', 'F', 'J'), "", "PFJ")); require(is(currency('P', 'F', 'K'), "", "PFK")); require(is(currency('P', 'F', 'L'), "", "PFL")); require(is(currency('P', 'F', 'M'), "", "PFM")); require(is(currency('P', 'F', 'N'), "", "PFN")); require(is(currency('P', 'F', 'O'), "", "PFO")); require(is(currency('P', 'F', 'P'), "", "PFP")); require(is(currency('P', 'F', 'Q'), "", "PFQ")); require(is(currency('P', 'F', 'R'), "", "PFR")); require(is(currency('P', 'F', 'S'), "", "PFS")); require(is(currency('P', 'F', 'T'), "", "PFT")); require(is(currency('P', 'F', 'U'), "", "PFU")); require(is(currency('P', 'F', 'V'), "", "PFV")); require(is(currency('P', 'F', 'W'), "", "PFW")); require(is(currency('P', 'F', 'X'), "", "PFX")); require(is(currency('P', 'F', 'Y'), "", "PFY")); require(is(currency('P', 'F', 'Z'), "", "PFZ"));)
OBLIGATION(no_currency_PG, "esl/economics/currencies.hpp: currency_name (codes without a currency from PG)", (), require(is(currency('P', 'G', 'A'), "", "PGA")); require(is(currency('P', 'G', 'B'), "", "PGB")); require(is(currency('P', 'G', 'C'), "", "PGC")); require(is(currency('P', 'G', 'D'), "", "PGD")); require(is(currency('P', 'G', 'E'), "", "PGE")); require(is(currency('P', 'G', 'F'), "", "PGF")); require(is(currency('P', 'G', 'G'), "", "PGG")); require(is(currency('P', 'G', 'H'), "", "PGH")); require(is(currency('P', 'G', 'I'), "", "PGI")); require(is(currency('P', 'G', 'J'), "", "PGJ")); require(is(currency('P', 'G', 'L'), "", "PGL")); require(is(currency('P', 'G', 'M'), "", "PGM")); require(is(currency('P', 'G', 'N'), "", "PGN")); require(is(currency('P', 'G', 'O'), "", "PGO")); require(is(currency('P', 'G', 'P'), "", "PGP")); require(is(currency('P', 'G', 'Q'), "", "PGQ")); require(is(currency('P', 'G', 'R'), "", "PGR")); require(is(currency('P', 'G', 'S'), "", "PGS")); require(is(currency('P', 'G', 'T'), "", "PGT")); require(is(currency('P', 'G', 'U'), "", "PGU")); require(is(currency('P', 'G', 'V'), "", "PGV")); require(is(currency('P', 'G', 'W'), "", "PGW")); require(is(currency('P', 'G', 'X'), "", "PGX")); require(is(currency('P', 'G', 'Y'), "", "PGY")); require(is(currency('P', 'G', 'Z'), "", "PGZ"));)
OBLIGATION(no_currency_PH, "esl/economics/currencies.hpp: currency_name (codes without a currency from PH)", (), require(is(currency('P', 'H', 'A'), "", "PHA")); require(is(currency('P', 'H', 'B'), "", "PHB")); require(is(currency('P', 'H', 'C'), "", "PHC")); require(is(currency('P', 'H', 'D'), "", "PHD")); require(is(currency('P', 'H', 'E'), "", "PHE")); require(is(currency('P', 'H', 'F'), "", "PHF")); require(is(currency('P', 'H', 'G'), "", "PHG")); require(is(currency('P', 'H', 'H'), "", "PHH")); require(is(currency('P', 'H', 'I'), "", "PHI")); require(is(currency('P', 'H', 'J'), "", "PHJ")); require(is(currency('P', 'H', 'K'), "", "PHK")); require(is(currency('P', 'H', 'L'), "", "PHL")); require(is(currency('P', 'H', 'M'), "", "PHM")); require(is(currency('P', 'H', 'N'), "", "PHN")); require(is(currency('P', 'H', 'O'), "", "PHO")); require(is(currency('P', 'H', 'Q'), "", "PHQ")); require(is(currency('P', 'H', 'R'), "", "PHR")); require(is(currency('P', 'H', 'S'), "", "PHS")); require(is(currency('P', 'H', 'T'), "", "PHT")); require(is(currency('P', 'H', 'U'), "", "PHU")); require(is(currency('P', 'H', 'V'), "", "PHV")); require(is(currency('P', 'H', 'W'), "", "PHW")); require(is(currency('P', 'H', 'X'), "", "PHX")); require(is(currency('P', 'H', 'Y'), "", "PHY")); require(is(currency('P', 'H', 'Z'), "", "PHZ"));)
OBLIGATION(no_currency_PI, "esl/economics/currencies.hpp: currency_name (codes without a currency from PI)", (), require(is(currency('P', 'I', 'A'), "", "PIA")); require(is(currency('P', 'I', 'B'), "", "PIB")); require(is(currency('P', 'I', 'C'), "", "PIC")); require(is(currency('P', 'I', 'D'), "", "PID")); require(is(currency('P', 'I', 'E'), "", "PIE")); require(is(currency('P', 'I', 'F'), "", "PIF")); require(is(currency('P', 'I', 'G'), "", "PIG")); require(is(currency('P', 'I', 'H'), "", "PIH")); require(is(currency('P', 'I', 'I'), "", "PII")); require(is(currency('P', 'I', 'J'), "", "PIJ")); require(is(currency('P', 'I', 'K'), "", "PIK")); require(is(currency('P', 'I', 'L'), "", "PIL")); require(is(currency('P', 'I', 'M'), "", "PIM")); require(is(currency('P', 'I', 'N'), "", "PIN")); require(is(currency('P', 'I', 'O'), "", "PIO")); require(is(currency('P', 'I', 'P'), "", "PIP")); require(is(currency('P', 'I', 'Q'), "", "PIQ")); require(is(currency('P', 'I', 'R'), "", "PIR")); require(is(currency('P', 'I', 'S'), "", "PIS")); require(is(currency('P', 'I', 'T'), "", "PIT")); require(is(currency('P', 'I', 'U'), "", "PIU")); require(is(currency('P', 'I', 'V'), "", "PIV")); require(is(currency('P', 'I', 'W'), "", "PIW")); require(is(currency('P', 'I', 'X'), "", "PIX")); require(is(currency('P', 'I', 'Y'), "", "PIY")); require(is(currency('P', 'I', 'Z'), "", "PIZ"));)
OBLIGATION(no_currency_PJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from PJ)", (), require(is(currency('P', 'J', 'A'), "", "PJA")); require(is(currency('P', 'J', 'B'), "", "PJB")); require(is(currency('P', 'J', 'C'), "", "PJC")); require(is(currency('P', 'J', 'D'), "", "PJD")); require(is(currency('P', 'J', 'E'), "", "PJE")); require(is(currency('P', 'J', 'F'), "", "PJF")); require(is(currency('P', 'J', 'G'), "", "PJG")); require(is(currency('P', 'J', 'H'), "", "PJH")); require(is(currency('P', 'J', 'I'), "", "PJI")); require(is(currency('P', 'J', 'J'), "", "PJJ")); require(is(currency('P', 'J', 'K'), "", "PJK")); require(is(currency('P', 'J', 'L'), "", "PJL")); require(is(currency('P', 'J', 'M'), "", "PJM")); require(is(currency('P', 'J', 'N'), "", "PJN")); require(is(currency('P', 'J', 'O'), "", "PJO")); require(is(currency('P', 'J', 'P'), "", "PJP")); require(is(currency('P', 'J', 'Q'), "", "PJQ")); require(is(currency('P', 'J', 'R'), "", "PJR")); require(is(currency('P', 'J', 'S'), "", "PJS")); require(is(currency('P', 'J', 'T'), "", "PJT")); require(is(currency('P', 'J', 'U'), "", "PJU")); require(is(currency('P', 'J', 'V'), "", "PJV")); require(is(currency('P', 'J', 'W'), "", "PJW")); require(is(currency('P', 'J', 'X'), "", "PJX")); require(is(currency('P', 'J', 'Y'), "", "PJY")); require(is(currency('P', 'J', 'Z'), "", "PJZ"));)
OBLIGATION(no_currency_PK, "esl/economics/currencies.hpp: currency_name (codes without a currency from PK)", (), require(is(currency('P', 'K', 'A'), "", "PKA")); require(is(currency('P', 'K', 'B'), "", "PKB")); require(is(currency('P', 'K', 'C'), "", "PKC")); require(is(currency('P', 'K', 'D'), "", "PKD")); require(is(currency('P', 'K', 'E'), "", "PKE")); require(is(currency('P', 'K', 'F'), "", "PKF")); require(is(currency('P', 'K', 'G'), "", "PKG")); require(is(currency('P', 'K', 'H'), "", "PKH")); require(is(currency('P', 'K', 'I'), "", "PKI")); require(is(currency('P', 'K', 'J'), "", "PKJ")); require(is(currency('P', 'K', 'K'), "", "PKK")); require(is(currency('P', 'K', 'L'), "", "PKL")); require(is(currency('P', 'K', 'M'), "", "PKM")); require(is(currency('P', 'K', 'N'), "", "PKN")); require(is(currency('P', 'K', 'O'), "", "PKO")); require(is(currency('P', 'K', 'P'), "", "PKP")); require(is(currency('P', 'K', 'Q'), "", "PKQ")); require(is(currency('P', 'K', 'S'), "", "PKS")); require(is(currency('P', 'K', 'T'), "", "PKT")); require(is(currency('P', 'K', 'U'), "", "PKU")); require(is(currency('P', 'K', 'V'), "", "PKV")); require(is(currency('P', 'K', 'W'), "", "PKW")); require(is(currency('P', 'K', 'X'), "", "PKX")); require(is(currency('P', 'K', 'Y'), "", "PKY")); require(is(currency('P', 'K', 'Z'), "", "PKZ"));)
OBLIGATION(no_currency_PL, "esl/economics/currencies.hpp: currency_name (codes without a currency from PL)", (), require(is(currency('P', 'L', 'A'), "", "PLA")); require(is(currency('P', 'L', 'B'), "", "PLB")); require(is(currency('P', 'L', 'C'), "", "PLC")); require(is(currency('P', 'L', 'D'), "", "PLD")); require(is(currency('P', 'L', 'E'), "", "PLE")); require(is(currency('P', 'L', 'F'), "", "PLF")); require(is(currency('P', 'L', 'G'), "", "PLG")); require(is(currency('P', 'L', 'H'), "", "PLH")); require(is(currency('P', 'L', 'I'), "", "PLI")); require(is(currency('P', 'L', 'J'), "", "PLJ")); require(is(currency('P', 'L', 'K'), "", "PLK")); require(is(currency('P', 'L', 'L'), "", "PLL")); require(is(currency('P', 'L', 'M'), "", "PLM")); require(is(currency('P', 'L', 'O'), "", "PLO")); require(is(currency('P', 'L', 'P'), "", "PLP")); require(is(currency('P', 'L', 'Q'), "", "PLQ")); require(is(currency('P', 'L', 'R'), "", "PLR")); require(is(currency('P', 'L', 'S'), "", "PLS")); require(is(currency('P', 'L', 'T'), "", "PLT")); require(is(currency('P', 'L', 'U'), "", "PLU")); require(is(currency('P', 'L', 'V'), "", "PLV")); require(is(currency('P', 'L', 'W'), "", "PLW")); require(is(currency('P', 'L', 'X'), "", "PLX")); require(is(currency('P', 'L', 'Y'), "", "PLY")); require(is(currency('P', 'L', 'Z'), "", "PLZ"));)
OBLIGATION(no_currency_PM, "esl/economics/currencies.hpp: currency_name (codes without a currency from PM)", (), require(is(currency('P', 'M', 'A'), "", "PMA")); require(is(currency('P', 'M', 'B'), "", "PMB")); require(is(currency('P', 'M', 'C'), "", "PMC")); require(is(currency('P', 'M', 'D'), "", "PMD")); require(is(currency('P', 'M', 'E'), "", "PME")); require(is(currency('P', 'M', 'F'), "", "PMF")); require(is(currency('P', 'M', 'G'), "", "PMG")); require(is(currency('P', 'M', 'H'), "", "PMH")); require(is(currency('P', 'M', 'I'), "", "PMI")); require(is(currency('P', 'M', 'J'), "", "PMJ")); require(is(currency('P', 'M', 'K'), "", "PMK")); require(is(currency('P', 'M', 'L'), "", "PML")); require(is(currency('P', 'M', 'M'), "", "PMM")); require(is(currency('P', 'M', 'N'), "", "PMN")); require(is(currency('P', 'M', 'O'), "", "PMO")); require(is(currency('P', 'M', 'P'), "", "PMP")); require(is(currency('P', 'M', 'Q'), "", "PMQ")); require(is(currency('P', 'M', 'R'), "", "PMR")); require(is(currency('P', 'M', 'S'), "", "PMS")); require(is(currency('P', 'M', 'T'), "", "PMT")); require(is(currency('P', 'M', 'U'), "", "PMU")); require(is(currency('P', 'M', 'V'), "", "PMV")); require(is(currency('P', 'M', 'W'), "", "PMW")); require(is(currency('P', 'M', 'X'), "", "PMX")); require(is(currency('P', 'M', 'Y'), "", "PMY")); require(is(currency('P', 'M', 'Z'), "", "PMZ"));)
OBLIGATION(no_currency_PN, "esl/economics/currencies.hpp: currency_name (codes without a currency from PN)", (), require(is(currency('P', 'N', 'A'), "", "PNA")); require(is(currency('P', 'N', 'B'), "", "PNB")); require(is(currency('P', 'N', 'C'), "", "PNC")); require(is(currency('P', 'N', 'D'), "", "PND")); require(is(currency('P', 'N', 'E'), "", "PNE")); require(is(currency('P', 'N', 'F'), "", "PNF")); require(is(currency('P', 'N', 'G'), "", "PNG")); require(is(currency('P', 'N', 'H'), "", "PNH")); require(is(currency('P', 'N', 'I'), "", "PNI")); require(is(currency('P', 'N', 'J'), "", "PNJ")); require(is(currency('P', 'N', 'K'), "", "PNK")); require(is(currency('P', 'N', 'L'), "", "PNL")); require(is(currency('P', 'N', 'M'), "", "PNM")); require(is(currency('P', 'N', 'N'), "", "PNN")); require(is(currency('P', 'N', 'O'), "", "PNO")); require(is(currency('P', 'N', 'P'), "", "PNP")); require(is(currency('P', 'N', 'Q'), "", "PNQ")); require(is(currency('P', 'N', 'R'), "", "PNR")); require(is(currency('P', 'N', 'S'), "", "PNS")); require(is(currency('P', 'N', 'T'), "", "PNT")); require(is(currency('P', 'N', 'U'), "", "PNU")); require(is(currency('P', 'N', 'V'), "", "PNV")); require(is(currency('P', 'N', 'W'), "", "PNW")); require(is(currency('P', 'N', 'X'), "", "PNX")); require(is(currency('P', 'N', 'Y'), "", "PNY")); require(is(currency('P', 'N', 'Z'), "", "PNZ"));)
OBLIGATION(no_currency_PO, "esl/economics/currencies.hpp: currency_name (codes without a currency from PO)", (), require(is(currency('P', 'O', 'A'), "", "POA")); require(is(currency('P', 'O', 'B'), "", "POB")); require(is(currency('P', 'O', 'C'), "", "POC")); require(is(currency('P', 'O', 'D'), "", "POD")); require(is(currency('P', 'O', 'E'), "", "POE")); require(is(currency('P', 'O', 'F'), "", "POF")); require(is(currency('P', 'O', 'G'), "", "POG")); require(is(currency('P', 'O', 'H'), "", "POH")); require(is(currency('P', 'O', 'I'), "", "POI")); require(is(currency('P', 'O', 'J'), "", "POJ")); require(is(currency('P', 'O', 'K'), "", "POK")); require(is(currency('P', 'O', 'L'), "", "POL")); require(is(currency('P', 'O', 'M'), "", "POM")); require(is(currency('P', 'O', 'N'), "", "PON")); require(is(currency('P', 'O', 'O'), "", "POO")); require(is(currency('P', 'O', 'P'), "", "POP")); require(is(currency('P', 'O', 'Q'), "", "POQ")); require(is(currency('P', 'O', 'R'), "", "POR")); require(is(currency('P', 'O', 'S'), "", "POS")); require(is(currency('P', 'O', 'T'), "", "POT")); require(is(currency('P', 'O', 'U'), "", "POU")); require(is(currency('P', 'O', 'V'), "", "POV")); require(is(currency('P', 'O', 'W'), "", "POW")); require(is(currency('P', 'O', 'X'), "", "POX")); require(is(currency('P', 'O', 'Y'), "", "POY")); require(is(currency('P', 'O', 'Z'), "", "POZ"));)
OBLIGATION(no_currency_PP, "esl/economics/currencies.hpp: currency_name (codes without a currency from PP)", (), require(is(currency('P', 'P', 'A'), "", "PPA")); require(is(currency('P', 'P', 'B'), "", "PPB")); require(is(currency('P', 'P', 'C'), "", "PPC")); require(is(currency('P', 'P', 'D'), "", "PPD")); require(is(currency('P', 'P', 'E'), "", "PPE")); require(is(currency('P', 'P', 'F'), "", "PPF")); require(is(currency('P', 'P', 'G'), "", "PPG")); require(is(currency('P', 'P', 'H'), "", "PPH")); require(is(currency('P', 'P', 'I'), "", "PPI")); require(is(currency('P', 'P', 'J'), "", "PPJ")); require(is(currency('P', 'P', 'K'), "", "PPK")); require(is(currency('P', 'P', 'L'), "", "PPL")); require(is(currency('P', 'P', 'M'), "", "PPM")); require(is(currency('P', 'P', 'N'), "", "PPN")); require(is(currency('P', 'P', 'O'), "", "PPO")); require(is(currency('P', 'P', 'P'), "", "PPP")); require(is(currency('P', 'P', 'Q'), "", "PPQ")); require(is(currency('P', 'P', 'R'), "", "PPR")); require(is(currency('P', 'P', 'S'), "", "PPS")); require(is(currency('P', 'P', 'T'), "", "PPT")); require(is(currency('P', 'P', 'U'), "", "PPU")); require(is(currency('P', 'P', 'V'), "", "PPV")); require(is(currency('P', 'P', 'W'), "", "PPW")); require(is(currency('P', 'P', 'X'), "", "PPX")); require(is(currency('P', 'P', 'Y'), "", "PPY")); require(is(currency('P', 'P', 'Z'), "", "PPZ"));)
OBLIGATION(no_currency_PQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from PQ)", (), require(is(currency('P', 'Q', 'A'), "", "PQA")); require(is(currency('P', 'Q', 'B'), "", "PQB")); require(is(currency('P', 'Q', 'C'), "", "PQC")); require(is(currency('P', 'Q', 'D'), "", "PQD")); require(is(currency('P', 'Q', 'E'), "", "PQE")); require(is(currency('P', 'Q', 'F'), "", "PQF")); require(is(currency('P', 'Q', 'G'), "", "PQG")); require(is(currency('P', 'Q', 'H'), "", "PQH")); require(is(currency('P', 'Q', 'I'), "", "PQI")); require(is(currency('P', 'Q', 'J'), "", "PQJ")); require(is(currency('P', 'Q', 'K'), "", "PQK")); require(is(currency('P', 'Q', 'L'), "", "PQL")); require(is(currency('P', 'Q', 'M'), "", "PQM")); require(is(currency('P', 'Q', 'N'), "", "PQN")); require(is(currency('P', 'Q', 'O'), "", "PQO")); require(is(currency('P', 'Q', 'P'), "", "PQP")); require(is(currency('P', 'Q', 'Q'), "", "PQQ")); require(is(currency('P', 'Q', 'R'), "", "PQR")); require(is(currency('P', 'Q', 'S'), "", "PQS")); require(is(currency('P', 'Q', 'T'), "", "PQT")); require(is(currency('P', 'Q', 'U'), "", "PQU")); require(is(currency('P', 'Q', 'V'), "", "PQV")); require(is(currency('P', 'Q', 'W'), "", "PQW")); require(is(currency('P', 'Q', 'X'), "", "PQX")); require(is(currency('P', 'Q', 'Y'), "", "PQY")); require(is(currency('P', 'Q', 'Z'), "", "PQZ"));)
OBLIGATION(no_currency_PR, "esl/economics/currencies.hpp: currency_name (codes without a currency from PR)", (), require(is(currency('P', 'R', 'A'), "", "PRA")); require(is(currency('P', 'R', 'B'), "", "PRB")); require(is(currency('P', 'R', 'C'), "", "PRC")); require(is(currency('P', 'R', 'D'), "", "PRD")); require(is(currency('P', 'R', 'E'), "", "PRE")); require(is(currency('P', 'R', 'F'), "", "PRF")); require(is(currency('P', 'R', 'G'), "", "PRG")); require(is(currency('P', 'R', 'H'), "", "PRH")); require(is(currency('P', 'R', 'I'), "", "PRI")); require(is(currency('P', 'R', 'J'), "", "PRJ")); require(is(currency('P', 'R', 'K'), "", "PRK")); require(is(currency('P', 'R', 'L'), "", "PRL")); require(is(currency('P', 'R', 'M'), "", "PRM")); require(is(currency('P', 'R', 'N'), "", "PRN")); require(is(currency('P', 'R', 'O'), "", "PRO")); require(is(currency('P', 'R', 'P'), "", "PRP")); require(is(currency('P', 'R', 'Q'), "", "PRQ")); require(is(currency('P', 'R', 'R'), "", "PRR")); require(is(currency('P', 'R', 'S'), "", "PRS")); require(is(currency('P', 'R', 'T'), "", "PRT")); require(is(currency('P', 'R', 'U'), "", "PRU")); require(is(currency('P', 'R', 'V'), "", "PRV")); require(is(currency('P', 'R', 'W'), "", "PRW")); require(is(currency('P', 'R', 'X'), "", "PRX")); require(is(currency('P', 'R', 'Y'), "", "PRY")); require(is(currency('P', 'R', 'Z'), "", "PRZ"));)
OBLIGATION(no_currency_PS, "esl/economics/currencies.hpp: currency_name (codes without a currency from PS)", (), require(is(currency('P', 'S', 'A'), "", "PSA")); require(is(currency('P', 'S', 'B'), "", "PSB")); require(is(currency('P', 'S', 'C'), "", "PSC")); require(is(currency('P', 'S', 'D'), "", "PSD")); require(is(currency('P', 'S', 'E'), "", "PSE")); require(is(currency('P', 'S', 'F'), "", "PSF")); require(is(currency('P', 'S', 'G'), "", "PSG")); require(is(currency('P', 'S', 'H'), "", "PSH")); require(is(currency('P', 'S', 'I'), "", "PSI")); require(is(currency('P', 'S', 'J'), "", "PSJ")); require(is(currency('P', 'S', 'K'), "", "PSK")); require(is(currency('P', 'S', 'L'), "", "PSL")); require(is(currency('P', 'S', 'M'), "", "PSM")); require(is(currency('P', 'S', 'N'), "", "PSN")); require(is(currency('P', 'S', 'O'), "", "PSO")); require(is(currency('P', 'S', 'P'), "", "PSP")); require(is(currency('P', 'S', 'Q'), "", "PSQ")); require(is(currency('P', 'S', 'R'), "", "PSR")); require(is(currency('P', 'S', 'S'), "", "PSS")); require(is(currency('P', 'S', 'T'), "", "PST")); require(is(currency('P', 'S', 'U'), "", "PSU")); require(is(currency('P', 'S', 'V'), "", "PSV")); require(is(currency('P', 'S', 'W'), "", "PSW")); require(is(currency('P', 'S', 'X'), "", "PSX")); require(is(currency('P', 'S', 'Y'), "", "PSY")); require(is(currency('P', 'S', 'Z'), "", "PSZ"));)
OBLIGATION(no_currency_PT, "esl/economics/currencies.hpp: currency_name (codes without a currency from PT)", (), require(is(currency('P', 'T', 'A'), "", "PTA")); require(is(currency('P', 'T', 'B'), "", "PTB")); require(is(currency('P', 'T', 'C'), "", "PTC")); require(is(currency('P', 'T', 'D'), "", "PTD")); require(is(currency('P', 'T', 'E'), "", "PTE")); require(is(currency('P', 'T', 'F'), "", "PTF")); require(is(currency('P', 'T', 'G'), "", "PTG")); require(is(currency('P', 'T', 'H'), "", "PTH")); require(is(currency('P', 'T', 'I'), "", "PTI")); require(is(currency('P', 'T', 'J'), "", "PTJ")); require(is(currency('P', 'T', 'K'), "", "PTK")); require(is(currency('P', 'T', 'L'), "", "PTL")); require(is(currency('P', 'T', 'M'), "", "PTM")); require(is(currency('P', 'T', 'N'), "", "PTN")); require(is(currency('P', 'T', 'O'), "", "PTO")); require(is(currency('P', 'T', 'P'), "", "PTP")); require(is(currency('P', 'T', 'Q'), "", "PTQ")); require(is(currency('P', 'T', 'R'), "", "PTR")); require(is(currency('P', 'T', 'S'), "", "PTS")); require(is(currency('P', 'T', 'T'), "", "PTT")); require(is(currency('P', 'T', 'U'), "", "PTU")); require(is(currency('P', 'T', 'V'), "", "PTV")); require(is(currency('P', 'T', 'W'), "", "PTW")); require(is(currency('P', 'T', 'X'), "", "PTX")); require(is(currency('P', 'T', 'Y'), "", "PTY")); require(is(currency('P', 'T', 'Z'), "", "PTZ"));)
OBLIGATION(no_currency_PU, "esl/economics/currencies.hpp: currency_name (codes without a currency from PU)", (), require(is(currency('P', 'U', 'A'), "", "PUA")); require(is(currency('P', 'U', 'B'), "", "PUB")); require(is(currency('P', 'U', 'C'), "", "PUC")); require(is(currency('P', 'U', 'D'), "", "PUD")); require(is(currency('P', 'U', 'E'), "", "PUE")); require(is(currency('P', 'U', 'F'), "", "PUF")); require(is(currency('P', 'U', 'G'), "", "PUG")); require(is(currency('P', 'U', 'H'), "", "PUH")); require(is(currency('P', 'U', 'I'), "", "PUI")); require(is(currency('P', 'U', 'J'), "", "PUJ")); require(is(currency('P', 'U', 'K'), "", "PUK")); require(is(currency('P', 'U', 'L'), "", "PUL")); require(is(currency('P', 'U', 'M'), "", "PUM")); require(is(currency('P', 'U', 'N'), "", "PUN")); require(is(currency('P', 'U', 'O'), "", "PUO")); require(is(currency('P', 'U', 'P'), "", "PUP")); require(is(currency('P', 'U', 'Q'), "", "PUQ")); require(is(currency('P', 'U', 'R'), "", "PUR")); require(is(currency('P', 'U', 'S'), "", "PUS")); require(is(currency('P', 'U', 'T'), "", "PUT")); require(is(currency('P', 'U', 'U'), "", "PUU")); require(is(currency('P', 'U', 'V'), "", "PUV")); require(is(currency('P', 'U', 'W'), "", "PUW")); require(is(currency('P', 'U', 'X'), "", "PUX")); require(is(currency('P', 'U', 'Y'), "", "PUY")); require(is(currency('P', 'U', 'Z'), "", "PUZ"));)
OBLIGATION(no_currency_PV, "esl/economics/currencies.hpp: currency_name (codes without a currency from PV)", (), require(is(currency('P', 'V', 'A'), "", "PVA")); require(is(currency('P', 'V', 'B'), "", "PVB")); require(is(currency('P', 'V', 'C'), "", "PVC")); require(is(currency('P', 'V', 'D'), "", "PVD")); require(is(currency('P', 'V', 'E'), "", "PVE")); require(is(currency('P', 'V', 'F'), "", "PVF")); require(is(currency('P', 'V', 'G'), "", "PVG")); require(is(currency('P', 'V', 'H'), "", "PVH")); require(is(currency('P', 'V', 'I'), "", "PVI")); require(is(currency('P', 'V', 'J'), "", "PVJ")); require(is(currency('P', 'V', 'K'), "", "PVK")); require(is(currency('P', 'V', 'L'), "", "PVL")); require(is(currency('P', 'V', 'M'), "", "PVM")); require(is(currency('P', 'V', 'N'), "", "PVN")); require(is(currency('P', 'V', 'O'), "", "PVO")); require(is(currency('P', 'V', 'P'), "", "PVP")); require(is(currency('P', 'V', 'Q'), "", "PVQ")); require(is(currency('P', 'V', 'R'), "", "PVR")); require(is(currency('P', 'V', 'S'), "", "PVS")); require(is(currency('P', 'V', 'T'), "", "PVT")); require(is(currency('P', 'V', 'U'), "", "PVU")); require(is(currency('P', 'V', 'V'), "", "PVV")); require(is(currency('P', 'V', 'W'), "", "PVW")); require(is(currency('P', 'V', 'X'), "", "PVX")); require(is(currency('P', 'V', 'Y'), "", "PVY")); require(is(currency('P', 'V', 'Z'), "", "PVZ"));)
OBLIGATION(no_currency_PW, "esl/economics/currencies.hpp: currency_name (codes without a currency from PW)", (), require(is(currency('P', 'W', 'A'), "", "PWA")); require(is(currency('P', 'W', 'B'), "", "PWB")); require(is(currency('P', 'W', 'C'), "", "PWC")); require(is(currency('P', 'W', 'D'), "", "PWD")); require(is(currency('P', 'W', 'E'), "", "PWE")); require(is(currency('P', 'W', 'F'), "", "PWF")); require(is(currency('P', 'W', 'G'), "", "PWG")); require(is(currency('P', 'W', 'H'), "", "PWH")); require(is(currency('P', 'W', 'I'), "", "PWI")); require(is(currency('P', 'W', 'J'), "", "PWJ")); require(is(currency('P', 'W', 'K'), "", "PWK")); require(is(currency('P', 'W', 'L'), "", "PWL")); require(is(currency('P', 'W', 'M'), "", "PWM")); require(is(currency('P', 'W', 'N'), "", "PWN")); require(is(currency('P', 'W', 'O'), "", "PWO")); require(is(currency('P', 'W', 'P'), "", "PWP")); require(is(currency('P', 'W', 'Q'), "", "PWQ")); require(is(currency('P', 'W', 'R'), "", "PWR")); require(is(currency('P', 'W', 'S'), "", "PWS")); require(is(currency('P', 'W', 'T'), "", "PWT")); require(is(currency('P', 'W', 'U'), "", "PWU")); require(is(currency('P', 'W', 'V'), "", "PWV")); require(is(currency('P', 'W', 'W'), "", "PWW")); require(is(currency('P', 'W', 'X'), "", "PWX")); require(is(currency('P', 'W', 'Y'), "", "PWY")); require(is(currency('P', 'W', 'Z'), "", "PWZ"));)
OBLIGATION(no_currency_PX, "esl/economics/currencies.hpp: currency_name (codes without a currency from PX)", (), require(is(currency('P', 'X', 'A'), "", "PXA")); require(is(currency('P', 'X', 'B'), "", "PXB")); require(is(currency('P', 'X', 'C'), "", "PXC")); require(is(currency('P', 'X', 'D'), "", "PXD")); require(is(currency('P', 'X', 'E'), "", "PXE")); require(is(currency('P', 'X', 'F'), "", "PXF")); require(is(currency('P', 'X', 'G'), "", "PXG")); require(is(currency('P', 'X', 'H'), "", "PXH")); require(is(currency('P', 'X', 'I'), "", "PXI")); require(is(currency('P', 'X', 'J'), "", "PXJ")); require(is(currency('P', 'X', 'K'), "", "PXK")); require(is(currency('P', 'X', 'L'), "", "PXL")); require(is(currency('P', 'X', 'M'), "", "PXM")); require(is(currency('P', 'X', 'N'), "", "PXN")); require(is(currency('P', 'X', 'O'), "", "PXO")); require(is(currency('P', 'X', 'P'), "", "PXP")); require(is(currency('P', 'X', 'Q'), "", "PXQ")); require(is(currency('P', 'X', 'R'), "", "PXR")); require(is(currency('P', 'X', 'S'), "", "PXS")); require(is(currency('P', 'X', 'T'), "", "PXT")); require(is(currency('P', 'X', 'U'), "", "PXU")); require(is(currency('P', 'X', 'V'), "", "PXV")); require(is(currency('P', 'X', 'W'), "", "PXW")); require(is(currency('P', 'X', 'X'), "", "PXX")); require(is(currency('P', 'X', 'Y'), "", "PXY")); require(is(currency('P', 'X', 'Z'), "", "PXZ"));)
OBLIGATION(no_currency_PY, "esl/economics/currencies.hpp: currency_name (codes without a currency from PY)", (), require(is(currency('P', 'Y', 'A'), "", "PYA")); require(is(currency('P', 'Y', 'B'), "", "PYB")); require(is(currency('P', 'Y', 'C'), "", "PYC")); require(is(currency('P', 'Y', 'D'), "", "PYD")); require(is(currency('P', 'Y', 'E'), "", "PYE")); require(is(currency('P', 'Y', 'F'), "", "PYF")); require(is(currency('P', 'Y', 'H'), "", "PYH")); require(is(currency('P', 'Y', 'I'), "", "PYI")); require(is(currency('P', 'Y', 'J'), "", "PYJ")); require(is(currency('P', 'Y', 'K'), "", "PYK")); require(is(currency('P', 'Y', 'L'), "", "PYL")); require(is(currency('P', 'Y', 'M'), "", "PYM")); require(is(currency('P', 'Y', 'N'), "", "PYN")); require(is(currency('P', 'Y', 'O'), "", "PYO")); require(is(currency('P', 'Y', 'P'), "", "PYP")); require(is(currency('P', 'Y', 'Q'), "", "PYQ")); require(is(currency('P', 'Y', 'R'), "", "PYR")); require(is(currency('P', 'Y', 'S'), "", "PYS")); require(is(currency('P', 'Y', 'T'), "", "PYT")); require(is(currency('P', 'Y', 'U'), "", "PYU")); require(is(currency('P', 'Y', 'V'), "", "PYV")); require(is(currency('P', 'Y', 'W'), "", "PYW")); require(is(currency('P', 'Y', 'X'), "", "PYX")); require(is(currency('P', 'Y', 'Y'), "", "PYY")); require(is(currency('P', 'Y', 'Z'), "", "PYZ"));)
OBLIGATION(no_currency_PZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from PZ)", (), require(is(currency('P', 'Z', 'A'), "", "PZA")); require(is(currency('P', 'Z', 'B'), "", "PZB")); require(is(currency('P', 'Z', 'C'), "", "PZC")); require(is(currency('P', 'Z', 'D'), "", "PZD")); require(is(currency('P', 'Z', 'E'), "", "PZE")); require(is(currency('P', 'Z', 'F'), "", "PZF")); require(is(currency('P', 'Z', 'G'), "", "PZG")); require(is(currency('P', 'Z', 'H'), "", "PZH")); require(is(currency('P', 'Z', 'I'), "", "PZI")); require(is(currency('P', 'Z', 'J'), "", "PZJ")); require(is(currency('P', 'Z', 'K'), "", "PZK")); require(is(currency('P', 'Z', 'L'), "", "PZL")); require(is(currency('P', 'Z', 'M'), "", "PZM")); require(is(currency('P', 'Z', 'N'), "", "PZN")); require(is(currency('P', 'Z', 'O'), "", "PZO")); require(is(currency('P', 'Z', 'P'), "", "PZP")); require(is(currency('P', 'Z', 'Q'), "", "PZQ")); require(is(currency('P', 'Z', 'R'), "", "PZR")); require(is(currency('P', 'Z', 'S'), "", "PZS")); require(is(currency('P', 'Z', 'T'), "", "PZT")); require(is(currency('P', 'Z', 'U'), "", "PZU")); require(is(currency('P', 'Z', 'V'), "", "PZV")); require(is(currency('P', 'Z', 'W'), "", "PZW")); require(is(currency('P', 'Z', 'X'), "", "PZX")); require(is(currency('P', 'Z', 'Y'), "", "PZY")); require(is(currency('P', 'Z', 'Z'), "", "PZZ"));)
OBLIGATION(no_currency_QA, "esl/economics/currencies.hpp: currency_name (codes without a currency from QA)", (), require(is(currency('Q', 'A', 'A'), "", "QAA")); require(is(currency('Q', 'A', 'B'), "", "QAB")); require(is(currency('Q', 'A', 'C'), "", "QAC")); require(is(currency('Q', 'A', 'D'), "", "QAD")); require(is(currency('Q', 'A', 'E'), "", "QAE")); require(is(currency('Q', 'A', 'F'), "", "QAF")); require(is(currency('Q', 'A', 'G'), "", "QAG")); require(is(currency('Q', 'A', 'H'), "", "QAH")); require(is(currency('Q', 'A', 'I'), "", "QAI")); require(is(currency('Q', 'A', 'J'), "", "QAJ")); require(is(currency('Q', 'A', 'K'), "", "QAK")); require(is(currency('Q', 'A', 'L'), "", "QAL")); require(is(currency('Q', 'A', 'M'), "", "QAM")); require(is(currency('Q', 'A', 'N'), "", "QAN")); require(is(currency('Q', 'A', 'O'), "", "QAO")); require(is(currency('Q', 'A', 'P'), "", "QAP")); require(is(currency('Q', 'A', 'Q'), "", "QAQ")); require(is(currency('Q', 'A', 'S'), "", "QAS")); require(is(currency('Q', 'A', 'T'), "", "QAT")); require(is(currency('Q', 'A', 'U'), "", "QAU")); require(is(currency('Q', 'A', 'V'), "", "QAV")); require(is(currency('Q', 'A', 'W'), "", "QAW")); require(is(currency('Q', 'A', 'X'), "", "QAX")); require(is(currency('Q', 'A', 'Y'), "", "QAY")); require(is(currency('Q', 'A', 'Z'), "", "QAZ"));)
OBLIGATION(no_currency_QB, "esl/economics/currencies.hpp: currency_name (codes without a currency from QB)", (), require(is(currency('Q', 'B', 'A'), "", "QBA")); require(is(currency('Q', 'B', 'B'), "", "QBB")); require(is(currency('Q', 'B', 'C'), "", "QBC")); require(is(currency('Q', 'B', 'D'), "", "QBD")); require(is(currency('Q', 'B', 'E'), "", "QBE")); require(is(currency('Q', 'B', 'F'), "", "QBF")); require(is(currency('Q', 'B', 'G'), "", "QBG")); require(is(currency('Q', 'B', 'H'), "", "QBH")); require(is(currency('Q', 'B', 'I'), "", "QBI")); require(is(currency('Q', 'B', 'J'), "", "QBJ")); require(is(currency('Q', 'B', 'K'), "", "QBK")); require(is(currency('Q', 'B', 'L'), "", "QBL")); require(is(currency('Q', 'B', 'M'), "", "QBM")); require(is(currency('Q', 'B', 'N'), "", "QBN")); require(is(currency('Q', 'B', 'O'), "", "QBO")); require(is(currency('Q', 'B', 'P'), "", "QBP")); require(is(currency('Q', 'B', 'Q'), "", "QBQ")); require(is(currency('Q', 'B', 'R'), "", "QBR")); require(is(currency('Q', 'B', 'S'), "", "QBS")); require(is(currency('Q', 'B', 'T'), "", "QBT")); require(is(currency('Q', 'B', 'U'), "", "QBU")); require(is(currency('Q', 'B', 'V'), "", "QBV")); require(is(currency('Q', 'B', 'W'), "", "QBW")); require(is(currency('Q', 'B', 'X'), "", "QBX")); require(is(currency('Q', 'B', 'Y'), "", "QBY")); require(is(currency('Q', 'B', 'Z'), "", "QBZ"));)
OBLIGATION(no_currency_QC, "esl/economics/currencies.hpp: currency_name (codes without a currency from QC)", (), require(is(currency('Q', 'C', 'A'), "", "QCA")); require(is(currency('Q', 'C', 'B'), "", "QCB")); require(is(currency('Q', 'C', 'C'), "", "QCC")); require(is(currency('Q', 'C', 'D'), "", "QCD")); require(is(currency('Q', 'C', 'E'), "", "QCE")); require(is(currency('Q', 'C', 'F'), "", "QCF")); require(is(currency('Q', 'C', 'G'), "", "QCG")); require(is(currency('Q', 'C', 'H'), "", "QCH")); require(is(currency('Q', 'C', 'I'), "", "QCI")); require(is(currency('Q', 'C', 'J'), "", "QCJ")); require(is(currency('Q', 'C', 'K'), "", "QCK")); require(is(currency('Q', 'C', 'L'), "", "QCL")); require(is(currency('Q', 'C', 'M'), "", "QCM")); require(is(currency('Q', 'C', 'N'), "", "QCN")); require(is(currency('Q', 'C', 'O'), "", "QCO")); require(is(currency('Q', 'C', 'P'), "", "QCP")); require(is(currency('Q', 'C', 'Q'), "", "QCQ")); require(is(currency('Q', 'C', 'R'), "", "QCR")); require(is(currency('Q', 'C', 'S'), "", "QCS")); require(is(currency('Q', 'C', 'T'), "", "QCT")); require(is(currency('Q', 'C', 'U'), "", "QCU")); require(is(currency('Q', 'C', 'V'), "", "QCV")); require(is(currency('Q', 'C', 'W'), "", "QCW")); require(is(currency('Q', 'C', 'X'), "", "QCX")); require(is(currency('Q', 'C', 'Y'), "", "QCY")); require(is(currency('Q', 'C', 'Z'), "", "QCZ"));)
OBLIGATION(no_currency_QD, "esl/economics/currencies.hpp: currency_name (codes without a currency from QD)", (), require(is(currency('Q', 'D', 'A'), "", "QDA")); require(is(currency('Q', 'D', 'B'), "", "QDB")); require(is(currency('Q', 'D', 'C'), "", "QDC")); require(is(currency('Q', 'D', 'D'), "", "QDD")); require(is(currency('Q', 'D', 'E'), "", "QDE")); require(is(currency('Q', 'D', 'F'), "", "QDF")); require(is(currency('Q', 'D', 'G'), "", "QDG")); require(is(currency('Q', 'D', 'H'), "", "QDH")); require(is(currency('Q', 'D', 'I'), "", "QDI")); require(is(currency('Q', 'D', 'J'), "", "QDJ")); require(is(currency('Q', 'D', 'K'), "", "QDK")); require(is(currency('Q', 'D', 'L'), "", "QDL")); require(is(currency('Q', 'D', 'M'), "", "QDM")); require(is(currency('Q', 'D', 'N'), "", "QDN")); require(is(currency('Q', 'D', 'O'), "", "QDO")); require(is(currency('Q', 'D', 'P'), "", "QDP")); require(is(currency('Q', 'D', 'Q'), "", "QDQ")); require(is(currency('Q', 'D', 'R'), "", "QDR")); require(is(currency('Q', 'D', 'S'), "", "QDS")); require(is(currency('Q', 'D', 'T'), "", "QDT")); require(is(currency('Q', 'D', 'U'), "", "QDU")); require(is(currency('Q', 'D', 'V'), "", "QDV")); require(is(currency('Q', 'D', 'W'), "", "QDW")); require(is(currency('Q', 'D', 'X'), "", "QDX")); require(is(currency('Q', 'D', 'Y'), "", "QDY")); require(is(currency('Q', 'D', 'Z'), "", "QDZ"));)
OBLIGATION(no_currency_QE, "esl/economics/currencies.hpp: currency_name (codes without a currency from QE)", (), require(is(currency('Q', 'E', 'A'), "", "QEA")); require(is(currency('Q', 'E', 'B'), "", "QEB")); require(is(currency('Q', 'E', 'C'), "", "QEC")); require(is(currency('Q', 'E', 'D'), "", "QED")); require(is(currency('Q', 'E', 'E'), "", "QEE")); require(is(currency('Q', 'E', 'F'), "", "QEF")); require(is(currency('Q', 'E', 'G'), "", "QEG")); require(is(currency('Q', 'E', 'H'), "", "QEH")); require(is(currency('Q', 'E', 'I'), "", "QEI")); require(is(currency('Q', 'E', 'J'), "", "QEJ")); require(is(currency('Q', 'E', 'K'), "", "QEK")); require(is(currency('Q', 'E', 'L'), "", "QEL")); require(is(currency('Q', 'E', 'M'), "", "QEM")); require(is(currency('Q', 'E', 'N'), "", "QEN")); require(is(currency('Q', 'E', 'O'), "", "QEO")); require(is(currency('Q', 'E', 'P'), "", "QEP")); require(is(currency('Q', 'E', 'Q'), "", "QEQ")); require(is(currency('Q', 'E', 'R'), "", "QER")); require(is(currency('Q', 'E', 'S'), "", "QES")); require(is(currency('Q', 'E', 'T'), "", "QET")); require(is(currency('Q', 'E', 'U'), "", "QEU")); require(is(currency('Q', 'E', 'V'), "", "QEV")); require(is(currency('Q', 'E', 'W'), "", "QEW")); require(is(currency('Q', 'E', 'X'), "", "QEX")); require(is(currency('Q', 'E', 'Y'), "", "QEY")); require(is(currency('Q', 'E', 'Z'), "", "QEZ"));)
OBLIGATION(no_currency_QF, "esl/economics/currencies.hpp: currency_name (codes without a currency from QF)", (), require(is(currency('Q', 'F', 'A'), "", "QFA")); require(is(currency('Q', 'F', 'B'), "", "QFB")); require(is(currency('Q', 'F', 'C'), "", "QFC")); require(is(currency('Q', 'F', 'D'), "", "QFD")); require(is(currency('Q', 'F', 'E'), "", "QFE")); require(is(currency('Q', 'F', 'F'), "", "QFF")); require(is(currency('Q', 'F', 'G'), "", "QFG")); require(is(currency('Q', 'F', 'H'), "", "QFH")); require(is(currency('Q', 'F', 'I'), "", "QFI")); require(is(currency('Q', 'F', 'J'), "", "QFJ")); require(is(currency('Q', 'F', 'K'), "", "QFK")); require(is(currency('Q', 'F', 'L'), "", "QFL")); require(is(currency('Q', 'F', 'M'), "", "QFM")); require(is(currency('Q', 'F', 'N'), "", "QFN")); require(is(currency('Q', 'F', 'O'), "", "QFO")); require(is(currency('Q', 'F', 'P'), "", "QFP")); require(is(currency('Q', 'F', 'Q'), "", "QFQ")); require(is(currency('Q', 'F', 'R'), "", "QFR")); require(is(currency('Q', 'F', 'S'), "", "QFS")); require(is(currency('Q', 'F', 'T'), "", "QFT")); require(is(currency('Q', 'F', 'U'), "", "QFU")); require(is(currency('Q', 'F', 'V'), "", "QFV")); require(is(currency('Q', 'F', 'W'), "", "QFW")); require(is(currency('Q', 'F', 'X'), "", "QFX")); require(is(currency('Q', 'F', 'Y'), "", "QFY")); require(is(currency('Q', 'F', 'Z'), "", "QFZ"));)
OBLIGATION(no_currency_QG, "esl/economics/currencies.hpp: currency_name (codes without a currency from QG)", (), require(is(currency('Q', 'G', 'A'), "", "QGA")); require(is(currency('Q', 'G', 'B'), "", "QGB")); require(is(currency('Q', 'G', 'C'), "", "QGC")); require(is(currency('Q', 'G', 'D'), "", "QGD")); require(is(currency('Q', 'G', 'E'), "", "QGE")); require(is(currency('Q', 'G', 'F'), "", "QGF")); require(is(currency('Q', 'G', 'G'), "", "QGG")); require(is(currency('Q', 'G', 'H'), "", "QGH")); require(is(currency('Q', 'G', 'I'), "", "QGI")); require(is(currency('Q', 'G', 'J'), "", "QGJ")); require(is(currency('Q', 'G', 'K'), "", "QGK")); require(is(currency('Q', 'G', 'L'), "", "QGL")); require(is(currency('Q', 'G', 'M'), "", "QGM")); require(is(currency('Q', 'G', 'N'), "", "QGN")); require(is(currency('Q', 'G', 'O'), "", "QGO")); require(is(currency('Q', 'G', 'P'), "", "QGP")); require(is(currency('Q', 'G', 'Q'), "", "QGQ")); require(is(currency('Q', 'G', 'R'), "", "QGR")); require(is(currency('Q', 'G', 'S'), "", "QGS")); require(is(currency('Q', 'G', 'T'), "", "QGT")); require(is(currency('Q', 'G', 'U'), "", "QGU")); require(is(currency('Q', 'G', 'V'), "", "QGV")); require(is(currency('Q', 'G', 'W'), "", "QGW")); require(is(currency('Q', 'G', 'X'), "", "QGX")); require(is(currency('Q', 'G', 'Y'), "", "QGY")); require(is(currency('Q', 'G', 'Z'), "", "QGZ"));)
OBLIGATION(no_currency_QH, "esl/economics/currencies.hpp: currency_name (codes without a currency from QH)", (), require(is(currency('Q', 'H', 'A'), "", "QHA")); require(is(currency('Q', 'H', 'B'), "", "QHB")); require(is(currency('Q', 'H', 'C'), "", "QHC")); require(is(currency('Q', 'H', 'D'), "", "QHD")); require(is(currency('Q', 'H', 'E'), "", "QHE")); require(is(currency('Q', 'H', 'F'), "", "QHF")); require(is(currency('Q', 'H', 'G'), "", "QHG")); require(is(currency('Q', 'H', 'H'), "", "QHH")); require(is(currency('Q', 'H', 'I'), "", "QHI")); require(is(currency('Q', 'H', 'J'), "", "QHJ")); require(is(currency('Q', 'H', 'K'), "", "QHK")); require(is(currency('Q', 'H', 'L'), "", "QHL")); require(is(currency('Q', 'H', 'M'), "", "QHM")); require(is(currency('Q', 'H', 'N'), "", "QHN")); require(is(currency('Q', 'H', 'O'), "", "QHO")); require(is(currency('Q', 'H', 'P'), "", "QHP")); require(is(currency('Q', 'H', 'Q'), "", "QHQ")); require(is(currency('Q', 'H', 'R'), "", "QHR")); require(is(currency('Q', 'H', 'S'), "", "QHS")); require(is(currency('Q', 'H', 'T'), "", "QHT")); require(is(currency('Q', 'H', 'U'), "", "QHU")); require(is(currency('Q', 'H', 'V'), "", "QHV")); require(is(currency('Q', 'H', 'W'), "", "QHW")); require(is(currency('Q', 'H', 'X'), "", "QHX")); require(is(currency('Q', 'H', 'Y'), "", "QHY")); require(is(currency('Q', 'H', 'Z'), "", "QHZ"));)
OBLIGATION(no_currency_QI, "esl/economics/currencies.hpp: currency_name (codes without a currency from QI)", (), require(is(currency('Q', 'I', 'A'), "", "QIA")); require(is(currency('Q', 'I', 'B'), "", "QIB")); require(is(currency('Q', 'I', 'C'), "", "QIC")); require(is(currency('Q', 'I', 'D'), "", "QID")); require(is(currency('Q', 'I', 'E'), "", "QIE")); require(is(currency('Q', 'I', 'F'), "", "QIF")); require(is(currency('Q', 'I', 'G'), "", "QIG")); require(is(currency('Q', 'I', 'H'), "", "QIH")); require(is(currency('Q', 'I', 'I'), "", "QII")); require(is(currency('Q', 'I', 'J'), "", "QIJ")); require(is(currency('Q', 'I', 'K'), "", "QIK")); require(is(currency('Q', 'I', 'L'), "", "QIL")); require(is(currency('Q', 'I', 'M'), "", "QIM")); require(is(currency('Q', 'I', 'N'), "", "QIN")); require(is(currency('Q', 'I', 'O'), "", "QIO")); require(is(currency('Q', 'I', 'P'), "", "QIP")); require(is(currency('Q', 'I', 'Q'), "", "QIQ")); require(is(currency('Q', 'I', 'R'), "", "QIR")); require(is(currency('Q', 'I', 'S'), "", "QIS")); require(is(currency('Q', 'I', 'T'), "", "QIT")); require(is(currency('Q', 'I', 'U'), "", "QIU")); require(is(currency('Q', 'I', 'V'), "", "QIV")); require(is(currency('Q', 'I', 'W'), "", "QIW")); require(is(currency('Q', 'I', 'X'), "", "QIX")); require(is(currency('Q', 'I', 'Y'), "", "QIY")); require(is(currency('Q', 'I', 'Z'), "", "QIZ"));)
OBLIGATION(no_currency_QJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from QJ)", (), require(is(currency('Q', 'J', 'A'), "", "QJA")); require(is(currency('Q', 'J', 'B'), "", "QJB")); require(is(currency('Q', 'J', 'C'), "", "QJC")); require(is(currency('Q', 'J', 'D'), "", "QJD")); require(is(currency('Q', 'J', 'E'), "", "QJE")); require(is(currency('Q', 'J', 'F'), "", "QJF")); require(is(currency('Q', 'J', 'G'), "", "QJG")); require(is(currency('Q', 'J', 'H'), "", "QJH")); require(is(currency('Q', 'J', 'I'), "", "QJI")); require(is(currency('Q', 'J', 'J'), "", "QJJ")); require(is(currency('Q', 'J', 'K'), "", "QJK")); require(is(currency('Q', 'J', 'L'), "", "QJL")); require(is(currency('Q', 'J', 'M'), "", "QJM")); require(is(currency('Q', 'J', 'N'), "", "QJN")); require(is(currency('Q', 'J', 'O'), "", "QJO")); require(is(currency('Q', 'J', 'P'), "", "QJP")); require(is(currency('Q', 'J', 'Q'), "", "QJQ")); require(is(currency('Q', 'J', 'R'), "", "QJR")); require(is(currency('Q', 'J', 'S'), "", "QJS")); require(is(currency('Q', 'J', 'T'), "", "QJT")); require(is(currency('Q', 'J', 'U'), "", "QJU")); require(is(currency('Q', 'J', 'V'), "", "QJV")); require(is(currency('Q', 'J', 'W'), "", "QJW")); require(is(currency('Q', 'J', 'X'), "", "QJX")); require(is(currency('Q', 'J', 'Y'), "", "QJY")); require(is(currency('Q', 'J', 'Z'), "", "QJZ"));)
OBLIGATION(no_currency_QK, "esl/economics/currencies.hpp: currency_name (codes without a currency from QK)", (), require(is(currency('Q', 'K', 'A'), "", "QKA")); require(is(currency('Q', 'K', 'B'), "", "QKB")); require(is(currency('Q', 'K', 'C'), "", "QKC")); require(is(currency('Q', 'K', 'D'), "", "QKD")); require(is(currency('Q', 'K', 'E'), "", "QKE")); require(is(currency('Q', 'K', 'F'), "", "QKF")); require(is(currency('Q', 'K', 'G'), "", "QKG")); require(is(currency('Q', 'K', 'H'), "", "QKH")); require(is(currency('Q', 'K', 'I'), "", "QKI")); require(is(currency('Q', 'K', 'J'), "", "QKJ")); require(is(currency('Q', 'K', 'K'), "", "QKK")); require(is(currency('Q', 'K', 'L'), "", "QKL")); require(is(currency('Q', 'K', 'M'), "", "QKM")); require(is(currency('Q', 'K', 'N'), "", "QKN")); require(is(currency('Q', 'K', 'O'), "", "QKO")); require(is(currency('Q', 'K', 'P'), "", "QKP")); require(is(currency('Q', 'K', 'Q'), "", "QKQ")); require(is(currency('Q', 'K', 'R'), "", "QKR")); require(is(currency('Q', 'K', 'S'), "", "QKS")); require(is(currency('Q', 'K', 'T'), "", "QKT")); require(is(currency('Q', 'K', 'U'), "", "QKU")); require(is(currency('Q', 'K', 'V'), "", "QKV")); require(is(currency('Q', 'K', 'W'), "", "QKW")); require(is(currency('Q', 'K', 'X'), "", "QKX")); require(is(currency('Q', 'K', 'Y'), "", "QKY")); require(is(currency('Q', 'K', 'Z'), "", "QKZ"));)
OBLIGATION(no_currency_QL, "esl/economics/currencies.hpp: currency_name (codes without a currency from QL)", (), require(is(currency('Q', 'L', 'A'), "", "QLA")); require(is(currency('Q', 'L', 'B'), "", "QLB")); require(is(currency('Q', 'L', 'C'), "", "QLC")); require(is(currency('Q', 'L', 'D'), "", "QLD")); require(is(currency('Q', 'L', 'E'), "", "QLE")); require(is(currency('Q', 'L', 'F'), "", "QLF")); require(is(currency('Q', 'L', 'G'), "", "QLG")); require(is(currency('Q', 'L', 'H'), "", "QLH")); require(is(currency('Q', 'L', 'I'), "", "QLI")); require(is(currency('Q', 'L', 'J'), "", "QLJ")); require(is(currency('Q', 'L', 'K'), "", "QLK")); require(is(currency('Q', 'L', 'L'), "", "QLL")); require(is(currency('Q', 'L', 'M'), "", "QLM")); require(is(currency('Q', 'L', 'N'), "", "QLN")); require(is(currency('Q', 'L', 'O'), "", "QLO")); require(is(currency('Q', 'L', 'P'), "", "QLP")); require(is(currency('Q', 'L', 'Q'), "", "QLQ")); require(is(currency('Q', 'L', 'R'), "", "QLR")); require(is(currency('Q', 'L', 'S'), "", "QLS")); require(is(currency('Q', 'L', 'T'), "", "QLT")); require(is(currency('Q', 'L', 'U'), "", "QLU")); require(is(currency('Q', 'L', 'V'), "", "QLV")); require(is(currency('Q', 'L', 'W'), "", "QLW")); require(is(currency('Q', 'L', 'X'), "", "QLX")); require(is(currency('Q', 'L', 'Y'), "", "QLY")); require(is(currency('Q', 'L', 'Z'), "", "QLZ"));)
OBLIGATION(no_currency_QM, "esl/economics/currencies.hpp: currency_name (codes without a currency from QM)", (), require(is(currency('Q', 'M', 'A'), "", "QMA")); require(is(currency('Q', 'M', 'B'), "", "QMB")); require(is(currency('Q', 'M', 'C'), "", "QMC")); require(is(currency('Q', 'M', 'D'), "", "QMD")); require(is(currency('Q', 'M', 'E'), "", "QME")); require(is(currency('Q', 'M', 'F'), "", "QMF")); require(is(currency('Q', 'M', 'G'), "", "QMG")); require(is(currency('Q', 'M', 'H'), "", "QMH")); require(is(currency('Q', 'M', 'I'), "", "QMI")); require(is(currency('Q', 'M', 'J'), "", "QMJ")); require(is(currency('Q', 'M', 'K'), "", "QMK")); require(is(currency('Q', 'M', 'L'), "", "QML")); require(is(currency('Q', 'M', 'M'), "", "QMM")); require(is(currency('Q', 'M', 'N'), "", "QMN")); require(is(currency('Q', 'M', 'O'), "", "QMO")); require(is(currency('Q', 'M', 'P'), "", "QMP")); require(is(currency('Q', 'M', 'Q'), "", "QMQ")); require(is(currency('Q', 'M', 'R'), "", "QMR")); require(is(currency('Q', 'M', 'S'), "", "QMS")); require(is(currency('Q', 'M', 'T'), "", "QMT")); require(is(currency('Q', 'M', 'U'), "", "QMU")); require(is(currency('Q', 'M', 'V'), "", "QMV")); require(is(currency('Q', 'M', 'W'), "", "QMW")); require(is(currency('Q', 'M', 'X'), "", "QMX")); require(is(currency('Q', 'M', 'Y'), "", "QMY")); require(is(currency('Q', 'M', 'Z'), "", "QMZ"));)
OBLIGATION(no_currency_QN, "esl/economics/currencies.hpp: currency_name (codes without a currency from QN)", (), require(is(currency('Q', 'N', 'A'), "", "QNA")); require(is(currency('Q', 'N', 'B'), "", "QNB")); require(is(currency('Q', 'N', 'C'), "", "QNC")); require(is(currency('Q', 'N', 'D'), "", "QND")); require(is(currency('Q', 'N', 'E'), "", "QNE")); require(is(currency('Q', 'N', 'F'), "", "QNF")); require(is(currency('Q', 'N', 'G'), "", "QNG")); require(is(currency('Q', 'N', 'H'), "", "QNH")); require(is(currency('Q', 'N', 'I'), "", "QNI")); require(is(currency('Q', 'N', 'J'), "", "QNJ")); require(is(currency('Q', 'N', 'K'), "", "QNK")); require(is(currency('Q', 'N', 'L'), "", "QNL")); require(is(currency('Q', 'N', 'M'), "", "QNM")); require(is(currency('Q', 'N', 'N'), "", "QNN")); require(is(currency('Q', 'N', 'O'), "", "QNO")); require(is(currency('Q', 'N', 'P'), "", "QNP")); require(is(currency('Q', 'N', 'Q'), "", "QNQ")); require(is(currency('Q', 'N', 'R'), "", "QNR")); require(is(currency('Q', 'N', 'S'), "", "QNS")); require(is(currency('Q', 'N', 'T'), "", "QNT")); require(is(currency('Q', 'N', 'U'), "", "QNU")); require(is(currency('Q', 'N', 'V'), "", "QNV")); require(is(currency('Q', 'N', 'W'), "", "QNW")); require(is(currency('Q', 'N', 'X'), "", "QNX")); require(is(currency('Q', 'N', 'Y'), "", "QNY")); require(is(currency('Q', 'N', 'Z'), "", "QNZ"));)
OBLIGATION(no_currency_QO, "esl/economics/currencies.hpp: currency_name (codes without a currency from QO)", (), require(is(currency('Q', 'O', 'A'), "", "QOA")); require(is(currency('Q', 'O', 'B'), "", "QOB")); require(is(currency('Q', 'O', 'C'), "", "QOC")); require(is(currency('Q', 'O', 'D'), "", "QOD")); require(is(currency('Q', 'O', 'E'), "", "QOE")); require(is(currency('Q', 'O', 'F'), "", "QOF")); require(is(currency('Q', 'O', 'G'), "", "QOG")); require(is(currency('Q', 'O', 'H'), "", "QOH")); require(is(currency('Q', 'O', 'I'), "", "QOI")); require(is(currency('Q', 'O', 'J'), "", "QOJ")); require(is(currency('Q', 'O', 'K'), "", "QOK")); require(is(currency('Q', 'O', 'L'), "", "QOL")); require(is(currency('Q', 'O', 'M'), "", "QOM")); require(is(currency('Q', 'O', 'N'), "", "QON")); require(is(currency('Q', 'O', 'O'), "", "QOO")); require(is(currency('Q', 'O', 'P'), "", "QOP")); require(is(currency('Q', 'O', 'Q'), "", "QOQ")); require(is(currency('Q', 'O', 'R'), "", "QOR")); require(is(currency('Q', 'O', 'S'), "", "QOS")); require(is(currency('Q', 'O', 'T'), "", "QOT")); require(is(currency('Q', 'O', 'U'), "", "QOU")); require(is(currency('Q', 'O', 'V'), "", "QOV")); require(is(currency('Q', 'O', 'W'), "", "QOW")); require(is(currency('Q', 'O', 'X'), "", "QOX")); require(is(currency('Q', 'O', 'Y'), "", "QOY")); require(is(currency('Q', 'O', 'Z'), "", "QOZ"));)
OBLIGATION(no_currency_QP, "esl/economics/currencies.hpp: currency_name (codes without a currency from QP)", (), require(is(currency('Q', 'P', 'A'), "", "QPA")); require(is(currency('Q', 'P', 'B'), "", "QPB")); require(is(currency('Q', 'P', 'C'), "", "QPC")); require(is(currency('Q', 'P', 'D'), "", "QPD")); require(is(currency('Q', 'P', 'E'), "", "QPE")); require(is(currency('Q', 'P', 'F'), "", "QPF")); require(is(currency('Q', 'P', 'G'), "", "QPG")); require(is(currency('Q', 'P', 'H'), "", "QPH")); require(is(currency('Q', 'P', 'I'), "", "QPI")); require(is(currency('Q', 'P', 'J'), "", "QPJ")); require(is(currency('Q', 'P', 'K'), "", "QPK")); require(is(currency('Q', 'P', 'L'), "", "QPL")); require(is(currency('Q', 'P', 'M'), "", "QPM")); require(is(currency('Q', 'P', 'N'), "", "QPN")); require(is(currency('Q', 'P', 'O'), "", "QPO")); require(is(currency('Q', 'P', 'P'), "", "QPP")); require(is(currency('Q', 'P', 'Q'), "", "QPQ")); require(is(currency('Q', 'P', 'R'), "", "QPR")); require(is(currency('Q', 'P', 'S'), "", "QPS")); require(is(currency('Q', 'P', 'T'), "", "QPT")); require(is(currency('Q', 'P', 'U'), "", "QPU")); require(is(currency('Q', 'P', 'V'), "", "QPV")); require(is(currency('Q', 'P', 'W'), "", "QPW")); require(is(currency('Q', 'P', 'X'), "", "QPX")); require(is(currency('Q', 'P', 'Y'), "", "QPY")); require(is(currency('Q', 'P', 'Z'), "", "QPZ"));)
OBLIGATION(no_currency_QQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from QQ)", (), require(is(currency('Q', 'Q', 'A'), "", "QQA")); require(is(currency('Q', 'Q', 'B'), "", "QQB")); require(is(currency('Q', 'Q', 'C'), "", "QQC")); require(is(currency('Q', 'Q', 'D'), "", "QQD")); require(is(currency('Q', 'Q', 'E'), "", "QQE")); require(is(currency('Q', 'Q', 'F'), "", "QQF")); require(is(currency('Q', 'Q', 'G'), "", "QQG")); require(is(currency('Q', 'Q', 'H'), "", "QQH")); require(is(currency('Q', 'Q', 'I'), "", "QQI")); require(is(currency('Q', 'Q', 'J'), "", "QQJ")); require(is(currency('Q', 'Q', 'K'), "", "QQK")); require(is(currency('Q', 'Q', 'L'), "", "QQL")); require(is(currency('Q', 'Q', 'M'), "", "QQM")); require(is(currency('Q', 'Q', 'N'), "", "QQN")); require(is(currency('Q', 'Q', 'O'), "", "QQO")); require(is(currency('Q', 'Q', 'P'), "", "QQP")); require(is(currency('Q', 'Q', 'Q'), "", "QQQ")); require(is(currency('Q', 'Q', 'R'), "", "QQR")); require(is(currency('Q', 'Q', 'S'), "", "QQS")); require(is(currency('Q', 'Q', 'T'), "", "QQT")); require(is(currency('Q', 'Q', 'U'), "", "QQU")); require(is(currency('Q', 'Q', 'V'), "", "QQV")); require(is(currency('Q', 'Q', 'W'), "", "QQW")); require(is(currency('Q', 'Q', 'X'), "", "QQX")); require(is(currency('Q', 'Q', 'Y'), "", "QQY")); require(is(currency('Q', 'Q', 'Z'), "", "QQZ"));)
OBLIGATION(no_currency_QR, "esl/economics/currencies.hpp: currency_name (codes without a currency from QR)", (), require(is(currency('Q', 'R', 'A'), "", "QRA")); require(is(currency('Q', 'R', 'B'), "", "QRB")); require(is(currency('Q', 'R', 'C'), "", "QRC")); require(is(currency('Q', 'R', 'D'), "", "QRD")); require(is(currency('Q', 'R', 'E'), "", "QRE")); require(is(currency('Q', 'R', 'F'), "", "QRF")); require(is(currency('Q', 'R', 'G'), "", "QRG")); require(is(currency('Q', 'R', 'H'), "", "QRH")); require(is(currency('Q', 'R', 'I'), "", "QRI")); require(is(currency('Q', 'R', 'J'), "", "QRJ")); require(is(currency('Q', 'R', 'K'), "", "QRK")); require(is(currency('Q', 'R', 'L'), "", "QRL")); require(is(currency('Q', 'R', 'M'), "", "QRM")); require(is(currency('Q', 'R', 'N'), "", "QRN")); require(is(currency('Q', 'R', 'O'), "", "QRO")); require(is(currency('Q', 'R', 'P'), "", "QRP")); require(is(currency('Q', 'R', 'Q'), "", "QRQ")); require(is(currency('Q', 'R', 'R'), "", "QRR")); require(is(currency('Q', 'R', 'S'), "", "QRS")); require(is(currency('Q', 'R', 'T'), "", "QRT")); require(is(currency('Q', 'R', 'U'), "", "QRU")); require(is(currency('Q', 'R', 'V'), "", "QRV")); require(is(currency('Q', 'R', 'W'), "", "QRW")); require(is(currency('Q', 'R', 'X'), "", "QRX")); require(is(currency('Q', 'R', 'Y'), "", "QRY")); require(is(currency('Q', 'R', 'Z'), "", "QRZ"));)
OBLIGATION(no_currency_QS, "esl/economics/currencies.hpp: currency_name (codes without a currency from QS)", (), require(is(currency('Q', 'S', 'A'), "", "QSA")); require(is(currency('Q', 'S', 'B'), "", "QSB")); require(is(currency('Q', 'S', 'C'), "", "QSC")); require(is(currency('Q', 'S', 'D'), "", "QSD")); require(is(currency('Q', 'S', 'E'), "", "QSE")); require(is(currency('Q', 'S', 'F'), "", "QSF")); require(is(currency('Q', 'S', 'G'), "", "QSG")); require(is(currency('Q', 'S', 'H'), "", "QSH")); require(is(currency('Q', 'S', 'I'), "", "QSI")); require(is(currency('Q', 'S', 'J'), "", "QSJ")); require(is(currency('Q', 'S', 'K'), "", "QSK")); require(is(currency('Q', 'S', 'L'), "", "QSL")); require(is(currency('Q', 'S', 'M'), "", "QSM")); require(is(currency('Q', 'S', 'N'), "", "QSN")); require(is(currency('Q', 'S', 'O'), "", "QSO")); require(is(currency('Q', 'S', 'P'), "", "QSP")); require(is(currency('Q', 'S', 'Q'), "", "QSQ")); require(is(currency('Q', 'S', 'R'), "", "QSR")); require(is(currency('Q', 'S', 'S'), "", "QSS")); require(is(currency('Q', 'S', 'T'), "", "QST")); require(is(currency('Q', 'S', 'U'), "", "QSU")); require(is(currency('Q', 'S', 'V'), "", "QSV")); require(is(currency('Q', 'S', 'W'), "", "QSW")); require(is(currency('Q', 'S', 'X'), "", "QSX")); require(is(currency('Q', 'S', 'Y'), "", "QSY")); require(is(currency('Q', 'S', 'Z'), "", "QSZ"));)
OBLIGATION(no_currency_QT, "esl/economics/currencies.hpp: currency_name (codes without a currency from QT)", (), require(is(currency('Q', 'T', 'A'), "", "QTA")); require(is(currency('Q', 'T', 'B'), "", "QTB")); require(is(currency('Q', 'T', 'C'), "", "QTC")); require(is(currency('Q', 'T', 'D'), "", "QTD")); require(is(currency('Q', 'T', 'E'), "", "QTE")); require(is(currency('Q', 'T', 'F'), "", "QTF")); require(is(currency('Q', 'T', 'G'), "", "QTG")); require(is(currency('Q', 'T', 'H'), "", "QTH")); require(is(currency('Q', 'T', 'I'), "", "QTI")); require(is(currency('Q', 'T', 'J'), "", "QTJ")); require(is(currency('Q', 'T', 'K'), "", "QTK")); require(is(currency('Q', 'T', 'L'), "", "QTL")); require(is(currency('Q', 'T', 'M'), "", "QTM")); require(is(currency('Q', 'T', 'N'), "", "QTN")); require(is(currency('Q', 'T', 'O'), "", "QTO")); require(is(currency('Q', 'T', 'P'), "", "QTP")); require(is(currency('Q', 'T', 'Q'), "", "QTQ")); require(is(currency('Q', 'T', 'R'), "", "QTR")); require(is(currency('Q', 'T', 'S'), "", "QTS")); require(is(currency('Q', 'T', 'T'), "", "QTT")); require(is(currency('Q', 'T', 'U'), "", "QTU")); require(is(currency('Q', 'T', 'V'), "", "QTV")); require(is(currency('Q', 'T', 'W'), "", "QTW")); require(is(currency('Q', 'T', 'X'), "", "QTX")); require(is(currency('Q', 'T', 'Y'), "", "QTY")); require(is(currency('Q', 'T', 'Z'), "", "QTZ"));)
OBLIGATION(no_currency_QU, "esl/economics/currencies.hpp: currency_name (codes without a currency from QU)", (), require(is(currency('Q', 'U', 'A'), "", "QUA")); require(is(currency('Q', 'U', 'B'), "", "QUB")); require(is(currency('Q', 'U', 'C'), "", "QUC")); require(is(currency('Q', 'U', 'D'), "", "QUD")); require(is(currency('Q', 'U', 'E'), "", "QUE")); require(is(currency('Q', 'U', 'F'), "", "QUF")); require(is(currency('Q', 'U', 'G'), "", "QUG")); require(is(currency('Q', 'U', 'H'), "", "QUH")); require(is(currency('Q', 'U', 'I'), "", "QUI")); require(is(currency('Q', 'U', 'J'), "", "QUJ")); require(is(currency('Q', 'U', 'K'), "", "QUK")); require(is(currency('Q', 'U', 'L'), "", "QUL")); require(is(currency('Q', 'U', 'M'), "", "QUM")); require(is(currency('Q', 'U', 'N'), "", "QUN")); require(is(currency('Q', 'U', 'O'), "", "QUO")); require(is(currency('Q', 'U', 'P'), "", "QUP")); require(is(currency('Q', 'U', 'Q'), "", "QUQ")); require(is(currency('Q', 'U', 'R'), "", "QUR")); require(is(currency('Q', 'U', 'S'), "", "QUS")); require(is(currency('Q', 'U', 'T'), "", "QUT")); require(is(currency('Q', 'U', 'U'), "", "QUU")); require(is(currency('Q', 'U', 'V'), "", "QUV")); require(is(currency('Q', 'U', 'W'), "", "QUW")); require(is(currency('Q', 'U', 'X'), "", "QUX")); require(is(currency('Q', 'U', 'Y'), "", "QUY")); require(is(currency('Q', 'U', 'Z'), "", "QUZ"));)
OBLIGATION(no_currency_QV, "esl/economics/currencies.hpp: currency_name (codes without a currency from QV)", (), require(is(currency('Q', 'V', 'A'), "", "QVA")); require(is(currency('Q', 'V', 'B'), "", "QVB")); require(is(currency('Q', 'V', 'C'), "", "QVC")); require(is(currency('Q', 'V', 'D'), "", "QVD")); require(is(currency('Q', 'V', 'E'), "", "QVE")); require(is(currency('Q', 'V', 'F'), "", "QVF")); require(is(currency('Q', 'V', 'G'), "", "QVG")); require(is(currency('Q', 'V', 'H'), "", "QVH")); require(is(currency('Q', 'V', 'I'), "", "QVI")); require(is(currency('Q', 'V', 'J'), "", "QVJ")); require(is(currency('Q', 'V', 'K'), "", "QVK")); require(is(currency('Q', 'V', 'L'), "", "QVL")); require(is(currency('Q', 'V', 'M'), "", "QVM")); require(is(currency('Q', 'V', 'N'), "", "QVN")); require(is(currency('Q', 'V', 'O'), "", "QVO")); require(is(currency('Q', 'V', 'P'), "", "QVP")); require(is(currency('Q', 'V', 'Q'), "", "QVQ")); require(is(currency('Q', 'V', 'R'), "", "QVR")); require(is(currency('Q', 'V', 'S'), "", "QVS")); require(is(currency('Q', 'V', 'T'), "", "QVT")); require(is(currency('Q', 'V', 'U'), "", "QVU")); require(is(currency('Q', 'V', 'V'), "", "QVV")); require(is(currency('Q', 'V', 'W'), "", "QVW")); require(is(currency('Q', 'V', 'X'), "", "QVX")); require(is(currency('Q', 'V', 'Y'), "", "QVY")); require(is(currency('Q', 'V', 'Z'), "", "QVZ"));)
OBLIGATION(no_currency_QW, "esl/economics/currencies.hpp: currency_name (codes without a currency from QW)", (), require(is(currency('Q', 'W', 'A'), "", "QWA")); require(is(currency('Q', 'W', 'B'), "", "QWB")); require(is(currency('Q', 'W', 'C'), "", "QWC")); require(is(currency('Q', 'W', 'D'), "", "QWD")); require(is(currency('Q', 'W', 'E'), "", "QWE")); require(is(currency('Q', 'W', 'F'), "", "QWF")); require(is(currency('Q', 'W', 'G'), "", "QWG")); require(is(currency('Q', 'W', 'H'), "", "QWH")); require(is(currency('Q', 'W', 'I'), "", "QWI")); require(is(currency('Q', 'W', 'J'), "", "QWJ")); require(is(currency('Q', 'W', 'K'), "", "QWK")); require(is(currency('Q', 'W', 'L'), "", "QWL")); require(is(currency('Q', 'W', 'M'), "", "QWM")); require(is(currency('Q', 'W', 'N'), "", "QWN")); require(is(currency('Q', 'W', 'O'), "", "QWO")); require(is(currency('Q', 'W', 'P'), "", "QWP")); require(is(currency('Q', 'W', 'Q'), "", "QWQ")); require(is(currency('Q', 'W', 'R'), "", "QWR")); require(is(currency('Q', 'W', 'S'), "", "QWS")); require(is(currency('Q', 'W', 'T'), "", "QWT")); require(is(currency('Q', 'W', 'U'), "", "QWU")); require(is(currency('Q', 'W', 'V'), "", "QWV")); require(is(currency('Q', 'W', 'W'), "", "QWW")); require(is(currency('Q', 'W', 'X'), "", "QWX")); require(is(currency('Q', 'W', 'Y'), "", "QWY")); require(is(currency('Q', 'W', 'Z'), "", "QWZ"));)
OBLIGATION(no_currency_QX, "esl/economics/currencies.hpp: currency_name (codes without a currency from QX)", (), require(is(currency('Q', 'X', 'A'), "", "QXA")); require(is(currency('Q', 'X', 'B'), "", "QXB")); require(is(currency('Q', 'X', 'C'), "", "QXC")); require(is(currency('Q', 'X', 'D'), "", "QXD")); require(is(currency('Q', 'X', 'E'), "", "QXE")); require(is(currency('Q', 'X', 'F'), "", "QXF")); require(is(currency('Q', 'X', 'G'), "", "QXG")); require(is(currency('Q', 'X', 'H'), "", "QXH")); require(is(currency('Q', 'X', 'I'), "", "QXI")); require(is(currency('Q', 'X', 'J'), "", "QXJ")); require(is(currency('Q', 'X', 'K'), "", "QXK")); require(is(currency('Q', 'X', 'L'), "", "QXL")); require(is(currency('Q', 'X', 'M'), "", "QXM")); require(is(currency('Q', 'X', 'N'), "", "QXN")); require(is(currency('Q', 'X', 'O'), "", "QXO")); require(is(currency('Q', 'X', 'P'), "", "QXP")); require(is(currency('Q', 'X', 'Q'), "", "QXQ")); require(is(currency('Q', 'X', 'R'), "", "QXR")); require(is(currency('Q', 'X', 'S'), "", "QXS")); require(is(currency('Q', 'X', 'T'), "", "QXT")); require(is(currency('Q', 'X', 'U'), "", "QXU")); require(is(currency('Q', 'X', 'V'), "", "QXV")); require(is(currency('Q', 'X', 'W'), "", "QXW")); require(is(currency('Q', 'X', 'X'), "", "QXX")); require(is(currency('Q', 'X', 'Y'), "", "QXY")); require(is(currency('Q', 'X', 'Z'), "", "QXZ"));)
OBLIGATION(no_currency_QY, "esl/economics/currencies.hpp: currency_name (codes without a currency from QY)", (), require(is(currency('Q', 'Y', 'A'), "", "QYA")); require(is(currency('Q', 'Y', 'B'), "", "QYB")); require(is(currency('Q', 'Y', 'C'), "", "QYC")); require(is(currency('Q', 'Y', 'D'), "", "QYD")); require(is(currency('Q', 'Y', 'E'), "", "QYE")); require(is(currency('Q', 'Y', 'F'), "", "QYF")); require(is(currency('Q', 'Y', 'G'), "", "QYG")); require(is(currency('Q', 'Y', 'H'), "", "QYH")); require(is(currency('Q', 'Y', 'I'), "", "QYI")); require(is(currency('Q', 'Y', 'J'), "", "QYJ")); require(is(currency('Q', 'Y', 'K'), "", "QYK")); require(is(currency('Q', 'Y', 'L'), "", "QYL")); require(is(currency('Q', 'Y', 'M'), "", "QYM")); require(is(currency('Q', 'Y', 'N'), "", "QYN")); require(is(currency('Q', 'Y', 'O'), "", "QYO")); require(is(currency('Q', 'Y', 'P'), "", "QYP")); require(is(currency('Q', 'Y', 'Q'), "", "QYQ")); require(is(currency('Q', 'Y', 'R'), "", "QYR")); require(is(currency('Q', 'Y', 'S'), "", "QYS")); require(is(currency('Q', 'Y', 'T'), "", "QYT")); require(is(currency('Q', 'Y', 'U'), "", "QYU")); require(is(currency('Q', 'Y', 'V'), "", "QYV")); require(is(currency('Q', 'Y', 'W'), "", "QYW")); require(is(currency('Q', 'Y', 'X'), "", "QYX")); require(is(currency('Q', 'Y', 'Y'), "", "QYY")); require(is(currency('Q', 'Y', 'Z'), "", "QYZ"));)
OBLIGATION(no_currency_QZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from QZ)", (), require(is(currency('Q', 'Z', 'A'), "", "QZA")); require(is(currency('Q', 'Z', 'B'), "", "QZB")); require(is(currency('Q', 'Z', 'C'), "", "QZC")); require(is(currency('Q', 'Z', 'D'), "", "QZD")); require(is(currency('Q', 'Z', 'E'), "", "QZE")); require(is(currency('Q', 'Z', 'F'), "", "QZF")); require(is(currency('Q', 'Z', 'G'), "", "QZG")); require(is(currency('Q', 'Z', 'H'), "", "QZH")); require(is(currency('Q', 'Z', 'I'), "", "QZI")); require(is(currency('Q', 'Z', 'J'), "", "QZJ")); require(is(currency('Q', 'Z', 'K'), "", "QZK")); require(is(currency('Q', 'Z', 'L'), "", "QZL")); require(is(currency('Q', 'Z', 'M'), "", "QZM")); require(is(currency('Q', 'Z', 'N'), "", "QZN")); require(is(currency('Q', 'Z', 'O'), "", "QZO")); require(is(currency('Q', 'Z', 'P'), "", "QZP")); require(is(currency('Q', 'Z', 'Q'), "", "QZQ")); require(is(currency('Q', 'Z', 'R'), "", "QZR")); require(is(currency('Q', 'Z', 'S'), "", "QZS")); require(is(currency('Q', 'Z', 'T'), "", "QZT")); require(is(currency('Q', 'Z', 'U'), "", "QZU")); require(is(currency('Q', 'Z', 'V'), "", "QZV")); require(is(currency('Q', 'Z', 'W'), "", "QZW")); require(is(currency('Q', 'Z', 'X'), "", "QZX")); require(is(currency('Q', 'Z', 'Y'), "", "QZY")); require(is(currency('Q', 'Z', 'Z'), "", "QZZ"));)
OBLIGATION(no_currency_RA, "esl/economics/currencies.hpp: currency_name (codes without a currency from RA)", (), require(is(currency('R', 'A', 'A'), "", "RAA")); require(is(currency('R', 'A', 'B'), "", "RAB")); require(is(currency('R', 'A', 'C'), "", "RAC")); require(is(currency('R', 'A', 'D'), "", "RAD")); require(is(currency('R', 'A', 'E'), "", "RAE")); require(is(currency('R', 'A', 'F'), "", "RAF")); require(is(currency('R', 'A', 'G'), "", "RAG")); require(is(currency('R', 'A', 'H'), "", "RAH")); require(is(currency('R', 'A', 'I'), "", "RAI")); require(is(currency('R', 'A', 'J'), "", "RAJ")); require(is(currency('R', 'A', 'K'), "", "RAK")); require(is(currency('R', 'A', 'L'), "", "RAL")); require(is(currency('R', 'A', 'M'), "", "RAM")); require(is(currency('R', 'A', 'N'), "", "RAN")); require(is(currency('R', 'A', 'O'), "", "RAO")); require(is(currency('R', 'A', 'P'), "", "RAP")); require(is(currency('R', 'A', 'Q'), "", "RAQ")); require(is(currency('R', 'A', 'R'), "", "RAR")); require(is(currency('R', 'A', 'S'), "", "RAS")); require(is(currency('R', 'A', 'T'), "", "RAT")); require(is(currency('R', 'A', 'U'), "", "RAU")); require(is(currency('R', 'A', 'V'), "", "RAV")); require(is(currency('R', 'A', 'W'), "", "RAW")); require(is(currency('R', 'A', 'X'), "", "RAX")); require(is(currency('R', 'A', 'Y'), "", "RAY")); require(is(currency('R', 'A', 'Z'), "", "RAZ"));)
OBLIGATION(no_currency_RB, "esl/economics/currencies.hpp: currency_name (codes without a currency from RB)", (), require(is(currency('R', 'B', 'A'), "", "RBA")); require(is(currency('R', 'B', 'B'), "", "RBB")); require(is(currency('R', 'B', 'C'), "", "RBC")); require(is(currency('R', 'B', 'D'), "", "RBD")); require(is(currency('R', 'B', 'E'), "", "RBE")); require(is(currency('R', 'B', 'F'), "", "RBF")); require(is(currency('R', 'B', 'G'), "", "RBG")); require(is(currency('R', 'B', 'H'), "", "RBH")); require(is(currency('R', 'B', 'I'), "", "RBI")); require(is(currency('R', 'B', 'J'), "", "RBJ")); require(is(currency('R', 'B', 'K'), "", "RBK")); require(is(currency('R', 'B', 'L'), "", "RBL")); require(is(currency('R', 'B', 'M'), "", "RBM")); require(is(currency('R', 'B', 'N'), "", "RBN")); require(is(currency('R', 'B', 'O'), "", "RBO")); require(is(currency('R', 'B', 'P'), "", "RBP")); require(is(currency('R', 'B', 'Q'), "", "RBQ")); require(is(currency('R', 'B', 'R'), "", "RBR")); require(is(currency('R', 'B', 'S'), "", "RBS")); require(is(currency('R', 'B', 'T'), "", "RBT")); require(is(currency('R', 'B', 'U'), "", "RBU")); require(is(currency('R', 'B', 'V'), "", "RBV")); require(is(currency('R', 'B', 'W'), "", "RBW")); require(is(currency('R', 'B', 'X'), "", "RBX")); require(is(currency('R', 'B', 'Y'), "", "RBY")); require(is(currency('R', 'B', 'Z'), "", "RBZ"));)
OBLIGATION(no_currency_RC, "esl/economics/currencies.hpp: currency_name (codes without a currency from RC)", (), require(is(currency('R', 'C', 'A'), "", "RCA")); require(is(currency('R', 'C', 'B'), "", "RCB")); require(is(currency('R', 'C', 'C'), "", "RCC")); require(is(currency('R', 'C', 'D'), "", "RCD")); require(is(currency('R', 'C', 'E'), "", "RCE")); require(is(currency('R', 'C', 'F'), "", "RCF")); require(is(currency('R', 'C', 'G'), "", "RCG")); require(is(currency('R', 'C', 'H'), "", "RCH")); require(is(currency('R', 'C', 'I'), "", "RCI")); require(is(currency('R', 'C', 'J'), "", "RCJ")); require(is(currency('R', 'C', 'K'), "", "RCK")); require(is(currency('R', 'C', 'L'), "", "RCL")); require(is(currency('R', 'C', 'M'), "", "RCM")); require(is(currency('R', 'C', 'N'), "", "RCN")); require(is(currency('R', 'C', 'O'), "", "RCO")); require(is(currency('R', 'C', 'P'), "", "RCP")); require(is(currency('R', 'C', 'Q'), "", "RCQ")); require(is(currency('R', 'C', 'R'), "", "RCR")); require(is(currency('R', 'C', 'S'), "", "RCS")); require(is(currency('R', 'C', 'T'), "", "RCT")); require(is(currency('R', 'C', 'U'), "", "RCU")); require(is(currency('R', 'C', 'V'), "", "RCV")); require(is(currency('R', 'C', 'W'), "", "RCW")); require(is(currency('R', 'C', 'X'), "", "RCX")); require(is(currency('R', 'C', 'Y'), "", "RCY")); require(is(currency('R', 'C', 'Z'), "", "RCZ"));)
OBLIGATION(no_currency_RD, "esl/economics/currencies.hpp: currency_name (codes without a currency from RD)", (), require(is(currency('R', 'D', 'A'), "", "RDA")); require(is(currency('R', 'D', 'B'), "", "RDB")); require(is(currency('R', 'D', 'C'), "", "RDC")); require(is(currency('R', 'D', 'D'), "", "RDD")); require(is(currency('R', 'D', 'E'), "", "RDE")); require(is(currency('R', 'D', 'F'), "", "RDF")); require(is(currency('R', 'D', 'G'), "", "RDG")); require(is(currency('R', 'D', 'H'), "", "RDH")); require(is(currency('R', 'D', 'I'), "", "RDI")); require(is(currency('R', 'D', 'J'), "", "RDJ")); require(is(currency('R', 'D', 'K'), "", "RDK")); require(is(currency('R', 'D', 'L'), "", "RDL")); require(is(currency('R', 'D', 'M'), "", "RDM")); require(is(currency('R', 'D', 'N'), "", "RDN")); require(is(currency('R', 'D', 'O'), "", "RDO")); require(is(currency('R', 'D', 'P'), "", "RDP")); require(is(currency('R', 'D', 'Q'), "", "RDQ")); require(is(currency('R', 'D', 'R'), "", "RDR")); require(is(currency('R', 'D', 'S'), "", "RDS")); require(is(currency('R', 'D', 'T'), "", "RDT")); require(is(currency('R', 'D', 'U'), "", "RDU")); require(is(currency('R', 'D', 'V'), "", "RDV")); require(is(currency('R', 'D', 'W'), "", "RDW")); require(is(currency('R', 'D', 'X'), "", "RDX")); require(is(currency('R', 'D', 'Y'), "", "RDY")); require(is(currency('R', 'D', 'Z'), "", "RDZ"));)
OBLIGATION(no_currency_RE, "esl/economics/currencies.hpp: currency_name (codes without a currency from RE)", (), require(is(currency('R', 'E', 'A'), "", "REA")); require(is(currency('R', 'E', 'B'), "", "REB")); require(is(currency('R', 'E', 'C'), "", "REC")); require(is(currency('R', 'E', 'D'), "", "RED")); require(is(currency('R', 'E', 'E'), "", "REE")); require(is(currency('R', 'E', 'F'), "", "REF")); require(is(currency('R', 'E', 'G'), "", "REG")); require(is(currency('R', 'E', 'H'), "", "REH")); require(is(currency('R', 'E', 'I'), "", "REI")); require(is(currency('R', 'E', 'J'), "", "REJ")); require(is(currency('R', 'E', 'K'), "", "REK")); require(is(currency('R', 'E', 'L'), "", "REL")); require(is(currency('R', 'E', 'M'), "", "REM")); require(is(currency('R', 'E', 'N'), "", "REN")); require(is(currency('R', 'E', 'O'), "", "REO")); require(is(currency('R', 'E', 'P'), "", "REP")); require(is(currency('R', 'E', 'Q'), "", "REQ")); require(is(currency('R', 'E', 'R'), "", "RER")); require(is(currency('R', 'E', 'S'), "", "RES")); require(is(currency('R', 'E', 'T'), "", "RET")); require(is(currency('R', 'E', 'U'), "", "REU")); require(is(currency('R', 'E', 'V'), "", "REV")); require(is(currency('R', 'E', 'W'), "", "REW")); require(is(currency('R', 'E', 'X'), "", "REX")); require(is(currency('R', 'E', 'Y'), "", "REY")); require(is(currency('R', 'E', 'Z'), "", "REZ"));)
OBLIGATION(no_currency_RF, "esl/economics/currencies.hpp: currency_name (codes without a currency from RF)", (), require(is(currency('R', 'F', 'A'), "", "RFA")); require(is(currency('R', 'F', 'B'), "", "RFB")); require(is(currency('R', 'F', 'C'), "", "RFC")); require(is(currency('R', 'F', 'D'), "", "RFD")); require(is(currency('R', 'F', 'E'), "", "RFE")); require(is(currency('R', 'F', 'F'), "", "RFF")); require(is(currency('R', 'F', 'G'), "", "RFG")); require(is(currency('R', 'F', 'H'), "", "RFH")); require(is(currency('R', 'F', 'I'), "", "RFI")); require(is(currency('R', 'F', 'J'), "", "RFJ")); require(is(currency('R', 'F', 'K'), "", "RFK")); require(is(currency('R', 'F', 'L'), "", "RFL")); require(is(currency('R', 'F', 'M'), "", "RFM")); require(is(currency('R', 'F', 'N'), "", "RFN")); require(is(currency('R', 'F', 'O'), "", "RFO")); require(is(currency('R', 'F', 'P'), "", "RFP")); require(is(currency('R', 'F', 'Q'), "", "RFQ")); require(is(currency('R', 'F', 'R'), "", "RFR")); require(is(currency('R', 'F', 'S'), "", "RFS")); require(is(currency('R', 'F', 'T'), "", "RFT")); require(is(currency('R', 'F', 'U'), "", "RFU")); require(is(currency('R', 'F', 'V'), "", "RFV")); require(is(currency('R', 'F', 'W'), "", "RFW")); require(is(currency('R', 'F', 'X'), "", "RFX")); require(is(currency('R', 'F', 'Y'), "", "RFY")); require(is(currency('R', 'F', 'Z'), "", "RFZ"));)
OBLIGATION(no_currency_RG, "esl/economics/currencies.hpp: currency_name (codes without a currency from RG)", (), require(is(currency('R', 'G', 'A'), "", "RGA")); require(is(currency('R', 'G', 'B'), "", "RGB")); require(is(currency('R', 'G', 'C'), "", "RGC")); require(is(currency('R', 'G', 'D'), "", "RGD")); require(is(currency('R', 'G', 'E'), "", "RGE")); require(is(currency('R', 'G', 'F'), "", "RGF")); require(is(currency('R', 'G', 'G'), "", "RGG")); require(is(currency('R', 'G', 'H'), "", "RGH")); require(is(currency('R', 'G', 'I'), "", "RGI")); require(is(currency('R', 'G', 'J'), "", "RGJ")); require(is(currency('R', 'G', 'K'), "", "RGK")); require(is(currency('R', 'G', 'L'), "", "RGL")); require(is(currency('R', 'G', 'M'), "", "RGM")); require(is(currency('R', 'G', 'N'), "", "RGN")); require(is(currency('R', 'G', 'O'), "", "RGO")); require(is(currency('R', 'G', 'P'), "", "RGP")); require(is(currency('R', 'G', 'Q'), "", "RGQ")); require(is(currency('R', 'G', 'R'), "", "RGR")); require(is(currency('R', 'G', 'S'), "", "RGS")); require(is(currency('R', 'G', 'T'), "", "RGT")); require(is(currency('R', 'G', 'U'), "", "RGU")); require(is(currency('R', 'G', 'V'), "", "RGV")); require(is(currency('R', 'G', 'W'), "", "RGW")); require(is(currency('R', 'G', 'X'), "", "RGX")); require(is(currency('R', 'G', 'Y'), "", "RGY")); require(is(currency('R', 'G', 'Z'), "", "RGZ"));)
OBLIGATION(no_currency_RH, "esl/economics/currencies.hpp: currency_name (codes without a currency from RH)", (), require(is(currency('R', 'H', 'A'), "", "RHA")); require(is(currency('R', 'H', 'B'), "", "RHB")); require(is(currency('R', 'H', 'C'), "", "RHC")); require(is(currency('R', 'H', 'D'), "", "RHD")); require(is(currency('R', 'H', 'E'), "", "RHE")); require(is(currency('R', 'H', 'F'), "", "RHF")); require(is(currency('R', 'H', 'G'), "", "RHG")); require(is(currency('R', 'H', 'H'), "", "RHH")); require(is(currency('R', 'H', 'I'), "", "RHI")); require(is(currency('R', 'H', 'J'), "", "RHJ")); require(is(currency('R', 'H', 'K'), "", "RHK")); require(is(currency('R', 'H', 'L'), "", "RHL")); require(is(currency('R', 'H', 'M'), "", "RHM")); require(is(currency('R', 'H', 'N'), "", "RHN")); require(is(currency('R', 'H', 'O'), "", "RHO")); require(is(currency('R', 'H', 'P'), "", "RHP")); require(is(currency('R', 'H', 'Q'), "", "RHQ")); require(is(currency('R', 'H', 'R'), "", "RHR")); require(is(currency('R', 'H', 'S'), "", "RHS")); require(is(currency('R', 'H', 'T'), "", "RHT")); require(is(currency('R', 'H', 'U'), "", "RHU")); require(is(currency('R', 'H', 'V'), "", "RHV")); require(is(currency('R', 'H', 'W'), "", "RHW")); require(is(currency('R', 'H', 'X'), "", "RHX")); require(is(currency('R', 'H', 'Y'), "", "RHY")); require(is(currency('R', 'H', 'Z'), "", "RHZ"));)
OBLIGATION(no_currency_RI, "esl/economics/currencies.hpp: currency_name (codes without a currency from RI)", (), require(is(currency('R', 'I', 'A'), "", "RIA")); require(is(currency('R', 'I', 'B'), "", "RIB")); require(is(currency('R', 'I', 'C'), "", "RIC")); require(is(currency('R', 'I', 'D'), "", "RID")); require(is(currency('R', 'I', 'E'), "", "RIE")); require(is(currency('R', 'I', 'F'), "", "RIF")); require(is(currency('R', 'I', 'G'), "", "RIG")); require(is(currency('R', 'I', 'H'), "", "RIH")); require(is(currency('R', 'I', 'I'), "", "RII")); require(is(currency('R', 'I', 'J'), "", "RIJ")); require(is(currency('R', 'I', 'K'), "", "RIK")); require(is(currency('R', 'I', 'L'), "", "RIL")); require(is(currency('R', 'I', 'M'), "", "RIM")); require(is(currency('R', 'I', 'N'), "", "RIN")); require(is(currency('R', 'I', 'O'), "", "RIO")); require(is(currency('R', 'I', 'P'), "", "RIP")); require(is(currency('R', 'I', 'Q'), "", "RIQ")); require(is(currency('R', 'I', 'R'), "", "RIR")); require(is(currency('R', 'I', 'S'), "", "RIS")); require(is(currency('R', 'I', 'T'), "", "RIT")); require(is(currency('R', 'I', 'U'), "", "RIU")); require(is(currency('R', 'I', 'V'), "", "RIV")); require(is(currency('R', 'I', 'W'), "", "RIW")); require(is(currency('R', 'I', 'X'), "", "RIX")); require(is(currency('R', 'I', 'Y'), "", "RIY")); require(is(currency('R', 'I', 'Z'), "", "RIZ"));)
OBLIGATION(no_currency_RJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from RJ)", (), require(is(currency('R', 'J', 'A'), "", "RJA")); require(is(currency('R', 'J', 'B'), "", "RJB")); require(is(currency('R', 'J', 'C'), "", "RJC")); require(is(currency('R', 'J', 'D'), "", "RJD")); require(is(currency('R', 'J', 'E'), "", "RJE")); require(is(currency('R', 'J', 'F'), "", "RJF")); require(is(currency('R', 'J', 'G'), "", "RJG")); require(is(currency('R', 'J', 'H'), "", "RJH")); require(is(currency('R', 'J', 'I'), "", "RJI")); require(is(currency('R', 'J', 'J'), "", "RJJ")); require(is(currency('R', 'J', 'K'), "", "RJK")); require(is(currency('R', 'J', 'L'), "", "RJL")); require(is(currency('R', 'J', 'M'), "", "RJM")); require(is(currency('R', 'J', 'N'), "", "RJN")); require(is(currency('R', 'J', 'O'), "", "RJO")); require(is(currency('R', 'J', 'P'), "", "RJP")); require(is(currency('R', 'J', 'Q'), "", "RJQ")); require(is(currency('R', 'J', 'R'), "", "RJR")); require(is(currency('R', 'J', 'S'), "", "RJS")); require(is(currency('R', 'J', 'T'), "", "RJT")); require(is(currency('R', 'J', 'U'), "", "RJU")); require(is(currency('R', 'J', 'V'), "", "RJV")); require(is(currency('R', 'J', 'W'), "", "RJW")); require(is(currency('R', 'J', 'X'), "", "RJX")); require(is(currency('R', 'J', 'Y'), "", "RJY")); require(is(currency('R', 'J', 'Z'), "", "RJZ"));)
OBLIGATION(no_currency_RK, "esl/economics/currencies.hpp: currency_name (codes without a currency from RK)", (), require(is(currency('R', 'K', 'A'), "", "RKA")); require(is(currency('R', 'K', 'B'), "", "RKB")); require(is(currency('R', 'K', 'C'), "", "RKC")); require(is(currency('R', 'K', 'D'), "", "RKD")); require(is(currency('R', 'K', 'E'), "", "RKE")); require(is(currency('R', 'K', 'F'), "", "RKF")); require(is(currency('R', 'K', 'G'), "", "RKG")); require(is(currency('R', 'K', 'H'), "", "RKH")); require(is(currency('R', 'K', 'I'), "", "RKI")); require(is(currency('R', 'K', 'J'), "", "RKJ")); require(is(currency('R', 'K', 'K'), "", "RKK")); require(is(currency('R', 'K', 'L'), "", "RKL")); require(is(currency('R', 'K', 'M'), "", "RKM")); require(is(currency('R', 'K', 'N'), "", "RKN")); require(is(currency('R', 'K', 'O'), "", "RKO")); require(is(currency('R', 'K', 'P'), "", "RKP")); require(is(currency('R', 'K', 'Q'), "", "RKQ")); require(is(currency('R', 'K', 'R'), "", "RKR")); require(is(currency('R', 'K', 'S'), "", "RKS")); require(is(currency('R', 'K', 'T'), "", "RKT")); require(is(currency('R', 'K', 'U'), "", "RKU")); require(is(currency('R', 'K', 'V'), "", "RKV")); require(is(currency('R', 'K', 'W'), "", "RKW")); require(is(currency('R', 'K', 'X'), "", "RKX")); require(is(currency('R', 'K', 'Y'), "", "RKY")); require(is(currency('R', 'K', 'Z'), "", "RKZ"));)
OBLIGATION(no_currency_RL, "esl/economics/currencies.hpp: currency_name (codes without a currency from RL)", (), require(is(currency('R', 'L', 'A'), "", "RLA")); require(is(currency('R', 'L', 'B'), "", "RLB")); require(is(currency('R', 'L', 'C'), "", "RLC")); require(is(currency('R', 'L', 'D'), "", "RLD")); require(is(currency('R', 'L', 'E'), "", "RLE")); require(is(currency('R', 'L', 'F'), "", "RLF")); require(is(currency('R', 'L', 'G'), "", "RLG")); require(is(currency('R', 'L', 'H'), "", "RLH")); require(is(currency('R', 'L', 'I'), "", "RLI")); require(is(currency('R', 'L', 'J'), "", "RLJ")); require(is(currency('R', 'L', 'K'), "", "RLK")); require(is(currency('R', 'L', 'L'), "", "RLL")); require(is(currency('R', 'L', 'M'), "", "RLM")); require(is(currency('R', 'L', 'N'), "", "RLN")); require(is(currency('R', 'L', 'O'), "", "RLO")); require(is(currency('R', 'L', 'P'), "", "RLP")); require(is(currency('R', 'L', 'Q'), "", "RLQ")); require(is(currency('R', 'L', 'R'), "", "RLR")); require(is(currency('R', 'L', 'S'), "", "RLS")); require(is(currency('R', 'L', 'T'), "", "RLT")); require(is(currency('R', 'L', 'U'), "", "RLU")); require(is(currency('R', 'L', 'V'), "", "RLV")); require(is(currency('R', 'L', 'W'), "", "RLW")); require(is(currency('R', 'L', 'X'), "", "RLX")); require(is(currency('R', 'L', 'Y'), "", "RLY")); require(is(currency('R', 'L', 'Z'), "", "RLZ"));)
OBLIGATION(no_currency_RM, "esl/economics/currencies.hpp: currency_name (codes without a currency from RM)", (), require(is(currency('R', 'M', 'A'), "", "RMA")); require(is(currency('R', 'M', 'B'), "", "RMB")); require(is(currency('R', 'M', 'C'), "", "RMC")); require(is(currency('R', 'M', 'D'), "", "RMD")); require(is(currency('R', 'M', 'E'), "", "RME")); require(is(currency('R', 'M', 'F'), "", "RMF")); require(is(currency('R', 'M', 'G'), "", "RMG")); require(is(currency('R', 'M', 'H'), "", "RMH")); require(is(currency('R', 'M', 'I'), "", "RMI")); require(is(currency('R', 'M', 'J'), "", "RMJ")); require(is(currency('R', 'M', 'K'), "", "RMK")); require(is(currency('R', 'M', 'L'), "", "RML")); require(is(currency('R', 'M', 'M'), "", "RMM")); require(is(currency('R', 'M', 'N'), "", "RMN")); require(is(currency('R', 'M', 'O'), "", "RMO")); require(is(currency('R', 'M', 'P'), "", "RMP")); require(is(currency('R', 'M', 'Q'), "", "RMQ")); require(is(currency('R', 'M', 'R'), "", "RMR")); require(is(currency('R', 'M', 'S'), "", "RMS")); require(is(currency('R', 'M', 'T'), "", "RMT")); require(is(currency('R', 'M', 'U'), "", "RMU")); require(is(currency('R', 'M', 'V'), "", "RMV")); require(is(currency('R', 'M', 'W'), "", "RMW")); require(is(currency('R', 'M', 'X'), "", "RMX")); require(is(currency('R', 'M', 'Y'), "", "RMY")); require(is(currency('R', 'M', 'Z'), "", "RMZ"));)
OBLIGATION(no_currency_RN, "esl/economics/currencies.hpp: currency_name (codes without a currency from RN)", (), require(is(currency('R', 'N', 'A'), "", "RNA")); require(is(currency('R', 'N', 'B'), "", "RNB")); require(is(currency('R', 'N', 'C'), "", "RNC")); require(is(currency('R', 'N', 'D'), "", "RND")); require(is(currency('R', 'N', 'E'), "", "RNE")); require(is(currency('R', 'N', 'F'), "", "RNF")); require(is(currency('R', 'N', 'G'), "", "RNG")); require(is(currency('R', 'N', 'H'), "", "RNH")); require(is(currency('R', 'N', 'I'), "", "RNI")); require(is(currency('R', 'N', 'J'), "", "RNJ")); require(is(currency('R', 'N', 'K'), "", "RNK")); require(is(currency('R', 'N', 'L'), "", "RNL")); require(is(currency('R', 'N', 'M'), "", "RNM")); require(is(currency('R', 'N', 'N'), "", "RNN")); require(is(currency('R', 'N', 'O'), "", "RNO")); require(is(currency('R', 'N', 'P'), "", "RNP")); require(is(currency('R', 'N', 'Q'), "", "RNQ")); require(is(currency('R', 'N', 'R'), "", "RNR")); require(is(currency('R', 'N', 'S'), "", "RNS")); require(is(currency('R', 'N', 'T'), "", "RNT")); require(is(currency('R', 'N', 'U'), "", "RNU")); require(is(currency('R', 'N', 'V'), "", "RNV")); require(is(currency('R', 'N', 'W'), "", "RNW")); require(is(currency('R', 'N', 'X'), "", "RNX")); require(is(currency('R', 'N', 'Y'), "", "RNY")); require(is(currency('R', 'N', 'Z'), "", "RNZ"));)
OBLIGATION(no_currency_RO, "esl/economics/currencies.hpp: currency_name (codes without a currency from RO)", (), require(is(currency('R', 'O', 'A'), "", "ROA")); require(is(currency('R', 'O', 'B'), "", "ROB")); require(is(currency('R', 'O', 'C'), "", "ROC")); require(is(currency('R', 'O', 'D'), "", "ROD")); require(is(currency('R', 'O', 'E'), "", "ROE")); require(is(currency('R', 'O', 'F'), "", "ROF")); require(is(currency('R', 'O', 'G'), "", "ROG")); require(is(currency('R', 'O', 'H'), "", "ROH")); require(is(currency('R', 'O', 'I'), "", "ROI")); require(is(currency('R', 'O', 'J'), "", "ROJ")); require(is(currency('R', 'O', 'K'), "", "ROK")); require(is(currency('R', 'O', 'L'), "", "ROL")); require(is(currency('R', 'O', 'M'), "", "ROM")); require(is(currency('R', 'O', 'O'), "", "ROO")); require(is(currency('R', 'O', 'P'), "", "ROP")); require(is(currency('R', 'O', 'Q'), "", "ROQ")); require(is(currency('R', 'O', 'R'), "", "ROR")); require(is(currency('R', 'O', 'S'), "", "ROS")); require(is(currency('R', 'O', 'T'), "", "ROT")); require(is(currency('R', 'O', 'U'), "", "ROU")); require(is(currency('R', 'O', 'V'), "", "ROV")); require(is(currency('R', 'O', 'W'), "", "ROW")); require(is(currency('R', 'O', 'X'), "", "ROX")); require(is(currency('R', 'O', 'Y'), "", "ROY")); require(is(currency('R', 'O', 'Z'), "", "ROZ"));)
OBLIGATION(no_currency_RP, "esl/economics/currencies.hpp: currency_name (codes without a currency from RP)", (), require(is(currency('R', 'P', 'A'), "", "RPA")); require(is(currency('R', 'P', 'B'), "", "RPB")); require(is(currency('R', 'P', 'C'), "", "RPC")); require(is(currency('R', 'P', 'D'), "", "RPD")); require(is(currency('R', 'P', 'E'), "", "RPE")); require(is(currency('R', 'P', 'F'), "", "RPF")); require(is(currency('R', 'P', 'G'), "", "RPG")); require(is(currency('R', 'P', 'H'), "", "RPH")); require(is(currency('R', 'P', 'I'), "", "RPI")); require(is(currency('R', 'P', 'J'), "", "RPJ")); require(is(currency('R', 'P', 'K'), "", "RPK")); require(is(currency('R', 'P', 'L'), "", "RPL")); require(is(currency('R', 'P', 'M'), "", "RPM")); require(is(currency('R', 'P', 'N'), "", "RPN")); require(is(currency('R', 'P', 'O'), "", "RPO")); require(is(currency('R', 'P', 'P'), "", "RPP")); require(is(currency('R', 'P', 'Q'), "", "RPQ")); require(is(currency('R', 'P', 'R'), "", "RPR")); require(is(currency('R', 'P', 'S'), "", "RPS")); require(is(currency('R', 'P', 'T'), "", "RPT")); require(is(currency('R', 'P', 'U'), "", "RPU")); require(is(currency('R', 'P', 'V'), "", "RPV")); require(is(currency('R', 'P', 'W'), "", "RPW")); require(is(currency('R', 'P', 'X'), "", "RPX")); require(is(currency('R', 'P', 'Y'), "", "RPY")); require(is(currency('R', 'P', 'Z'), "", "RPZ"));)
OBLIGATION(no_currency_RQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from RQ)", (), require(is(currency('R', 'Q', 'A'), "", "RQA")); require(is(currency('R', 'Q', 'B'), "", "RQB")); require(is(currency('R', 'Q', 'C'), "", "RQC")); require(is(currency('R', 'Q', 'D'), "", "RQD")); require(is(currency('R', 'Q', 'E'), "", "RQE")); require(is(currency('R', 'Q', 'F'), "", "RQF")); require(is(currency('R', 'Q', 'G'), "", "RQG")); require(is(currency('R', 'Q', 'H'), "", "RQH")); require(is(currency('R', 'Q', 'I'), "", "RQI")); require(is(currency('R', 'Q', 'J'), "", "RQJ")); require(is(currency('R', 'Q', 'K'), "", "RQK")); require(is(currency('R', 'Q', 'L'), "", "RQL")); require(is(currency('R', 'Q', 'M'), "", "RQM")); require(is(currency('R', 'Q', 'N'), "", "RQN")); require(is(currency('R', 'Q', 'O'), "", "RQO")); require(is(currency('R', 'Q', 'P'), "", "RQP")); require(is(currency('R', 'Q', 'Q'), "", "RQQ")); require(is(currency('R', 'Q', 'R'), "", "RQR")); require(is(currency('R', 'Q', 'S'), "", "RQS")); require(is(currency('R', 'Q', 'T'), "", "RQT")); require(is(currency('R', 'Q', 'U'), "", "RQU")); require(is(currency('R', 'Q', 'V'), "", "RQV")); require(is(currency('R', 'Q', 'W'), "", "RQW")); require(is(currency('R', 'Q', 'X'), "", "RQX")); require(is(currency('R', 'Q', 'Y'), "", "RQY")); require(is(currency('R', 'Q', 'Z'), "", "RQZ"));)
OBLIGATION(no_currency_RR, "esl/economics/currencies.hpp: currency_name (codes without a currency from RR)", (), require(is(currency('R', 'R', 'A'), "", "RRA")); require(is(currency('R', 'R', 'B'), "", "RRB")); require(is(currency('R', 'R', 'C'), "", "RRC")); require(is(currency('R', 'R', 'D'), "", "RRD")); require(is(currency('R', 'R', 'E'), "", "RRE")); require(is(currency('R', 'R', 'F'), "", "RRF")); require(is(currency('R', 'R', 'G'), "", "RRG")); require(is(currency('R', 'R', 'H'), "", "RRH")); require(is(currency('R', 'R', 'I'), "", "RRI")); require(is(currency('R', 'R', 'J'), "", "RRJ")); require(is(currency('R', 'R', 'K'), "", "RRK")); require(is(currency('R', 'R', 'L'), "", "RRL")); require(is(currency('R', 'R', 'M'), "", "RRM")); require(is(currency('R', 'R', 'N'), "", "RRN")); require(is(currency('R', 'R', 'O'), "", "RRO")); require(is(currency('R', 'R', 'P'), "", "RRP")); require(is(currency('R', 'R', 'Q'), "", "RRQ")); require(is(currency('R', 'R', 'R'), "", "RRR")); require(is(currency('R', 'R', 'S'), "", "RRS")); require(is(currency('R', 'R', 'T'), "", "RRT")); require(is(currency('R', 'R', 'U'), "", "RRU")); require(is(currency('R', 'R', 'V'), "", "RRV")); require(is(currency('R', 'R', 'W'), "", "RRW")); require(is(currency('R', 'R', 'X'), "", "RRX")); require(is(currency('R', 'R', 'Y'), "", "RRY")); require(is(currency('R', 'R', 'Z'), "", "RRZ"));)
OBLIGATION(no_currency_RS, "esl/economics/currencies.hpp: currency_name (codes without a currency from RS)", (), require(is(currency('R', 'S', 'A'), "", "RSA")); require(is(currency('R', 'S', 'B'), "", "RSB")); require(is(currency('R', 'S', 'C'), "", "RSC")); require(is(currency('R', 'S', 'E'), "", "RSE")); require(is(currency('R', 'S', 'F'), "", "RSF")); require(is(currency('R', 'S', 'G'), "", "RSG")); require(is(currency('R', 'S', 'H'), "", "RSH")); require(is(currency('R', 'S', 'I'), "", "RSI")); require(is(currency('R', 'S', 'J'), "", "RSJ")); require(is(currency('R', 'S', 'K'), "", "RSK")); require(is(currency('R', 'S', 'L'), "", "RSL")); require(is(currency('R', 'S', 'M'), "", "RSM")); require(is(currency('R', 'S', 'N'), "", "RSN")); require(is(currency('R', 'S', 'O'), "", "RSO")); require(is(currency('R', 'S', 'P'), "", "RSP")); require(is(currency('R', 'S', 'Q'), "", "RSQ")); require(is(currency('R', 'S', 'R'), "", "RSR")); require(is(currency('R', 'S', 'S'), "", "RSS")); require(is(currency('R', 'S', 'T'), "", "RST")); require(is(currency('R', 'S', 'U'), "", "RSU")); require(is(currency('R', 'S', 'V'), "", "RSV")); require(is(currency('R', 'S', 'W'), "", "RSW")); require(is(currency('R', 'S', 'X'), "", "RSX")); require(is(currency('R', 'S', 'Y'), "", "RSY")); require(is(currency('R', 'S', 'Z'), "", "RSZ"));)
OBLIGATION(no_currency_RT, "esl/economics/currencies.hpp: currency_name (codes without a currency from RT)", (), require(is(currency('R', 'T', 'A'), "", "RTA")); require(is(currency('R', 'T', 'B'), "", "RTB")); require(is(currency('R', 'T', 'C'), "", "RTC")); require(is(currency('R', 'T', 'D'), "", "RTD")); require(is(currency('R', 'T', 'E'), "", "RTE")); require(is(currency('R', 'T', 'F'), "", "RTF")); require(is(currency('R', 'T', 'G'), "", "RTG")); require(is(currency('R', 'T', 'H'), "", "RTH")); require(is(currency('R', 'T', 'I'), "", "RTI")); require(is(currency('R', 'T', 'J'), "", "RTJ")); require(is(currency('R', 'T', 'K'), "", "RTK")); require(is(currency('R', 'T', 'L'), "", "RTL")); require(is(currency('R', 'T', 'M'), "", "RTM")); require(is(currency('R', 'T', 'N'), "", "RTN")); require(is(currency('R', 'T', 'O'), "", "RTO")); require(is(currency('R', 'T', 'P'), "", "RTP")); require(is(currency('R', 'T', 'Q'), "", "RTQ")); require(is(currency('R', 'T', 'R'), "", "RTR")); require(is(currency('R', 'T', 'S'), "", "RTS")); require(is(currency('R', 'T', 'T'), "", "RTT")); require(is(currency('R', 'T', 'U'), "", "RTU")); require(is(currency('R', 'T', 'V'), "", "RTV")); require(is(currency('R', 'T', 'W'), "", "RTW")); require(is(currency('R', 'T', 'X'), "", "RTX")); require(is(currency('R', 'T', 'Y'), "", "RTY")); require(is(currency('R', 'T', 'Z'), "", "RTZ"));)
OBLIGATION(no_currency_RU, "esl/economics/currencies.hpp: currency_name (codes without a currency from RU)", (), require(is(currency('R', 'U', 'A'), "", "RUA")); require(is(currency('R', 'U', 'C'), "", "RUC")); require(is(currency('R', 'U', 'D'), "", "RUD")); require(is(currency('R', 'U', 'E'), "", "RUE")); require(is(currency('R', 'U', 'F'), "", "RUF")); require(is(currency('R', 'U', 'G'), "", "RUG")); require(is(currency('R', 'U', 'H'), "", "RUH")); require(is(currency('R', 'U', 'I'), "", "RUI")); require(is(currency('R', 'U', 'J'), "", "RUJ")); require(is(currency('R', 'U', 'K'), "", "RUK")); require(is(currency('R', 'U', 'L'), "", "RUL")); require(is(currency('R', 'U', 'M'), "", "RUM")); require(is(currency('R', 'U', 'N'), "", "RUN")); require(is(currency('R', 'U', 'O'), "", "RUO")); require(is(currency('R', 'U', 'P'), "", "RUP")); require(is(currency('R', 'U', 'Q'), "", "RUQ")); require(is(currency('R', 'U', 'R'), "", "RUR")); require(is(currency('R', 'U', 'S'), "", "RUS")); require(is(currency('R', 'U', 'T'), "", "RUT")); require(is(currency('R', 'U', 'U'), "", "RUU")); require(is(currency('R', 'U', 'V'), "", "RUV")); require(is(currency('R', 'U', 'W'), "", "RUW")); require(is(currency('R', 'U', 'X'), "", "RUX")); require(is(currency('R', 'U', 'Y'), "", "RUY")); require(is(currency('R', 'U', 'Z'), "", "RUZ"));)
OBLIGATION(no_currency_RV, "esl/economics/currencies.hpp: currency_name (codes without a currency from RV)", (), require(is(currency('R', 'V', 'A'), "", "RVA")); require(is(currency('R', 'V', 'B'), "", "RVB")); require(is(currency('R', 'V', 'C'), "", "RVC")); require(is(currency('R', 'V', 'D'), "", "RVD")); require(is(currency('R', 'V', 'E'), "", "RVE")); require(is(currency('R', 'V', 'F'), "", "RVF")); require(is(currency('R', 'V', 'G'), "", "RVG")); require(is(currency('R', 'V', 'H'), "", "RVH")); require(is(currency('R', 'V', 'I'), "", "RVI")); require(is(currency('R', 'V', 'J'), "", "RVJ")); require(is(currency('R', 'V', 'K'), "", "RVK")); require(is(currency('R', 'V', 'L'), "", "RVL")); require(is(currency('R', 'V', 'M'), "", "RVM")); require(is(currency('R', 'V', 'N'), "", "RVN")); require(is(currency('R', 'V', 'O'), "", "RVO")); require(is(currency('R', 'V', 'P'), "", "RVP")); require(is(currency('R', 'V', 'Q'), "", "RVQ")); require(is(currency('R', 'V', 'R'), "", "RVR")); require(is(currency('R', 'V', 'S'), "", "RVS")); require(is(currency('R', 'V', 'T'), "", "RVT")); require(is(currency('R', 'V', 'U'), "", "RVU")); require(is(currency('R', 'V', 'V'), "", "RVV")); require(is(currency('R', 'V', 'W'), "", "RVW")); require(is(currency('R', 'V', 'X'), "", "RVX")); require(is(currency('R', 'V', 'Y'), "", "RVY")); require(is(currency('R', 'V', 'Z'), "", "RVZ"));)
OBLIGATION(no_currency_RW, "esl/economics/currencies.hpp: currency_name (codes without a currency from RW)", (), require(is(currency('R', 'W', 'A'), "", "RWA")); require(is(currency('R', 'W', 'B'), "", "RWB")); require(is(currency('R', 'W', 'C'), "", "RWC")); require(is(currency('R', 'W', 'D'), "", "RWD")); require(is(currency('R', 'W', 'E'), "", "RWE")); require(is(currency('R', 'W', 'G'), "", "RWG")); require(is(currency('R', 'W', 'H'), "", "RWH")); require(is(currency('R', 'W', 'I'), "", "RWI")); require(is(currency('R', 'W', 'J'), "", "RWJ")); require(is(currency('R', 'W', 'K'), "", "RWK")); require(is(currency('R', 'W', 'L'), "", "RWL")); require(is(currency('R', 'W', 'M'), "", "RWM")); require(is(currency('R', 'W', 'N'), "", "RWN")); require(is(currency('R', 'W', 'O'), "", "RWO")); require(is(currency('R', 'W', 'P'), "", "RWP")); require(is(currency('R', 'W', 'Q'), "", "RWQ")); require(is(currency('R', 'W', 'R'), "", "RWR")); require(is(currency('R', 'W', 'S'), "", "RWS")); require(is(currency('R', 'W', 'T'), "", "RWT")); require(is(currency('R', 'W', 'U'), "", "RWU")); require(is(currency('R', 'W', 'V'), "", "RWV")); require(is(currency('R', 'W', 'W'), "", "RWW")); require(is(currency('R', 'W', 'X'), "", "RWX")); require(is(currency('R', 'W', 'Y'), "", "RWY")); require(is(currency('R', 'W', 'Z'), "", "RWZ"));)
OBLIGATION(no_currency_RX, "esl/economics/currencies.hpp: currency_name (codes without a currency from RX)", (), require(is(currency('R', 'X', 'A'), "", "RXA")); require(is(currency('R', 'X', 'B'), "", "RXB")); require(is(currency('R', 'X', 'C'), "", "RXC")); require(is(currency('R', 'X', 'D'), "", "RXD")); require(is(currency('R', 'X', 'E'), "", "RXE")); require(is(currency('R', 'X', 'F'), "", "RXF")); require(is(currency('R', 'X', 'G'), "", "RXG")); require(is(currency('R', 'X', 'H'), "", "RXH")); require(is(currency('R', 'X', 'I'), "", "RXI")); require(is(currency('R', 'X', 'J'), "", "RXJ")); require(is(currency('R', 'X', 'K'), "", "RXK")); require(is(currency('R', 'X', 'L'), "", "RXL")); require(is(currency('R', 'X', 'M'), "", "RXM")); require(is(currency('R', 'X', 'N'), "", "RXN")); require(is(currency('R', 'X', 'O'), "", "RXO")); require(is(currency('R', 'X', 'P'), "", "RXP")); require(is(currency('R', 'X', 'Q'), "", "RXQ")); require(is(currency('R', 'X', 'R'), "", "RXR")); require(is(currency('R', 'X', 'S'), "", "RXS")); require(is(currency('R', 'X', 'T'), "", "RXT")); require(is(currency('R', 'X', 'U'), "", "RXU")); require(is(currency('R', 'X', 'V'), "", "RXV")); require(is(currency('R', 'X', 'W'), "", "RXW")); require(is(currency('R', 'X', 'X'), "", "RXX")); require(is(currency('R', 'X', 'Y'), "", "RXY")); require(is(currency('R', 'X', 'Z'), "", "RXZ"));)
OBLIGATION(no_currency_RY, "esl/economics/currencies.hpp: currency_name (codes without a currency from RY)", (), require(is(currency('R', 'Y', 'A'), "", "RYA")); require(is(currency('R', 'Y', 'B'), "", "RYB")); require(is(currency('R', 'Y', 'C'), "", "RYC")); require(is(currency('R', 'Y', 'D'), "", "RYD")); require(is(currency('R', 'Y', 'E'), "", "RYE")); require(is(currency('R', 'Y', 'F'), "", "RYF")); require(is(currency('R', 'Y', 'G'), "", "RYG")); require(is(currency('R', 'Y', 'H'), "", "RYH")); require(is(currency('R', 'Y', 'I'), "", "RYI")); require(is(currency('R', 'Y', 'J'), "", "RYJ")); require(is(currency('R', 'Y', 'K'), "", "RYK")); require(is(currency('R', 'Y', 'L'), "", "RYL")); require(is(currency('R', 'Y', 'M'), "", "RYM")); require(is(currency('R', 'Y', 'N'), "", "RYN")); require(is(currency('R', 'Y', 'O'), "", "RYO")); require(is(currency('R', 'Y', 'P'), "", "RYP")); require(is(currency('R', 'Y', 'Q'), "", "RYQ")); require(is(currency('R', 'Y', 'R'), "", "RYR")); require(is(currency('R', 'Y', 'S'), "", "RYS")); require(is(currency('R', 'Y', 'T'), "", "RYT")); require(is(currency('R', 'Y', 'U'), "", "RYU")); require(is(currency('R', 'Y', 'V'), "", "RYV")); require(is(currency('R', 'Y', 'W'), "", "RYW")); require(is(currency('R', 'Y', 'X'), "", "RYX")); require(is(currency('R', 'Y', 'Y'), "", "RYY")); require(is(currency('R', 'Y', 'Z'), "", "RYZ"));)
OBLIGATION(no_currency_RZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from RZ)", (), require(is(currency('R', 'Z', 'A'), "", "RZA")); require(is(currency('R', 'Z', 'B'), "", "RZB")); require(is(currency('R', 'Z', 'C'), "", "RZC")); require(is(currency('R', 'Z', 'D'), "", "RZD")); require(is(currency('R', 'Z', 'E'), "", "RZE")); require(is(currency('R', 'Z', 'F'), "", "RZF")); require(is(currency('R', 'Z', 'G'), "", "RZG")); require(is(currency('R', 'Z', 'H'), "", "RZH")); require(is(currency('R', 'Z', 'I'), "", "RZI")); require(is(currency('R', 'Z', 'J'), "", "RZJ")); require(is(currency('R', 'Z', 'K'), "", "RZK")); require(is(currency('R', 'Z', 'L'), "", "RZL")); require(is(currency('R', 'Z', 'M'), "", "RZM")); require(is(currency('R', 'Z', 'N'), "", "RZN")); require(is(currency('R', 'Z', 'O'), "", "RZO")); require(is(currency('R', 'Z', 'P'), "", "RZP")); require(is(currency('R', 'Z', 'Q'), "", "RZQ")); require(is(currency('R', 'Z', 'R'), "", "RZR")); require(is(currency('R', 'Z', 'S'), "", "RZS")); require(is(currency('R', 'Z', 'T'), "", "RZT")); require(is(currency('R', 'Z', 'U'), "", "RZU")); require(is(currency('R', 'Z', 'V'), "", "RZV")); require(is(currency('R', 'Z', 'W'), "", "RZW")); require(is(currency('R', 'Z', 'X'), "", "RZX")); require(is(currency('R', 'Z', 'Y'), "", "RZY")); require(is(currency('R', 'Z', 'Z'), "", "RZZ"));)
OBLIGATION(no_currency_SA, "esl/economics/currencies.hpp: currency_name (codes without a currency from SA)", (), require(is(currency('S', 'A', 'A'), "", "SAA")); require(is(currency('S', 'A', 'B'), "", "SAB")); require(is(currency('S', 'A', 'C'), "", "SAC")); require(is(currency('S', 'A', 'D'), "", "SAD")); require(is(currency('S', 'A', 'E'), "", "SAE")); require(is(currency('S', 'A', 'F'), "", "SAF")); require(is(currency('S', 'A', 'G'), "", "SAG")); require(is(currency('S', 'A', 'H'), "", "SAH")); require(is(currency('S', 'A', 'I'), "", "SAI")); require(is(currency('S', 'A', 'J'), "", "SAJ")); require(is(currency('S', 'A', 'K'), "", "SAK")); require(is(currency('S', 'A', 'L'), "", "SAL")); require(is(currency('S', 'A', 'M'), "", "SAM")); require(is(currency('S', 'A', 'N'), "", "SAN")); require(is(currency('S', 'A', 'O'), "", "SAO")); require(is(currency('S', 'A', 'P'), "", "SAP")); require(is(currency('S', 'A', 'Q'), "", "SAQ")); require(is(currency('S', 'A', 'S'), "", "SAS")); require(is(currency('S', 'A', 'T'), "", "SAT")); require(is(currency('S', 'A', 'U'), "", "SAU")); require(is(currency('S', 'A', 'V'), "", "SAV")); require(is(currency('S', 'A', 'W'), "", "SAW")); require(is(currency('S', 'A', 'X'), "", "SAX")); require(is(currency('S', 'A', 'Y'), "", "SAY")); require(is(currency('S', 'A', 'Z'), "", "SAZ"));)
OBLIGATION(no_currency_SB, "esl/economics/currencies.hpp: currency_name (codes without a currency from SB)", (), require(is(currency('S', 'B', 'A'), "", "SBA")); require(is(currency('S', 'B', 'B'), "", "SBB")); require(is(currency('S', 'B', 'C'), "", "SBC")); require(is(currency('S', 'B', 'E'), "", "SBE")); require(is(currency('S', 'B', 'F'), "", "SBF")); require(is(currency('S', 'B', 'G'), "", "SBG")); require(is(currency('S', 'B', 'H'), "", "SBH")); require(is(currency('S', 'B', 'I'), "", "SBI")); require(is(currency('S', 'B', 'J'), "", "SBJ")); require(is(currency('S', 'B', 'K'), "", "SBK")); require(is(currency('S', 'B', 'L'), "", "SBL")); require(is(currency('S', 'B', 'M'), "", "SBM")); require(is(currency('S', 'B', 'N'), "", "SBN")); require(is(currency('S', 'B', 'O'), "", "SBO")); require(is(currency('S', 'B', 'P'), "", "SBP")); require(is(currency('S', 'B', 'Q'), "", "SBQ")); require(is(currency('S', 'B', 'R'), "", "SBR")); require(is(currency('S', 'B', 'S'), "", "SBS")); require(is(currency('S', 'B', 'T'), "", "SBT")); require(is(currency('S', 'B', 'U'), "", "SBU")); require(is(currency('S', 'B', 'V'), "", "SBV")); require(is(currency('S', 'B', 'W'), "", "SBW")); require(is(currency('S', 'B', 'X'), "", "SBX")); require(is(currency('S', 'B', 'Y'), "", "SBY")); require(is(currency('S', 'B', 'Z'), "", "SBZ"));)
OBLIGATION(no_currency_SC, "esl/economics/currencies.hpp: currency_name (codes without a currency from SC)", (), require(is(currency('S', 'C', 'A'), "", "SCA")); require(is(currency('S', 'C', 'B'), "", "SCB")); require(is(currency('S', 'C', 'C'), "", "SCC")); require(is(currency('S', 'C', 'D'), "", "SCD")); require(is(currency('S', 'C', 'E'), "", "SCE")); require(is(currency('S', 'C', 'F'), "", "SCF")); require(is(currency('S', 'C', 'G'), "", "SCG")); require(is(currency('S', 'C', 'H'), "", "SCH")); require(is(currency('S', 'C', 'I'), "", "SCI")); require(is(currency('S', 'C', 'J'), "", "SCJ")); require(is(currency('S', 'C', 'K'), "", "SCK")); require(is(currency('S', 'C', 'L'), "", "SCL")); require(is(currency('S', 'C', 'M'), "", "SCM")); require(is(currency('S', 'C', 'N'), "", "SCN")); require(is(currency('S', 'C', 'O'), "", "SCO")); require(is(currency('S', 'C', 'P'), "", "SCP")); require(is(currency('S', 'C', 'Q'), "", "SCQ")); require(is(currency('S', 'C', 'S'), "", "SCS")); require(is(currency('S', 'C', 'T'), "", "SCT")); require(is(currency('S', 'C', 'U'), "", "SCU")); require(is(currency('S', 'C', 'V'), "", "SCV")); require(is(currency('S', 'C', 'W'), "", "SCW")); require(is(currency('S', 'C', 'X'), "", "SCX")); require(is(currency('S', 'C', 'Y'), "", "SCY")); require(is(currency('S', 'C', 'Z'), "", "SCZ"));)
OBLIGATION(no_currency_SD, "esl/economics/currencies.hpp: currency_name (codes without a currency from SD)", (), require(is(currency('S', 'D', 'A'), "", "SDA")); require(is(currency('S', 'D', 'B'), "", "SDB")); require(is(currency('S', 'D', 'C'), "", "SDC")); require(is(currency('S', 'D', 'D'), "", "SDD")); require(is(currency('S', 'D', 'E'), "", "SDE")); require(is(currency('S', 'D', 'F'), "", "SDF")); require(is(currency('S', 'D', 'H'), "", "SDH")); require(is(currency('S', 'D', 'I'), "", "SDI")); require(is(currency('S', 'D', 'J'), "", "SDJ")); require(is(currency('S', 'D', 'K'), "", "SDK")); require(is(currency('S', 'D', 'L'), "", "SDL")); require(is(currency('S', 'D', 'M'), "", "SDM")); require(is(currency('S', 'D', 'N'), "", "SDN")); require(is(currency('S', 'D', 'O'), "", "SDO")); require(is(currency('S', 'D', 'P'), "", "SDP")); require(is(currency('S', 'D', 'Q'), "", "SDQ")); require(is(currency('S', 'D', 'R'), "", "SDR")); require(is(currency('S', 'D', 'S'), "", "SDS")); require(is(currency('S', 'D', 'T'), "", "SDT")); require(is(currency('S', 'D', 'U'), "", "SDU")); require(is(currency('S', 'D', 'V'), "", "SDV")); require(is(currency('S', 'D', 'W'), "", "SDW")); require(is(currency('S', 'D', 'X'), "", "SDX")); require(is(currency('S', 'D', 'Y'), "", "SDY")); require(is(currency('S', 'D', 'Z'), "", "SDZ"));)
OBLIGATION(no_currency_SE, "esl/economics/currencies.hpp: currency_name (codes without a currency from SE)", (), require(is(currency('S', 'E', 'A'), "", "SEA")); require(is(currency('S', 'E', 'B'), "", "SEB")); require(is(currency('S', 'E', 'C'), "", "SEC")); require(is(currency('S', 'E', 'D'), "", "SED")); require(is(currency('S', 'E', 'E'), "", "SEE")); require(is(currency('S', 'E', 'F'), "", "SEF")); require(is(currency('S', 'E', 'G'), "", "SEG")); require(is(currency('S', 'E', 'H'), "", "SEH")); require(is(currency('S', 'E', 'I'), "", "SEI")); require(is(currency('S', 'E', 'J'), "", "SEJ")); require(is(currency('S', 'E', 'L'), "", "SEL")); require(is(currency('S', 'E', 'M'), "", "SEM")); require(is(currency('S', 'E', 'N'), "", "SEN")); require(is(currency('S', 'E', 'O'), "", "SEO")); require(is(currency('S', 'E', 'P'), "", "SEP")); require(is(currency('S', 'E', 'Q'), "", "SEQ")); require(is(currency('S', 'E', 'R'), "", "SER")); require(is(currency('S', 'E', 'S'), "", "SES")); require(is(currency('S', 'E', 'T'), "", "SET")); require(is(currency('S', 'E', 'U'), "", "SEU")); require(is(currency('S', 'E', 'V'), "", "SEV")); require(is(currency('S', 'E', 'W'), "", "SEW")); require(is(currency('S', 'E', 'X'), "", "SEX")); require(is(currency('S', 'E', 'Y'), "", "SEY")); require(is(currency('S', 'E', 'Z'), "", "SEZ"));)
OBLIGATION(no_currency_SF, "esl/economics/currencies.hpp: currency_name (codes without a currency from SF)", (), require(is(currency('S', 'F', 'A'), "", "SFA")); require(is(currency('S', 'F', 'B'), "", "SFB")); require(is(currency('S', 'F', 'C'), "", "SFC")); require(is(currency('S', 'F', 'D'), "", "SFD")); require(is(currency('S', 'F', 'E'), "", "SFE")); require(is(currency('S', 'F', 'F'), "", "SFF")); require(is(currency('S', 'F', 'G'), "", "SFG")); require(is(currency('S', 'F', 'H'), "", "SFH")); require(is(currency('S', 'F', 'I'), "", "SFI")); require(is(currency('S', 'F', 'J'), "", "SFJ")); require(is(currency('S', 'F', 'K'), "", "SFK")); require(is(currency('S', 'F', 'L'), "", "SFL")); require(is(currency('S', 'F', 'M'), "", "SFM")); require(is(currency('S', 'F', 'N'), "", "SFN")); require(is(currency('S', 'F', 'O'), "", "SFO")); require(is(currency('S', 'F', 'P'), "", "SFP")); require(is(currency('S', 'F', 'Q'), "", "SFQ")); require(is(currency('S', 'F', 'R'), "", "SFR")); require(is(currency('S', 'F', 'S'), "", "SFS")); require(is(currency('S', 'F', 'T'), "", "SFT")); require(is(currency('S', 'F', 'U'), "", "SFU")); require(is(currency('S', 'F', 'V'), "", "SFV")); require(is(currency('S', 'F', 'W'), "", "SFW")); require(is(currency('S', 'F', 'X'), "", "SFX")); require(is(currency('S', 'F', 'Y'), "", "SFY")); require(is(currency('S', 'F', 'Z'), "", "SFZ"));)
OBLIGATION(no_currency_SG, "esl/economics/currencies.hpp: currency_name (codes without a currency from SG)", (), require(is(currency('S', 'G', 'A'), "", "SGA")); require(is(currency('S', 'G', 'B'), "", "SGB")); require(is(currency('S', 'G', 'C'), "", "SGC")); require(is(currency('S', 'G', 'E'), "", "SGE")); require(is(currency('S', 'G', 'F'), "", "SGF")); require(is(currency('S', 'G', 'G'), "", "SGG")); require(is(currency('S', 'G', 'H'), "", "SGH")); require(is(currency('S', 'G', 'I'), "", "SGI")); require(is(currency('S', 'G', 'J'), "", "SGJ")); require(is(currency('S', 'G', 'K'), "", "SGK")); require(is(currency('S', 'G', 'L'), "", "SGL")); require(is(currency('S', 'G', 'M'), "", "SGM")); require(is(currency('S', 'G', 'N'), "", "SGN")); require(is(currency('S', 'G', 'O'), "", "SGO")); require(is(currency('S', 'G', 'P'), "", "SGP")); require(is(currency('S', 'G', 'Q'), "", "SGQ")); require(is(currency('S', 'G', 'R'), "", "SGR")); require(is(currency('S', 'G', 'S'), "", "SGS")); require(is(currency('S', 'G', 'T'), "", "SGT")); require(is(currency('S', 'G', 'U'), "", "SGU")); require(is(currency('S', 'G', 'V'), "", "SGV")); require(is(currency('S', 'G', 'W'), "", "SGW")); require(is(currency('S', 'G', 'X'), "", "SGX")); require(is(currency('S', 'G', 'Y'), "", "SGY")); require(is(currency('S', 'G', 'Z'), "", "SGZ"));)
OBLIGATION(no_currency_SH, "esl/economics/currencies.hpp: currency_name (codes without a currency from SH)", (), require(is(currency('S', 'H', 'A'), "", "SHA")); require(is(currency('S', 'H', 'B'), "", "SHB")); require(is(currency('S', 'H', 'C'), "", "SHC")); require(is(currency('S', 'H', 'D'), "", "SHD")); require(is(currency('S', 'H', 'E'), "", "SHE")); require(is(currency('S', 'H', 'F'), "", "SHF")); require(is(currency('S', 'H', 'G'), "", "SHG")); require(is(currency('S', 'H', 'H'), "", "SHH")); require(is(currency('S', 'H', 'I'), "", "SHI")); require(is(currency('S', 'H', 'J'), "", "SHJ")); require(is(currency('S', 'H', 'K'), "", "SHK")); require(is(currency('S', 'H', 'L'), "", "SHL")); require(is(currency('S', 'H', 'M'), "", "SHM")); require(is(currency('S', 'H', 'N'), "", "SHN")); require(is(currency('S', 'H', 'O'), "", "SHO")); require(is(currency('S', 'H', 'Q'), "", "SHQ")); require(is(currency('S', 'H', 'R'), "", "SHR")); require(is(currency('S', 'H', 'S'), "", "SHS")); require(is(currency('S', 'H', 'T'), "", "SHT")); require(is(currency('S', 'H', 'U'), "", "SHU")); require(is(currency('S', 'H', 'V'), "", "SHV")); require(is(currency('S', 'H', 'W'), "", "SHW")); require(is(currency('S', 'H', 'X'), "", "SHX")); require(is(currency('S', 'H', 'Y'), "", "SHY")); require(is(currency('S', 'H', 'Z'), "", "SHZ"));)
OBLIGATION(no_currency_SI, "esl/economics/currencies.hpp: currency_name (codes without a currency from SI)", (), require(is(currency('S', 'I', 'A'), "", "SIA")); require(is(currency('S', 'I', 'B'), "", "SIB")); require(is(currency('S', 'I', 'C'), "", "SIC")); require(is(currency('S', 'I', 'D'), "", "SID")); require(is(currency('S', 'I', 'E'), "", "SIE")); require(is(currency('S', 'I', 'F'), "", "SIF")); require(is(currency('S', 'I', 'G'), "", "SIG")); require(is(currency('S', 'I', 'H'), "", "SIH")); require(is(currency('S', 'I', 'I'), "", "SII")); require(is(currency('S', 'I', 'J'), "", "SIJ")); require(is(currency('S', 'I', 'K'), "", "SIK")); require(is(currency('S', 'I', 'L'), "", "SIL")); require(is(currency('S', 'I', 'M'), "", "SIM")); require(is(currency('S', 'I', 'N'), "", "SIN")); require(is(currency('S', 'I', 'O'), "", "SIO")); require(is(currency('S', 'I', 'P'), "", "SIP")); require(is(currency('S', 'I', 'Q'), "", "SIQ")); require(is(currency('S', 'I', 'R'), "", "SIR")); require(is(currency('S', 'I', 'S'), "", "SIS")); require(is(currency('S', 'I', 'T'), "", "SIT")); require(is(currency('S', 'I', 'U'), "", "SIU")); require(is(currency('S', 'I', 'V'), "", "SIV")); require(is(currency('S', 'I', 'W'), "", "SIW")); require(is(currency('S', 'I', 'X'), "", "SIX")); require(is(currency('S', 'I', 'Y'), "", "SIY")); require(is(currency('S', 'I', 'Z'), "", "SIZ"));)
OBLIGATION(no_currency_SJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from SJ)", (), require(is(currency('S', 'J', 'A'), "", "SJA")); require(is(currency('S', 'J', 'B'), "", "SJB")); require(is(currency('S', 'J', 'C'), "", "SJC")); require(is(currency('S', 'J', 'D'), "", "SJD")); require(is(currency('S', 'J', 'E'), "", "SJE")); require(is(currency('S', 'J', 'F'), "", "SJF")); require(is(currency('S', 'J', 'G'), "", "SJG")); require(is(currency('S', 'J', 'H'), "", "SJH")); require(is(currency('S', 'J', 'I'), "", "SJI")); require(is(currency('S', 'J', 'J'), "", "SJJ")); require(is(currency('S', 'J', 'K'), "", "SJK")); require(is(currency('S', 'J', 'L'), "", "SJL")); require(is(currency('S', 'J', 'M'), "", "SJM")); require(is(currency('S', 'J', 'N'), "", "SJN")); require(is(currency('S', 'J', 'O'), "", "SJO")); require(is(currency('S', 'J', 'P'), "", "SJP")); require(is(currency('S', 'J', 'Q'), "", "SJQ")); require(is(currency('S', 'J', 'R'), "", "SJR")); require(is(currency('S', 'J', 'S'), "", "SJS")); require(is(currency('S', 'J', 'T'), "", "SJT")); require(is(currency('S', 'J', 'U'), "", "SJU")); require(is(currency('S', 'J', 'V'), "", "SJV")); require(is(currency('S', 'J', 'W'), "", "SJW")); require(is(currency('S', 'J', 'X'), "", "SJX")); require(is(currency('S', 'J', 'Y'), "", "SJY")); require(is(currency('S', 'J', 'Z'), "", "SJZ"));)
OBLIGATION(no_currency_SK, "esl/economics/currencies.hpp: currency_name (codes without a currency from SK)", (), require(is(currency('S', 'K', 'A'), "", "SKA")); require(is(currency('S', 'K', 'B'), "", "SKB")); require(is(currency('S', 'K', 'C'), "", "SKC")); require(is(currency('S', 'K', 'D'), "", "SKD")); require(is(currency('S', 'K', 'E'), "", "SKE")); require(is(currency('S', 'K', 'F'), "", "SKF")); require(is(currency('S', 'K', 'G'), "", "SKG")); require(is(currency('S', 'K', 'H'), "", "SKH")); require(is(currency('S', 'K', 'I'), "", "SKI")); require(is(currency('S', 'K', 'J'), "", "SKJ")); require(is(currency('S', 'K', 'K'), "", "SKK")); require(is(currency('S', 'K', 'L'), "", "SKL")); require(is(currency('S', 'K', 'M'), "", "SKM")); require(is(currency('S', 'K', 'N'), "", "SKN")); require(is(currency('S', 'K', 'O'), "", "SKO")); require(is(currency('S', 'K', 'P'), "", "SKP")); require(is(currency('S', 'K', 'Q'), "", "SKQ")); require(is(currency('S', 'K', 'R'), "", "SKR")); require(is(currency('S', 'K', 'S'), "", "SKS")); require(is(currency('S', 'K', 'T'), "", "SKT")); require(is(currency('S', 'K', 'U'), "", "SKU")); require(is(currency('S', 'K', 'V'), "", "SKV")); require(is(currency('S', 'K', 'W'), "", "SKW")); require(is(currency('S', 'K', 'X'), "", "SKX")); require(is(currency('S', 'K', 'Y'), "", "SKY")); require(is(currency('S', 'K', 'Z'), "", "SKZ"));)
OBLIGATION(no_currency_SL, "esl/economics/currencies.hpp: currency_name (codes without a currency from SL)", (), require(is(currency('S', 'L', 'A'), "", "SLA")); require(is(currency('S', 'L', 'B'), "", "SLB")); require(is(currency('S', 'L', 'C'), "", "SLC")); require(is(currency('S', 'L', 'D'), "", "SLD")); require(is(currency('S', 'L', 'E'), "", "SLE")); require(is(currency('S', 'L', 'F'), "", "SLF")); require(is(currency('S', 'L', 'G'), "", "SLG")); require(is(currency('S', 'L', 'H'), "", "SLH")); require(is(currency('S', 'L', 'I'), "", "SLI")); require(is(currency('S', 'L', 'J'), "", "SLJ")); require(is(currency('S', 'L', 'K'), "", "SLK")); require(is(currency('S', 'L', 'M'), "", "SLM")); require(is(currency('S', 'L', 'N'), "", "SLN")); require(is(currency('S', 'L', 'O'), "", "SLO")); require(is(currency('S', 'L', 'P'), "", "SLP")); require(is(currency('S', 'L', 'Q'), "", "SLQ")); require(is(currency('S', 'L', 'R'), "", "SLR")); require(is(currency('S', 'L', 'S'), "", "SLS")); require(is(currency('S', 'L', 'T'), "", "SLT")); require(is(currency('S', 'L', 'U'), "", "SLU")); require(is(currency('S', 'L', 'V'), "", "SLV")); require(is(currency('S', 'L', 'W'), "", "SLW")); require(is(currency('S', 'L', 'X'), "", "SLX")); require(is(currency('S', 'L', 'Y'), "", "SLY")); require(is(currency('S', 'L', 'Z'), "", "SLZ"));)
OBLIGATION(no_currency_SM, "esl/economics/currencies.hpp: currency_name (codes without a currency from SM)", (), require(is(currency('S', 'M', 'A'), "", "SMA")); require(is(currency('S', 'M', 'B'), "", "SMB")); require(is(currency('S', 'M', 'C'), "", "SMC")); require(is(currency('S', 'M', 'D'), "", "SMD")); require(is(currency('S', 'M', 'E'), "", "SME")); require(is(currency('S', 'M', 'F'), "", "SMF")); require(is(currency('S', 'M', 'G'), "", "SMG")); require(is(currency('S', 'M', 'H'), "", "SMH")); require(is(currency('S', 'M', 'I'), "", "SMI")); require(is(currency('S', 'M', 'J'), "", "SMJ")); require(is(currency('S', 'M', 'K'), "", "SMK")); require(is(currency('S', 'M', 'L'), "", "SML")); require(is(currency('S', 'M', 'M'), "", "SMM")); require(is(currency('S', 'M', 'N'), "", "SMN")); require(is(currency('S', 'M', 'O'), "", "SMO")); require(is(currency('S', 'M', 'P'), "", "SMP")); require(is(currency('S', 'M', 'Q'), "", "SMQ")); require(is(currency('S', 'M', 'R'), "", "SMR")); require(is(currency('S', 'M', 'S'), "", "SMS")); require(is(currency('S', 'M', 'T'), "", "SMT")); require(is(currency('S', 'M', 'U'), "", "SMU")); require(is(currency('S', 'M', 'V'), "", "SMV")); require(is(currency('S', 'M', 'W'), "", "SMW")); require(is(currency('S', 'M', 'X'), "", "SMX")); require(is(currency('S', 'M', 'Y'), "", "SMY")); require(is(currency('S', 'M', 'Z'), "", "SMZ"));)
OBLIGATION(no_currency_SN, "esl/economics/currencies.hpp: currency_name (codes without a currency from SN)", (), require(is(currency('S', 'N', 'A'), "", "SNA")); require(is(currency('S', 'N', 'B'), "", "SNB")); require(is(currency('S', 'N', 'C'), "", "SNC")); require(is(currency('S', 'N', 'D'), "", "SND")); require(is(currency('S', 'N', 'E'), "", "SNE")); require(is(currency('S', 'N', 'F'), "", "SNF")); require(is(currency('S', 'N', 'G'), "", "SNG")); require(is(currency('S', 'N', 'H'), "", "SNH")); require(is(currency('S', 'N', 'I'), "", "SNI")); require(is(currency('S', 'N', 'J'), "", "SNJ")); require(is(currency('S', 'N', 'K'), "", "SNK")); require(is(currency('S', 'N', 'L'), "", "SNL")); require(is(currency('S', 'N', 'M'), "", "SNM")); require(is(currency('S', 'N', 'N'), "", "SNN")); require(is(currency('S', 'N', 'O'), "", "SNO")); require(is(currency('S', 'N', 'P'), "", "SNP")); require(is(currency('S', 'N', 'Q'), "", "SNQ")); require(is(currency('S', 'N', 'R'), "", "SNR")); require(is(currency('S', 'N', 'S'), "", "SNS")); require(is(currency('S', 'N', 'T'), "", "SNT")); require(is(currency('S', 'N', 'U'), "", "SNU")); require(is(currency('S', 'N', 'V'), "", "SNV")); require(is(currency('S', 'N', 'W'), "", "SNW")); require(is(currency('S', 'N', 'X'), "", "SNX")); require(is(currency('S', 'N', 'Y'), "", "SNY")); require(is(currency('S', 'N', 'Z'), "", "SNZ"));)
OBLIGATION(no_currency_SO, "esl/economics/currencies.hpp: currency_name (codes without a currency from SO)", (), require(is(currency('S', 'O', 'A'), "", "SOA")); require(is(currency('S', 'O', 'B'), "", "SOB")); require(is(currency('S', 'O', 'C'), "", "SOC")); require(is(currency('S', 'O', 'D'), "", "SOD")); require(is(currency('S', 'O', 'E'), "", "SOE")); require(is(currency('S', 'O', 'F'), "", "SOF")); require(is(currency('S', 'O', 'G'), "", "SOG")); require(is(currency('S', 'O', 'H'), "", "SOH")); require(is(currency('S', 'O', 'I'), "", "SOI")); require(is(currency('S', 'O', 'J'), "", "SOJ")); require(is(currency('S', 'O', 'K'), "", "SOK")); require(is(currency('S', 'O', 'L'), "", "SOL")); require(is(currency('S', 'O', 'M'), "", "SOM")); require(is(currency('S', 'O', 'N'), "", "SON")); require(is(currency('S', 'O', 'O'), "", "SOO")); require(is(currency('S', 'O', 'P'), "", "SOP")); require(is(currency('S', 'O', 'Q'), "", "SOQ")); require(is(currency('S', 'O', 'R'), "", "SOR")); require(is(currency('S', 'O', 'T'), "", "SOT")); require(is(currency('S', 'O', 'U'), "", "SOU")); require(is(currency('S', 'O', 'V'), "", "SOV")); require(is(currency('S', 'O', 'W'), "", "SOW")); require(is(currency('S', 'O', 'X'), "", "SOX")); require(is(currency('S', 'O', 'Y'), "", "SOY")); require(is(currency('S', 'O', 'Z'), "", "SOZ"));)
OBLIGATION(no_currency_SP, "esl/economics/currencies.hpp: currency_name (codes without a currency from SP)", (), require(is(currency('S', 'P', 'A'), "", "SPA")); require(is(currency('S', 'P', 'B'), "", "SPB")); require(is(currency('S', 'P', 'C'), "", "SPC")); require(is(currency('S', 'P', 'D'), "", "SPD")); require(is(currency('S', 'P', 'E'), "", "SPE")); require(is(currency('S', 'P', 'F'), "", "SPF")); require(is(currency('S', 'P', 'G'), "", "SPG")); require(is(currency('S', 'P', 'H'), "", "SPH")); require(is(currency('S', 'P', 'I'), "", "SPI")); require(is(currency('S', 'P', 'J'), "", "SPJ")); require(is(currency('S', 'P', 'K'), "", "SPK")); require(is(currency('S', 'P', 'L'), "", "SPL")); require(is(currency('S', 'P', 'M'), "", "SPM")); require(is(currency('S', 'P', 'N'), "", "SPN")); require(is(currency('S', 'P', 'O'), "", "SPO")); require(is(currency('S', 'P', 'P'), "", "SPP")); require(is(currency('S', 'P', 'Q'), "", "SPQ")); require(is(currency('S', 'P', 'R'), "", "SPR")); require(is(currency('S', 'P', 'S'), "", "SPS")); require(is(currency('S', 'P', 'T'), "", "SPT")); require(is(currency('S', 'P', 'U'), "", "SPU")); require(is(currency('S', 'P', 'V'), "", "SPV")); require(is(currency('S', 'P', 'W'), "", "SPW")); require(is(currency('S', 'P', 'X'), "", "SPX")); require(is(currency('S', 'P', 'Y'), "", "SPY")); require(is(currency('S', 'P', 'Z'), "", "SPZ"));)
OBLIGATION(no_currency_SQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from SQ)", (), require(is(currency('S', 'Q', 'A'), "", "SQA")); require(is(currency('S', 'Q', 'B'), "", "SQB")); require(is(currency('S', 'Q', 'C'), "", "SQC")); require(is(currency('S', 'Q', 'D'), "", "SQD")); require(is(currency('S', 'Q', 'E'), "", "SQE")); require(is(currency('S', 'Q', 'F'), "", "SQF")); require(is(currency('S', 'Q', 'G'), "", "SQG")); require(is(currency('S', 'Q', 'H'), "", "SQH")); require(is(currency('S', 'Q', 'I'), "", "SQI")); require(is(currency('S', 'Q', 'J'), "", "SQJ")); require(is(currency('S', 'Q', 'K'), "", "SQK")); require(is(currency('S', 'Q', 'L'), "", "SQL")); require(is(currency('S', 'Q', 'M'), "", "SQM")); require(is(currency('S', 'Q', 'N'), "", "SQN")); require(is(currency('S', 'Q', 'O'), "", "SQO")); require(is(currency('S', 'Q', 'P'), "", "SQP")); require(is(currency('S', 'Q', 'Q'), "", "SQQ")); require(is(currency('S', 'Q', 'R'), "", "SQR")); require(is(currency('S', 'Q', 'S'), "", "SQS")); require(is(currency('S', 'Q', 'T'), "", "SQT")); require(is(currency('S', 'Q', 'U'), "", "SQU")); require(is(currency('S', 'Q', 'V'), "", "SQV")); require(is(currency('S', 'Q', 'W'), "", "SQW")); require(is(currency('S', 'Q', 'X'), "", "SQX")); require(is(currency('S', 'Q', 'Y'), "", "SQY")); require(is(currency('S', 'Q', 'Z'), "", "SQZ"));)
OBLIGATION(no_currency_SR, "esl/economics/currencies.hpp: currency_name (codes without a currency from SR)", (), require(is(currency('S', 'R', 'A'), "", "SRA")); require(is(currency('S', 'R', 'B'), "", "SRB")); require(is(currency('S', 'R', 'C'), "", "SRC")); require(is(currency('S', 'R', 'E'), "", "SRE")); require(is(currency('S', 'R', 'F'), "", "SRF")); require(is(currency('S', 'R', 'G'), "", "SRG")); require(is(currency('S', 'R', 'H'), "", "SRH")); require(is(currency('S', 'R', 'I'), "", "SRI")); require(is(currency('S', 'R', 'J'), "", "SRJ")); require(is(currency('S', 'R', 'K'), "", "SRK")); require(is(currency('S', 'R', 'L'), "", "SRL")); require(is(currency('S', 'R', 'M'), "", "SRM")); require(is(currency('S', 'R', 'N'), "", "SRN")); require(is(currency('S', 'R', 'O'), "", "SRO")); require(is(currency('S', 'R', 'P'), "", "SRP")); require(is(currency('S', 'R', 'Q'), "", "SRQ")); require(is(currency('S', 'R', 'R'), "", "SRR")); require(is(currency('S', 'R', 'S'), "", "SRS")); require(is(currency('S', 'R', 'T'), "", "SRT")); require(is(currency('S', 'R', 'U'), "", "SRU")); require(is(currency('S', 'R', 'V'), "", "SRV")); require(is(currency('S', 'R', 'W'), "", "SRW")); require(is(currency('S', 'R', 'X'), "", "SRX")); require(is(currency('S', 'R', 'Y'), "", "SRY")); require(is(currency('S', 'R', 'Z'), "", "SRZ"));)
OBLIGATION(no_currency_SS, "esl/economics/currencies.hpp: currency_name (codes without a currency from SS)", (), require(is(currency('S', 'S', 'A'), "", "SSA")); require(is(currency('S', 'S', 'B'), "", "SSB")); require(is(currency('S', 'S', 'C'), "", "SSC")); require(is(currency('S', 'S', 'D'), "", "SSD")); require(is(currency('S', 'S', 'E'), "", "SSE")); require(is(currency('S', 'S', 'F'), "", "SSF")); require(is(currency('S', 'S', 'G'), "", "SSG")); require(is(currency('S', 'S', 'H'), "", "SSH")); require(is(currency('S', 'S', 'I'), "", "SSI")); require(is(currency('S', 'S', 'J'), "", "SSJ")); require(is(currency('S', 'S', 'K'), "", "SSK")); require(is(currency('S', 'S', 'L'), "", "SSL")); require(is(currency('S', 'S', 'M'), "", "SSM")); require(is(currency('S', 'S', 'N'), "", "SSN")); require(is(currency('S', 'S', 'O'), "", "SSO")); require(is(currency('S', 'S', 'Q'), "", "SSQ")); require(is(currency('S', 'S', 'R'), "", "SSR")); require(is(currency('S', 'S', 'S'), "", "SSS")); require(is(currency('S', 'S', 'T'), "", "SST")); require(is(currency('S', 'S', 'U'), "", "SSU")); require(is(currency('S', 'S', 'V'), "", "SSV")); require(is(currency('S', 'S', 'W'), "", "SSW")); require(is(currency('S', 'S', 'X'), "", "SSX")); require(is(currency('S', 'S', 'Y'), "", "SSY")); require(is(currency('S', 'S', 'Z'), "", "SSZ"));)
OBLIGATION(no_currency_ST, "esl/economics/currencies.hpp: currency_name (codes without a currency from ST)", (), require(is(currency('S', 'T', 'A'), "", "STA")); require(is(currency('S', 'T', 'B'), "", "STB")); require(is(currency('S', 'T', 'C'), "", "STC")); require(is(currency('S', 'T', 'D'), "", "STD")); require(is(currency('S', 'T', 'E'), "", "STE")); require(is(currency('S', 'T', 'F'), "", "STF")); require(is(currency('S', 'T', 'G'), "", "STG")); require(is(currency('S', 'T', 'H'), "", "STH")); require(is(currency('S', 'T', 'I'), "", "STI")); require(is(currency('S', 'T', 'J'), "", "STJ")); require(is(currency('S', 'T', 'K'), "", "STK")); require(is(currency('S', 'T', 'L'), "", "STL")); require(is(currency('S', 'T', 'M'), "", "STM")); require(is(currency('S', 'T', 'O'), "", "STO")); require(is(currency('S', 'T', 'P'), "", "STP")); require(is(currency('S', 'T', 'Q'), "", "STQ")); require(is(currency('S', 'T', 'R'), "", "STR")); require(is(currency('S', 'T', 'S'), "", "STS")); require(is(currency('S', 'T', 'T'), "", "STT")); require(is(currency('S', 'T', 'U'), "", "STU")); require(is(currency('S', 'T', 'V'), "", "STV")); require(is(currency('S', 'T', 'W'), "", "STW")); require(is(currency('S', 'T', 'X'), "", "STX")); require(is(currency('S', 'T', 'Y'), "", "STY")); require(is(currency('S', 'T', 'Z'), "", "STZ"));)
OBLIGATION(no_currency_SU, "esl/economics/currencies.hpp: currency_name (codes without a currency from SU)", (), require(is(currency('S', 'U', 'A'), "", "SUA")); require(is(currency('S', 'U', 'B'), "", "SUB")); require(is(currency('S', 'U', 'C'), "", "SUC")); require(is(currency('S', 'U', 'D'), "", "SUD")); require(is(currency('S', 'U', 'E'), "", "SUE")); require(is(currency('S', 'U', 'F'), "", "SUF")); require(is(currency('S', 'U', 'G'), "", "SUG")); require(is(currency('S', 'U', 'H'), "", "SUH")); require(is(currency('S', 'U', 'I'), "", "SUI")); require(is(currency('S', 'U', 'J'), "", "SUJ")); require(is(currency('S', 'U', 'K'), "", "SUK")); require(is(currency('S', 'U', 'L'), "", "SUL")); require(is(currency('S', 'U', 'M'), "", "SUM")); require(is(currency('S', 'U', 'N'), "", "SUN")); require(is(currency('S', 'U', 'O'), "", "SUO")); require(is(currency('S', 'U', 'P'), "", "SUP")); require(is(currency('S', 'U', 'Q'), "", "SUQ")); require(is(currency('S', 'U', 'R'), "", "SUR")); require(is(currency('S', 'U', 'S'), "", "SUS")); require(is(currency('S', 'U', 'T'), "", "SUT")); require(is(currency('S', 'U', 'U'), "", "SUU")); require(is(currency('S', 'U', 'V'), "", "SUV")); require(is(currency('S', 'U', 'W'), "", "SUW")); require(is(currency('S', 'U', 'X'), "", "SUX")); require(is(currency('S', 'U', 'Y'), "", "SUY")); require(is(currency('S', 'U', 'Z'), "", "SUZ"));)
OBLIGATION(no_currency_SV, "esl/economics/currencies.hpp: currency_name (codes without a currency from SV)", (), require(is(currency('S', 'V', 'A'), "", "SVA")); require(is(currency('S', 'V', 'B'), "", "SVB")); require(is(currency('S', 'V', 'D'), "", "SVD")); require(is(currency('S', 'V', 'E'), "", "SVE")); require(is(currency('S', 'V', 'F'), "", "SVF")); require(is(currency('S', 'V', 'G'), "", "SVG")); require(is(currency('S', 'V', 'H'), "", "SVH")); require(is(currency('S', 'V', 'I'), "", "SVI")); require(is(currency('S', 'V', 'J'), "", "SVJ")); require(is(currency('S', 'V', 'K'), "", "SVK")); require(is(currency('S', 'V', 'L'), "", "SVL")); require(is(currency('S', 'V', 'M'), "", "SVM")); require(is(currency('S', 'V', 'N'), "", "SVN")); require(is(currency('S', 'V', 'O'), "", "SVO")); require(is(currency('S', 'V', 'P'), "", "SVP")); require(is(currency('S', 'V', 'Q'), "", "SVQ")); require(is(currency('S', 'V', 'R'), "", "SVR")); require(is(currency('S', 'V', 'S'), "", "SVS")); require(is(currency('S', 'V', 'T'), "", "SVT")); require(is(currency('S', 'V', 'U'), "", "SVU")); require(is(currency('S', 'V', 'V'), "", "SVV")); require(is(currency('S', 'V', 'W'), "", "SVW")); require(is(currency('S', 'V', 'X'), "", "SVX")); require(is(currency('S', 'V', 'Y'), "", "SVY")); require(is(currency('S', 'V', 'Z'), "", "SVZ"));)
OBLIGATION(no_currency_SW, "esl/economics/currencies.hpp: currency_name (codes without a currency from SW)", (), require(is(currency('S', 'W', 'A'), "", "SWA")); require(is(currency('S', 'W', 'B'), "", "SWB")); require(is(currency('S', 'W', 'C'), "", "SWC")); require(is(currency('S', 'W', 'D'), "", "SWD")); require(is(currency('S', 'W', 'E'), "", "SWE")); require(is(currency('S', 'W', 'F'), "", "SWF")); require(is(currency('S', 'W', 'G'), "", "SWG")); require(is(currency('S', 'W', 'H'), "", "SWH")); require(is(currency('S', 'W', 'I'), "", "SWI")); require(is(currency('S', 'W', 'J'), "", "SWJ")); require(is(currency('S', 'W', 'K'), "", "SWK")); require(is(currency('S', 'W', 'L'), "", "SWL")); require(is(currency('S', 'W', 'M'), "", "SWM")); require(is(currency('S', 'W', 'N'), "", "SWN")); require(is(currency('S', 'W', 'O'), "", "SWO")); require(is(currency('S', 'W', 'P'), "", "SWP")); require(is(currency('S', 'W', 'Q'), "", "SWQ")); require(is(currency('S', 'W', 'R'), "", "SWR")); require(is(currency('S', 'W', 'S'), "", "SWS")); require(is(currency('S', 'W', 'T'), "", "SWT")); require(is(currency('S', 'W', 'U'), "", "SWU")); require(is(currency('S', 'W', 'V'), "", "SWV")); require(is(currency('S', 'W', 'W'), "", "SWW")); require(is(currency('S', 'W', 'X'), "", "SWX")); require(is(currency('S', 'W', 'Y'), "", "SWY")); require(is(currency('S', 'W', 'Z'), "", "SWZ"));)
OBLIGATION(no_currency_SX, "esl/economics/currencies.hpp: currency_name (codes without a currency from SX)", (), require(is(currency('S', 'X', 'A'), "", "SXA")); require(is(currency('S', 'X', 'B'), "", "SXB")); require(is(currency('S', 'X', 'C'), "", "SXC")); require(is(currency('S', 'X', 'D'), "", "SXD")); require(is(currency('S', 'X', 'E'), "", "SXE")); require(is(currency('S', 'X', 'F'), "", "SXF")); require(is(currency('S', 'X', 'G'), "", "SXG")); require(is(currency('S', 'X', 'H'), "", "SXH")); require(is(currency('S', 'X', 'I'), "", "SXI")); require(is(currency('S', 'X', 'J'), "", "SXJ")); require(is(currency('S', 'X', 'K'), "", "SXK")); require(is(currency('S', 'X', 'L'), "", "SXL")); require(is(currency('S', 'X', 'M'), "", "SXM")); require(is(currency('S', 'X', 'N'), "", "SXN")); require(is(currency('S', 'X', 'O'), "", "SXO")); require(is(currency('S', 'X', 'P'), "", "SXP")); require(is(currency('S', 'X', 'Q'), "", "SXQ")); require(is(currency('S', 'X', 'R'), "", "SXR")); require(is(currency('S', 'X', 'S'), "", "SXS")); require(is(currency('S', 'X', 'T'), "", "SXT")); require(is(currency('S', 'X', 'U'), "", "SXU")); require(is(currency('S', 'X', 'V'), "", "SXV")); require(is(currency('S', 'X', 'W'), "", "SXW")); require(is(currency('S', 'X', 'X'), "", "SXX")); require(is(currency('S', 'X', 'Y'), "", "SXY")); require(is(currency('S', 'X', 'Z'), "", "SXZ"));)
OBLIGATION(no_currency_SY, "esl/economics/currencies.hpp: currency_name (codes without a currency from SY)", (), require(is(currency('S', 'Y', 'A'), "", "SYA")); require(is(currency('S', 'Y', 'B'), "", "SYB")); require(is(currency('S', 'Y', 'C'), "", "SYC")); require(is(currency('S', 'Y', 'D'), "", "SYD")); require(is(currency('S', 'Y', 'E'), "", "SYE")); require(is(currency('S', 'Y', 'F'), "", "SYF")); require(is(currency('S', 'Y', 'G'), "", "SYG")); require(is(currency('S', 'Y', 'H'), "", "SYH")); require(is(currency('S', 'Y', 'I'), "", "SYI")); require(is(currency('S', 'Y', 'J'), "", "SYJ")); require(is(currency('S', 'Y', 'K'), "", "SYK")); require(is(currency('S', 'Y', 'L'), "", "SYL")); require(is(currency('S', 'Y', 'M'), "", "SYM")); require(is(currency('S', 'Y', 'N'), "", "SYN")); require(is(currency('S', 'Y', 'O'), "", "SYO")); require(is(currency('S', 'Y', 'Q'), "", "SYQ")); require(is(currency('S', 'Y', 'R'), "", "SYR")); require(is(currency('S', 'Y', 'S'), "", "SYS")); require(is(currency('S', 'Y', 'T'), "", "SYT")); require(is(currency('S', 'Y', 'U'), "", "SYU")); require(is(currency('S', 'Y', 'V'), "", "SYV")); require(is(currency('S', 'Y', 'W'), "", "SYW")); require(is(currency('S', 'Y', 'X'), "", "SYX")); require(is(currency('S', 'Y', 'Y'), "", "SYY")); require(is(currency('S', 'Y', 'Z'), "", "SYZ"));)
OBLIGATION(no_currency_SZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from SZ)", (), require(is(currency('S', 'Z', 'A'), "", "SZA")); require(is(currency('S', 'Z', 'B'), "", "SZB")); require(is(currency('S', 'Z', 'C'), "", "SZC")); require(is(currency('S', 'Z', 'D'), "", "SZD")); require(is(currency('S', 'Z', 'E'), "", "SZE")); require(is(currency('S', 'Z', 'F'), "", "SZF")); require(is(currency('S', 'Z', 'G'), "", "SZG")); require(is(currency('S', 'Z', 'H'), "", "SZH")); require(is(currency('S', 'Z', 'I'), "", "SZI")); require(is(currency('S', 'Z', 'J'), "", "SZJ")); require(is(currency('S', 'Z', 'K'), "", "SZK")); require(is(currency('S', 'Z', 'M'), "", "SZM")); require(is(currency('S', 'Z', 'N'), "", "SZN")); require(is(currency('S', 'Z', 'O'), "", "SZO")); require(is(currency('S', 'Z', 'P'), "", "SZP")); require(is(currency('S', 'Z', 'Q'), "", "SZQ")); require(is(currency('S', 'Z', 'R'), "", "SZR")); require(is(currency('S', 'Z', 'S'), "", "SZS")); require(is(currency('S', 'Z', 'T'), "", "SZT")); require(is(currency('S', 'Z', 'U'), "", "SZU")); require(is(currency('S', 'Z', 'V'), "", "SZV")); require(is(currency('S', 'Z', 'W'), "", "SZW")); require(is(currency('S', 'Z', 'X'), "", "SZX")); require(is(currency('S', 'Z', 'Y'), "", "SZY")); require(is(currency('S', 'Z', 'Z'), "", "SZZ"));)
OBLIGATION(no_currency_TA, "esl/economics/currencies.hpp: currency_name (codes without a currency from TA)", (), require(is(currency('T', 'A', 'A'), "", "TAA")); require(is(currency('T', 'A', 'B'), "", "TAB")); require(is(currency('T', 'A', 'C'), "", "TAC")); require(is(currency('T', 'A', 'D'), "", "TAD")); require(is(currency('T', 'A', 'E'), "", "TAE")); require(is(currency('T', 'A', 'F'), "", "TAF")); require(is(currency('T', 'A', 'G'), "", "TAG")); require(is(currency('T', 'A', 'H'), "", "TAH")); require(is(currency('T', 'A', 'I'), "", "TAI")); require(is(currency('T', 'A', 'J'), "", "TAJ")); require(is(currency('T', 'A', 'K'), "", "TAK")); require(is(currency('T', 'A', 'L'), "", "TAL")); require(is(currency('T', 'A', 'M'), "", "TAM")); require(is(currency('T', 'A', 'N'), "", "TAN")); require(is(currency('T', 'A', 'O'), "", "TAO")); require(is(currency('T', 'A', 'P'), "", "TAP")); require(is(currency('T', 'A', 'Q'), "", "TAQ")); require(is(currency('T', 'A', 'R'), "", "TAR")); require(is(currency('T', 'A', 'S'), "", "TAS")); require(is(currency('T', 'A', 'T'), "", "TAT")); require(is(currency('T', 'A', 'U'), "", "TAU")); require(is(currency('T', 'A', 'V'), "", "TAV")); require(is(currency('T', 'A', 'W'), "", "TAW")); require(is(currency('T', 'A', 'X'), "", "TAX")); require(is(currency('T', 'A', 'Y'), "", "TAY")); require(is(currency('T', 'A', 'Z'), "", "TAZ"));)
OBLIGATION(no_currency_TB, "esl/economics/currencies.hpp: currency_name (codes without a currency from TB)", (), require(is(currency('T', 'B', 'A'), "", "TBA")); require(is(currency('T', 'B', 'B'), "", "TBB")); require(is(currency('T', 'B', 'C'), "", "TBC")); require(is(currency('T', 'B', 'D'), "", "TBD")); require(is(currency('T', 'B', 'E'), "", "TBE")); require(is(currency('T', 'B', 'F'), "", "TBF")); require(is(currency('T', 'B', 'G'), "", "TBG")); require(is(currency('T', 'B', 'H'), "", "TBH")); require(is(currency('T', 'B', 'I'), "", "TBI")); require(is(currency('T', 'B', 'J'), "", "TBJ")); require(is(currency('T', 'B', 'K'), "", "TBK")); require(is(currency('T', 'B', 'L'), "", "TBL")); require(is(currency('T', 'B', 'M'), "", "TBM")); require(is(currency('T', 'B', 'N'), "", "TBN")); require(is(currency('T', 'B', 'O'), "", "TBO")); require(is(currency('T', 'B', 'P'), "", "TBP")); require(is(currency('T', 'B', 'Q'), "", "TBQ")); require(is(currency('T', 'B', 'R'), "", "TBR")); require(is(currency('T', 'B', 'S'), "", "TBS")); require(is(currency('T', 'B', 'T'), "", "TBT")); require(is(currency('T', 'B', 'U'), "", "TBU")); require(is(currency('T', 'B', 'V'), "", "TBV")); require(is(currency('T', 'B', 'W'), "", "TBW")); require(is(currency('T', 'B', 'X'), "", "TBX")); require(is(currency('T', 'B', 'Y'), "", "TBY")); require(is(currency('T', 'B', 'Z'), "", "TBZ"));)
OBLIGATION(no_currency_TC, "esl/economics/currencies.hpp: currency_name (codes without a currency from TC)", (), require(is(currency('T', 'C', 'A'), "", "TCA")); require(is(currency('T', 'C', 'B'), "", "TCB")); require(is(currency('T', 'C', 'C'), "", "TCC")); require(is(currency('T', 'C', 'D'), "", "TCD")); require(is(currency('T', 'C', 'E'), "", "TCE")); require(is(currency('T', 'C', 'F'), "", "TCF")); require(is(currency('T', 'C', 'G'), "", "TCG")); require(is(currency('T', 'C', 'H'), "", "TCH")); require(is(currency('T', 'C', 'I'), "", "TCI")); require(is(currency('T', 'C', 'J'), "", "TCJ")); require(is(currency('T', 'C', 'K'), "", "TCK")); require(is(currency('T', 'C', 'L'), "", "TCL")); require(is(currency('T', 'C', 'M'), "", "TCM")); require(is(currency('T', 'C', 'N'), "", "TCN")); require(is(currency('T', 'C', 'O'), "", "TCO")); require(is(currency('T', 'C', 'P'), "", "TCP")); require(is(currency('T', 'C', 'Q'), "", "TCQ")); require(is(currency('T', 'C', 'R'), "", "TCR")); require(is(currency('T', 'C', 'S'), "", "TCS")); require(is(currency('T', 'C', 'T'), "", "TCT")); require(is(currency('T', 'C', 'U'), "", "TCU")); require(is(currency('T', 'C', 'V'), "", "TCV")); require(is(currency('T', 'C', 'W'), "", "TCW")); require(is(currency('T', 'C', 'X'), "", "TCX")); require(is(currency('T', 'C', 'Y'), "", "TCY")); require(is(currency('T', 'C', 'Z'), "", "TCZ"));)
OBLIGATION(no_currency_TD, "esl/economics/currencies.hpp: currency_name (codes without a currency from TD)", (), require(is(currency('T', 'D', 'A'), "", "TDA")); require(is(currency('T', 'D', 'B'), "", "TDB")); require(is(currency('T', 'D', 'C'), "", "TDC")); require(is(currency('T', 'D', 'D'), "", "TDD")); require(is(currency('T', 'D', 'E'), "", "TDE")); require(is(currency('T', 'D', 'F'), "", "TDF")); require(is(currency('T', 'D', 'G'), "", "TDG")); require(is(currency('T', 'D', 'H'), "", "TDH")); require(is(currency('T', 'D', 'I'), "", "TDI")); require(is(currency('T', 'D', 'J'), "", "TDJ")); require(is(currency('T', 'D', 'K'), "", "TDK")); require(is(currency('T', 'D', 'L'), "", "TDL")); require(is(currency('T', 'D', 'M'), "", "TDM")); require(is(currency('T', 'D', 'N'), "", "TDN")); require(is(currency('T', 'D', 'O'), "", "TDO")); require(is(currency('T', 'D', 'P'), "", "TDP")); require(is(currency('T', 'D', 'Q'), "", "TDQ")); require(is(currency('T', 'D', 'R'), "", "TDR")); require(is(currency('T', 'D', 'S'), "", "TDS")); require(is(currency('T', 'D', 'T'), "", "TDT")); require(is(currency('T', 'D', 'U'), "", "TDU")); require(is(currency('T', 'D', 'V'), "", "TDV")); require(is(currency('T', 'D', 'W'), "", "TDW")); require(is(currency('T', 'D', 'X'), "", "TDX")); require(is(currency('T', 'D', 'Y'), "", "TDY")); require(is(currency('T', 'D', 'Z'), "", "TDZ"));)
OBLIGATION(no_currency_TE, "esl/economics/currencies.hpp: currency_name (codes without a currency from TE)", (), require(is(currency('T', 'E', 'A'), "", "TEA")); require(is(currency('T', 'E', 'B'), "", "TEB")); require(is(currency('T', 'E', 'C'), "", "TEC")); require(is(currency('T', 'E', 'D'), "", "TED")); require(is(currency('T', 'E', 'E'), "", "TEE")); require(is(currency('T', 'E', 'F'), "", "TEF")); require(is(currency('T', 'E', 'G'), "", "TEG")); require(is(currency('T', 'E', 'H'), "", "TEH")); require(is(currency('T', 'E', 'I'), "", "TEI")); require(is(currency('T', 'E', 'J'), "", "TEJ")); require(is(currency('T', 'E', 'K'), "", "TEK")); require(is(currency('T', 'E', 'L'), "", "TEL")); require(is(currency('T', 'E', 'M'), "", "TEM")); require(is(currency('T', 'E', 'N'), "", "TEN")); require(is(currency('T', 'E', 'O'), "", "TEO")); require(is(currency('T', 'E', 'P'), "", "TEP")); require(is(currency('T', 'E', 'Q'), "", "TEQ")); require(is(currency('T', 'E', 'R'), "", "TER")); require(is(currency('T', 'E', 'S'), "", "TES")); require(is(currency('T', 'E', 'T'), "", "TET")); require(is(currency('T', 'E', 'U'), "", "TEU")); require(is(currency('T', 'E', 'V'), "", "TEV")); require(is(currency('T', 'E', 'W'), "", "TEW")); require(is(currency('T', 'E', 'X'), "", "TEX")); require(is(currency('T', 'E', 'Y'), "", "TEY")); require(is(currency('T', 'E', 'Z'), "", "TEZ"));)
OBLIGATION(no_currency_TF, "esl/economics/currencies.hpp: currency_name (codes without a currency from TF)", (), require(is(currency('T', 'F', 'A'), "", "TFA")); require(is(currency('T', 'F', 'B'), "", "TFB")); require(is(currency('T', 'F', 'C'), "", "TFC")); require(is(currency('T', 'F', 'D'), "", "TFD")); require(is(currency('T', 'F', 'E'), "", "TFE")); require(is(currency('T', 'F', 'F'), "", "TFF")); require(is(currency('T', 'F', 'G'), "", "TFG")); require(is(currency('T', 'F', 'H'), "", "TFH")); require(is(currency('T', 'F', 'I'), "", "TFI")); require(is(currency('T', 'F', 'J'), "", "TFJ")); require(is(currency('T', 'F', 'K'), "", "TFK")); require(is(currency('T', 'F', 'L'), "", "TFL")); require(is(currency('T', 'F', 'M'), "", "TFM")); require(is(currency('T', 'F', 'N'), "", "TFN")); require(is(currency('T', 'F', 'O'), "", "TFO")); require(is(currency('T', 'F', 'P'), "", "TFP")); require(is(currency('T', 'F', 'Q'), "", "TFQ")); require(is(currency('T', 'F', 'R'), "", "TFR")); require(is(currency('T', 'F', 'S'), "", "TFS")); require(is(currency('T', 'F', 'T'), "", "TFT")); require(is(currency('T', 'F', 'U'), "", "TFU")); require(is(currency('T', 'F', 'V'), "", "TFV")); require(is(currency('T', 'F', 'W'), "", "TFW")); require(is(currency('T', 'F', 'X'), "", "TFX")); require(is(currency('T', 'F', 'Y'), "", "TFY")); require(is(currency('T', 'F', 'Z'), "", "TFZ"));)
OBLIGATION(no_currency_TG, "esl/economics/currencies.hpp: currency_name (codes without a currency from TG)", (), require(is(currency('T', 'G', 'A'), "", "TGA")); require(is(currency('T', 'G', 'B'), "", "TGB")); require(is(currency('T', 'G', 'C'), "", "TGC")); require(is(currency('T', 'G', 'D'), "", "TGD")); require(is(currency('T', 'G', 'E'), "", "TGE")); require(is(currency('T', 'G', 'F'), "", "TGF")); require(is(currency('T', 'G', 'G'), "", "TGG")); require(is(currency('T', 'G', 'H'), "", "TGH")); require(is(currency('T', 'G', 'I'), "", "TGI")); require(is(currency('T', 'G', 'J'), "", "TGJ")); require(is(currency('T', 'G', 'K'), "", "TGK")); require(is(currency('T', 'G', 'L'), "", "TGL")); require(is(currency('T', 'G', 'M'), "", "TGM")); require(is(currency('T', 'G', 'N'), "", "TGN")); require(is(currency('T', 'G', 'O'), "", "TGO")); require(is(currency('T', 'G', 'P'), "", "TGP")); require(is(currency('T', 'G', 'Q'), "", "TGQ")); require(is(currency('T', 'G', 'R'), "", "TGR")); require(is(currency('T', 'G', 'S'), "", "TGS")); require(is(currency('T', 'G', 'T'), "", "TGT")); require(is(currency('T', 'G', 'U'), "", "TGU")); require(is(currency('T', 'G', 'V'), "", "TGV")); require(is(currency('T', 'G', 'W'), "", "TGW")); require(is(currency('T', 'G', 'X'), "", "TGX")); require(is(currency('T', 'G', 'Y'), "", "TGY")); require(is(currency('T', 'G', 'Z'), "", "TGZ"));)
OBLIGATION(no_currency_TH, "esl/economics/currencies.hpp: currency_name (codes without a currency from TH)", (), require(is(currency('T', 'H', 'A'), "", "THA")); require(is(currency('T', 'H', 'C'), "", "THC")); require(is(currency('T', 'H', 'D'), "", "THD")); require(is(currency('T', 'H', 'E'), "", "THE")); require(is(currency('T', 'H', 'F'), "", "THF")); require(is(currency('T', 'H', 'G'), "", "THG")); require(is(currency('T', 'H', 'H'), "", "THH")); require(is(currency('T', 'H', 'I'), "", "THI")); require(is(currency('T', 'H', 'J'), "", "THJ")); require(is(currency('T', 'H', 'K'), "", "THK")); require(is(currency('T', 'H', 'L'), "", "THL")); require(is(currency('T', 'H', 'M'), "", "THM")); require(is(currency('T', 'H', 'N'), "", "THN")); require(is(currency('T', 'H', 'O'), "", "THO")); require(is(currency('T', 'H', 'P'), "", "THP")); require(is(currency('T', 'H', 'Q'), "", "THQ")); require(is(currency('T', 'H', 'R'), "", "THR")); require(is(currency('T', 'H', 'S'), "", "THS")); require(is(currency('T', 'H', 'T'), "", "THT")); require(is(currency('T', 'H', 'U'), "", "THU")); require(is(currency('T', 'H', 'V'), "", "THV")); require(is(currency('T', 'H', 'W'), "", "THW")); require(is(currency('T', 'H', 'X'), "", "THX")); require(is(currency('T', 'H', 'Y'), "", "THY")); require(is(currency('T', 'H', 'Z'), "", "THZ"));)
OBLIGATION(no_currency_TI, "esl/economics/currencies.hpp: currency_name (codes without a currency from TI)", (), require(is(currency('T', 'I', 'A'), "", "TIA")); require(is(currency('T', 'I', 'B'), "", "TIB")); require(is(currency('T', 'I', 'C'), "", "TIC")); require(is(currency('T', 'I', 'D'), "", "TID")); require(is(currency('T', 'I', 'E'), "", "TIE")); require(is(currency('T', 'I', 'F'), "", "TIF")); require(is(currency('T', 'I', 'G'), "", "TIG")); require(is(currency('T', 'I', 'H'), "", "TIH")); require(is(currency('T', 'I', 'I'), "", "TII")); require(is(currency('T', 'I', 'J'), "", "TIJ")); require(is(currency('T', 'I', 'K'), "", "TIK")); require(is(currency('T', 'I', 'L'), "", "TIL")); require(is(currency('T', 'I', 'M'), "", "TIM")); require(is(currency('T', 'I', 'N'), "", "TIN")); require(is(currency('T', 'I', 'O'), "", "TIO")); require(is(currency('T', 'I', 'P'), "", "TIP")); require(is(currency('T', 'I', 'Q'), "", "TIQ")); require(is(currency('T', 'I', 'R'), "", "TIR")); require(is(currency('T', 'I', 'S'), "", "TIS")); require(is(currency('T', 'I', 'T'), "", "TIT")); require(is(currency('T', 'I', 'U'), "", "TIU")); require(is(currency('T', 'I', 'V'), "", "TIV")); require(is(currency('T', 'I', 'W'), "", "TIW")); require(is(currency('T', 'I', 'X'), "", "TIX")); require(is(currency('T', 'I', 'Y'), "", "TIY")); require(is(currency('T', 'I', 'Z'), "", "TIZ"));)
OBLIGATION(no_currency_TJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from TJ)", (), require(is(currency('T', 'J', 'A'), "", "TJA")); require(is(currency('T', 'J', 'B'), "", "TJB")); require(is(currency('T', 'J', 'C'), "", "TJC")); require(is(currency('T', 'J', 'D'), "", "TJD")); require(is(currency('T', 'J', 'E'), "", "TJE")); require(is(currency('T', 'J', 'F'), "", "TJF")); require(is(currency('T', 'J', 'G'), "", "TJG")); require(is(currency('T', 'J', 'H'), "", "TJH")); require(is(currency('T', 'J', 'I'), "", "TJI")); require(is(currency('T', 'J', 'J'), "", "TJJ")); require(is(currency('T', 'J', 'K'), "", "TJK")); require(is(currency('T', 'J', 'L'), "", "TJL")); require(is(currency('T', 'J', 'M'), "", "TJM")); require(is(currency('T', 'J', 'N'), "", "TJN")); require(is(currency('T', 'J', 'O'), "", "TJO")); require(is(currency('T', 'J', 'P'), "", "TJP")); require(is(currency('T', 'J', 'Q'), "", "TJQ")); require(is(currency('T', 'J', 'R'), "", "TJR")); require(is(currency('T', 'J', 'T'), "", "TJT")); require(is(currency('T', 'J', 'U'), "", "TJU")); require(is(currency('T', 'J', 'V'), "", "TJV")); require(is(currency('T', 'J', 'W'), "", "TJW")); require(is(currency('T', 'J', 'X'), "", "TJX")); require(is(currency('T', 'J', 'Y'), "", "TJY")); require(is(currency('T', 'J', 'Z'), "", "TJZ"));)
OBLIGATION(no_currency_TK, "esl/economics/currencies.hpp: currency_name (codes without a currency from TK)", (), require(is(currency('T', 'K', 'A'), "", "TKA")); require(is(currency('T', 'K', 'B'), "", "TKB")); require(is(currency('T', 'K', 'C'), "", "TKC")); require(is(currency('T', 'K', 'D'), "", "TKD")); require(is(currency('T', 'K', 'E'), "", "TKE")); require(is(currency('T', 'K', 'F'), "", "TKF")); require(is(currency('T', 'K', 'G'), "", "TKG")); require(is(currency('T', 'K', 'H'), "", "TKH")); require(is(currency('T', 'K', 'I'), "", "TKI")); require(is(currency('T', 'K', 'J'), "", "TKJ")); require(is(currency('T', 'K', 'K'), "", "TKK")); require(is(currency('T', 'K', 'L'), "", "TKL")); require(is(currency('T', 'K', 'M'), "", "TKM")); require(is(currency('T', 'K', 'N'), "", "TKN")); require(is(currency('T', 'K', 'O'), "", "TKO")); require(is(currency('T', 'K', 'P'), "", "TKP")); require(is(currency('T', 'K', 'Q'), "", "TKQ")); require(is(currency('T', 'K', 'R'), "", "TKR")); require(is(currency('T', 'K', 'S'), "", "TKS")); require(is(currency('T', 'K', 'T'), "", "TKT")); require(is(currency('T', 'K', 'U'), "", "TKU")); require(is(currency('T', 'K', 'V'), "", "TKV")); require(is(currency('T', 'K', 'W'), "", "TKW")); require(is(currency('T', 'K', 'X'), "", "TKX")); require(is(currency('T', 'K', 'Y'), "", "TKY")); require(is(currency('T', 'K', 'Z'), "", "TKZ"));)
OBLIGATION(no_currency_TL, "esl/economics/currencies.hpp: currency_name (codes without a currency from TL)", (), require(is(currency('T', 'L', 'A'), "", "TLA")); require(is(currency('T', 'L', 'B'), "", "TLB")); require(is(currency('T', 'L', 'C'), "", "TLC")); require(is(currency('T', 'L', 'D'), "", "TLD")); require(is(currency('T', 'L', 'E'), "", "TLE")); require(is(currency('T', 'L', 'F'), "", "TLF")); require(is(currency('T', 'L', 'G'), "", "TLG")); require(is(currency('T', 'L', 'H'), "", "TLH")); require(is(currency('T', 'L', 'I'), "", "TLI")); require(is(currency('T', 'L', 'J'), "", "TLJ")); require(is(currency('T', 'L', 'K'), "", "TLK")); require(is(currency('T', 'L', 'L'), "", "TLL")); require(is(currency('T', 'L', 'M'), "", "TLM")); require(is(currency('T', 'L', 'N'), "", "TLN")); require(is(currency('T', 'L', 'O'), "", "TLO")); require(is(currency('T', 'L', 'P'), "", "TLP")); require(is(currency('T', 'L', 'Q'), "", "TLQ")); require(is(currency('T', 'L', 'R'), "", "TLR")); require(is(currency('T', 'L', 'S'), "", "TLS")); require(is(currency('T', 'L', 'T'), "", "TLT")); require(is(currency('T', 'L', 'U'), "", "TLU")); require(is(currency('T', 'L', 'V'), "", "TLV")); require(is(currency('T', 'L', 'W'), "", "TLW")); require(is(currency('T', 'L', 'X'), "", "TLX")); require(is(currency('T', 'L', 'Y'), "", "TLY")); require(is(currency('T', 'L', 'Z'), "", "TLZ"));)
OBLIGATION(no_currency_TM, "esl/economics/currencies.hpp: currency_name (codes without a currency from TM)", (), require(is(currency('T', 'M', 'A'), "", "TMA")); require(is(currency('T', 'M', 'B'), "", "TMB")); require(is(currency('T', 'M', 'C'), "", "TMC")); require(is(currency('T', 'M', 'D'), "", "TMD")); require(is(currency('T', 'M', 'E'), "", "TME")); require(is(currency('T', 'M', 'F'), "", "TMF")); require(is(currency('T', 'M', 'G'), "", "TMG")); require(is(currency('T', 'M', 'H'), "", "TMH")); require(is(currency('T', 'M', 'I'), "", "TMI")); require(is(currency('T', 'M', 'J'), "", "TMJ")); require(is(currency('T', 'M', 'K'), "", "TMK")); require(is(currency('T', 'M', 'L'), "", "TML")); require(is(currency('T', 'M', 'M'), "", "TMM")); require(is(currency('T', 'M', 'N'), "", "TMN")); require(is(currency('T', 'M', 'O'), "", "TMO")); require(is(currency('T', 'M', 'P'), "", "TMP")); require(is(currency('T', 'M', 'Q'), "", "TMQ")); require(is(currency('T', 'M', 'R'), "", "TMR")); require(is(currency('T', 'M', 'S'), "", "TMS")); require(is(currency('T', 'M', 'U'), "", "TMU")); require(is(currency('T', 'M', 'V'), "", "TMV")); require(is(currency('T', 'M', 'W'), "", "TMW")); require(is(currency('T', 'M', 'X'), "", "TMX")); require(is(currency('T', 'M', 'Y'), "", "TMY")); require(is(currency('T', 'M', 'Z'), "", "TMZ"));)
OBLIGATION(no_currency_TN, "esl/economics/currencies.hpp: currency_name (codes without a currency from TN)", (), require(is(currency('T', 'N', 'A'), "", "TNA")); require(is(currency('T', 'N', 'B'), "", "TNB")); require(is(currency('T', 'N', 'C'), "", "TNC")); require(is(currency('T', 'N', 'E'), "", "TNE")); require(is(currency('T', 'N', 'F'), "", "TNF")); require(is(currency('T', 'N', 'G'), "", "TNG")); require(is(currency('T', 'N', 'H'), "", "TNH")); require(is(currency('T', 'N', 'I'), "", "TNI")); require(is(currency('T', 'N', 'J'), "", "TNJ")); require(is(currency('T', 'N', 'K'), "", "TNK")); require(is(currency('T', 'N', 'L'), "", "TNL")); require(is(currency('T', 'N', 'M'), "", "TNM")); require(is(currency('T', 'N', 'N'), "", "TNN")); require(is(currency('T', 'N', 'O'), "", "TNO")); require(is(currency('T', 'N', 'P'), "", "TNP")); require(is(currency('T', 'N', 'Q'), "", "TNQ")); require(is(currency('T', 'N', 'R'), "", "TNR")); require(is(currency('T', 'N', 'S'), "", "TNS")); require(is(currency('T', 'N', 'T'), "", "TNT")); require(is(currency('T', 'N', 'U'), "", "TNU")); require(is(currency('T', 'N', 'V'), "", "TNV")); require(is(currency('T', 'N', 'W'), "", "TNW")); require(is(currency('T', 'N', 'X'), "", "TNX")); require(is(currency('T', 'N', 'Y'), "", "TNY")); require(is(currency('T', 'N', 'Z'), "", "TNZ"));)
OBLIGATION(no_currency_TO, "esl/economics/currencies.hpp: currency_name (codes without a currency from TO)", (), require(is(currency('T', 'O', 'A'), "", "TOA")); require(is(currency('T', 'O', 'B'), "", "TOB")); require(is(currency('T', 'O', 'C'), "", "TOC")); require(is(currency('T', 'O', 'D'), "", "TOD")); require(is(currency('T', 'O', 'E'), "", "TOE")); require(is(currency('T', 'O', 'F'), "", "TOF")); require(is(currency('T', 'O', 'G'), "", "TOG")); require(is(currency('T', 'O', 'H'), "", "TOH")); require(is(currency('T', 'O', 'I'), "", "TOI")); require(is(currency('T', 'O', 'J'), "", "TOJ")); require(is(currency('T', 'O', 'K'), "", "TOK")); require(is(currency('T', 'O', 'L'), "", "TOL")); require(is(currency('T', 'O', 'M'), "", "TOM")); require(is(currency('T', 'O', 'N'), "", "TON")); require(is(currency('T', 'O', 'O'), "", "TOO")); require(is(currency('T', 'O', 'Q'), "", "TOQ")); require(is(currency('T', 'O', 'R'), "", "TOR")); require(is(currency('T', 'O', 'S'), "", "TOS")); require(is(currency('T', 'O', 'T'), "", "TOT")); require(is(currency('T', 'O', 'U'), "", "TOU")); require(is(currency('T', 'O', 'V'), "", "TOV")); require(is(currency('T', 'O', 'W'), "", "TOW")); require(is(currency('T', 'O', 'X'), "", "TOX")); require(is(currency('T', 'O', 'Y'), "", "TOY")); require(is(currency('T', 'O', 'Z'), "", "TOZ"));)
OBLIGATION(no_currency_TP, "esl/economics/currencies.hpp: currency_name (codes without a currency from TP)", (), require(is(currency('T', 'P', 'A'), "", "TPA")); require(is(currency('T', 'P', 'B'), "", "TPB")); require(is(currency('T', 'P', 'C'), "", "TPC")); require(is(currency('T', 'P', 'D'), "", "TPD")); require(is(currency('T', 'P', 'E'), "", "TPE")); require(is(currency('T', 'P', 'F'), "", "TPF")); require(is(currency('T', 'P', 'G'), "", "TPG")); require(is(currency('T', 'P', 'H'), "", "TPH")); require(is(currency('T', 'P', 'I'), "", "TPI")); require(is(currency('T', 'P', 'J'), "", "TPJ")); require(is(currency('T', 'P', 'K'), "", "TPK")); require(is(currency('T', 'P', 'L'), "", "TPL")); require(is(currency('T', 'P', 'M'), "", "TPM")); require(is(currency('T', 'P', 'N'), "", "TPN")); require(is(currency('T', 'P', 'O'), "", "TPO")); require(is(currency('T', 'P', 'P'), "", "TPP")); require(is(currency('T', 'P', 'Q'), "", "TPQ")); require(is(currency('T', 'P', 'R'), "", "TPR")); require(is(currency('T', 'P', 'S'), "", "TPS")); require(is(currency('T', 'P', 'T'), "", "TPT")); require(is(currency('T', 'P', 'U'), "", "TPU")); require(is(currency('T', 'P', 'V'), "", "TPV")); require(is(currency('T', 'P', 'W'), "", "TPW")); require(is(currency('T', 'P', 'X'), "", "TPX")); require(is(currency('T', 'P', 'Y'), "", "TPY")); require(is(currency('T', 'P', 'Z'), "", "TPZ"));)
OBLIGATION(no_currency_TQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from TQ)", (), require(is(currency('T', 'Q', 'A'), "", "TQA")); require(is(currency('T', 'Q', 'B'), "", "TQB")); require(is(currency('T', 'Q', 'C'), "", "TQC")); require(is(currency('T', 'Q', 'D'), "", "TQD")); require(is(currency('T', 'Q', 'E'), "", "TQE")); require(is(currency('T', 'Q', 'F'), "", "TQF")); require(is(currency('T', 'Q', 'G'), "", "TQG")); require(is(currency('T', 'Q', 'H'), "", "TQH")); require(is(currency('T', 'Q', 'I'), "", "TQI")); require(is(currency('T', 'Q', 'J'), "", "TQJ")); require(is(currency('T', 'Q', 'K'), "", "TQK")); require(is(currency('T', 'Q', 'L'), "", "TQL")); require(is(currency('T', 'Q', 'M'), "", "TQM")); require(is(currency('T', 'Q', 'N'), "", "TQN")); require(is(currency('T', 'Q', 'O'), "", "TQO")); require(is(currency('T', 'Q', 'P'), "", "TQP")); require(is(currency('T', 'Q', 'Q'), "", "TQQ")); require(is(currency('T', 'Q', 'R'), "", "TQR")); require(is(currency('T', 'Q', 'S'), "", "TQS")); require(is(currency('T', 'Q', 'T'), "", "TQT")); require(is(currency('T', 'Q', 'U'), "", "TQU")); require(is(currency('T', 'Q', 'V'), "", "TQV")); require(is(currency('T', 'Q', 'W'), "", "TQW")); require(is(currency('T', 'Q', 'X'), "", "TQX")); require(is(currency('T', 'Q', 'Y'), "", "TQY")); require(is(currency('T', 'Q', 'Z'), "", "TQZ"));)
OBLIGATION(no_currency_TR, "esl/economics/currencies.hpp: currency_name (codes without a currency from TR)", (), require(is(currency('T', 'R', 'A'), "", "TRA")); require(is(currency('T', 'R', 'B'), "", "TRB")); require(is(currency('T', 'R', 'C'), "", "TRC")); require(is(currency('T', 'R', 'D'), "", "TRD")); require(is(currency('T', 'R', 'E'), "", "TRE")); require(is(currency('T', 'R', 'F'), "", "TRF")); require(is(currency('T', 'R', 'G'), "", "TRG")); require(is(currency('T', 'R', 'H'), "", "TRH")); require(is(currency('T', 'R', 'I'), "", "TRI")); require(is(currency('T', 'R', 'J'), "", "TRJ")); require(is(currency('T', 'R', 'K'), "", "TRK")); require(is(currency('T', 'R', 'L'), "", "TRL")); require(is(currency('T', 'R', 'M'), "", "TRM")); require(is(currency('T', 'R', 'N'), "", "TRN")); require(is(currency('T', 'R', 'O'), "", "TRO")); require(is(currency('T', 'R', 'P'), "", "TRP")); require(is(currency('T', 'R', 'Q'), "", "TRQ")); require(is(currency('T', 'R', 'R'), "", "TRR")); require(is(currency('T', 'R', 'S'), "", "TRS")); require(is(currency('T', 'R', 'T'), "", "TRT")); require(is(currency('T', 'R', 'U'), "", "TRU")); require(is(currency('T', 'R', 'V'), "", "TRV")); require(is(currency('T', 'R', 'W'), "", "TRW")); require(is(currency('T', 'R', 'X'), "", "TRX")); require(is(currency('T', 'R', 'Z'), "", "TRZ"));)
OBLIGATION(no_currency_TS, "esl/economics/currencies.hpp: currency_name (codes without a currency from TS)", (), require(is(currency('T', 'S', 'A'), "", "TSA")); require(is(currency('T', 'S', 'B'), "", "TSB")); require(is(currency('T', 'S', 'C'), "", "TSC")); require(is(currency('T', 'S', 'D'), "", "TSD")); require(is(currency('T', 'S', 'E'), "", "TSE")); require(is(currency('T', 'S', 'F'), "", "TSF")); require(is(currency('T', 'S', 'G'), "", "TSG")); require(is(currency('T', 'S', 'H'), "", "TSH")); require(is(currency('T', 'S', 'I'), "", "TSI")); require(is(currency('T', 'S', 'J'), "", "TSJ")); require(is(currency('T', 'S', 'K'), "", "TSK")); require(is(currency('T', 'S', 'L'), "", "TSL")); require(is(currency('T', 'S', 'M'), "", "TSM")); require(is(currency('T', 'S', 'N'), "", "TSN")); require(is(currency('T', 'S', 'O'), "", "TSO")); require(is(currency('T', 'S', 'P'), "", "TSP")); require(is(currency('T', 'S', 'Q'), "", "TSQ")); require(is(currency('T', 'S', 'R'), "", "TSR")); require(is(currency('T', 'S', 'S'), "", "TSS")); require(is(currency('T', 'S', 'T'), "", "TST")); require(is(currency('T', 'S', 'U'), "", "TSU")); require(is(currency('T', 'S', 'V'), "", "TSV")); require(is(currency('T', 'S', 'W'), "", "TSW")); require(is(currency('T', 'S', 'X'), "", "TSX")); require(is(currency('T', 'S', 'Y'), "", "TSY")); require(is(currency('T', 'S', 'Z'), "", "TSZ"));)
OBLIGATION(no_currency_TT, "esl/economics/currencies.hpp: currency_name (codes without a currency from TT)", (), require(is(currency('T', 'T', 'A'), "", "TTA")); require(is(currency('T', 'T', 'B'), "", "TTB")); require(is(currency('T', 'T', 'C'), "", "TTC")); require(is(currency('T', 'T', 'E'), "", "TTE")); require(is(currency('T', 'T', 'F'), "", "TTF")); require(is(currency('T', 'T', 'G'), "", "TTG")); require(is(currency('T', 'T', 'H'), "", "TTH")); require(is(currency('T', 'T', 'I'), "", "TTI")); require(is(currency('T', 'T', 'J'), "", "TTJ")); require(is(currency('T', 'T', 'K'), "", "TTK")); require(is(currency('T', 'T', 'L'), "", "TTL")); require(is(currency('T', 'T', 'M'), "", "TTM")); require(is(currency('T', 'T', 'N'), "", "TTN")); require(is(currency('T', 'T', 'O'), "", "TTO")); require(is(currency('T', 'T', 'P'), "", "TTP")); require(is(currency('T', 'T', 'Q'), "", "TTQ")); require(is(currency('T', 'T', 'R'), "", "TTR")); require(is(currency('T', 'T', 'S'), "", "TTS")); require(is(currency('T', 'T', 'T'), "", "TTT")); require(is(currency('T', 'T', 'U'), "", "TTU")); require(is(currency('T', 'T', 'V'), "", "TTV")); require(is(currency('T', 'T', 'W'), "", "TTW")); require(is(currency('T', 'T', 'X'), "", "TTX")); require(is(currency('T', 'T', 'Y'), "", "TTY")); require(is(currency('T', 'T', 'Z'), "", "TTZ"));)
OBLIGATION(no_currency_TU, "esl/economics/currencies.hpp: currency_name (codes without a currency from TU)", (), require(is(currency('T', 'U', 'A'), "", "TUA")); require(is(currency('T', 'U', 'B'), "", "TUB")); require(is(currency('T', 'U', 'C'), "", "TUC")); require(is(currency('T', 'U', 'D'), "", "TUD")); require(is(currency('T', 'U', 'E'), "", "TUE")); require(is(currency('T', 'U', 'F'), "", "TUF")); require(is(currency('T', 'U', 'G'), "", "TUG")); require(is(currency('T', 'U', 'H'), "", "TUH")); require(is(currency('T', 'U', 'I'), "", "TUI")); require(is(currency('T', 'U', 'J'), "", "TUJ")); require(is(currency('T', 'U', 'K'), "", "TUK")); require(is(currency('T', 'U', 'L'), "", "TUL")); require(is(currency('T', 'U', 'M'), "", "TUM")); require(is(currency('T', 'U', 'N'), "", "TUN")); require(is(currency('T', 'U', 'O'), "", "TUO")); require(is(currency('T', 'U', 'P'), "", "TUP")); require(is(currency('T', 'U', 'Q'), "", "TUQ")); require(is(currency('T', 'U', 'R'), "", "TUR")); require(is(currency('T', 'U', 'S'), "", "TUS")); require(is(currency('T', 'U', 'T'), "", "TUT")); require(is(currency('T', 'U', 'U'), "", "TUU")); require(is(currency('T', 'U', 'V'), "", "TUV")); require(is(currency('T', 'U', 'W'), "", "TUW")); require(is(currency('T', 'U', 'X'), "", "TUX")); require(is(currency('T', 'U', 'Y'), "", "TUY")); require(is(currency('T', 'U', 'Z'), "", "TUZ"));)
OBLIGATION(no_currency_TV, "esl/economics/currencies.hpp: currency_name (codes without a currency from TV)", (), require(is(currency('T', 'V', 'A'), "", "TVA")); require(is(currency('T', 'V', 'B'), "", "TVB")); require(is(currency('T', 'V', 'C'), "", "TVC")); require(is(currency('T', 'V', 'D'), "", "TVD")); require(is(currency('T', 'V', 'E'), "", "TVE")); require(is(currency('T', 'V', 'F'), "", "TVF")); require(is(currency('T', 'V', 'G'), "", "TVG")); require(is(currency('T', 'V', 'H'), "", "TVH")); require(is(currency('T', 'V', 'I'), "", "TVI")); require(is(currency('T', 'V', 'J'), "", "TVJ")); require(is(currency('T', 'V', 'K'), "", "TVK")); require(is(currency('T', 'V', 'L'), "", "TVL")); require(is(currency('T', 'V', 'M'), "", "TVM")); require(is(currency('T', 'V', 'N'), "", "TVN")); require(is(currency('T', 'V', 'O'), "", "TVO")); require(is(currency('T', 'V', 'P'), "", "TVP")); require(is(currency('T', 'V', 'Q'), "", "TVQ")); require(is(currency('T', 'V', 'R'), "", "TVR")); require(is(currency('T', 'V', 'S'), "", "TVS")); require(is(currency('T', 'V', 'T'), "", "TVT")); require(is(currency('T', 'V', 'U'), "", "TVU")); require(is(currency('T', 'V', 'V'), "", "TVV")); require(is(currency('T', 'V', 'W'), "", "TVW")); require(is(currency('T', 'V', 'X'), "", "TVX")); require(is(currency('T', 'V', 'Y'), "", "TVY")); require(is(currency('T', 'V', 'Z'), "", "TVZ"));)
OBLIGATION(no_currency_TW, "esl/economics/currencies.hpp: currency_name (codes without a currency from TW)", (), require(is(currency('T', 'W', 'A'), "", "TWA")); require(is(currency('T', 'W', 'B'), "", "TWB")); require(is(currency('T', 'W', 'C'), "", "TWC")); require(is(currency('T', 'W', 'E'), "", "TWE")); require(is(currency('T', 'W', 'F'), "", "TWF")); require(is(currency('T', 'W', 'G'), "", "TWG")); require(is(currency('T', 'W', 'H'), "", "TWH")); require(is(currency('T', 'W', 'I'), "", "TWI")); require(is(currency('T', 'W', 'J'), "", "TWJ")); require(is(currency('T', 'W', 'K'), "", "TWK")); require(is(currency('T', 'W', 'L'), "", "TWL")); require(is(currency('T', 'W', 'M'), "", "TWM")); require(is(currency('T', 'W', 'N'), "", "TWN")); require(is(currency('T', 'W', 'O'), "", "TWO")); require(is(currency('T', 'W', 'P'), "", "TWP")); require(is(currency('T', 'W', 'Q'), "", "TWQ")); require(is(currency('T', 'W', 'R'), "", "TWR")); require(is(currency('T', 'W', 'S'), "", "TWS")); require(is(currency('T', 'W', 'T'), "", "TWT")); require(is(currency('T', 'W', 'U'), "", "TWU")); require(is(currency('T', 'W', 'V'), "", "TWV")); require(is(currency('T', 'W', 'W'), "", "TWW")); require(is(currency('T', 'W', 'X'), "", "TWX")); require(is(currency('T', 'W', 'Y'), "", "TWY")); require(is(currency('T', 'W', 'Z'), "", "TWZ"));)
OBLIGATION(no_currency_TX, "esl/economics/currencies.hpp: currency_name (codes without a currency from TX)", (), require(is(currency('T', 'X', 'A'), "", "TXA")); require(is(currency('T', 'X', 'B'), "", "TXB")); require(is(currency('T', 'X', 'C'), "", "TXC")); require(is(currency('T', 'X', 'D'), "", "TXD")); require(is(currency('T', 'X', 'E'), "", "TXE")); require(is(currency('T', 'X', 'F'), "", "TXF")); require(is(currency('T', 'X', 'G'), "", "TXG")); require(is(currency('T', 'X', 'H'), "", "TXH")); require(is(currency('T', 'X', 'I'), "", "TXI")); require(is(currency('T', 'X', 'J'), "", "TXJ")); require(is(currency('T', 'X', 'K'), "", "TXK")); require(is(currency('T', 'X', 'L'), "", "TXL")); require(is(currency('T', 'X', 'M'), "", "TXM")); require(is(currency('T', 'X', 'N'), "", "TXN")); require(is(currency('T', 'X', 'O'), "", "TXO")); require(is(currency('T', 'X', 'P'), "", "TXP")); require(is(currency('T', 'X', 'Q'), "", "TXQ")); require(is(currency('T', 'X', 'R'), "", "TXR")); require(is(currency('T', 'X', 'S'), "", "TXS")); require(is(currency('T', 'X', 'T'), "", "TXT")); require(is(currency('T', 'X', 'U'), "", "TXU")); require(is(currency('T', 'X', 'V'), "", "TXV")); require(is(currency('T', 'X', 'W'), "", "TXW")); require(is(currency('T', 'X', 'X'), "", "TXX")); require(is(currency('T', 'X', 'Y'), "", "TXY")); require(is(currency('T', 'X', 'Z'), "", "TXZ"));)
OBLIGATION(no_currency_TY, "esl/economics/currencies.hpp: currency_name (codes without a currency from TY)", (), require(is(currency('T', 'Y', 'A'), "", "TYA")); require(is(currency('T', 'Y', 'B'), "", "TYB")); require(is(currency('T', 'Y', 'C'), "", "TYC")); require(is(currency('T', 'Y', 'D'), "", "TYD")); require(is(currency('T', 'Y', 'E'), "", "TYE")); require(is(currency('T', 'Y', 'F'), "", "TYF")); require(is(currency('T', 'Y', 'G'), "", "TYG")); require(is(currency('T', 'Y', 'H'), "", "TYH")); require(is(currency('T', 'Y', 'I'), "", "TYI")); require(is(currency('T', 'Y', 'J'), "", "TYJ")); require(is(currency('T', 'Y', 'K'), "", "TYK")); require(is(currency('T', 'Y', 'L'), "", "TYL")); require(is(currency('T', 'Y', 'M'), "", "TYM")); require(is(currency('T', 'Y', 'N'), "", "TYN")); require(is(currency('T', 'Y', 'O'), "", "TYO")); require(is(currency('T', 'Y', 'P'), "", "TYP")); require(is(currency('T', 'Y', 'Q'), "", "TYQ")); require(is(currency('T', 'Y', 'R'), "", "TYR")); require(is(currency('T', 'Y', 'S'), "", "TYS")); require(is(currency('T', 'Y', 'T'), "", "TYT")); require(is(currency('T', 'Y', 'U'), "", "TYU")); require(is(currency('T', 'Y', 'V'), "", "TYV")); require(is(currency('T', 'Y', 'W'), "", "TYW")); require(is(currency('T', 'Y', 'X'), "", "TYX")); require(is(currency('T', 'Y', 'Y'), "", "TYY")); require(is(currency('T', 'Y', 'Z'), "", "TYZ"));)
OBLIGATION(no_currency_TZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from TZ)", (), require(is(currency('T', 'Z', 'A'), "", "TZA")); require(is(currency('T', 'Z', 'B'), "", "TZB")); require(is(currency('T', 'Z', 'C'), "", "TZC")); require(is(currency('T', 'Z', 'D'), "", "TZD")); require(is(currency('T', 'Z', 'E'), "", "TZE")); require(is(currency('T', 'Z', 'F'), "", "TZF")); require(is(currency('T', 'Z', 'G'), "", "TZG")); require(is(currency('T', 'Z', 'H'), "", "TZH")); require(is(currency('T', 'Z', 'I'), "", "TZI")); require(is(currency('T', 'Z', 'J'), "", "TZJ")); require(is(currency('T', 'Z', 'K'), "", "TZK")); require(is(currency('T', 'Z', 'L'), "", "TZL")); require(is(currency('T', 'Z', 'M'), "", "TZM")); require(is(currency('T', 'Z', 'N'), "", "TZN")); require(is(currency('T', 'Z', 'O'), "", "TZO")); require(is(currency('T', 'Z', 'P'), "", "TZP")); require(is(currency('T', 'Z', 'Q'), "", "TZQ")); require(is(currency('T', 'Z', 'R'), "", "TZR")); require(is(currency('T', 'Z', 'T'), "", "TZT")); require(is(currency('T', 'Z', 'U'), "", "TZU")); require(is(currency('T', 'Z', 'V'), "", "TZV")); require(is(currency('T', 'Z', 'W'), "", "TZW")); require(is(currency('T', 'Z', 'X'), "", "TZX")); require(is(currency('T', 'Z', 'Y'), "", "TZY")); require(is(currency('T', 'Z', 'Z'), "", "TZZ"));)
OBLIGATION(no_currency_UA, "esl/economics/currencies.hpp: currency_name (codes without a currency from UA)", (), require(is(currency('U', 'A', 'A'), "", "UAA")); require(is(currency('U', 'A', 'B'), "", "UAB")); require(is(currency('U', 'A', 'C'), "", "UAC")); require(is(currency('U', 'A', 'D'), "", "UAD")); require(is(currency('U', 'A', 'E'), "", "UAE")); require(is(currency('U', 'A', 'F'), "", "UAF")); require(is(currency('U', 'A', 'G'), "", "UAG")); require(is(currency('U', 'A', 'I'), "", "UAI")); require(is(currency('U', 'A', 'J'), "", "UAJ")); require(is(currency('U', 'A', 'K'), "", "UAK")); require(is(currency('U', 'A', 'L'), "", "UAL")); require(is(currency('U', 'A', 'M'), "", "UAM")); require(is(currency('U', 'A', 'N'), "", "UAN")); require(is(currency('U', 'A', 'O'), "", "UAO")); require(is(currency('U', 'A', 'P'), "", "UAP")); require(is(currency('U', 'A', 'Q'), "", "UAQ")); require(is(currency('U', 'A', 'R'), "", "UAR")); require(is(currency('U', 'A', 'S'), "", "UAS")); require(is(currency('U', 'A', 'T'), "", "UAT")); require(is(currency('U', 'A', 'U'), "", "UAU")); require(is(currency('U', 'A', 'V'), "", "UAV")); require(is(currency('U', 'A', 'W'), "", "UAW")); require(is(currency('U', 'A', 'X'), "", "UAX")); require(is(currency('U', 'A', 'Y'), "", "UAY")); require(is(currency('U', 'A', 'Z'), "", "UAZ"));)
OBLIGATION(no_currency_UB, "esl/economics/currencies.hpp: currency_name (codes without a currency from UB)", (), require(is(currency('U', 'B', 'A'), "", "UBA")); require(is(currency('U', 'B', 'B'), "", "UBB")); require(is(currency('U', 'B', 'C'), "", "UBC")); require(is(currency('U', 'B', 'D'), "", "UBD")); require(is(currency('U', 'B', 'E'), "", "UBE")); require(is(currency('U', 'B', 'F'), "", "UBF")); require(is(currency('U', 'B', 'G'), "", "UBG")); require(is(currency('U', 'B', 'H'), "", "UBH")); require(is(currency('U', 'B', 'I'), "", "UBI")); require(is(currency('U', 'B', 'J'), "", "UBJ")); require(is(currency('U', 'B', 'K'), "", "UBK")); require(is(currency('U', 'B', 'L'), "", "UBL")); require(is(currency('U', 'B', 'M'), "", "UBM")); require(is(currency('U', 'B', 'N'), "", "UBN")); require(is(currency('U', 'B', 'O'), "", "UBO")); require(is(currency('U', 'B', 'P'), "", "UBP")); require(is(currency('U', 'B', 'Q'), "", "UBQ")); require(is(currency('U', 'B', 'R'), "", "UBR")); require(is(currency('U', 'B', 'S'), "", "UBS")); require(is(currency('U', 'B', 'T'), "", "UBT")); require(is(currency('U', 'B', 'U'), "", "UBU")); require(is(currency('U', 'B', 'V'), "", "UBV")); require(is(currency('U', 'B', 'W'), "", "UBW")); require(is(currency('U', 'B', 'X'), "", "UBX")); require(is(currency('U', 'B', 'Y'), "", "UBY")); require(is(currency('U', 'B', 'Z'), "", "UBZ"));)
OBLIGATION(no_currency_UC, "esl/economics/currencies.hpp: currency_name (codes without a currency from UC)", (), require(is(currency('U', 'C', 'A'), "", "UCA")); require(is(currency('U', 'C', 'B'), "", "UCB")); require(is(currency('U', 'C', 'C'), "", "UCC")); require(is(currency('U', 'C', 'D'), "", "UCD")); require(is(currency('U', 'C', 'E'), "", "UCE")); require(is(currency('U', 'C', 'F'), "", "UCF")); require(is(currency('U', 'C', 'G'), "", "UCG")); require(is(currency('U', 'C', 'H'), "", "UCH")); require(is(currency('U', 'C', 'I'), "", "UCI")); require(is(currency('U', 'C', 'J'), "", "UCJ")); require(is(currency('U', 'C', 'K'), "", "UCK")); require(is(currency('U', 'C', 'L'), "", "UCL")); require(is(currency('U', 'C', 'M'), "", "UCM")); require(is(currency('U', 'C', 'N'), "", "UCN")); require(is(currency('U', 'C', 'O'), "", "UCO")); require(is(currency('U', 'C', 'P'), "", "UCP")); require(is(currency('U', 'C', 'Q'), "", "UCQ")); require(is(currency('U', 'C', 'R'), "", "UCR")); require(is(currency('U', 'C', 'S'), "", "UCS")); require(is(currency('U', 'C', 'T'), "", "UCT")); require(is(currency('U', 'C', 'U'), "", "UCU")); require(is(currency('U', 'C', 'V'), "", "UCV")); require(is(currency('U', 'C', 'W'), "", "UCW")); require(is(currency('U', 'C', 'X'), "", "UCX")); require(is(currency('U', 'C', 'Y'), "", "UCY")); require(is(currency('U', 'C', 'Z'), "", "UCZ"));)
OBLIGATION(no_currency_UD, "esl/economics/currencies.hpp: currency_name (codes without a currency from UD)", (), require(is(currency('U', 'D', 'A'), "", "UDA")); require(is(currency('U', 'D', 'B'), "", "UDB")); require(is(currency('U', 'D', 'C'), "", "UDC")); require(is(currency('U', 'D', 'D'), "", "UDD")); require(is(currency('U', 'D', 'E'), "", "UDE")); require(is(currency('U', 'D', 'F'), "", "UDF")); require(is(currency('U', 'D', 'G'), "", "UDG")); require(is(currency('U', 'D', 'H'), "", "UDH")); require(is(currency('U', 'D', 'I'), "", "UDI")); require(is(currency('U', 'D', 'J'), "", "UDJ")); require(is(currency('U', 'D', 'K'), "", "UDK")); require(is(currency('U', 'D', 'L'), "", "UDL")); require(is(currency('U', 'D', 'M'), "", "UDM")); require(is(currency('U', 'D', 'N'), "", "UDN")); require(is(currency('U', 'D', 'O'), "", "UDO")); require(is(currency('U', 'D', 'P'), "", "UDP")); require(is(currency('U', 'D', 'Q'), "", "UDQ")); require(is(currency('U', 'D', 'R'), "", "UDR")); require(is(currency('U', 'D', 'S'), "", "UDS")); require(is(currency('U', 'D', 'T'), "", "UDT")); require(is(currency('U', 'D', 'U'), "", "UDU")); require(is(currency('U', 'D', 'V'), "", "UDV")); require(is(currency('U', 'D', 'W'), "", "UDW")); require(is(currency('U', 'D', 'X'), "", "UDX")); require(is(currency('U', 'D', 'Y'), "", "UDY")); require(is(currency('U', 'D', 'Z'), "", "UDZ"));)
OBLIGATION(no_currency_UE, "esl/economics/currencies.hpp: currency_name (codes without a currency from UE)", (), require(is(currency('U', 'E', 'A'), "", "UEA")); require(is(currency('U', 'E', 'B'), "", "UEB")); require(is(currency('U', 'E', 'C'), "", "UEC")); require(is(currency('U', 'E', 'D'), "", "UED")); require(is(currency('U', 'E', 'E'), "", "UEE")); require(is(currency('U', 'E', 'F'), "", "UEF")); require(is(currency('U', 'E', 'G'), "", "UEG")); require(is(currency('U', 'E', 'H'), "", "UEH")); require(is(currency('U', 'E', 'I'), "", "UEI")); require(is(currency('U', 'E', 'J'), "", "UEJ")); require(is(currency('U', 'E', 'K'), "", "UEK")); require(is(currency('U', 'E', 'L'), "", "UEL")); require(is(currency('U', 'E', 'M'), "", "UEM")); require(is(currency('U', 'E', 'N'), "", "UEN")); require(is(currency('U', 'E', 'O'), "", "UEO")); require(is(currency('U', 'E', 'P'), "", "UEP")); require(is(currency('U', 'E', 'Q'), "", "UEQ")); require(is(currency('U', 'E', 'R'), "", "UER")); require(is(currency('U', 'E', 'S'), "", "UES")); require(is(currency('U', 'E', 'T'), "", "UET")); require(is(currency('U', 'E', 'U'), "", "UEU")); require(is(currency('U', 'E', 'V'), "", "UEV")); require(is(currency('U', 'E', 'W'), "", "UEW")); require(is(currency('U', 'E', 'X'), "", "UEX")); require(is(currency('U', 'E', 'Y'), "", "UEY")); require(is(currency('U', 'E', 'Z'), "", "UEZ"));)
OBLIGATION(no_currency_UF, "esl/economics/currencies.hpp: currency_name (codes without a currency from UF)", (), require(is(currency('U', 'F', 'A'), "", "UFA")); require(is(currency('U', 'F', 'B'), "", "UFB")); require(is(currency('U', 'F', 'C'), "", "UFC")); require(is(currency('U', 'F', 'D'), "", "UFD")); require(is(currency('U', 'F', 'E'), "", "UFE")); require(is(currency('U', 'F', 'F'), "", "UFF")); require(is(currency('U', 'F', 'G'), "", "UFG")); require(is(currency('U', 'F', 'H'), "", "UFH")); require(is(currency('U', 'F', 'I'), "", "UFI")); require(is(currency('U', 'F', 'J'), "", "UFJ")); require(is(currency('U', 'F', 'K'), "", "UFK")); require(is(currency('U', 'F', 'L'), "", "UFL")); require(is(currency('U', 'F', 'M'), "", "UFM")); require(is(currency('U', 'F', 'N'), "", "UFN")); require(is(currency('U', 'F', 'O'), "", "UFO")); require(is(currency('U', 'F', 'P'), "", "UFP")); require(is(currency('U', 'F', 'Q'), "", "UFQ")); require(is(currency('U', 'F', 'R'), "", "UFR")); require(is(currency('U', 'F', 'S'), "", "UFS")); require(is(currency('U', 'F', 'T'), "", "UFT")); require(is(currency('U', 'F', 'U'), "", "UFU")); require(is(currency('U', 'F', 'V'), "", "UFV")); require(is(currency('U', 'F', 'W'), "", "UFW")); require(is(currency('U', 'F', 'X'), "", "UFX")); require(is(currency('U', 'F', 'Y'), "", "UFY")); require(is(currency('U', 'F', 'Z'), "", "UFZ"));)
OBLIGATION(no_currency_UG, "esl/economics/currencies.hpp: currency_name (codes without a currency from UG)", (), require(is(currency('U', 'G', 'A'), "", "UGA")); require(is(currency('U', 'G', 'B'), "", "UGB")); require(is(currency('U', 'G', 'C'), "", "UGC")); require(is(currency('U', 'G', 'D'), "", "UGD")); require(is(currency('U', 'G', 'E'), "", "UGE")); require(is(currency('U', 'G', 'F'), "", "UGF")); require(is(currency('U', 'G', 'G'), "", "UGG")); require(is(currency('U', 'G', 'H'), "", "UGH")); require(is(currency('U', 'G', 'I'), "", "UGI")); require(is(currency('U', 'G', 'J'), "", "UGJ")); require(is(currency('U', 'G', 'K'), "", "UGK")); require(is(currency('U', 'G', 'L'), "", "UGL")); require(is(currency('U', 'G', 'M'), "", "UGM")); require(is(currency('U', 'G', 'N'), "", "UGN")); require(is(currency('U', 'G', 'O'), "", "UGO")); require(is(currency('U', 'G', 'P'), "", "UGP")); require(is(currency('U', 'G', 'Q'), "", "UGQ")); require(is(currency('U', 'G', 'R'), "", "UGR")); require(is(currency('U', 'G', 'S'), "", "UGS")); require(is(currency('U', 'G', 'T'), "", "UGT")); require(is(currency('U', 'G', 'U'), "", "UGU")); require(is(currency('U', 'G', 'V'), "", "UGV")); require(is(currency('U', 'G', 'W'), "", "UGW")); require(is(currency('U', 'G', 'Y'), "", "UGY")); require(is(currency('U', 'G', 'Z'), "", "UGZ"));)
OBLIGATION(no_currency_UH, "esl/economics/currencies.hpp: currency_name (codes without a currency from UH)", (), require(is(currency('U', 'H', 'A'), "", "UHA")); require(is(currency('U', 'H', 'B'), "", "UHB")); require(is(currency('U', 'H', 'C'), "", "UHC")); require(is(currency('U', 'H', 'D'), "", "UHD")); require(is(currency('U', 'H', 'E'), "", "UHE")); require(is(currency('U', 'H', 'F'), "", "UHF")); require(is(currency('U', 'H', 'G'), "", "UHG")); require(is(currency('U', 'H', 'H'), "", "UHH")); require(is(currency('U', 'H', 'I'), "", "UHI")); require(is(currency('U', 'H', 'J'), "", "UHJ")); require(is(currency('U', 'H', 'K'), "", "UHK")); require(is(currency('U', 'H', 'L'), "", "UHL")); require(is(currency('U', 'H', 'M'), "", "UHM")); require(is(currency('U', 'H', 'N'), "", "UHN")); require(is(currency('U', 'H', 'O'), "", "UHO")); require(is(currency('U', 'H', 'P'), "", "UHP")); require(is(currency('U', 'H', 'Q'), "", "UHQ")); require(is(currency('U', 'H', 'R'), "", "UHR")); require(is(currency('U', 'H', 'S'), "", "UHS")); require(is(currency('U', 'H', 'T'), "", "UHT")); require(is(currency('U', 'H', 'U'), "", "UHU")); require(is(currency('U', 'H', 'V'), "", "UHV")); require(is(currency('U', 'H', 'W'), "", "UHW")); require(is(currency('U', 'H', 'X'), "", "UHX")); require(is(currency('U', 'H', 'Y'), "", "UHY")); require(is(currency('U', 'H', 'Z'), "", "UHZ"));)
OBLIGATION(no_currency_UI, "esl/economics/currencies.hpp: currency_name (codes without a currency from UI)", (), require(is(currency('U', 'I', 'A'), "", "UIA")); require(is(currency('U', 'I', 'B'), "", "UIB")); require(is(currency('U', 'I', 'C'), "", "UIC")); require(is(currency('U', 'I', 'D'), "", "UID")); require(is(currency('U', 'I', 'E'), "", "UIE")); require(is(currency('U', 'I', 'F'), "", "UIF")); require(is(currency('U', 'I', 'G'), "", "UIG")); require(is(currency('U', 'I', 'H'), "", "UIH")); require(is(currency('U', 'I', 'I'), "", "UII")); require(is(currency('U', 'I', 'J'), "", "UIJ")); require(is(currency('U', 'I', 'K'), "", "UIK")); require(is(currency('U', 'I', 'L'), "", "UIL")); require(is(currency('U', 'I', 'M'), "", "UIM")); require(is(currency('U', 'I', 'N'), "", "UIN")); require(is(currency('U', 'I', 'O'), "", "UIO")); require(is(currency('U', 'I', 'P'), "", "UIP")); require(is(currency('U', 'I', 'Q'), "", "UIQ")); require(is(currency('U', 'I', 'R'), "", "UIR")); require(is(currency('U', 'I', 'S'), "", "UIS")); require(is(currency('U', 'I', 'T'), "", "UIT")); require(is(currency('U', 'I', 'U'), "", "UIU")); require(is(currency('U', 'I', 'V'), "", "UIV")); require(is(currency('U', 'I', 'W'), "", "UIW")); require(is(currency('U', 'I', 'X'), "", "UIX")); require(is(currency('U', 'I', 'Y'), "", "UIY")); require(is(currency('U', 'I', 'Z'), "", "UIZ"));)
OBLIGATION(no_currency_UJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from UJ)", (), require(is(currency('U', 'J', 'A'), "", "UJA")); require(is(currency('U', 'J', 'B'), "", "UJB")); require(is(currency('U', 'J', 'C'), "", "UJC")); require(is(currency('U', 'J', 'D'), "", "UJD")); require(is(currency('U', 'J', 'E'), "", "UJE")); require(is(currency('U', 'J', 'F'), "", "UJF")); require(is(currency('U', 'J', 'G'), "", "UJG")); require(is(currency('U', 'J', 'H'), "", "UJH")); require(is(currency('U', 'J', 'I'), "", "UJI")); require(is(currency('U', 'J', 'J'), "", "UJJ")); require(is(currency('U', 'J', 'K'), "", "UJK")); require(is(currency('U', 'J', 'L'), "", "UJL")); require(is(currency('U', 'J', 'M'), "", "UJM")); require(is(currency('U', 'J', 'N'), "", "UJN")); require(is(currency('U', 'J', 'O'), "", "UJO")); require(is(currency('U', 'J', 'P'), "", "UJP")); require(is(currency('U', 'J', 'Q'), "", "UJQ")); require(is(currency('U', 'J', 'R'), "", "UJR")); require(is(currency('U', 'J', 'S'), "", "UJS")); require(is(currency('U', 'J', 'T'), "", "UJT")); require(is(currency('U', 'J', 'U'), "", "UJU")); require(is(currency('U', 'J', 'V'), "", "UJV")); require(is(currency('U', 'J', 'W'), "", "UJW")); require(is(currency('U', 'J', 'X'), "", "UJX")); require(is(currency('U', 'J', 'Y'), "", "UJY")); require(is(currency('U', 'J', 'Z'), "", "UJZ"));)
OBLIGATION(no_currency_UK, "esl/economics/currencies.hpp: currency_name (codes without a currency from UK)", (), require(is(currency('U', 'K', 'A'), "", "UKA")); require(is(currency('U', 'K', 'B'), "", "UKB")); require(is(currency('U', 'K', 'C'), "", "UKC")); require(is(currency('U', 'K', 'D'), "", "UKD")); require(is(currency('U', 'K', 'E'), "", "UKE")); require(is(currency('U', 'K', 'F'), "", "UKF")); require(is(currency('U', 'K', 'G'), "", "UKG")); require(is(currency('U', 'K', 'H'), "", "UKH")); require(is(currency('U', 'K', 'I'), "", "UKI")); require(is(currency('U', 'K', 'J'), "", "UKJ")); require(is(currency('U', 'K', 'K'), "", "UKK")); require(is(currency('U', 'K', 'L'), "", "UKL")); require(is(currency('U', 'K', 'M'), "", "UKM")); require(is(currency('U', 'K', 'N'), "", "UKN")); require(is(currency('U', 'K', 'O'), "", "UKO")); require(is(currency('U', 'K', 'P'), "", "UKP")); require(is(currency('U', 'K', 'Q'), "", "UKQ")); require(is(currency('U', 'K', 'R'), "", "UKR")); require(is(currency('U', 'K', 'S'), "", "UKS")); require(is(currency('U', 'K', 'T'), "", "UKT")); require(is(currency('U', 'K', 'U'), "", "UKU")); require(is(currency('U', 'K', 'V'), "", "UKV")); require(is(currency('U', 'K', 'W'), "", "UKW")); require(is(currency('U', 'K', 'X'), "", "UKX")); require(is(currency('U', 'K', 'Y'), "", "UKY")); require(is(currency('U', 'K', 'Z'), "", "UKZ"));)
OBLIGATION(no_currency_UL, "esl/economics/currencies.hpp: currency_name (codes without a currency from UL)", (), require(is(currency('U', 'L', 'A'), "", "ULA")); require(is(currency('U', 'L', 'B'), "", "ULB")); require(is(currency('U', 'L', 'C'), "", "ULC")); require(is(currency('U', 'L', 'D'), "", "ULD")); require(is(currency('U', 'L', 'E'), "", "ULE")); require(is(currency('U', 'L', 'F'), "", "ULF")); require(is(currency('U', 'L', 'G'), "", "ULG")); require(is(currency('U', 'L', 'H'), "", "ULH")); require(is(currency('U', 'L', 'I'), "", "ULI")); require(is(currency('U', 'L', 'J'), "", "ULJ")); require(is(currency('U', 'L', 'K'), "", "ULK")); require(is(currency('U', 'L', 'L'), "", "ULL")); require(is(currency('U', 'L', 'M'), "", "ULM")); require(is(currency('U', 'L', 'N'), "", "ULN")); require(is(currency('U', 'L', 'O'), "", "ULO")); require(is(currency('U', 'L', 'P'), "", "ULP")); require(is(currency('U', 'L', 'Q'), "", "ULQ")); require(is(currency('U', 'L', 'R'), "", "ULR")); require(is(currency('U', 'L', 'S'), "", "ULS")); require(is(currency('U', 'L', 'T'), "", "ULT")); require(is(currency('U', 'L', 'U'), "", "ULU")); require(is(currency('U', 'L', 'V'), "", "ULV")); require(is(currency('U', 'L', 'W'), "", "ULW")); require(is(currency('U', 'L', 'X'), "", "ULX")); require(is(currency('U', 'L', 'Y'), "", "ULY")); require(is(currency('U', 'L', 'Z'), "", "ULZ"));)
OBLIGATION(no_currency_UM, "esl/economics/currencies.hpp: currency_name (codes without a currency from UM)", (), require(is(currency('U', 'M', 'A'), "", "UMA")); require(is(currency('U', 'M', 'B'), "", "UMB")); require(is(currency('U', 'M', 'C'), "", "UMC")); require(is(currency('U', 'M', 'D'), "", "UMD")); require(is(currency('U', 'M', 'E'), "", "UME")); require(is(currency('U', 'M', 'F'), "", "UMF")); require(is(currency('U', 'M', 'G'), "", "UMG")); require(is(currency('U', 'M', 'H'), "", "UMH")); require(is(currency('U', 'M', 'I'), "", "UMI")); require(is(currency('U', 'M', 'J'), "", "UMJ")); require(is(currency('U', 'M', 'K'), "", "UMK")); require(is(currency('U', 'M', 'L'), "", "UML")); require(is(currency('U', 'M', 'M'), "", "UMM")); require(is(currency('U', 'M', 'N'), "", "UMN")); require(is(currency('U', 'M', 'O'), "", "UMO")); require(is(currency('U', 'M', 'P'), "", "UMP")); require(is(currency('U', 'M', 'Q'), "", "UMQ")); require(is(currency('U', 'M', 'R'), "", "UMR")); require(is(currency('U', 'M', 'S'), "", "UMS")); require(is(currency('U', 'M', 'T'), "", "UMT")); require(is(currency('U', 'M', 'U'), "", "UMU")); require(is(currency('U', 'M', 'V'), "", "UMV")); require(is(currency('U', 'M', 'W'), "", "UMW")); require(is(currency('U', 'M', 'X'), "", "UMX")); require(is(currency('U', 'M', 'Y'), "", "UMY")); require(is(currency('U', 'M', 'Z'), "", "UMZ"));)
OBLIGATION(no_currency_UN, "esl/economics/currencies.hpp: currency_name (codes without a currency from UN)", (), require(is(currency('U', 'N', 'A'), "", "UNA")); require(is(currency('U', 'N', 'B'), "", "UNB")); require(is(currency('U', 'N', 'C'), "", "UNC")); require(is(currency('U', 'N', 'D'), "", "UND")); require(is(currency('U', 'N', 'E'), "", "UNE")); require(is(currency('U', 'N', 'F'), "", "UNF")); require(is(currency('U', 'N', 'G'), "", "UNG")); require(is(currency('U', 'N', 'H'), "", "UNH")); require(is(currency('U', 'N', 'I'), "", "UNI")); require(is(currency('U', 'N', 'J'), "", "UNJ")); require(is(currency('U', 'N', 'K'), "", "UNK")); require(is(currency('U', 'N', 'L'), "", "UNL")); require(is(currency('U', 'N', 'M'), "", "UNM")); require(is(currency('U', 'N', 'N'), "", "UNN")); require(is(currency('U', 'N', 'O'), "", "UNO")); require(is(currency('U', 'N', 'P'), "", "UNP")); require(is(currency('U', 'N', 'Q'), "", "UNQ")); require(is(currency('U', 'N', 'R'), "", "UNR")); require(is(currency('U', 'N', 'S'), "", "UNS")); require(is(currency('U', 'N', 'T'), "", "UNT")); require(is(currency('U', 'N', 'U'), "", "UNU")); require(is(currency('U', 'N', 'V'), "", "UNV")); require(is(currency('U', 'N', 'W'), "", "UNW")); require(is(currency('U', 'N', 'X'), "", "UNX")); require(is(currency('U', 'N', 'Y'), "", "UNY")); require(is(currency('U', 'N', 'Z'), "", "UNZ"));)
OBLIGATION(no_currency_UO, "esl/economics/currencies.hpp: currency_name (codes without a currency from UO)", (), require(is(currency('U', 'O', 'A'), "", "UOA")); require(is(currency('U', 'O', 'B'), "", "UOB")); require(is(currency('U', 'O', 'C'), "", "UOC")); require(is(currency('U', 'O', 'D'), "", "UOD")); require(is(currency('U', 'O', 'E'), "", "UOE")); require(is(currency('U', 'O', 'F'), "", "UOF")); require(is(currency('U', 'O', 'G'), "", "UOG")); require(is(currency('U', 'O', 'H'), "", "UOH")); require(is(currency('U', 'O', 'I'), "", "UOI")); require(is(currency('U', 'O', 'J'), "", "UOJ")); require(is(currency('U', 'O', 'K'), "", "UOK")); require(is(currency('U', 'O', 'L'), "", "UOL")); require(is(currency('U', 'O', 'M'), "", "UOM")); require(is(currency('U', 'O', 'N'), "", "UON")); require(is(currency('U', 'O', 'O'), "", "UOO")); require(is(currency('U', 'O', 'P'), "", "UOP")); require(is(currency('U', 'O', 'Q'), "", "UOQ")); require(is(currency('U', 'O', 'R'), "", "UOR")); require(is(currency('U', 'O', 'S'), "", "UOS")); require(is(currency('U', 'O', 'T'), "", "UOT")); require(is(currency('U', 'O', 'U'), "", "UOU")); require(is(currency('U', 'O', 'V'), "", "UOV")); require(is(currency('U', 'O', 'W'), "", "UOW")); require(is(currency('U', 'O', 'X'), "", "UOX")); require(is(currency('U', 'O', 'Y'), "", "UOY")); require(is(currency('U', 'O', 'Z'), "", "UOZ"));)
OBLIGATION(no_currency_UP, "esl/economics/currencies.hpp: currency_name (codes without a currency from UP)", (), require(is(currency('U', 'P', 'A'), "", "UPA")); require(is(currency('U', 'P', 'B'), "", "UPB")); require(is(currency('U', 'P', 'C'), "", "UPC")); require(is(currency('U', 'P', 'D'), "", "UPD")); require(is(currency('U', 'P', 'E'), "", "UPE")); require(is(currency('U', 'P', 'F'), "", "UPF")); require(is(currency('U', 'P', 'G'), "", "UPG")); require(is(currency('U', 'P', 'H'), "", "UPH")); require(is(currency('U', 'P', 'I'), "", "UPI")); require(is(currency('U', 'P', 'J'), "", "UPJ")); require(is(currency('U', 'P', 'K'), "", "UPK")); require(is(currency('U', 'P', 'L'), "", "UPL")); require(is(currency('U', 'P', 'M'), "", "UPM")); require(is(currency('U', 'P', 'N'), "", "UPN")); require(is(currency('U', 'P', 'O'), "", "UPO")); require(is(currency('U', 'P', 'P'), "", "UPP")); require(is(currency('U', 'P', 'Q'), "", "UPQ")); require(is(currency('U', 'P', 'R'), "", "UPR")); require(is(currency('U', 'P', 'S'), "", "UPS")); require(is(currency('U', 'P', 'T'), "", "UPT")); require(is(currency('U', 'P', 'U'), "", "UPU")); require(is(currency('U', 'P', 'V'), "", "UPV")); require(is(currency('U', 'P', 'W'), "", "UPW")); require(is(currency('U', 'P', 'X'), "", "UPX")); require(is(currency('U', 'P', 'Y'), "", "UPY")); require(is(currency('U', 'P', 'Z'), "", "UPZ"));)
OBLIGATION(no_currency_UQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from UQ)", (), require(is(currency('U', 'Q', 'A'), "", "UQA")); require(is(currency('U', 'Q', 'B'), "", "UQB")); require(is(currency('U', 'Q', 'C'), "", "UQC")); require(is(currency('U', 'Q', 'D'), "", "UQD")); require(is(currency('U', 'Q', 'E'), "", "UQE")); require(is(currency('U', 'Q', 'F'), "", "UQF")); require(is(currency('U', 'Q', 'G'), "", "UQG")); require(is(currency('U', 'Q', 'H'), "", "UQH")); require(is(currency('U', 'Q', 'I'), "", "UQI")); require(is(currency('U', 'Q', 'J'), "", "UQJ")); require(is(currency('U', 'Q', 'K'), "", "UQK")); require(is(currency('U', 'Q', 'L'), "", "UQL")); require(is(currency('U', 'Q', 'M'), "", "UQM")); require(is(currency('U', 'Q', 'N'), "", "UQN")); require(is(currency('U', 'Q', 'O'), "", "UQO")); require(is(currency('U', 'Q', 'P'), "", "UQP")); require(is(currency('U', 'Q', 'Q'), "", "UQQ")); require(is(currency('U', 'Q', 'R'), "", "UQR")); require(is(currency('U', 'Q', 'S'), "", "UQS")); require(is(currency('U', 'Q', 'T'), "", "UQT")); require(is(currency('U', 'Q', 'U'), "", "UQU")); require(is(currency('U', 'Q', 'V'), "", "UQV")); require(is(currency('U', 'Q', 'W'), "", "UQW")); require(is(currency('U', 'Q', 'X'), "", "UQX")); require(is(currency('U', 'Q', 'Y'), "", "UQY")); require(is(currency('U', 'Q', 'Z'), "", "UQZ"));)
OBLIGATION(no_currency_UR, "esl/economics/currencies.hpp: currency_name (codes without a currency from UR)", (), require(is(currency('U', 'R', 'A'), "", "URA")); require(is(currency('U', 'R', 'B'), "", "URB")); require(is(currency('U', 'R', 'C'), "", "URC")); require(is(currency('U', 'R', 'D'), "", "URD")); require(is(currency('U', 'R', 'E'), "", "URE")); require(is(currency('U', 'R', 'F'), "", "URF")); require(is(currency('U', 'R', 'G'), "", "URG")); require(is(currency('U', 'R', 'H'), "", "URH")); require(is(currency('U', 'R', 'I'), "", "URI")); require(is(currency('U', 'R', 'J'), "", "URJ")); require(is(currency('U', 'R', 'K'), "", "URK")); require(is(currency('U', 'R', 'L'), "", "URL")); require(is(currency('U', 'R', 'M'), "", "URM")); require(is(currency('U', 'R', 'N'), "", "URN")); require(is(currency('U', 'R', 'O'), "", "URO")); require(is(currency('U', 'R', 'P'), "", "URP")); require(is(currency('U', 'R', 'Q'), "", "URQ")); require(is(currency('U', 'R', 'R'), "", "URR")); require(is(currency('U', 'R', 'S'), "", "URS")); require(is(currency('U', 'R', 'T'), "", "URT")); require(is(currency('U', 'R', 'U'), "", "URU")); require(is(currency('U', 'R', 'V'), "", "URV")); require(is(currency('U', 'R', 'W'), "", "URW")); require(is(currency('U', 'R', 'X'), "", "URX")); require(is(currency('U', 'R', 'Y'), "", "URY")); require(is(currency('U', 'R', 'Z'), "", "URZ"));)
OBLIGATION(no_currency_US, "esl/economics/currencies.hpp: currency_name (codes without a currency from US)", (), require(is(currency('U', 'S', 'A'), "", "USA")); require(is(currency('U', 'S', 'B'), "", "USB")); require(is(currency('U', 'S', 'C'), "", "USC")); require(is(currency('U', 'S', 'E'), "", "USE")); require(is(currency('U', 'S', 'F'), "", "USF")); require(is(currency('U', 'S', 'G'), "", "USG")); require(is(currency('U', 'S', 'H'), "", "USH")); require(is(currency('U', 'S', 'I'), "", "USI")); require(is(currency('U', 'S', 'J'), "", "USJ")); require(is(currency('U', 'S', 'K'), "", "USK")); require(is(currency('U', 'S', 'L'), "", "USL")); require(is(currency('U', 'S', 'M'), "", "USM")); require(is(currency('U', 'S', 'O'), "", "USO")); require(is(currency('U', 'S', 'P'), "", "USP")); require(is(currency('U', 'S', 'Q'), "", "USQ")); require(is(currency('U', 'S', 'R'), "", "USR")); require(is(currency('U', 'S', 'S'), "", "USS")); require(is(currency('U', 'S', 'T'), "", "UST")); require(is(currency('U', 'S', 'U'), "", "USU")); require(is(currency('U', 'S', 'V'), "", "USV")); require(is(currency('U', 'S', 'W'), "", "USW")); require(is(currency('U', 'S', 'X'), "", "USX")); require(is(currency('U', 'S', 'Y'), "", "USY")); require(is(currency('U', 'S', 'Z'), "", "USZ"));)
OBLIGATION(no_currency_UT, "esl/economics/currencies.hpp: currency_name (codes without a currency from UT)", (), require(is(currency('U', 'T', 'A'), "", "UTA")); require(is(currency('U', 'T', 'B'), "", "UTB")); require(is(currency('U', 'T', 'C'), "", "UTC")); require(is(currency('U', 'T', 'D'), "", "UTD")); require(is(currency('U', 'T', 'E'), "", "UTE")); require(is(currency('U', 'T', 'F'), "", "UTF")); require(is(currency('U', 'T', 'G'), "", "UTG")); require(is(currency('U', 'T', 'H'), "", "UTH")); require(is(currency('U', 'T', 'I'), "", "UTI")); require(is(currency('U', 'T', 'J'), "", "UTJ")); require(is(currency('U', 'T', 'K'), "", "UTK")); require(is(currency('U', 'T', 'L'), "", "UTL")); require(is(currency('U', 'T', 'M'), "", "UTM")); require(is(currency('U', 'T', 'N'), "", "UTN")); require(is(currency('U', 'T', 'O'), "", "UTO")); require(is(currency('U', 'T', 'P'), "", "UTP")); require(is(currency('U', 'T', 'Q'), "", "UTQ")); require(is(currency('U', 'T', 'R'), "", "UTR")); require(is(currency('U', 'T', 'S'), "", "UTS")); require(is(currency('U', 'T', 'T'), "", "UTT")); require(is(currency('U', 'T', 'U'), "", "UTU")); require(is(currency('U', 'T', 'V'), "", "UTV")); require(is(currency('U', 'T', 'W'), "", "UTW")); require(is(currency('U', 'T', 'X'), "", "UTX")); require(is(currency('U', 'T', 'Y'), "", "UTY")); require(is(currency('U', 'T', 'Z'), "", "UTZ"));)
OBLIGATION(no_currency_UU, "esl/economics/currencies.hpp: currency_name (codes without a currency from UU)", (), require(is(currency('U', 'U', 'A'), "", "UUA")); require(is(currency('U', 'U', 'B'), "", "UUB")); require(is(currency('U', 'U', 'C'), "", "UUC")); require(is(currency('U', 'U', 'D'), "", "UUD")); require(is(currency('U', 'U', 'E'), "", "UUE")); require(is(currency('U', 'U', 'F'), "", "UUF")); require(is(currency('U', 'U', 'G'), "", "UUG")); require(is(currency('U', 'U', 'H'), "", "UUH")); require(is(currency('U', 'U', 'I'), "", "UUI")); require(is(currency('U', 'U', 'J'), "", "UUJ")); require(is(currency('U', 'U', 'K'), "", "UUK")); require(is(currency('U', 'U', 'L'), "", "UUL")); require(is(currency('U', 'U', 'M'), "", "UUM")); require(is(currency('U', 'U', 'N'), "", "UUN")); require(is(currency('U', 'U', 'O'), "", "UUO")); require(is(currency('U', 'U', 'P'), "", "UUP")); require(is(currency('U', 'U', 'Q'), "", "UUQ")); require(is(currency('U', 'U', 'R'), "", "UUR")); require(is(currency('U', 'U', 'S'), "", "UUS")); require(is(currency('U', 'U', 'T'), "", "UUT")); require(is(currency('U', 'U', 'U'), "", "UUU")); require(is(currency('U', 'U', 'V'), "", "UUV")); require(is(currency('U', 'U', 'W'), "", "UUW")); require(is(currency('U', 'U', 'X'), "", "UUX")); require(is(currency('U', 'U', 'Y'), "", "UUY")); require(is(currency('U', 'U', 'Z'), "", "UUZ"));)
OBLIGATION(no_currency_UV, "esl/economics/currencies.hpp: currency_name (codes without a currency from UV)", (), require(is(currency('U', 'V', 'A'), "", "UVA")); require(is(currency('U', 'V', 'B'), "", "UVB")); require(is(currency('U', 'V', 'C'), "", "UVC")); require(is(currency('U', 'V', 'D'), "", "UVD")); require(is(currency('U', 'V', 'E'), "", "UVE")); require(is(currency('U', 'V', 'F'), "", "UVF")); require(is(currency('U', 'V', 'G'), "", "UVG")); require(is(currency('U', 'V', 'H'), "", "UVH")); require(is(currency('U', 'V', 'I'), "", "UVI")); require(is(currency('U', 'V', 'J'), "", "UVJ")); require(is(currency('U', 'V', 'K'), "", "UVK")); require(is(currency('U', 'V', 'L'), "", "UVL")); require(is(currency('U', 'V', 'M'), "", "UVM")); require(is(currency('U', 'V', 'N'), "", "UVN")); require(is(currency('U', 'V', 'O'), "", "UVO")); require(is(currency('U', 'V', 'P'), "", "UVP")); require(is(currency('U', 'V', 'Q'), "", "UVQ")); require(is(currency('U', 'V', 'R'), "", "UVR")); require(is(currency('U', 'V', 'S'), "", "UVS")); require(is(currency('U', 'V', 'T'), "", "UVT")); require(is(currency('U', 'V', 'U'), "", "UVU")); require(is(currency('U', 'V', 'V'), "", "UVV")); require(is(currency('U', 'V', 'W'), "", "UVW")); require(is(currency('U', 'V', 'X'), "", "UVX")); require(is(currency('U', 'V', 'Y'), "", "UVY")); require(is(currency('U', 'V', 'Z'), "", "UVZ"));)
OBLIGATION(no_currency_UW, "esl/economics/currencies.hpp: currency_name (codes without a currency from UW)", (), require(is(currency('U', 'W', 'A'), "", "UWA")); require(is(currency('U', 'W', 'B'), "", "UWB")); require(is(currency('U', 'W', 'C'), "", "UWC")); require(is(currency('U', 'W', 'D'), "", "UWD")); require(is(currency('U', 'W', 'E'), "", "UWE")); require(is(currency('U', 'W', 'F'), "", "UWF")); require(is(currency('U', 'W', 'G'), "", "UWG")); require(is(currency('U', 'W', 'H'), "", "UWH")); require(is(currency('U', 'W', 'I'), "", "UWI")); require(is(currency('U', 'W', 'J'), "", "UWJ")); require(is(currency('U', 'W', 'K'), "", "UWK")); require(is(currency('U', 'W', 'L'), "", "UWL")); require(is(currency('U', 'W', 'M'), "", "UWM")); require(is(currency('U', 'W', 'N'), "", "UWN")); require(is(currency('U', 'W', 'O'), "", "UWO")); require(is(currency('U', 'W', 'P'), "", "UWP")); require(is(currency('U', 'W', 'Q'), "", "UWQ")); require(is(currency('U', 'W', 'R'), "", "UWR")); require(is(currency('U', 'W', 'S'), "", "UWS")); require(is(currency('U', 'W', 'T'), "", "UWT")); require(is(currency('U', 'W', 'U'), "", "UWU")); require(is(currency('U', 'W', 'V'), "", "UWV")); require(is(currency('U', 'W', 'W'), "", "UWW")); require(is(currency('U', 'W', 'X'), "", "UWX")); require(is(currency('U', 'W', 'Y'), "", "UWY")); require(is(currency('U', 'W', 'Z'), "", "UWZ"));)
OBLIGATION(no_currency_UX, "esl/economics/currencies.hpp: currency_name (codes without a currency from UX)", (), require(is(currency('U', 'X', 'A'), "", "UXA")); require(is(currency('U', 'X', 'B'), "", "UXB")); require(is(currency('U', 'X', 'C'), "", "UXC")); require(is(currency('U', 'X', 'D'), "", "UXD")); require(is(currency('U', 'X', 'E'), "", "UXE")); require(is(currency('U', 'X', 'F'), "", "UXF")); require(is(currency('U', 'X', 'G'), "", "UXG")); require(is(currency('U', 'X', 'H'), "", "UXH")); require(is(currency('U', 'X', 'I'), "", "UXI")); require(is(currency('U', 'X', 'J'), "", "UXJ")); require(is(currency('U', 'X', 'K'), "", "UXK")); require(is(currency('U', 'X', 'L'), "", "UXL")); require(is(currency('U', 'X', 'M'), "", "UXM")); require(is(currency('U', 'X', 'N'), "", "UXN")); require(is(currency('U', 'X', 'O'), "", "UXO")); require(is(currency('U', 'X', 'P'), "", "UXP")); require(is(currency('U', 'X', 'Q'), "", "UXQ")); require(is(currency('U', 'X', 'R'), "", "UXR")); require(is(currency('U', 'X', 'S'), "", "UXS")); require(is(currency('U', 'X', 'T'), "", "UXT")); require(is(currency('U', 'X', 'U'), "", "UXU")); require(is(currency('U', 'X', 'V'), "", "UXV")); require(is(currency('U', 'X', 'W'), "", "UXW")); require(is(currency('U', 'X', 'X'), "", "UXX")); require(is(currency('U', 'X', 'Y'), "", "UXY")); require(is(currency('U', 'X', 'Z'), "", "UXZ"));)
OBLIGATION(no_currency_UY, "esl/economics/currencies.hpp: currency_name (codes without a currency from UY)", (), require(is(currency('U', 'Y', 'A'), "", "UYA")); require(is(currency('U', 'Y', 'B'), "", "UYB")); require(is(currency('U', 'Y', 'C'), "", "UYC")); require(is(currency('U', 'Y', 'D'), "", "UYD")); require(is(currency('U', 'Y', 'E'), "", "UYE")); require(is(currency('U', 'Y', 'F'), "", "UYF")); require(is(currency('U', 'Y', 'G'), "", "UYG")); require(is(currency('U', 'Y', 'H'), "", "UYH")); require(is(currency('U', 'Y', 'J'), "", "UYJ")); require(is(currency('U', 'Y', 'K'), "", "UYK")); require(is(currency('U', 'Y', 'L'), "", "UYL")); require(is(currency('U', 'Y', 'M'), "", "UYM")); require(is(currency('U', 'Y', 'N'), "", "UYN")); require(is(currency('U', 'Y', 'O'), "", "UYO")); require(is(currency('U', 'Y', 'P'), "", "UYP")); require(is(currency('U', 'Y', 'Q'), "", "UYQ")); require(is(currency('U', 'Y', 'R'), "", "UYR")); require(is(currency('U', 'Y', 'S'), "", "UYS")); require(is(currency('U', 'Y', 'T'), "", "UYT")); require(is(currency('U', 'Y', 'V'), "", "UYV")); require(is(currency('U', 'Y', 'W'), "", "UYW")); require(is(currency('U', 'Y', 'X'), "", "UYX")); require(is(currency('U', 'Y', 'Y'), "", "UYY")); require(is(currency('U', 'Y', 'Z'), "", "UYZ"));)
OBLIGATION(no_currency_UZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from UZ)", (), require(is(currency('U', 'Z', 'A'), "", "UZA")); require(is(currency('U', 'Z', 'B'), "", "UZB")); require(is(currency('U', 'Z', 'C'), "", "UZC")); require(is(currency('U', 'Z', 'D'), "", "UZD")); require(is(currency('U', 'Z', 'E'), "", "UZE")); require(is(currency('U', 'Z', 'F'), "", "UZF")); require(is(currency('U', 'Z', 'G'), "", "UZG")); require(is(currency('U', 'Z', 'H'), "", "UZH")); require(is(currency('U', 'Z', 'I'), "", "UZI")); require(is(currency('U', 'Z', 'J'), "", "UZJ")); require(is(currency('U', 'Z', 'K'), "", "UZK")); require(is(currency('U', 'Z', 'L'), "", "UZL")); require(is(currency('U', 'Z', 'M'), "", "UZM")); require(is(currency('U', 'Z', 'N'), "", "UZN")); require(is(currency('U', 'Z', 'O'), "", "UZO")); require(is(currency('U', 'Z', 'P'), "", "UZP")); require(is(currency('U', 'Z', 'Q'), "", "UZQ")); require(is(currency('U', 'Z', 'R'), "", "UZR")); require(is(currency('U', 'Z', 'T'), "", "UZT")); require(is(currency('U', 'Z', 'U'), "", "UZU")); require(is(currency('U', 'Z', 'V'), "", "UZV")); require(is(currency('U', 'Z', 'W'), "", "UZW")); require(is(currency('U', 'Z', 'X'), "", "UZX")); require(is(currency('U', 'Z', 'Y'), "", "UZY")); require(is(currency('U', 'Z', 'Z'), "", "UZZ"));)
OBLIGATION(no_currency_VA, "esl/economics/currencies.hpp: currency_name (codes without a currency from VA)", (), require(is(currency('V', 'A', 'A'), "", "VAA")); require(is(currency('V', 'A', 'B'), "", "VAB")); require(is(currency('V', 'A', 'C'), "", "VAC")); require(is(currency('V', 'A', 'D'), "", "VAD")); require(is(currency('V', 'A', 'E'), "", "VAE")); require(is(currency('V', 'A', 'F'), "", "VAF")); require(is(currency('V', 'A', 'G'), "", "VAG")); require(is(currency('V', 'A', 'H'), "", "VAH")); require(is(currency('V', 'A', 'I'), "", "VAI")); require(is(currency('V', 'A', 'J'), "", "VAJ")); require(is(currency('V', 'A', 'K'), "", "VAK")); require(is(currency('V', 'A', 'L'), "", "VAL")); require(is(currency('V', 'A', 'M'), "", "VAM")); require(is(currency('V', 'A', 'N'), "", "VAN")); require(is(currency('V', 'A', 'O'), "", "VAO")); require(is(currency('V', 'A', 'P'), "", "VAP")); require(is(currency('V', 'A', 'Q'), "", "VAQ")); require(is(currency('V', 'A', 'R'), "", "VAR")); require(is(currency('V', 'A', 'S'), "", "VAS")); require(is(currency('V', 'A', 'T'), "", "VAT")); require(is(currency('V', 'A', 'U'), "", "VAU")); require(is(currency('V', 'A', 'V'), "", "VAV")); require(is(currency('V', 'A', 'W'), "", "VAW")); require(is(currency('V', 'A', 'X'), "", "VAX")); require(is(currency('V', 'A', 'Y'), "", "VAY")); require(is(currency('V', 'A', 'Z'), "", "VAZ"));)
OBLIGATION(no_currency_VB, "esl/economics/currencies.hpp: currency_name (codes without a currency from VB)", (), require(is(currency('V', 'B', 'A'), "", "VBA")); require(is(currency('V', 'B', 'B'), "", "VBB")); require(is(currency('V', 'B', 'C'), "", "VBC")); require(is(currency('V', 'B', 'D'), "", "VBD")); require(is(currency('V', 'B', 'E'), "", "VBE")); require(is(currency('V', 'B', 'F'), "", "VBF")); require(is(currency('V', 'B', 'G'), "", "VBG")); require(is(currency('V', 'B', 'H'), "", "VBH")); require(is(currency('V', 'B', 'I'), "", "VBI")); require(is(currency('V', 'B', 'J'), "", "VBJ")); require(is(currency('V', 'B', 'K'), "", "VBK")); require(is(currency('V', 'B', 'L'), "", "VBL")); require(is(currency('V', 'B', 'M'), "", "VBM")); require(is(currency('V', 'B', 'N'), "", "VBN")); require(is(currency('V', 'B', 'O'), "", "VBO")); require(is(currency('V', 'B', 'P'), "", "VBP")); require(is(currency('V', 'B', 'Q'), "", "VBQ")); require(is(currency('V', 'B', 'R'), "", "VBR")); require(is(currency('V', 'B', 'S'), "", "VBS")); require(is(currency('V', 'B', 'T'), "", "VBT")); require(is(currency('V', 'B', 'U'), "", "VBU")); require(is(currency('V', 'B', 'V'), "", "VBV")); require(is(currency('V', 'B', 'W'), "", "VBW")); require(is(currency('V', 'B', 'X'), "", "VBX")); require(is(currency('V', 'B', 'Y'), "", "VBY")); require(is(currency('V', 'B', 'Z'), "", "VBZ"));)
OBLIGATION(no_currency_VC, "esl/economics/currencies.hpp: currency_name (codes without a currency from VC)", (), require(is(currency('V', 'C', 'A'), "", "VCA")); require(is(currency('V', 'C', 'B'), "", "VCB")); require(is(currency('V', 'C', 'C'), "", "VCC")); require(is(currency('V', 'C', 'D'), "", "VCD")); require(is(currency('V', 'C', 'E'), "", "VCE")); require(is(currency('V', 'C', 'F'), "", "VCF")); require(is(currency('V', 'C', 'G'), "", "VCG")); require(is(currency('V', 'C', 'H'), "", "VCH")); require(is(currency('V', 'C', 'I'), "", "VCI")); require(is(currency('V', 'C', 'J'), "", "VCJ")); require(is(currency('V', 'C', 'K'), "", "VCK")); require(is(currency('V', 'C', 'L'), "", "VCL")); require(is(currency('V', 'C', 'M'), "", "VCM")); require(is(currency('V', 'C', 'N'), "", "VCN")); require(is(currency('V', 'C', 'O'), "", "VCO")); require(is(currency('V', 'C', 'P'), "", "VCP")); require(is(currency('V', 'C', 'Q'), "", "VCQ")); require(is(currency('V', 'C', 'R'), "", "VCR")); require(is(currency('V', 'C', 'S'), "", "VCS")); require(is(currency('V', 'C', 'T'), "", "VCT")); require(is(currency('V', 'C', 'U'), "", "VCU")); require(is(currency('V', 'C', 'V'), "", "VCV")); require(is(currency('V', 'C', 'W'), "", "VCW")); require(is(currency('V', 'C', 'X'), "", "VCX")); require(is(currency('V', 'C', 'Y'), "", "VCY")); require(is(currency('V', 'C', 'Z'), "", "VCZ"));)
OBLIGATION(no_currency_VD, "esl/economics/currencies.hpp: currency_name (codes without a currency from VD)", (), require(is(currency('V', 'D', 'A'), "", "VDA")); require(is(currency('V', 'D', 'B'), "", "VDB")); require(is(currency('V', 'D', 'C'), "", "VDC")); require(is(currency('V', 'D', 'D'), "", "VDD")); require(is(currency('V', 'D', 'E'), "", "VDE")); require(is(currency('V', 'D', 'F'), "", "VDF")); require(is(currency('V', 'D', 'G'), "", "VDG")); require(is(currency('V', 'D', 'H'), "", "VDH")); require(is(currency('V', 'D', 'I'), "", "VDI")); require(is(currency('V', 'D', 'J'), "", "VDJ")); require(is(currency('V', 'D', 'K'), "", "VDK")); require(is(currency('V', 'D', 'L'), "", "VDL")); require(is(currency('V', 'D', 'M'), "", "VDM")); require(is(currency('V', 'D', 'N'), "", "VDN")); require(is(currency('V', 'D', 'O'), "", "VDO")); require(is(currency('V', 'D', 'P'), "", "VDP")); require(is(currency('V', 'D', 'Q'), "", "VDQ")); require(is(currency('V', 'D', 'R'), "", "VDR")); require(is(currency('V', 'D', 'S'), "", "VDS")); require(is(currency('V', 'D', 'T'), "", "VDT")); require(is(currency('V', 'D', 'U'), "", "VDU")); require(is(currency('V', 'D', 'V'), "", "VDV")); require(is(currency('V', 'D', 'W'), "", "VDW")); require(is(currency('V', 'D', 'X'), "", "VDX")); require(is(currency('V', 'D', 'Y'), "", "VDY")); require(is(currency('V', 'D', 'Z'), "", "VDZ"));)
OBLIGATION(no_currency_VE, "esl/economics/currencies.hpp: currency_name (codes without a currency from VE)", (), require(is(currency('V', 'E', 'A'), "", "VEA")); require(is(currency('V', 'E', 'B'), "", "VEB")); require(is(currency('V', 'E', 'C'), "", "VEC")); require(is(currency('V', 'E', 'D'), "", "VED")); require(is(currency('V', 'E', 'E'), "", "VEE")); require(is(currency('V', 'E', 'G'), "", "VEG")); require(is(currency('V', 'E', 'H'), "", "VEH")); require(is(currency('V', 'E', 'I'), "", "VEI")); require(is(currency('V', 'E', 'J'), "", "VEJ")); require(is(currency('V', 'E', 'K'), "", "VEK")); require(is(currency('V', 'E', 'L'), "", "VEL")); require(is(currency('V', 'E', 'M'), "", "VEM")); require(is(currency('V', 'E', 'N'), "", "VEN")); require(is(currency('V', 'E', 'O'), "", "VEO")); require(is(currency('V', 'E', 'P'), "", "VEP")); require(is(currency('V', 'E', 'Q'), "", "VEQ")); require(is(currency('V', 'E', 'R'), "", "VER")); require(is(currency('V', 'E', 'S'), "", "VES")); require(is(currency('V', 'E', 'T'), "", "VET")); require(is(currency('V', 'E', 'U'), "", "VEU")); require(is(currency('V', 'E', 'V'), "", "VEV")); require(is(currency('V', 'E', 'W'), "", "VEW")); require(is(currency('V', 'E', 'X'), "", "VEX")); require(is(currency('V', 'E', 'Y'), "", "VEY")); require(is(currency('V', 'E', 'Z'), "", "VEZ"));)
OBLIGATION(no_currency_VF, "esl/economics/currencies.hpp: currency_name (codes without a currency from VF)", (), require(is(currency('V', 'F', 'A'), "", "VFA")); require(is(currency('V', 'F', 'B'), "", "VFB")); require(is(currency('V', 'F', 'C'), "", "VFC")); require(is(currency('V', 'F', 'D'), "", "VFD")); require(is(currency('V', 'F', 'E'), "", "VFE")); require(is(currency('V', 'F', 'F'), "", "VFF")); require(is(currency('V', 'F', 'G'), "", "VFG")); require(is(currency('V', 'F', 'H'), "", "VFH")); require(is(currency('V', 'F', 'I'), "", "VFI")); require(is(currency('V', 'F', 'J'), "", "VFJ")); require(is(currency('V', 'F', 'K'), "", "VFK")); require(is(currency('V', 'F', 'L'), "", "VFL")); require(is(currency('V', 'F', 'M'), "", "VFM")); require(is(currency('V', 'F', 'N'), "", "VFN")); require(is(currency('V', 'F', 'O'), "", "VFO")); require(is(currency('V', 'F', 'P'), "", "VFP")); require(is(currency('V', 'F', 'Q'), "", "VFQ")); require(is(currency('V', 'F', 'R'), "", "VFR")); require(is(currency('V', 'F', 'S'), "", "VFS")); require(is(currency('V', 'F', 'T'), "", "VFT")); require(is(currency('V', 'F', 'U'), "", "VFU")); require(is(currency('V', 'F', 'V'), "", "VFV")); require(is(currency('V', 'F', 'W'), "", "VFW")); require(is(currency('V', 'F', 'X'), "", "VFX")); require(is(currency('V', 'F', 'Y'), "", "VFY")); require(is(currency('V', 'F', 'Z'), "", "VFZ"));)
OBLIGATION(no_currency_VG, "esl/economics/currencies.hpp: currency_name (codes without a currency from VG)", (), require(is(currency('V', 'G', 'A'), "", "VGA")); require(is(currency('V', 'G', 'B'), "", "VGB")); require(is(currency('V', 'G', 'C'), "", "VGC")); require(is(currency('V', 'G', 'D'), "", "VGD")); require(is(currency('V', 'G', 'E'), "", "VGE")); require(is(currency('V', 'G', 'F'), "", "VGF")); require(is(currency('V', 'G', 'G'), "", "VGG")); require(is(currency('V', 'G', 'H'), "", "VGH")); require(is(currency('V', 'G', 'I'), "", "VGI")); require(is(currency('V', 'G', 'J'), "", "VGJ")); require(is(currency('V', 'G', 'K'), "", "VGK")); require(is(currency('V', 'G', 'L'), "", "VGL")); require(is(currency('V', 'G', 'M'), "", "VGM")); require(is(currency('V', 'G', 'N'), "", "VGN")); require(is(currency('V', 'G', 'O'), "", "VGO")); require(is(currency('V', 'G', 'P'), "", "VGP")); require(is(currency('V', 'G', 'Q'), "", "VGQ")); require(is(currency('V', 'G', 'R'), "", "VGR")); require(is(currency('V', 'G', 'S'), "", "VGS")); require(is(currency('V', 'G', 'T'), "", "VGT")); require(is(currency('V', 'G', 'U'), "", "VGU")); require(is(currency('V', 'G', 'V'), "", "VGV")); require(is(currency('V', 'G', 'W'), "", "VGW")); require(is(currency('V', 'G', 'X'), "", "VGX")); require(is(currency('V', 'G', 'Y'), "", "VGY")); require(is(currency('V', 'G', 'Z'), "", "VGZ"));)
OBLIGATION(no_currency_VH, "esl/economics/currencies.hpp: currency_name (codes without a currency from VH)", (), require(is(currency('V', 'H', 'A'), "", "VHA")); require(is(currency('V', 'H', 'B'), "", "VHB")); require(is(currency('V', 'H', 'C'), "", "VHC")); require(is(currency('V', 'H', 'D'), "", "VHD")); require(is(currency('V', 'H', 'E'), "", "VHE")); require(is(currency('V', 'H', 'F'), "", "VHF")); require(is(currency('V', 'H', 'G'), "", "VHG")); require(is(currency('V', 'H', 'H'), "", "VHH")); require(is(currency('V', 'H', 'I'), "", "VHI")); require(is(currency('V', 'H', 'J'), "", "VHJ")); require(is(currency('V', 'H', 'K'), "", "VHK")); require(is(currency('V', 'H', 'L'), "", "VHL")); require(is(currency('V', 'H', 'M'), "", "VHM")); require(is(currency('V', 'H', 'N'), "", "VHN")); require(is(currency('V', 'H', 'O'), "", "VHO")); require(is(currency('V', 'H', 'P'), "", "VHP")); require(is(currency('V', 'H', 'Q'), "", "VHQ")); require(is(currency('V', 'H', 'R'), "", "VHR")); require(is(currency('V', 'H', 'S'), "", "VHS")); require(is(currency('V', 'H', 'T'), "", "VHT")); require(is(currency('V', 'H', 'U'), "", "VHU")); require(is(currency('V', 'H', 'V'), "", "VHV")); require(is(currency('V', 'H', 'W'), "", "VHW")); require(is(currency('V', 'H', 'X'), "", "VHX")); require(is(currency('V', 'H', 'Y'), "", "VHY")); require(is(currency('V', 'H', 'Z'), "", "VHZ"));)
OBLIGATION(no_currency_VI, "esl/economics/currencies.hpp: currency_name (codes without a currency from VI)", (), require(is(currency('V', 'I', 'A'), "", "VIA")); require(is(currency('V', 'I', 'B'), "", "VIB")); require(is(currency('V', 'I', 'C'), "", "VIC")); require(is(currency('V', 'I', 'D'), "", "VID")); require(is(currency('V', 'I', 'E'), "", "VIE")); require(is(currency('V', 'I', 'F'), "", "VIF")); require(is(currency('V', 'I', 'G'), "", "VIG")); require(is(currency('V', 'I', 'H'), "", "VIH")); require(is(currency('V', 'I', 'I'), "", "VII")); require(is(currency('V', 'I', 'J'), "", "VIJ")); require(is(currency('V', 'I', 'K'), "", "VIK")); require(is(currency('V', 'I', 'L'), "", "VIL")); require(is(currency('V', 'I', 'M'), "", "VIM")); require(is(currency('V', 'I', 'N'), "", "VIN")); require(is(currency('V', 'I', 'O'), "", "VIO")); require(is(currency('V', 'I', 'P'), "", "VIP")); require(is(currency('V', 'I', 'Q'), "", "VIQ")); require(is(currency('V', 'I', 'R'), "", "VIR")); require(is(currency('V', 'I', 'S'), "", "VIS")); require(is(currency('V', 'I', 'T'), "", "VIT")); require(is(currency('V', 'I', 'U'), "", "VIU")); require(is(currency('V', 'I', 'V'), "", "VIV")); require(is(currency('V', 'I', 'W'), "", "VIW")); require(is(currency('V', 'I', 'X'), "", "VIX")); require(is(currency('V', 'I', 'Y'), "", "VIY")); require(is(currency('V', 'I', 'Z'), "", "VIZ"));)
OBLIGATION(no_currency_VJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from VJ)", (), require(is(currency('V', 'J', 'A'), "", "VJA")); require(is(currency('V', 'J', 'B'), "", "VJB")); require(is(currency('V', 'J', 'C'), "", "VJC")); require(is(currency('V', 'J', 'D'), "", "VJD")); require(is(currency('V', 'J', 'E'), "", "VJE")); require(is(currency('V', 'J', 'F'), "", "VJF")); require(is(currency('V', 'J', 'G'), "", "VJG")); require(is(currency('V', 'J', 'H'), "", "VJH")); require(is(currency('V', 'J', 'I'), "", "VJI")); require(is(currency('V', 'J', 'J'), "", "VJJ")); require(is(currency('V', 'J', 'K'), "", "VJK")); require(is(currency('V', 'J', 'L'), "", "VJL")); require(is(currency('V', 'J', 'M'), "", "VJM")); require(is(currency('V', 'J', 'N'), "", "VJN")); require(is(currency('V', 'J', 'O'), "", "VJO")); require(is(currency('V', 'J', 'P'), "", "VJP")); require(is(currency('V', 'J', 'Q'), "", "VJQ")); require(is(currency('V', 'J', 'R'), "", "VJR")); require(is(currency('V', 'J', 'S'), "", "VJS")); require(is(currency('V', 'J', 'T'), "", "VJT")); require(is(currency('V', 'J', 'U'), "", "VJU")); require(is(currency('V', 'J', 'V'), "", "VJV")); require(is(currency('V', 'J', 'W'), "", "VJW")); require(is(currency('V', 'J', 'X'), "", "VJX")); require(is(currency('V', 'J', 'Y'), "", "VJY")); require(is(currency('V', 'J', 'Z'), "", "VJZ"));)
OBLIGATION(no_currency_VK, "esl/economics/currencies.hpp: currency_name (codes without a currency from VK)", (), require(is(currency('V', 'K', 'A'), "", "VKA")); require(is(currency('V', 'K', 'B'), "", "VKB")); require(is(currency('V', 'K', 'C'), "", "VKC")); require(is(currency('V', 'K', 'D'), "", "VKD")); require(is(currency('V', 'K', 'E'), "", "VKE")); require(is(currency('V', 'K', 'F'), "", "VKF")); require(is(currency('V', 'K', 'G'), "", "VKG")); require(is(currency('V', 'K', 'H'), "", "VKH")); require(is(currency('V', 'K', 'I'), "", "VKI")); require(is(currency('V', 'K', 'J'), "", "VKJ")); require(is(currency('V', 'K', 'K'), "", "VKK")); require(is(currency('V', 'K', 'L'), "", "VKL")); require(is(currency('V', 'K', 'M'), "", "VKM")); require(is(currency('V', 'K', 'N'), "", "VKN")); require(is(currency('V', 'K', 'O'), "", "VKO")); require(is(currency('V', 'K', 'P'), "", "VKP")); require(is(currency('V', 'K', 'Q'), "", "VKQ")); require(is(currency('V', 'K', 'R'), "", "VKR")); require(is(currency('V', 'K', 'S'), "", "VKS")); require(is(currency('V', 'K', 'T'), "", "VKT")); require(is(currency('V', 'K', 'U'), "", "VKU")); require(is(currency('V', 'K', 'V'), "", "VKV")); require(is(currency('V', 'K', 'W'), "", "VKW")); require(is(currency('V', 'K', 'X'), "", "VKX")); require(is(currency('V', 'K', 'Y'), "", "VKY")); require(is(currency('V', 'K', 'Z'), "", "VKZ"));)
OBLIGATION(no_currency_VL, "esl/economics/currencies.hpp: currency_name (codes without a currency from VL)", (), require(is(currency('V', 'L', 'A'), "", "VLA")); require(is(currency('V', 'L', 'B'), "", "VLB")); require(is(currency('V', 'L', 'C'), "", "VLC")); require(is(currency('V', 'L', 'D'), "", "VLD")); require(is(currency('V', 'L', 'E'), "", "VLE")); require(is(currency('V', 'L', 'F'), "", "VLF")); require(is(currency('V', 'L', 'G'), "", "VLG")); require(is(currency('V', 'L', 'H'), "", "VLH")); require(is(currency('V', 'L', 'I'), "", "VLI")); require(is(currency('V', 'L', 'J'), "", "VLJ")); require(is(currency('V', 'L', 'K'), "", "VLK")); require(is(currency('V', 'L', 'L'), "", "VLL")); require(is(currency('V', 'L', 'M'), "", "VLM")); require(is(currency('V', 'L', 'N'), "", "VLN")); require(is(currency('V', 'L', 'O'), "", "VLO")); require(is(currency('V', 'L', 'P'), "", "VLP")); require(is(currency('V', 'L', 'Q'), "", "VLQ")); require(is(currency('V', 'L', 'R'), "", "VLR")); require(is(currency('V', 'L', 'S'), "", "VLS")); require(is(currency('V', 'L', 'T'), "", "VLT")); require(is(currency('V', 'L', 'U'), "", "VLU")); require(is(currency('V', 'L', 'V'), "", "VLV")); require(is(currency('V', 'L', 'W'), "", "VLW")); require(is(currency('V', 'L', 'X'), "", "VLX")); require(is(currency('V', 'L', 'Y'), "", "VLY")); require(is(currency('V', 'L', 'Z'), "", "VLZ"));)
OBLIGATION(no_currency_VM, "esl/economics/currencies.hpp: currency_name (codes without a currency from VM)", (), require(is(currency('V', 'M', 'A'), "", "VMA")); require(is(currency('V', 'M', 'B'), "", "VMB")); require(is(currency('V', 'M', 'C'), "", "VMC")); require(is(currency('V', 'M', 'D'), "", "VMD")); require(is(currency('V', 'M', 'E'), "", "VME")); require(is(currency('V', 'M', 'F'), "", "VMF")); require(is(currency('V', 'M', 'G'), "", "VMG")); require(is(currency('V', 'M', 'H'), "", "VMH")); require(is(currency('V', 'M', 'I'), "", "VMI")); require(is(currency('V', 'M', 'J'), "", "VMJ")); require(is(currency('V', 'M', 'K'), "", "VMK")); require(is(currency('V', 'M', 'L'), "", "VML")); require(is(currency('V', 'M', 'M'), "", "VMM")); require(is(currency('V', 'M', 'N'), "", "VMN")); require(is(currency('V', 'M', 'O'), "", "VMO")); require(is(currency('V', 'M', 'P'), "", "VMP")); require(is(currency('V', 'M', 'Q'), "", "VMQ")); require(is(currency('V', 'M', 'R'), "", "VMR")); require(is(currency('V', 'M', 'S'), "", "VMS")); require(is(currency('V', 'M', 'T'), "", "VMT")); require(is(currency('V', 'M', 'U'), "", "VMU")); require(is(currency('V', 'M', 'V'), "", "VMV")); require(is(currency('V', 'M', 'W'), "", "VMW")); require(is(currency('V', 'M', 'X'), "", "VMX")); require(is(currency('V', 'M', 'Y'), "", "VMY")); require(is(currency('V', 'M', 'Z'), "", "VMZ"));)
OBLIGATION(no_currency_VN, "esl/economics/currencies.hpp: currency_name (codes without a currency from VN)", (), require(is(currency('V', 'N', 'A'), "", "VNA")); require(is(currency('V', 'N', 'B'), "", "VNB")); require(is(currency('V', 'N', 'C'), "", "VNC")); require(is(currency('V', 'N', 'E'), "", "VNE")); require(is(currency('V', 'N', 'F'), "", "VNF")); require(is(currency('V', 'N', 'G'), "", "VNG")); require(is(currency('V', 'N', 'H'), "", "VNH")); require(is(currency('V', 'N', 'I'), "", "VNI")); require(is(currency('V', 'N', 'J'), "", "VNJ")); require(is(currency('V', 'N', 'K'), "", "VNK")); require(is(currency('V', 'N', 'L'), "", "VNL")); require(is(currency('V', 'N', 'M'), "", "VNM")); require(is(currency('V', 'N', 'N'), "", "VNN")); require(is(currency('V', 'N', 'O'), "", "VNO")); require(is(currency('V', 'N', 'P'), "", "VNP")); require(is(currency('V', 'N', 'Q'), "", "VNQ")); require(is(currency('V', 'N', 'R'), "", "VNR")); require(is(currency('V', 'N', 'S'), "", "VNS")); require(is(currency('V', 'N', 'T'), "", "VNT")); require(is(currency('V', 'N', 'U'), "", "VNU")); require(is(currency('V', 'N', 'V'), "", "VNV")); require(is(currency('V', 'N', 'W'), "", "VNW")); require(is(currency('V', 'N', 'X'), "", "VNX")); require(is(currency('V', 'N', 'Y'), "", "VNY")); require(is(currency('V', 'N', 'Z'), "", "VNZ"));)
OBLIGATION(no_currency_VO, "esl/economics/currencies.hpp: currency_name (codes without a currency from VO)", (), require(is(currency('V', 'O', 'A'), "", "VOA")); require(is(currency('V', 'O', 'B'), "", "VOB")); require(is(currency('V', 'O', 'C'), "", "VOC")); require(is(currency('V', 'O', 'D'), "", "VOD")); require(is(currency('V', 'O', 'E'), "", "VOE")); require(is(currency('V', 'O', 'F'), "", "VOF")); require(is(currency('V', 'O', 'G'), "", "VOG")); require(is(currency('V', 'O', 'H'), "", "VOH")); require(is(currency('V', 'O', 'I'), "", "VOI")); require(is(currency('V', 'O', 'J'), "", "VOJ")); require(is(currency('V', 'O', 'K'), "", "VOK")); require(is(currency('V', 'O', 'L'), "", "VOL")); require(is(currency('V', 'O', 'M'), "", "VOM")); require(is(currency('V', 'O', 'N'), "", "VON")); require(is(currency('V', 'O', 'O'), "", "VOO")); require(is(currency('V', 'O', 'P'), "", "VOP")); require(is(currency('V', 'O', 'Q'), "", "VOQ")); require(is(currency('V', 'O', 'R'), "", "VOR")); require(is(currency('V', 'O', 'S'), "", "VOS")); require(is(currency('V', 'O', 'T'), "", "VOT")); require(is(currency('V', 'O', 'U'), "", "VOU")); require(is(currency('V', 'O', 'V'), "", "VOV")); require(is(currency('V', 'O', 'W'), "", "VOW")); require(is(currency('V', 'O', 'X'), "", "VOX")); require(is(currency('V', 'O', 'Y'), "", "VOY")); require(is(currency('V', 'O', 'Z'), "", "VOZ"));)
OBLIGATION(no_currency_VP, "esl/economics/currencies.hpp: currency_name (codes without a currency from VP)", (), require(is(currency('V', 'P', 'A'), "", "VPA")); require(is(currency('V', 'P', 'B'), "", "VPB")); require(is(currency('V', 'P', 'C'), "", "VPC")); require(is(currency('V', 'P', 'D'), "", "VPD")); require(is(currency('V', 'P', 'E'), "", "VPE")); require(is(currency('V', 'P', 'F'), "", "VPF")); require(is(currency('V', 'P', 'G'), "", "VPG")); require(is(currency('V', 'P', 'H'), "", "VPH")); require(is(currency('V', 'P', 'I'), "", "VPI")); require(is(currency('V', 'P', 'J'), "", "VPJ")); require(is(currency('V', 'P', 'K'), "", "VPK")); require(is(currency('V', 'P', 'L'), "", "VPL")); require(is(currency('V', 'P', 'M'), "", "VPM")); require(is(currency('V', 'P', 'N'), "", "VPN")); require(is(currency('V', 'P', 'O'), "", "VPO")); require(is(currency('V', 'P', 'P'), "", "VPP")); require(is(currency('V', 'P', 'Q'), "", "VPQ")); require(is(currency('V', 'P', 'R'), "", "VPR")); require(is(currency('V', 'P', 'S'), "", "VPS")); require(is(currency('V', 'P', 'T'), "", "VPT")); require(is(currency('V', 'P', 'U'), "", "VPU")); require(is(currency('V', 'P', 'V'), "", "VPV")); require(is(currency('V', 'P', 'W'), "", "VPW")); require(is(currency('V', 'P', 'X'), "", "VPX")); require(is(currency('V', 'P', 'Y'), "", "VPY")); require(is(currency('V', 'P', 'Z'), "", "VPZ"));)
OBLIGATION(no_currency_VQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from VQ)", (), require(is(currency('V', 'Q', 'A'), "", "VQA")); require(is(currency('V', 'Q', 'B'), "", "VQB")); require(is(currency('V', 'Q', 'C'), "", "VQC")); require(is(currency('V', 'Q', 'D'), "", "VQD")); require(is(currency('V', 'Q', 'E'), "", "VQE")); require(is(currency('V', 'Q', 'F'), "", "VQF")); require(is(currency('V', 'Q', 'G'), "", "VQG")); require(is(currency('V', 'Q', 'H'), "", "VQH")); require(is(currency('V', 'Q', 'I'), "", "VQI")); require(is(currency('V', 'Q', 'J'), "", "VQJ")); require(is(currency('V', 'Q', 'K'), "", "VQK")); require(is(currency('V', 'Q', 'L'), "", "VQL")); require(is(currency('V', 'Q', 'M'), "", "VQM")); require(is(currency('V', 'Q', 'N'), "", "VQN")); require(is(currency('V', 'Q', 'O'), "", "VQO")); require(is(currency('V', 'Q', 'P'), "", "VQP")); require(is(currency('V', 'Q', 'Q'), "", "VQQ")); require(is(currency('V', 'Q', 'R'), "", "VQR")); require(is(currency('V', 'Q', 'S'), "", "VQS")); require(is(currency('V', 'Q', 'T'), "", "VQT")); require(is(currency('V', 'Q', 'U'), "", "VQU")); require(is(currency('V', 'Q', 'V'), "", "VQV")); require(is(currency('V', 'Q', 'W'), "", "VQW")); require(is(currency('V', 'Q', 'X'), "", "VQX")); require(is(currency('V', 'Q', 'Y'), "", "VQY")); require(is(currency('V', 'Q', 'Z'), "", "VQZ"));)
OBLIGATION(no_currency_VR, "esl/economics/currencies.hpp: currency_name (codes without a currency from VR)", (), require(is(currency('V', 'R', 'A'), "", "VRA")); require(is(currency('V', 'R', 'B'), "", "VRB")); require(is(currency('V', 'R', 'C'), "", "VRC")); require(is(currency('V', 'R', 'D'), "", "VRD")); require(is(currency('V', 'R', 'E'), "", "VRE")); require(is(currency('V', 'R', 'F'), "", "VRF")); require(is(currency('V', 'R', 'G'), "", "VRG")); require(is(currency('V', 'R', 'H'), "", "VRH")); require(is(currency('V', 'R', 'I'), "", "VRI")); require(is(currency('V', 'R', 'J'), "", "VRJ")); require(is(currency('V', 'R', 'K'), "", "VRK")); require(is(currency('V', 'R', 'L'), "", "VRL")); require(is(currency('V', 'R', 'M'), "", "VRM")); require(is(currency('V', 'R', 'N'), "", "VRN")); require(is(currency('V', 'R', 'O'), "", "VRO")); require(is(currency('V', 'R', 'P'), "", "VRP")); require(is(currency('V', 'R', 'Q'), "", "VRQ")); require(is(currency('V', 'R', 'R'), "", "VRR")); require(is(currency('V', 'R', 'S'), "", "VRS")); require(is(currency('V', 'R', 'T'), "", "VRT")); require(is(currency('V', 'R', 'U'), "", "VRU")); require(is(currency('V', 'R', 'V'), "", "VRV")); require(is(currency('V', 'R', 'W'), "", "VRW")); require(is(currency('V', 'R', 'X'), "", "VRX")); require(is(currency('V', 'R', 'Y'), "", "VRY")); require(is(currency('V', 'R', 'Z'), "", "VRZ"));)
OBLIGATION(no_currency_VS, "esl/economics/currencies.hpp: currency_name (codes without a currency from VS)", (), require(is(currency('V', 'S', 'A'), "", "VSA")); require(is(currency('V', 'S', 'B'), "", "VSB")); require(is(currency('V', 'S', 'C'), "", "VSC")); require(is(currency('V', 'S', 'D'), "", "VSD")); require(is(currency('V', 'S', 'E'), "", "VSE")); require(is(currency('V', 'S', 'F'), "", "VSF")); require(is(currency('V', 'S', 'G'), "", "VSG")); require(is(currency('V', 'S', 'H'), "", "VSH")); require(is(currency('V', 'S', 'I'), "", "VSI")); require(is(currency('V', 'S', 'J'), "", "VSJ")); require(is(currency('V', 'S', 'K'), "", "VSK")); require(is(currency('V', 'S', 'L'), "", "VSL")); require(is(currency('V', 'S', 'M'), "", "VSM")); require(is(currency('V', 'S', 'N'), "", "VSN")); require(is(currency('V', 'S', 'O'), "", "VSO")); require(is(currency('V', 'S', 'P'), "", "VSP")); require(is(currency('V', 'S', 'Q'), "", "VSQ")); require(is(currency('V', 'S', 'R'), "", "VSR")); require(is(currency('V', 'S', 'S'), "", "VSS")); require(is(currency('V', 'S', 'T'), "", "VST")); require(is(currency('V', 'S', 'U'), "", "VSU")); require(is(currency('V', 'S', 'V'), "", "VSV")); require(is(currency('V', 'S', 'W'), "", "VSW")); require(is(currency('V', 'S', 'X'), "", "VSX")); require(is(currency('V', 'S', 'Y'), "", "VSY")); require(is(currency('V', 'S', 'Z'), "", "VSZ"));)
OBLIGATION(no_currency_VT, "esl/economics/currencies.hpp: currency_name (codes without a currency from VT)", (), require(is(currency('V', 'T', 'A'), "", "VTA")); require(is(currency('V', 'T', 'B'), "", "VTB")); require(is(currency('V', 'T', 'C'), "", "VTC")); require(is(currency('V', 'T', 'D'), "", "VTD")); require(is(currency('V', 'T', 'E'), "", "VTE")); require(is(currency('V', 'T', 'F'), "", "VTF")); require(is(currency('V', 'T', 'G'), "", "VTG")); require(is(currency('V', 'T', 'H'), "", "VTH")); require(is(currency('V', 'T', 'I'), "", "VTI")); require(is(currency('V', 'T', 'J'), "", "VTJ")); require(is(currency('V', 'T', 'K'), "", "VTK")); require(is(currency('V', 'T', 'L'), "", "VTL")); require(is(currency('V', 'T', 'M'), "", "VTM")); require(is(currency('V', 'T', 'N'), "", "VTN")); require(is(currency('V', 'T', 'O'), "", "VTO")); require(is(currency('V', 'T', 'P'), "", "VTP")); require(is(currency('V', 'T', 'Q'), "", "VTQ")); require(is(currency('V', 'T', 'R'), "", "VTR")); require(is(currency('V', 'T', 'S'), "", "VTS")); require(is(currency('V', 'T', 'T'), "", "VTT")); require(is(currency('V', 'T', 'U'), "", "VTU")); require(is(currency('V', 'T', 'V'), "", "VTV")); require(is(currency('V', 'T', 'W'), "", "VTW")); require(is(currency('V', 'T', 'X'), "", "VTX")); require(is(currency('V', 'T', 'Y'), "", "VTY")); require(is(currency('V', 'T', 'Z'), "", "VTZ"));)
OBLIGATION(no_currency_VU, "esl/economics/currencies.hpp: currency_name (codes without a currency from VU)", (), require(is(currency('V', 'U', 'A'), "", "VUA")); require(is(currency('V', 'U', 'B'), "", "VUB")); require(is(currency('V', 'U', 'C'), "", "VUC")); require(is(currency('V', 'U', 'D'), "", "VUD")); require(is(currency('V', 'U', 'E'), "", "VUE")); require(is(currency('V', 'U', 'F'), "", "VUF")); require(is(currency('V', 'U', 'G'), "", "VUG")); require(is(currency('V', 'U', 'H'), "", "VUH")); require(is(currency('V', 'U', 'I'), "", "VUI")); require(is(currency('V', 'U', 'J'), "", "VUJ")); require(is(currency('V', 'U', 'K'), "", "VUK")); require(is(currency('V', 'U', 'L'), "", "VUL")); require(is(currency('V', 'U', 'M'), "", "VUM")); require(is(currency('V', 'U', 'N'), "", "VUN")); require(is(currency('V', 'U', 'O'), "", "VUO")); require(is(currency('V', 'U', 'P'), "", "VUP")); require(is(currency('V', 'U', 'Q'), "", "VUQ")); require(is(currency('V', 'U', 'R'), "", "VUR")); require(is(currency('V', 'U', 'S'), "", "VUS")); require(is(currency('V', 'U', 'T'), "", "VUT")); require(is(currency('V', 'U', 'U'), "", "VUU")); require(is(currency('V', 'U', 'W'), "", "VUW")); require(is(currency('V', 'U', 'X'), "", "VUX")); require(is(currency('V', 'U', 'Y'), "", "VUY")); require(is(currency('V', 'U', 'Z'), "", "VUZ"));)
OBLIGATION(no_currency_VV, "esl/economics/currencies.hpp: currency_name (codes without a currency from VV)", (), require(is(currency('V', 'V', 'A'), "", "VVA")); require(is(currency('V', 'V', 'B'), "", "VVB")); require(is(currency('V', 'V', 'C'), "", "VVC")); require(is(currency('V', 'V', 'D'), "", "VVD")); require(is(currency('V', 'V', 'E'), "", "VVE")); require(is(currency('V', 'V', 'F'), "", "VVF")); require(is(currency('V', 'V', 'G'), "", "VVG")); require(is(currency('V', 'V', 'H'), "", "VVH")); require(is(currency('V', 'V', 'I'), "", "VVI")); require(is(currency('V', 'V', 'J'), "", "VVJ")); require(is(currency('V', 'V', 'K'), "", "VVK")); require(is(currency('V', 'V', 'L'), "", "VVL")); require(is(currency('V', 'V', 'M'), "", "VVM")); require(is(currency('V', 'V', 'N'), "", "VVN")); require(is(currency('V', 'V', 'O'), "", "VVO")); require(is(currency('V', 'V', 'P'), "", "VVP")); require(is(currency('V', 'V', 'Q'), "", "VVQ")); require(is(currency('V', 'V', 'R'), "", "VVR")); require(is(currency('V', 'V', 'S'), "", "VVS")); require(is(currency('V', 'V', 'T'), "", "VVT")); require(is(currency('V', 'V', 'U'), "", "VVU")); require(is(currency('V', 'V', 'V'), "", "VVV")); require(is(currency('V', 'V', 'W'), "", "VVW")); require(is(currency('V', 'V', 'X'), "", "VVX")); require(is(currency('V', 'V', 'Y'), "", "VVY")); require(is(currency('V', 'V', 'Z'), "", "VVZ"));)
OBLIGATION(no_currency_VW, "esl/economics/currencies.hpp: currency_name (codes without a currency from VW)", (), require(is(currency('V', 'W', 'A'), "", "VWA")); require(is(currency('V', 'W', 'B'), "", "VWB")); require(is(currency('V', 'W', 'C'), "", "VWC")); require(is(currency('V', 'W', 'D'), "", "VWD")); require(is(currency('V', 'W', 'E'), "", "VWE")); require(is(currency('V', 'W', 'F'), "", "VWF")); require(is(currency('V', 'W', 'G'), "", "VWG")); require(is(currency('V', 'W', 'H'), "", "VWH")); require(is(currency('V', 'W', 'I'), "", "VWI")); require(is(currency('V', 'W', 'J'), "", "VWJ")); require(is(currency('V', 'W', 'K'), "", "VWK")); require(is(currency('V', 'W', 'L'), "", "VWL")); require(is(currency('V', 'W', 'M'), "", "VWM")); require(is(currency('V', 'W', 'N'), "", "VWN")); require(is(currency('V', 'W', 'O'), "", "VWO")); require(is(currency('V', 'W', 'P'), "", "VWP")); require(is(currency('V', 'W', 'Q'), "", "VWQ")); require(is(currency('V', 'W', 'R'), "", "VWR")); require(is(currency('V', 'W', 'S'), "", "VWS")); require(is(currency('V', 'W', 'T'), "", "VWT")); require(is(currency('V', 'W', 'U'), "", "VWU")); require(is(currency('V', 'W', 'V'), "", "VWV")); require(is(currency('V', 'W', 'W'), "", "VWW")); require(is(currency('V', 'W', 'X'), "", "VWX")); require(is(currency('V', 'W', 'Y'), "", "VWY")); require(is(currency('V', 'W', 'Z'), "", "VWZ"));)
OBLIGATION(no_currency_VX, "esl/economics/currencies.hpp: currency_name (codes without a currency from VX)", (), require(is(currency('V', 'X', 'A'), "", "VXA")); require(is(currency('V', 'X', 'B'), "", "VXB")); require(is(currency('V', 'X', 'C'), "", "VXC")); require(is(currency('V', 'X', 'D'), "", "VXD")); require(is(currency('V', 'X', 'E'), "", "VXE")); require(is(currency('V', 'X', 'F'), "", "VXF")); require(is(currency('V', 'X', 'G'), "", "VXG")); require(is(currency('V', 'X', 'H'), "", "VXH")); require(is(currency('V', 'X', 'I'), "", "VXI")); require(is(currency('V', 'X', 'J'), "", "VXJ")); require(is(currency('V', 'X', 'K'), "", "VXK")); require(is(currency('V', 'X', 'L'), "", "VXL")); require(is(currency('V', 'X', 'M'), "", "VXM")); require(is(currency('V', 'X', 'N'), "", "VXN")); require(is(currency('V', 'X', 'O'), "", "VXO")); require(is(currency('V', 'X', 'P'), "", "VXP")); require(is(currency('V', 'X', 'Q'), "", "VXQ")); require(is(currency('V', 'X', 'R'), "", "VXR")); require(is(currency('V', 'X', 'S'), "", "VXS")); require(is(currency('V', 'X', 'T'), "", "VXT")); require(is(currency('V', 'X', 'U'), "", "VXU")); require(is(currency('V', 'X', 'V'), "", "VXV")); require(is(currency('V', 'X', 'W'), "", "VXW")); require(is(currency('V', 'X', 'X'), "", "VXX")); require(is(currency('V', 'X', 'Y'), "", "VXY")); require(is(currency('V', 'X', 'Z'), "", "VXZ"));)
OBLIGATION(no_currency_VY, "esl/economics/currencies.hpp: currency_name (codes without a currency from VY)", (), require(is(currency('V', 'Y', 'A'), "", "VYA")); require(is(currency('V', 'Y', 'B'), "", "VYB")); require(is(currency('V', 'Y', 'C'), "", "VYC")); require(is(currency('V', 'Y', 'D'), "", "VYD")); require(is(currency('V', 'Y', 'E'), "", "VYE")); require(is(currency('V', 'Y', 'F'), "", "VYF")); require(is(currency('V', 'Y', 'G'), "", "VYG")); require(is(currency('V', 'Y', 'H'), "", "VYH")); require(is(currency('V', 'Y', 'I'), "", "VYI")); require(is(currency('V', 'Y', 'J'), "", "VYJ")); require(is(currency('V', 'Y', 'K'), "", "VYK")); require(is(currency('V', 'Y', 'L'), "", "VYL")); require(is(currency('V', 'Y', 'M'), "", "VYM")); require(is(currency('V', 'Y', 'N'), "", "VYN")); require(is(currency('V', 'Y', 'O'), "", "VYO")); require(is(currency('V', 'Y', 'P'), "", "VYP")); require(is(currency('V', 'Y', 'Q'), "", "VYQ")); require(is(currency('V', 'Y', 'R'), "", "VYR")); require(is(currency('V', 'Y', 'S'), "", "VYS")); require(is(currency('V', 'Y', 'T'), "", "VYT")); require(is(currency('V', 'Y', 'U'), "", "VYU")); require(is(currency('V', 'Y', 'V'), "", "VYV")); require(is(currency('V', 'Y', 'W'), "", "VYW")); require(is(currency('V', 'Y', 'X'), "", "VYX")); require(is(currency('V', 'Y', 'Y'), "", "VYY")); require(is(currency('V', 'Y', 'Z'), "", "VYZ"));)
OBLIGATION(no_currency_VZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from VZ)", (), require(is(currency('V', 'Z', 'A'), "", "VZA")); require(is(currency('V', 'Z', 'B'), "", "VZB")); require(is(currency('V', 'Z', 'C'), "", "VZC")); require(is(currency('V', 'Z', 'D'), "", "VZD")); require(is(currency('V', 'Z', 'E'), "", "VZE")); require(is(currency('V', 'Z', 'F'), "", "VZF")); require(is(currency('V', 'Z', 'G'), "", "VZG")); require(is(currency('V', 'Z', 'H'), "", "VZH")); require(is(currency('V', 'Z', 'I'), "", "VZI")); require(is(currency('V', 'Z', 'J'), "", "VZJ")); require(is(currency('V', 'Z', 'K'), "", "VZK")); require(is(currency('V', 'Z', 'L'), "", "VZL")); require(is(currency('V', 'Z', 'M'), "", "VZM")); require(is(currency('V', 'Z', 'N'), "", "VZN")); require(is(currency('V', 'Z', 'O'), "", "VZO")); require(is(currency('V', 'Z', 'P'), "", "VZP")); require(is(currency('V', 'Z', 'Q'), "", "VZQ")); require(is(currency('V', 'Z', 'R'), "", "VZR")); require(is(currency('V', 'Z', 'S'), "", "VZS")); require(is(currency('V', 'Z', 'T'), "", "VZT")); require(is(currency('V', 'Z', 'U'), "", "VZU")); require(is(currency('V', 'Z', 'V'), "", "VZV")); require(is(currency('V', 'Z', 'W'), "", "VZW")); require(is(currency('V', 'Z', 'X'), "", "VZX")); require(is(currency('V', 'Z', 'Y'), "", "VZY")); require(is(currency('V', 'Z', 'Z'), "", "VZZ"));)
OBLIGATION(no_currency_WA, "esl/economics/currencies.hpp: currency_name (codes without a currency from WA)", (), require(is(currency('W', 'A', 'A'), "", "WAA")); require(is(currency('W', 'A', 'B'), "", "WAB")); require(is(currency('W', 'A', 'C'), "", "WAC")); require(is(currency('W', 'A', 'D'), "", "WAD")); require(is(currency('W', 'A', 'E'), "", "WAE")); require(is(currency('W', 'A', 'F'), "", "WAF")); require(is(currency('W', 'A', 'G'), "", "WAG")); require(is(currency('W', 'A', 'H'), "", "WAH")); require(is(currency('W', 'A', 'I'), "", "WAI")); require(is(currency('W', 'A', 'J'), "", "WAJ")); require(is(currency('W', 'A', 'K'), "", "WAK")); require(is(currency('W', 'A', 'L'), "", "WAL")); require(is(currency('W', 'A', 'M'), "", "WAM")); require(is(currency('W', 'A', 'N'), "", "WAN")); require(is(currency('W', 'A', 'O'), "", "WAO")); require(is(currency('W', 'A', 'P'), "", "WAP")); require(is(currency('W', 'A', 'Q'), "", "WAQ")); require(is(currency('W', 'A', 'R'), "", "WAR")); require(is(currency('W', 'A', 'S'), "", "WAS")); require(is(currency('W', 'A', 'T'), "", "WAT")); require(is(currency('W', 'A', 'U'), "", "WAU")); require(is(currency('W', 'A', 'V'), "", "WAV")); require(is(currency('W', 'A', 'W'), "", "WAW")); require(is(currency('W', 'A', 'X'), "", "WAX")); require(is(currency('W', 'A', 'Y'), "", "WAY")); require(is(currency('W', 'A', 'Z'), "", "WAZ"));)
OBLIGATION(no_currency_WB, "esl/economics/currencies.hpp: currency_name (codes without a currency from WB)", (), require(is(currency('W', 'B', 'A'), "", "WBA")); require(is(currency('W', 'B', 'B'), "", "WBB")); require(is(currency('W', 'B', 'C'), "", "WBC")); require(is(currency('W', 'B', 'D'), "", "WBD")); require(is(currency('W', 'B', 'E'), "", "WBE")); require(is(currency('W', 'B', 'F'), "", "WBF")); require(is(currency('W', 'B', 'G'), "", "WBG")); require(is(currency('W', 'B', 'H'), "", "WBH")); require(is(currency('W', 'B', 'I'), "", "WBI")); require(is(currency('W', 'B', 'J'), "", "WBJ")); require(is(currency('W', 'B', 'K'), "", "WBK")); require(is(currency('W', 'B', 'L'), "", "WBL")); require(is(currency('W', 'B', 'M'), "", "WBM")); require(is(currency('W', 'B', 'N'), "", "WBN")); require(is(currency('W', 'B', 'O'), "", "WBO")); require(is(currency('W', 'B', 'P'), "", "WBP")); require(is(currency('W', 'B', 'Q'), "", "WBQ")); require(is(currency('W', 'B', 'R'), "", "WBR")); require(is(currency('W', 'B', 'S'), "", "WBS")); require(is(currency('W', 'B', 'T'), "", "WBT")); require(is(currency('W', 'B', 'U'), "", "WBU")); require(is(currency('W', 'B', 'V'), "", "WBV")); require(is(currency('W', 'B', 'W'), "", "WBW")); require(is(currency('W', 'B', 'X'), "", "WBX")); require(is(currency('W', 'B', 'Y'), "", "WBY")); require(is(currency('W', 'B', 'Z'), "", "WBZ"));)
OBLIGATION(no_currency_WC, "esl/economics/currencies.hpp: currency_name (codes without a currency from WC)", (), require(is(currency('W', 'C', 'A'), "", "WCA")); require(is(currency('W', 'C', 'B'), "", "WCB")); require(is(currency('W', 'C', 'C'), "", "WCC")); require(is(currency('W', 'C', 'D'), "", "WCD")); require(is(currency('W', 'C', 'E'), "", "WCE")); require(is(currency('W', 'C', 'F'), "", "WCF")); require(is(currency('W', 'C', 'G'), "", "WCG")); require(is(currency('W', 'C', 'H'), "", "WCH")); require(is(currency('W', 'C', 'I'), "", "WCI")); require(is(currency('W', 'C', 'J'), "", "WCJ")); require(is(currency('W', 'C', 'K'), "", "WCK")); require(is(currency('W', 'C', 'L'), "", "WCL")); require(is(currency('W', 'C', 'M'), "", "WCM")); require(is(currency('W', 'C', 'N'), "", "WCN")); require(is(currency('W', 'C', 'O'), "", "WCO")); require(is(currency('W', 'C', 'P'), "", "WCP")); require(is(currency('W', 'C', 'Q'), "", "WCQ")); require(is(currency('W', 'C', 'R'), "", "WCR")); require(is(currency('W', 'C', 'S'), "", "WCS")); require(is(currency('W', 'C', 'T'), "", "WCT")); require(is(currency('W', 'C', 'U'), "", "WCU")); require(is(currency('W', 'C', 'V'), "", "WCV")); require(is(currency('W', 'C', 'W'), "", "WCW")); require(is(currency('W', 'C', 'X'), "", "WCX")); require(is(currency('W', 'C', 'Y'), "", "WCY")); require(is(currency('W', 'C', 'Z'), "", "WCZ"));)
OBLIGATION(no_currency_WD, "esl/economics/currencies.hpp: currency_name (codes without a currency from WD)", (), require(is(currency('W', 'D', 'A'), "", "WDA")); require(is(currency('W', 'D', 'B'), "", "WDB")); require(is(currency('W', 'D', 'C'), "", "WDC")); require(is(currency('W', 'D', 'D'), "", "WDD")); require(is(currency('W', 'D', 'E'), "", "WDE")); require(is(currency('W', 'D', 'F'), "", "WDF")); require(is(currency('W', 'D', 'G'), "", "WDG")); require(is(currency('W', 'D', 'H'), "", "WDH")); require(is(currency('W', 'D', 'I'), "", "WDI")); require(is(currency('W', 'D', 'J'), "", "WDJ")); require(is(currency('W', 'D', 'K'), "", "WDK")); require(is(currency('W', 'D', 'L'), "", "WDL")); require(is(currency('W', 'D', 'M'), "", "WDM")); require(is(currency('W', 'D', 'N'), "", "WDN")); require(is(currency('W', 'D', 'O'), "", "WDO")); require(is(currency('W', 'D', 'P'), "", "WDP")); require(is(currency('W', 'D', 'Q'), "", "WDQ")); require(is(currency('W', 'D', 'R'), "", "WDR")); require(is(currency('W', 'D', 'S'), "", "WDS")); require(is(currency('W', 'D', 'T'), "", "WDT")); require(is(currency('W', 'D', 'U'), "", "WDU")); require(is(currency('W', 'D', 'V'), "", "WDV")); require(is(currency('W', 'D', 'W'), "", "WDW")); require(is(currency('W', 'D', 'X'), "", "WDX")); require(is(currency('W', 'D', 'Y'), "", "WDY")); require(is(currency('W', 'D', 'Z'), "", "WDZ"));)
OBLIGATION(no_currency_WE, "esl/economics/currencies.hpp: currency_name (codes without a currency from WE)", (), require(is(currency('W', 'E', 'A'), "", "WEA")); require(is(currency('W', 'E', 'B'), "", "WEB")); require(is(currency('W', 'E', 'C'), "", "WEC")); require(is(currency('W', 'E', 'D'), "", "WED")); require(is(currency('W', 'E', 'E'), "", "WEE")); require(is(currency('W', 'E', 'F'), "", "WEF")); require(is(currency('W', 'E', 'G'), "", "WEG")); require(is(currency('W', 'E', 'H'), "", "WEH")); require(is(currency('W', 'E', 'I'), "", "WEI")); require(is(currency('W', 'E', 'J'), "", "WEJ")); require(is(currency('W', 'E', 'K'), "", "WEK")); require(is(currency('W', 'E', 'L'), "", "WEL")); require(is(currency('W', 'E', 'M'), "", "WEM")); require(is(currency('W', 'E', 'N'), "", "WEN")); require(is(currency('W', 'E', 'O'), "", "WEO")); require(is(currency('W', 'E', 'P'), "", "WEP")); require(is(currency('W', 'E', 'Q'), "", "WEQ")); require(is(currency('W', 'E', 'R'), "", "WER")); require(is(currency('W', 'E', 'S'), "", "WES")); require(is(currency('W', 'E', 'T'), "", "WET")); require(is(currency('W', 'E', 'U'), "", "WEU")); require(is(currency('W', 'E', 'V'), "", "WEV")); require(is(currency('W', 'E', 'W'), "", "WEW")); require(is(currency('W', 'E', 'X'), "", "WEX")); require(is(currency('W', 'E', 'Y'), "", "WEY")); require(is(currency('W', 'E', 'Z'), "", "WEZ"));)
OBLIGATION(no_currency_WF, "esl/economics/currencies.hpp: currency_name (codes without a currency from WF)", (), require(is(currency('W', 'F', 'A'), "", "WFA")); require(is(currency('W', 'F', 'B'), "", "WFB")); require(is(currency('W', 'F', 'C'), "", "WFC")); require(is(currency('W', 'F', 'D'), "", "WFD")); require(is(currency('W', 'F', 'E'), "", "WFE")); require(is(currency('W', 'F', 'F'), "", "WFF")); require(is(currency('W', 'F', 'G'), "", "WFG")); require(is(currency('W', 'F', 'H'), "", "WFH")); require(is(currency('W', 'F', 'I'), "", "WFI")); require(is(currency('W', 'F', 'J'), "", "WFJ")); require(is(currency('W', 'F', 'K'), "", "WFK")); require(is(currency('W', 'F', 'L'), "", "WFL")); require(is(currency('W', 'F', 'M'), "", "WFM")); require(is(currency('W', 'F', 'N'), "", "WFN")); require(is(currency('W', 'F', 'O'), "", "WFO")); require(is(currency('W', 'F', 'P'), "", "WFP")); require(is(currency('W', 'F', 'Q'), "", "WFQ")); require(is(currency('W', 'F', 'R'), "", "WFR")); require(is(currency('W', 'F', 'S'), "", "WFS")); require(is(currency('W', 'F', 'T'), "", "WFT")); require(is(currency('W', 'F', 'U'), "", "WFU")); require(is(currency('W', 'F', 'V'), "", "WFV")); require(is(currency('W', 'F', 'W'), "", "WFW")); require(is(currency('W', 'F', 'X'), "", "WFX")); require(is(currency('W', 'F', 'Y'), "", "WFY")); require(is(currency('W', 'F', 'Z'), "", "WFZ"));)
OBLIGATION(no_currency_WG, "esl/economics/currencies.hpp: currency_name (codes without a currency from WG)", (), require(is(currency('W', 'G', 'A'), "", "WGA")); require(is(currency('W', 'G', 'B'), "", "WGB")); require(is(currency('W', 'G', 'C'), "", "WGC")); require(is(currency('W', 'G', 'D'), "", "WGD")); require(is(currency('W', 'G', 'E'), "", "WGE")); require(is(currency('W', 'G', 'F'), "", "WGF")); require(is(currency('W', 'G', 'G'), "", "WGG")); require(is(currency('W', 'G', 'H'), "", "WGH")); require(is(currency('W', 'G', 'I'), "", "WGI")); require(is(currency('W', 'G', 'J'), "", "WGJ")); require(is(currency('W', 'G', 'K'), "", "WGK")); require(is(currency('W', 'G', 'L'), "", "WGL")); require(is(currency('W', 'G', 'M'), "", "WGM")); require(is(currency('W', 'G', 'N'), "", "WGN")); require(is(currency('W', 'G', 'O'), "", "WGO")); require(is(currency('W', 'G', 'P'), "", "WGP")); require(is(currency('W', 'G', 'Q'), "", "WGQ")); require(is(currency('W', 'G', 'R'), "", "WGR")); require(is(currency('W', 'G', 'S'), "", "WGS")); require(is(currency('W', 'G', 'T'), "", "WGT")); require(is(currency('W', 'G', 'U'), "", "WGU")); require(is(currency('W', 'G', 'V'), "", "WGV")); require(is(currency('W', 'G', 'W'), "", "WGW")); require(is(currency('W', 'G', 'X'), "", "WGX")); require(is(currency('W', 'G', 'Y'), "", "WGY")); require(is(currency('W', 'G', 'Z'), "", "WGZ"));)
OBLIGATION(no_currency_WH, "esl/economics/currencies.hpp: currency_name (codes without a currency from WH)", (), require(is(currency('W', 'H', 'A'), "", "WHA")); require(is(currency('W', 'H', 'B'), "", "WHB")); require(is(currency('W', 'H', 'C'), "", "WHC")); require(is(currency('W', 'H', 'D'), "", "WHD")); require(is(currency('W', 'H', 'E'), "", "WHE")); require(is(currency('W', 'H', 'F'), "", "WHF")); require(is(currency('W', 'H', 'G'), "", "WHG")); require(is(currency('W', 'H', 'H'), "", "WHH")); require(is(currency('W', 'H', 'I'), "", "WHI")); require(is(currency('W', 'H', 'J'), "", "WHJ")); require(is(currency('W', 'H', 'K'), "", "WHK")); require(is(currency('W', 'H', 'L'), "", "WHL")); require(is(currency('W', 'H', 'M'), "", "WHM")); require(is(currency('W', 'H', 'N'), "", "WHN")); require(is(currency('W', 'H', 'O'), "", "WHO")); require(is(currency('W', 'H', 'P'), "", "WHP")); require(is(currency('W', 'H', 'Q'), "", "WHQ")); require(is(currency('W', 'H', 'R'), "", "WHR")); require(is(currency('W', 'H', 'S'), "", "WHS")); require(is(currency('W', 'H', 'T'), "", "WHT")); require(is(currency('W', 'H', 'U'), "", "WHU")); require(is(currency('W', 'H', 'V'), "", "WHV")); require(is(currency('W', 'H', 'W'), "", "WHW")); require(is(currency('W', 'H', 'X'), "", "WHX")); require(is(currency('W', 'H', 'Y'), "", "WHY")); require(is(currency('W', 'H', 'Z'), "", "WHZ"));)
OBLIGATION(no_currency_WI, "esl/economics/currencies.hpp: currency_name (codes without a currency from WI)", (), require(is(currency('W', 'I', 'A'), "", "WIA")); require(is(currency('W', 'I', 'B'), "", "WIB")); require(is(currency('W', 'I', 'C'), "", "WIC")); require(is(currency('W', 'I', 'D'), "", "WID")); require(is(currency('W', 'I', 'E'), "", "WIE")); require(is(currency('W', 'I', 'F'), "", "WIF")); require(is(currency('W', 'I', 'G'), "", "WIG")); require(is(currency('W', 'I', 'H'), "", "WIH")); require(is(currency('W', 'I', 'I'), "", "WII")); require(is(currency('W', 'I', 'J'), "", "WIJ")); require(is(currency('W', 'I', 'K'), "", "WIK")); require(is(currency('W', 'I', 'L'), "", "WIL")); require(is(currency('W', 'I', 'M'), "", "WIM")); require(is(currency('W', 'I', 'N'), "", "WIN")); require(is(currency('W', 'I', 'O'), "", "WIO")); require(is(currency('W', 'I', 'P'), "", "WIP")); require(is(currency('W', 'I', 'Q'), "", "WIQ")); require(is(currency('W', 'I', 'R'), "", "WIR")); require(is(currency('W', 'I', 'S'), "", "WIS")); require(is(currency('W', 'I', 'T'), "", "WIT")); require(is(currency('W', 'I', 'U'), "", "WIU")); require(is(currency('W', 'I', 'V'), "", "WIV")); require(is(currency('W', 'I', 'W'), "", "WIW")); require(is(currency('W', 'I', 'X'), "", "WIX")); require(is(currency('W', 'I', 'Y'), "", "WIY")); require(is(currency('W', 'I', 'Z'), "", "WIZ"));)
OBLIGATION(no_currency_WJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from WJ)", (), require(is(currency('W', 'J', 'A'), "", "WJA")); require(is(currency('W', 'J', 'B'), "", "WJB")); require(is(currency('W', 'J', 'C'), "", "WJC")); require(is(currency('W', 'J', 'D'), "", "WJD")); require(is(currency('W', 'J', 'E'), "", "WJE")); require(is(currency('W', 'J', 'F'), "", "WJF")); require(is(currency('W', 'J', 'G'), "", "WJG")); require(is(currency('W', 'J', 'H'), "", "WJH")); require(is(currency('W', 'J', 'I'), "", "WJI")); require(is(currency('W', 'J', 'J'), "", "WJJ")); require(is(currency('W', 'J', 'K'), "", "WJK")); require(is(currency('W', 'J', 'L'), "", "WJL")); require(is(currency('W', 'J', 'M'), "", "WJM")); require(is(currency('W', 'J', 'N'), "", "WJN")); require(is(currency('W', 'J', 'O'), "", "WJO")); require(is(currency('W', 'J', 'P'), "", "WJP")); require(is(currency('W', 'J', 'Q'), "", "WJQ")); require(is(currency('W', 'J', 'R'), "", "WJR")); require(is(currency('W', 'J', 'S'), "", "WJS")); require(is(currency('W', 'J', 'T'), "", "WJT")); require(is(currency('W', 'J', 'U'), "", "WJU")); require(is(currency('W', 'J', 'V'), "", "WJV")); require(is(currency('W', 'J', 'W'), "", "WJW")); require(is(currency('W', 'J', 'X'), "", "WJX")); require(is(currency('W', 'J', 'Y'), "", "WJY")); require(is(currency('W', 'J', 'Z'), "", "WJZ"));)
OBLIGATION(no_currency_WK, "esl/economics/currencies.hpp: currency_name (codes without a currency from WK)", (), require(is(currency('W', 'K', 'A'), "", "WKA")); require(is(currency('W', 'K', 'B'), "", "WKB")); require(is(currency('W', 'K', 'C'), "", "WKC")); require(is(currency('W', 'K', 'D'), "", "WKD")); require(is(currency('W', 'K', 'E'), "", "WKE")); require(is(currency('W', 'K', 'F'), "", "WKF")); require(is(currency('W', 'K', 'G'), "", "WKG")); require(is(currency('W', 'K', 'H'), "", "WKH")); require(is(currency('W', 'K', 'I'), "", "WKI")); require(is(currency('W', 'K', 'J'), "", "WKJ")); require(is(currency('W', 'K', 'K'), "", "WKK")); require(is(currency('W', 'K', 'L'), "", "WKL")); require(is(currency('W', 'K', 'M'), "", "WKM")); require(is(currency('W', 'K', 'N'), "", "WKN")); require(is(currency('W', 'K', 'O'), "", "WKO")); require(is(currency('W', 'K', 'P'), "", "WKP")); require(is(currency('W', 'K', 'Q'), "", "WKQ")); require(is(currency('W', 'K', 'R'), "", "WKR")); require(is(currency('W', 'K', 'S'), "", "WKS")); require(is(currency('W', 'K', 'T'), "", "WKT")); require(is(currency('W', 'K', 'U'), "", "WKU")); require(is(currency('W', 'K', 'V'), "", "WKV")); require(is(currency('W', 'K', 'W'), "", "WKW")); require(is(currency('W', 'K', 'X'), "", "WKX")); require(is(currency('W', 'K', 'Y'), "", "WKY")); require(is(currency('W', 'K', 'Z'), "", "WKZ"));)
OBLIGATION(no_currency_WL, "esl/economics/currencies.hpp: currency_name (codes without a currency from WL)", (), require(is(currency('W', 'L', 'A'), "", "WLA")); require(is(currency('W', 'L', 'B'), "", "WLB")); require(is(currency('W', 'L', 'C'), "", "WLC")); require(is(currency('W', 'L', 'D'), "", "WLD")); require(is(currency('W', 'L', 'E'), "", "WLE")); require(is(currency('W', 'L', 'F'), "", "WLF")); require(is(currency('W', 'L', 'G'), "", "WLG")); require(is(currency('W', 'L', 'H'), "", "WLH")); require(is(currency('W', 'L', 'I'), "", "WLI")); require(is(currency('W', 'L', 'J'), "", "WLJ")); require(is(currency('W', 'L', 'K'), "", "WLK")); require(is(currency('W', 'L', 'L'), "", "WLL")); require(is(currency('W', 'L', 'M'), "", "WLM")); require(is(currency('W', 'L', 'N'), "", "WLN")); require(is(currency('W', 'L', 'O'), "", "WLO")); require(is(currency('W', 'L', 'P'), "", "WLP")); require(is(currency('W', 'L', 'Q'), "", "WLQ")); require(is(currency('W', 'L', 'R'), "", "WLR")); require(is(currency('W', 'L', 'S'), "", "WLS")); require(is(currency('W', 'L', 'T'), "", "WLT")); require(is(currency('W', 'L', 'U'), "", "WLU")); require(is(currency('W', 'L', 'V'), "", "WLV")); require(is(currency('W', 'L', 'W'), "", "WLW")); require(is(currency('W', 'L', 'X'), "", "WLX")); require(is(currency('W', 'L', 'Y'), "", "WLY")); require(is(currency('W', 'L', 'Z'), "", "WLZ"));)
OBLIGATION(no_currency_WM, "esl/economics/currencies.hpp: currency_name (codes without a currency from WM)", (), require(is(currency('W', 'M', 'A'), "", "WMA")); require(is(currency('W', 'M', 'B'), "", "WMB")); require(is(currency('W', 'M', 'C'), "", "WMC")); require(is(currency('W', 'M', 'D'), "", "WMD")); require(is(currency('W', 'M', 'E'), "", "WME")); require(is(currency('W', 'M', 'F'), "", "WMF")); require(is(currency('W', 'M', 'G'), "", "WMG")); require(is(currency('W', 'M', 'H'), "", "WMH")); require(is(currency('W', 'M', 'I'), "", "WMI")); require(is(currency('W', 'M', 'J'), "", "WMJ")); require(is(currency('W', 'M', 'K'), "", "WMK")); require(is(currency('W', 'M', 'L'), "", "WML")); require(is(currency('W', 'M', 'M'), "", "WMM")); require(is(currency('W', 'M', 'N'), "", "WMN")); require(is(currency('W', 'M', 'O'), "", "WMO")); require(is(currency('W', 'M', 'P'), "", "WMP")); require(is(currency('W', 'M', 'Q'), "", "WMQ")); require(is(currency('W', 'M', 'R'), "", "WMR")); require(is(currency('W', 'M', 'S'), "", "WMS")); require(is(currency('W', 'M', 'T'), "", "WMT")); require(is(currency('W', 'M', 'U'), "", "WMU")); require(is(currency('W', 'M', 'V'), "", "WMV")); require(is(currency('W', 'M', 'W'), "", "WMW")); require(is(currency('W', 'M', 'X'), "", "WMX")); require(is(currency('W', 'M', 'Y'), "", "WMY")); require(is(currency('W', 'M', 'Z'), "", "WMZ"));)
OBLIGATION(no_currency_WN, "esl/economics/currencies.hpp: currency_name (codes without a currency from WN)", (), require(is(currency('W', 'N', 'A'), "", "WNA")); require(is(currency('W', 'N', 'B'), "", "WNB")); require(is(currency('W', 'N', 'C'), "", "WNC")); require(is(currency('W', 'N', 'D'), "", "WND")); require(is(currency('W', 'N', 'E'), "", "WNE")); require(is(currency('W', 'N', 'F'), "", "WNF")); require(is(currency('W', 'N', 'G'), "", "WNG")); require(is(currency('W', 'N', 'H'), "", "WNH")); require(is(currency('W', 'N', 'I'), "", "WNI")); require(is(currency('W', 'N', 'J'), "", "WNJ")); require(is(currency('W', 'N', 'K'), "", "WNK")); require(is(currency('W', 'N', 'L'), "", "WNL")); require(is(currency('W', 'N', 'M'), "", "WNM")); require(is(currency('W', 'N', 'N'), "", "WNN")); require(is(currency('W', 'N', 'O'), "", "WNO")); require(is(currency('W', 'N', 'P'), "", "WNP")); require(is(currency('W', 'N', 'Q'), "", "WNQ")); require(is(currency('W', 'N', 'R'), "", "WNR")); require(is(currency('W', 'N', 'S'), "", "WNS")); require(is(currency('W', 'N', 'T'), "", "WNT")); require(is(currency('W', 'N', 'U'), "", "WNU")); require(is(currency('W', 'N', 'V'), "", "WNV")); require(is(currency('W', 'N', 'W'), "", "WNW")); require(is(currency('W', 'N', 'X'), "", "WNX")); require(is(currency('W', 'N', 'Y'), "", "WNY")); require(is(currency('W', 'N', 'Z'), "", "WNZ"));)
OBLIGATION(no_currency_WO, "esl/economics/currencies.hpp: currency_name (codes without a currency from WO)", (), require(is(currency('W', 'O', 'A'), "", "WOA")); require(is(currency('W', 'O', 'B'), "", "WOB")); require(is(currency('W', 'O', 'C'), "", "WOC")); require(is(currency('W', 'O', 'D'), "", "WOD")); require(is(currency('W', 'O', 'E'), "", "WOE")); require(is(currency('W', 'O', 'F'), "", "WOF")); require(is(currency('W', 'O', 'G'), "", "WOG")); require(is(currency('W', 'O', 'H'), "", "WOH")); require(is(currency('W', 'O', 'I'), "", "WOI")); require(is(currency('W', 'O', 'J'), "", "WOJ")); require(is(currency('W', 'O', 'K'), "", "WOK")); require(is(currency('W', 'O', 'L'), "", "WOL")); require(is(currency('W', 'O', 'M'), "", "WOM")); require(is(currency('W', 'O', 'N'), "", "WON")); require(is(currency('W', 'O', 'O'), "", "WOO")); require(is(currency('W', 'O', 'P'), "", "WOP")); require(is(currency('W', 'O', 'Q'), "", "WOQ")); require(is(currency('W', 'O', 'R'), "", "WOR")); require(is(currency('W', 'O', 'S'), "", "WOS")); require(is(currency('W', 'O', 'T'), "", "WOT")); require(is(currency('W', 'O', 'U'), "", "WOU")); require(is(currency('W', 'O', 'V'), "", "WOV")); require(is(currency('W', 'O', 'W'), "", "WOW")); require(is(currency('W', 'O', 'X'), "", "WOX")); require(is(currency('W', 'O', 'Y'), "", "WOY")); require(is(currency('W', 'O', 'Z'), "", "WOZ"));)
OBLIGATION(no_currency_WP, "esl/economics/currencies.hpp: currency_name (codes without a currency from WP)", (), require(is(currency('W', 'P', 'A'), "", "WPA")); require(is(currency('W', 'P', 'B'), "", "WPB")); require(is(currency('W', 'P', 'C'), "", "WPC")); require(is(currency('W', 'P', 'D'), "", "WPD")); require(is(currency('W', 'P', 'E'), "", "WPE")); require(is(currency('W', 'P', 'F'), "", "WPF")); require(is(currency('W', 'P', 'G'), "", "WPG")); require(is(currency('W', 'P', 'H'), "", "WPH")); require(is(currency('W', 'P', 'I'), "", "WPI")); require(is(currency('W', 'P', 'J'), "", "WPJ")); require(is(currency('W', 'P', 'K'), "", "WPK")); require(is(currency('W', 'P', 'L'), "", "WPL")); require(is(currency('W', 'P', 'M'), "", "WPM")); require(is(currency('W', 'P', 'N'), "", "WPN")); require(is(currency('W', 'P', 'O'), "", "WPO")); require(is(currency('W', 'P', 'P'), "", "WPP")); require(is(currency('W', 'P', 'Q'), "", "WPQ")); require(is(currency('W', 'P', 'R'), "", "WPR")); require(is(currency('W', 'P', 'S'), "", "WPS")); require(is(currency('W', 'P', 'T'), "", "WPT")); require(is(currency('W', 'P', 'U'), "", "WPU")); require(is(currency('W', 'P', 'V'), "", "WPV")); require(is(currency('W', 'P', 'W'), "", "WPW")); require(is(currency('W', 'P', 'X'), "", "WPX")); require(is(currency('W', 'P', 'Y'), "", "WPY")); require(is(currency('W', 'P', 'Z'), "", "WPZ"));)
OBLIGATION(no_currency_WQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from WQ)", (), require(is(currency('W', 'Q', 'A'), "", "WQA")); require(is(currency('W', 'Q', 'B'), "", "WQB")); require(is(currency('W', 'Q', 'C'), "", "WQC")); require(is(currency('W', 'Q', 'D'), "", "WQD")); require(is(currency('W', 'Q', 'E'), "", "WQE")); require(is(currency('W', 'Q', 'F'), "", "WQF")); require(is(currency('W', 'Q', 'G'), "", "WQG")); require(is(currency('W', 'Q', 'H'), "", "WQH")); require(is(currency('W', 'Q', 'I'), "", "WQI")); require(is(currency('W', 'Q', 'J'), "", "WQJ")); require(is(currency('W', 'Q', 'K'), "", "WQK")); require(is(currency('W', 'Q', 'L'), "", "WQL")); require(is(currency('W', 'Q', 'M'), "", "WQM")); require(is(currency('W', 'Q', 'N'), "", "WQN")); require(is(currency('W', 'Q', 'O'), "", "WQO")); require(is(currency('W', 'Q', 'P'), "", "WQP")); require(is(currency('W', 'Q', 'Q'), "", "WQQ")); require(is(currency('W', 'Q', 'R'), "", "WQR")); require(is(currency('W', 'Q', 'S'), "", "WQS")); require(is(currency('W', 'Q', 'T'), "", "WQT")); require(is(currency('W', 'Q', 'U'), "", "WQU")); require(is(currency('W', 'Q', 'V'), "", "WQV")); require(is(currency('W', 'Q', 'W'), "", "WQW")); require(is(currency('W', 'Q', 'X'), "", "WQX")); require(is(currency('W', 'Q', 'Y'), "", "WQY")); require(is(currency('W', 'Q', 'Z'), "", "WQZ"));)
OBLIGATION(no_currency_WR, "esl/economics/currencies.hpp: currency_name (codes without a currency from WR)", (), require(is(currency('W', 'R', 'A'), "", "WRA")); require(is(currency('W', 'R', 'B'), "", "WRB")); require(is(currency('W', 'R', 'C'), "", "WRC")); require(is(currency('W', 'R', 'D'), "", "WRD")); require(is(currency('W', 'R', 'E'), "", "WRE")); require(is(currency('W', 'R', 'F'), "", "WRF")); require(is(currency('W', 'R', 'G'), "", "WRG")); require(is(currency('W', 'R', 'H'), "", "WRH")); require(is(currency('W', 'R', 'I'), "", "WRI")); require(is(currency('W', 'R', 'J'), "", "WRJ")); require(is(currency('W', 'R', 'K'), "", "WRK")); require(is(currency('W', 'R', 'L'), "", "WRL")); require(is(currency('W', 'R', 'M'), "", "WRM")); require(is(currency('W', 'R', 'N'), "", "WRN")); require(is(currency('W', 'R', 'O'), "", "WRO")); require(is(currency('W', 'R', 'P'), "", "WRP")); require(is(currency('W', 'R', 'Q'), "", "WRQ")); require(is(currency('W', 'R', 'R'), "", "WRR")); require(is(currency('W', 'R', 'S'), "", "WRS")); require(is(currency('W', 'R', 'T'), "", "WRT")); require(is(currency('W', 'R', 'U'), "", "WRU")); require(is(currency('W', 'R', 'V'), "", "WRV")); require(is(currency('W', 'R', 'W'), "", "WRW")); require(is(currency('W', 'R', 'X'), "", "WRX")); require(is(currency('W', 'R', 'Y'), "", "WRY")); require(is(currency('W', 'R', 'Z'), "", "WRZ"));)
OBLIGATION(no_currency_WS, "esl/economics/currencies.hpp: currency_name (codes without a currency from WS)", (), require(is(currency('W', 'S', 'A'), "", "WSA")); require(is(currency('W', 'S', 'B'), "", "WSB")); require(is(currency('W', 'S', 'C'), "", "WSC")); require(is(currency('W', 'S', 'D'), "", "WSD")); require(is(currency('W', 'S', 'E'), "", "WSE")); require(is(currency('W', 'S', 'F'), "", "WSF")); require(is(currency('W', 'S', 'G'), "", "WSG")); require(is(currency('W', 'S', 'H'), "", "WSH")); require(is(currency('W', 'S', 'I'), "", "WSI")); require(is(currency('W', 'S', 'J'), "", "WSJ")); require(is(currency('W', 'S', 'K'), "", "WSK")); require(is(currency('W', 'S', 'L'), "", "WSL")); require(is(currency('W', 'S', 'M'), "", "WSM")); require(is(currency('W', 'S', 'N'), "", "WSN")); require(is(currency('W', 'S', 'O'), "", "WSO")); require(is(currency('W', 'S', 'P'), "", "WSP")); require(is(currency('W', 'S', 'Q'), "", "WSQ")); require(is(currency('W', 'S', 'R'), "", "WSR")); require(is(currency('W', 'S', 'S'), "", "WSS")); require(is(currency('W', 'S', 'U'), "", "WSU")); require(is(currency('W', 'S', 'V'), "", "WSV")); require(is(currency('W', 'S', 'W'), "", "WSW")); require(is(currency('W', 'S', 'X'), "", "WSX")); require(is(currency('W', 'S', 'Y'), "", "WSY")); require(is(currency('W', 'S', 'Z'), "", "WSZ"));)
OBLIGATION(no_currency_WT, "esl/economics/currencies.hpp: currency_name (codes without a currency from WT)", (), require(is(currency('W', 'T', 'A'), "", "WTA")); require(is(currency('W', 'T', 'B'), "", "WTB")); require(is(currency('W', 'T', 'C'), "", "WTC")); require(is(currency('W', 'T', 'D'), "", "WTD")); require(is(currency('W', 'T', 'E'), "", "WTE")); require(is(currency('W', 'T', 'F'), "", "WTF")); require(is(currency('W', 'T', 'G'), "", "WTG")); require(is(currency('W', 'T', 'H'), "", "WTH")); require(is(currency('W', 'T', 'I'), "", "WTI")); require(is(currency('W', 'T', 'J'), "", "WTJ")); require(is(currency('W', 'T', 'K'), "", "WTK")); require(is(currency('W', 'T', 'L'), "", "WTL")); require(is(currency('W', 'T', 'M'), "", "WTM")); require(is(currency('W', 'T', 'N'), "", "WTN")); require(is(currency('W', 'T', 'O'), "", "WTO")); require(is(currency('W', 'T', 'P'), "", "WTP")); require(is(currency('W', 'T', 'Q'), "", "WTQ")); require(is(currency('W', 'T', 'R'), "", "WTR")); require(is(currency('W', 'T', 'S'), "", "WTS")); require(is(currency('W', 'T', 'T'), "", "WTT")); require(is(currency('W', 'T', 'U'), "", "WTU")); require(is(currency('W', 'T', 'V'), "", "WTV")); require(is(currency('W', 'T', 'W'), "", "WTW")); require(is(currency('W', 'T', 'X'), "", "WTX")); require(is(currency('W', 'T', 'Y'), "", "WTY")); require(is(currency('W', 'T', 'Z'), "", "WTZ"));)
OBLIGATION(no_currency_WU, "esl/economics/currencies.hpp: currency_name (codes without a currency from WU)", (), require(is(currency('W', 'U', 'A'), "", "WUA")); require(is(currency('W', 'U', 'B'), "", "WUB")); require(is(currency('W', 'U', 'C'), "", "WUC")); require(is(currency('W', 'U', 'D'), "", "WUD")); require(is(currency('W', 'U', 'E'), "", "WUE")); require(is(currency('W', 'U', 'F'), "", "WUF")); require(is(currency('W', 'U', 'G'), "", "WUG")); require(is(currency('W', 'U', 'H'), "", "WUH")); require(is(currency('W', 'U', 'I'), "", "WUI")); require(is(currency('W', 'U', 'J'), "", "WUJ")); require(is(currency('W', 'U', 'K'), "", "WUK")); require(is(currency('W', 'U', 'L'), "", "WUL")); require(is(currency('W', 'U', 'M'), "", "WUM")); require(is(currency('W', 'U', 'N'), "", "WUN")); require(is(currency('W', 'U', 'O'), "", "WUO")); require(is(currency('W', 'U', 'P'), "", "WUP")); require(is(currency('W', 'U', 'Q'), "", "WUQ")); require(is(currency('W', 'U', 'R'), "", "WUR")); require(is(currency('W', 'U', 'S'), "", "WUS")); require(is(currency('W', 'U', 'T'), "", "WUT")); require(is(currency('W', 'U', 'U'), "", "WUU")); require(is(currency('W', 'U', 'V'), "", "WUV")); require(is(currency('W', 'U', 'W'), "", "WUW")); require(is(currency('W', 'U', 'X'), "", "WUX")); require(is(currency('W', 'U', 'Y'), "", "WUY")); require(is(currency('W', 'U', 'Z'), "", "WUZ"));)
OBLIGATION(no_currency_WV, "esl/economics/currencies.hpp: currency_name (codes without a currency from WV)", (), require(is(currency('W', 'V', 'A'), "", "WVA")); require(is(currency('W', 'V', 'B'), "", "WVB")); require(is(currency('W', 'V', 'C'), "", "WVC")); require(is(currency('W', 'V', 'D'), "", "WVD")); require(is(currency('W', 'V', 'E'), "", "WVE")); require(is(currency('W', 'V', 'F'), "", "WVF")); require(is(currency('W', 'V', 'G'), "", "WVG")); require(is(currency('W', 'V', 'H'), "", "WVH")); require(is(currency('W', 'V', 'I'), "", "WVI")); require(is(currency('W', 'V', 'J'), "", "WVJ")); require(is(currency('W', 'V', 'K'), "", "WVK")); require(is(currency('W', 'V', 'L'), "", "WVL")); require(is(currency('W', 'V', 'M'), "", "WVM")); require(is(currency('W', 'V', 'N'), "", "WVN")); require(is(currency('W', 'V', 'O'), "", "WVO")); require(is(currency('W', 'V', 'P'), "", "WVP")); require(is(currency('W', 'V', 'Q'), "", "WVQ")); require(is(currency('W', 'V', 'R'), "", "WVR")); require(is(currency('W', 'V', 'S'), "", "WVS")); require(is(currency('W', 'V', 'T'), "", "WVT")); require(is(currency('W', 'V', 'U'), "", "WVU")); require(is(currency('W', 'V', 'V'), "", "WVV")); require(is(currency('W', 'V', 'W'), "", "WVW")); require(is(currency('W', 'V', 'X'), "", "WVX")); require(is(currency('W', 'V', 'Y'), "", "WVY")); require(is(currency('W', 'V', 'Z'), "", "WVZ"));)
OBLIGATION(no_currency_WW, "esl/economics/currencies.hpp: currency_name (codes without a currency from WW)", (), require(is(currency('W', 'W', 'A'), "", "WWA")); require(is(currency('W', 'W', 'B'), "", "WWB")); require(is(currency('W', 'W', 'C'), "", "WWC")); require(is(currency('W', 'W', 'D'), "", "WWD")); require(is(currency('W', 'W', 'E'), "", "WWE")); require(is(currency('W', 'W', 'F'), "", "WWF")); require(is(currency('W', 'W', 'G'), "", "WWG")); require(is(currency('W', 'W', 'H'), "", "WWH")); require(is(currency('W', 'W', 'I'), "", "WWI")); require(is(currency('W', 'W', 'J'), "", "WWJ")); require(is(currency('W', 'W', 'K'), "", "WWK")); require(is(currency('W', 'W', 'L'), "", "WWL")); require(is(currency('W', 'W', 'M'), "", "WWM")); require(is(currency('W', 'W', 'N'), "", "WWN")); require(is(currency('W', 'W', 'O'), "", "WWO")); require(is(currency('W', 'W', 'P'), "", "WWP")); require(is(currency('W', 'W', 'Q'), "", "WWQ")); require(is(currency('W', 'W', 'R'), "", "WWR")); require(is(currency('W', 'W', 'S'), "", "WWS")); require(is(currency('W', 'W', 'T'), "", "WWT")); require(is(currency('W', 'W', 'U'), "", "WWU")); require(is(currency('W', 'W', 'V'), "", "WWV")); require(is(currency('W', 'W', 'W'), "", "WWW")); require(is(currency('W', 'W', 'X'), "", "WWX")); require(is(currency('W', 'W', 'Y'), "", "WWY")); require(is(currency('W', 'W', 'Z'), "", "WWZ"));)
OBLIGATION(no_currency_WX, "esl/economics/currencies.hpp: currency_name (codes without a currency from WX)", (), require(is(currency('W', 'X', 'A'), "", "WXA")); require(is(currency('W', 'X', 'B'), "", "WXB")); require(is(currency('W', 'X', 'C'), "", "WXC")); require(is(currency('W', 'X', 'D'), "", "WXD")); require(is(currency('W', 'X', 'E'), "", "WXE")); require(is(currency('W', 'X', 'F'), "", "WXF")); require(is(currency('W', 'X', 'G'), "", "WXG")); require(is(currency('W', 'X', 'H'), "", "WXH")); require(is(currency('W', 'X', 'I'), "", "WXI")); require(is(currency('W', 'X', 'J'), "", "WXJ")); require(is(currency('W', 'X', 'K'), "", "WXK")); require(is(currency('W', 'X', 'L'), "", "WXL")); require(is(currency('W', 'X', 'M'), "", "WXM")); require(is(currency('W', 'X', 'N'), "", "WXN")); require(is(currency('W', 'X', 'O'), "", "WXO")); require(is(currency('W', 'X', 'P'), "", "WXP")); require(is(currency('W', 'X', 'Q'), "", "WXQ")); require(is(currency('W', 'X', 'R'), "", "WXR")); require(is(currency('W', 'X', 'S'), "", "WXS")); require(is(currency('W', 'X', 'T'), "", "WXT")); require(is(currency('W', 'X', 'U'), "", "WXU")); require(is(currency('W', 'X', 'V'), "", "WXV")); require(is(currency('W', 'X', 'W'), "", "WXW")); require(is(currency('W', 'X', 'X'), "", "WXX")); require(is(currency('W', 'X', 'Y'), "", "WXY")); require(is(currency('W', 'X', 'Z'), "", "WXZ"));)
OBLIGATION(no_currency_WY, "esl/economics/currencies.hpp: currency_name (codes without a currency from WY)", (), require(is(currency('W', 'Y', 'A'), "", "WYA")); require(is(currency('W', 'Y', 'B'), "", "WYB")); require(is(currency('W', 'Y', 'C'), "", "WYC")); require(is(currency('W', 'Y', 'D'), "", "WYD")); require(is(currency('W', 'Y', 'E'), "", "WYE")); require(is(currency('W', 'Y', 'F'), "", "WYF")); require(is(currency('W', 'Y', 'G'), "", "WYG")); require(is(currency('W', 'Y', 'H'), "", "WYH")); require(is(currency('W', 'Y', 'I'), "", "WYI")); require(is(currency('W', 'Y', 'J'), "", "WYJ")); require(is(currency('W', 'Y', 'K'), "", "WYK")); require(is(currency('W', 'Y', 'L'), "", "WYL")); require(is(currency('W', 'Y', 'M'), "", "WYM")); require(is(currency('W', 'Y', 'N'), "", "WYN")); require(is(currency('W', 'Y', 'O'), "", "WYO")); require(is(currency('W', 'Y', 'P'), "", "WYP")); require(is(currency('W', 'Y', 'Q'), "", "WYQ")); require(is(currency('W', 'Y', 'R'), "", "WYR")); require(is(currency('W', 'Y', 'S'), "", "WYS")); require(is(currency('W', 'Y', 'T'), "", "WYT")); require(is(currency('W', 'Y', 'U'), "", "WYU")); require(is(currency('W', 'Y', 'V'), "", "WYV")); require(is(currency('W', 'Y', 'W'), "", "WYW")); require(is(currency('W', 'Y', 'X'), "", "WYX")); require(is(currency('W', 'Y', 'Y'), "", "WYY")); require(is(currency('W', 'Y', 'Z'), "", "WYZ"));)
OBLIGATION(no_currency_WZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from WZ)", (), require(is(currency('W', 'Z', 'A'), "", "WZA")); require(is(currency('W', 'Z', 'B'), "", "WZB")); require(is(currency('W', 'Z', 'C'), "", "WZC")); require(is(currency('W', 'Z', 'D'), "", "WZD")); require(is(currency('W', 'Z', 'E'), "", "WZE")); require(is(currency('W', 'Z', 'F'), "", "WZF")); require(is(currency('W', 'Z', 'G'), "", "WZG")); require(is(currency('W', 'Z', 'H'), "", "WZH")); require(is(currency('W', 'Z', 'I'), "", "WZI")); require(is(currency('W', 'Z', 'J'), "", "WZJ")); require(is(currency('W', 'Z', 'K'), "", "WZK")); require(is(currency('W', 'Z', 'L'), "", "WZL")); require(is(currency('W', 'Z', 'M'), "", "WZM")); require(is(currency('W', 'Z', 'N'), "", "WZN")); require(is(currency('W', 'Z', 'O'), "", "WZO")); require(is(currency('W', 'Z', 'P'), "", "WZP")); require(is(currency('W', 'Z', 'Q'), "", "WZQ")); require(is(currency('W', 'Z', 'R'), "", "WZR")); require(is(currency('W', 'Z', 'S'), "", "WZS")); require(is(currency('W', 'Z', 'T'), "", "WZT")); require(is(currency('W', 'Z', 'U'), "", "WZU")); require(is(currency('W', 'Z', 'V'), "", "WZV")); require(is(currency('W', 'Z', 'W'), "", "WZW")); require(is(currency('W', 'Z', 'X'), "", "WZX")); require(is(currency('W', 'Z', 'Y'), "", "WZY")); require(is(currency('W', 'Z', 'Z'), "", "WZZ"));)
OBLIGATION(no_currency_XA, "esl/economics/currencies.hpp: currency_name (codes without a currency from XA)", (), require(is(currency('X', 'A', 'A'), "", "XAA")); require(is(currency('X', 'A', 'B'), "", "XAB")); require(is(currency('X', 'A', 'C'), "", "XAC")); require(is(currency('X', 'A', 'D'), "", "XAD")); require(is(currency('X', 'A', 'E'), "", "XAE")); require(is(currency('X', 'A', 'H'), "", "XAH")); require(is(currency('X', 'A', 'I'), "", "XAI")); require(is(currency('X', 'A', 'J'), "", "XAJ")); require(is(currency('X', 'A', 'K'), "", "XAK")); require(is(currency('X', 'A', 'L'), "", "XAL")); require(is(currency('X', 'A', 'M'), "", "XAM")); require(is(currency('X', 'A', 'N'), "", "XAN")); require(is(currency('X', 'A', 'O'), "", "XAO")); require(is(currency('X', 'A', 'P'), "", "XAP")); require(is(currency('X', 'A', 'Q'), "", "XAQ")); require(is(currency('X', 'A', 'R'), "", "XAR")); require(is(currency('X', 'A', 'S'), "", "XAS")); require(is(currency('X', 'A', 'T'), "", "XAT")); require(is(currency('X', 'A', 'V'), "", "XAV")); require(is(currency('X', 'A', 'W'), "", "XAW")); require(is(currency('X', 'A', 'X'), "", "XAX")); require(is(currency('X', 'A', 'Y'), "", "XAY")); require(is(currency('X', 'A', 'Z'), "", "XAZ"));)
OBLIGATION(no_currency_XB, "esl/economics/currencies.hpp: currency_name (codes without a currency from XB)", (), require(is(currency('X', 'B', 'E'), "", "XBE")); require(is(currency('X', 'B', 'F'), "", "XBF")); require(is(currency('X', 'B', 'G'), "", "XBG")); require(is(currency('X', 'B', 'H'), "", "XBH")); require(is(currency('X', 'B', 'I'), "", "XBI")); require(is(currency('X', 'B', 'J'), "", "XBJ")); require(is(currency('X', 'B', 'K'), "", "XBK")); require(is(currency('X', 'B', 'L'), "", "XBL")); require(is(currency('X', 'B', 'M'), "", "XBM")); require(is(currency('X', 'B', 'N'), "", "XBN")); require(is(currency('X', 'B', 'O'), "", "XBO")); require(is(currency('X', 'B', 'P'), "", "XBP")); require(is(currency('X', 'B', 'Q'), "", "XBQ")); require(is(currency('X', 'B', 'R'), "", "XBR")); require(is(currency('X', 'B', 'S'), "", "XBS")); require(is(currency('X', 'B', 'T'), "", "XBT")); require(is(currency('X', 'B', 'U'), "", "XBU")); require(is(currency('X', 'B', 'V'), "", "XBV")); require(is(currency('X', 'B', 'W'), "", "XBW")); require(is(currency('X', 'B', 'X'), "", "XBX")); require(is(currency('X', 'B', 'Y'), "", "XBY")); require(is(currency('X', 'B', 'Z'), "", "XBZ"));)
OBLIGATION(no_currency_XC, "esl/economics/currencies.hpp: currency_name (codes without a currency from XC)", (), require(is(currency('X', 'C', 'A'), "", "XCA")); require(is(currency('X', 'C', 'B'), "", "XCB")); require(is(currency('X', 'C', 'C'), "", "XCC")); require(is(currency('X', 'C', 'E'), "", "XCE")); require(is(currency('X', 'C', 'F'), "", "XCF")); require(is(currency('X', 'C', 'G'), "", "XCG")); require(is(currency('X', 'C', 'H'), "", "XCH")); require(is(currency('X', 'C', 'I'), "", "XCI")); require(is(currency('X', 'C', 'J'), "", "XCJ")); require(is(currency('X', 'C', 'K'), "", "XCK")); require(is(currency('X', 'C', 'L'), "", "XCL")); require(is(currency('X', 'C', 'M'), "", "XCM")); require(is(currency('X', 'C', 'N'), "", "XCN")); require(is(currency('X', 'C', 'O'), "", "XCO")); require(is(currency('X', 'C', 'P'), "", "XCP")); require(is(currency('X', 'C', 'Q'), "", "XCQ")); require(is(currency('X', 'C', 'R'), "", "XCR")); require(is(currency('X', 'C', 'S'), "", "XCS")); require(is(currency('X', 'C', 'T'), "", "XCT")); require(is(currency('X', 'C', 'U'), "", "XCU")); require(is(currency('X', 'C', 'V'), "", "XCV")); require(is(currency('X', 'C', 'W'), "", "XCW")); require(is(currency('X', 'C', 'X'), "", "XCX")); require(is(currency('X', 'C', 'Y'), "", "XCY")); require(is(currency('X', 'C', 'Z'), "", "XCZ"));)
OBLIGATION(no_currency_XD, "esl/economics/currencies.hpp: currency_name (codes without a currency from XD)", (), require(is(currency('X', 'D', 'A'), "", "XDA")); require(is(currency('X', 'D', 'B'), "", "XDB")); require(is(currency('X', 'D', 'C'), "", "XDC")); require(is(currency('X', 'D', 'D'), "", "XDD")); require(is(currency('X', 'D', 'E'), "", "XDE")); require(is(currency('X', 'D', 'F'), "", "XDF")); require(is(currency('X', 'D', 'G'), "", "XDG")); require(is(currency('X', 'D', 'H'), "", "XDH")); require(is(currency('X', 'D', 'I'), "", "XDI")); require(is(currency('X', 'D', 'J'), "", "XDJ")); require(is(currency('X', 'D', 'K'), "", "XDK")); require(is(currency('X', 'D', 'L'), "", "XDL")); require(is(currency('X', 'D', 'M'), "", "XDM")); require(is(currency('X', 'D', 'N'), "", "XDN")); require(is(currency('X', 'D', 'O'), "", "XDO")); require(is(currency('X', 'D', 'P'), "", "XDP")); require(is(currency('X', 'D', 'Q'), "", "XDQ")); require(is(currency('X', 'D', 'S'), "", "XDS")); require(is(currency('X', 'D', 'T'), "", "XDT")); require(is(currency('X', 'D', 'U'), "", "XDU")); require(is(currency('X', 'D', 'V'), "", "XDV")); require(is(currency('X', 'D', 'W'), "", "XDW")); require(is(currency('X', 'D', 'X'), "", "XDX")); require(is(currency('X', 'D', 'Y'), "", "XDY")); require(is(currency('X', 'D', 'Z'), "", "XDZ"));)
OBLIGATION(no_currency_XE, "esl/economics/currencies.hpp: currency_name (codes without a currency from XE)", (), require(is(currency('X', 'E', 'A'), "", "XEA")); require(is(currency('X', 'E', 'B'), "", "XEB")); require(is(currency('X', 'E', 'C'), "", "XEC")); require(is(currency('X', 'E', 'D'), "", "XED")); require(is(currency('X', 'E', 'E'), "", "XEE")); require(is(currency('X', 'E', 'F'), "", "XEF")); require(is(currency('X', 'E', 'G'), "", "XEG")); require(is(currency('X', 'E', 'H'), "", "XEH")); require(is(currency('X', 'E', 'I'), "", "XEI")); require(is(currency('X', 'E', 'J'), "", "XEJ")); require(is(currency('X', 'E', 'K'), "", "XEK")); require(is(currency('X', 'E', 'L'), "", "XEL")); require(is(currency('X', 'E', 'M'), "", "XEM")); require(is(currency('X', 'E', 'N'), "", "XEN")); require(is(currency('X', 'E', 'O'), "", "XEO")); require(is(currency('X', 'E', 'P'), "", "XEP")); require(is(currency('X', 'E', 'Q'), "", "XEQ")); require(is(currency('X', 'E', 'R'), "", "XER")); require(is(currency('X', 'E', 'S'), "", "XES")); require(is(currency('X', 'E', 'T'), "", "XET")); require(is(currency('X', 'E', 'U'), "", "XEU")); require(is(currency('X', 'E', 'V'), "", "XEV")); require(is(currency('X', 'E', 'W'), "", "XEW")); require(is(currency('X', 'E', 'X'), "", "XEX")); require(is(currency('X', 'E', 'Y'), "", "XEY")); require(is(currency('X', 'E', 'Z'), "", "XEZ"));)
OBLIGATION(no_currency_XF, "esl/economics/currencies.hpp: currency_name (codes without a currency from XF)", (), require(is(currency('X', 'F', 'A'), "", "XFA")); require(is(currency('X', 'F', 'B'), "", "XFB")); require(is(currency('X', 'F', 'C'), "", "XFC")); require(is(currency('X', 'F', 'D'), "", "XFD")); require(is(currency('X', 'F', 'E'), "", "XFE")); require(is(currency('X', 'F', 'F'), "", "XFF")); require(is(currency('X', 'F', 'G'), "", "XFG")); require(is(currency('X', 'F', 'H'), "", "XFH")); require(is(currency('X', 'F', 'I'), "", "XFI")); require(is(currency('X', 'F', 'J'), "", "XFJ")); require(is(currency('X', 'F', 'K'), "", "XFK")); require(is(currency('X', 'F', 'L'), "", "XFL")); require(is(currency('X', 'F', 'M'), "", "XFM")); require(is(currency('X', 'F', 'N'), "", "XFN")); require(is(currency('X', 'F', 'O'), "", "XFO")); require(is(currency('X', 'F', 'P'), "", "XFP")); require(is(currency('X', 'F', 'Q'), "", "XFQ")); require(is(currency('X', 'F', 'R'), "", "XFR")); require(is(currency('X', 'F', 'S'), "", "XFS")); require(is(currency('X', 'F', 'T'), "", "XFT")); require(is(currency('X', 'F', 'U'), "", "XFU")); require(is(currency('X', 'F', 'V'), "", "XFV")); require(is(currency('X', 'F', 'W'), "", "XFW")); require(is(currency('X', 'F', 'X'), "", "XFX")); require(is(currency('X', 'F', 'Y'), "", "XFY")); require(is(currency('X', 'F', 'Z'), "", "XFZ"));)
OBLIGATION(no_currency_XG, "esl/economics/currencies.hpp: currency_name (codes without a currency from XG)", (), require(is(currency('X', 'G', 'A'), "", "XGA")); require(is(currency('X', 'G', 'B'), "", "XGB")); require(is(currency('X', 'G', 'C'), "", "XGC")); require(is(currency('X', 'G', 'D'), "", "XGD")); require(is(currency('X', 'G', 'E'), "", "XGE")); require(is(currency('X', 'G', 'F'), "", "XGF")); require(is(currency('X', 'G', 'G'), "", "XGG")); require(is(currency('X', 'G', 'H'), "", "XGH")); require(is(currency('X', 'G', 'I'), "", "XGI")); require(is(currency('X', 'G', 'J'), "", "XGJ")); require(is(currency('X', 'G', 'K'), "", "XGK")); require(is(currency('X', 'G', 'L'), "", "XGL")); require(is(currency('X', 'G', 'M'), "", "XGM")); require(is(currency('X', 'G', 'N'), "", "XGN")); require(is(currency('X', 'G', 'O'), "", "XGO")); require(is(currency('X', 'G', 'P'), "", "XGP")); require(is(currency('X', 'G', 'Q'), "", "XGQ")); require(is(currency('X', 'G', 'R'), "", "XGR")); require(is(currency('X', 'G', 'S'), "", "XGS")); require(is(currency('X', 'G', 'T'), "", "XGT")); require(is(currency('X', 'G', 'U'), "", "XGU")); require(is(currency('X', 'G', 'V'), "", "XGV")); require(is(currency('X', 'G', 'W'), "", "XGW")); require(is(currency('X', 'G', 'X'), "", "XGX")); require(is(currency('X', 'G', 'Y'), "", "XGY")); require(is(currency('X', 'G', 'Z'), "", "XGZ"));)
OBLIGATION(no_currency_XH, "esl/economics/currencies.hpp: currency_name (codes without a currency from XH)", (), require(is(currency('X', 'H', 'A'), "", "XHA")); require(is(currency('X', 'H', 'B'), "", "XHB")); require(is(currency('X', 'H', 'C'), "", "XHC")); require(is(currency('X', 'H', 'D'), "", "XHD")); require(is(currency('X', 'H', 'E'), "", "XHE")); require(is(currency('X', 'H', 'F'), "", "XHF")); require(is(currency('X', 'H', 'G'), "", "XHG")); require(is(currency('X', 'H', 'H'), "", "XHH")); require(is(currency('X', 'H', 'I'), "", "XHI")); require(is(currency('X', 'H', 'J'), "", "XHJ")); require(is(currency('X', 'H', 'K'), "", "XHK")); require(is(currency('X', 'H', 'L'), "", "XHL")); require(is(currency('X', 'H', 'M'), "", "XHM")); require(is(currency('X', 'H', 'N'), "", "XHN")); require(is(currency('X', 'H', 'O'), "", "XHO")); require(is(currency('X', 'H', 'P'), "", "XHP")); require(is(currency('X', 'H', 'Q'), "", "XHQ")); require(is(currency('X', 'H', 'R'), "", "XHR")); require(is(currency('X', 'H', 'S'), "", "XHS")); require(is(currency('X', 'H', 'T'), "", "XHT")); require(is(currency('X', 'H', 'U'), "", "XHU")); require(is(currency('X', 'H', 'V'), "", "XHV")); require(is(currency('X', 'H', 'W'), "", "XHW")); require(is(currency('X', 'H', 'X'), "", "XHX")); require(is(currency('X', 'H', 'Y'), "", "XHY")); require(is(currency('X', 'H', 'Z'), "", "XHZ"));)
OBLIGATION(no_currency_XI, "esl/economics/currencies.hpp: currency_name (codes without a currency from XI)", (), require(is(currency('X', 'I', 'A'), "", "XIA")); require(is(currency('X', 'I', 'B'), "", "XIB")); require(is(currency('X', 'I', 'C'), "", "XIC")); require(is(currency('X', 'I', 'D'), "", "XID")); require(is(currency('X', 'I', 'E'), "", "XIE")); require(is(currency('X', 'I', 'F'), "", "XIF")); require(is(currency('X', 'I', 'G'), "", "XIG")); require(is(currency('X', 'I', 'H'), "", "XIH")); require(is(currency('X', 'I', 'I'), "", "XII")); require(is(currency('X', 'I', 'J'), "", "XIJ")); require(is(currency('X', 'I', 'K'), "", "XIK")); require(is(currency('X', 'I', 'L'), "", "XIL")); require(is(currency('X', 'I', 'M'), "", "XIM")); require(is(currency('X', 'I', 'N'), "", "XIN")); require(is(currency('X', 'I', 'O'), "", "XIO")); require(is(currency('X', 'I', 'P'), "", "XIP")); require(is(currency('X', 'I', 'Q'), "", "XIQ")); require(is(currency('X', 'I', 'R'), "", "XIR")); require(is(currency('X', 'I', 'S'), "", "XIS")); require(is(currency('X', 'I', 'T'), "", "XIT")); require(is(currency('X', 'I', 'U'), "", "XIU")); require(is(currency('X', 'I', 'V'), "", "XIV")); require(is(currency('X', 'I', 'W'), "", "XIW")); require(is(currency('X', 'I', 'X'), "", "XIX")); require(is(currency('X', 'I', 'Y'), "", "XIY")); require(is(currency('X', 'I', 'Z'), "", "XIZ"));)
OBLIGATION(no_currency_XJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from XJ)", (), require(is(currency('X', 'J', 'A'), "", "XJA")); require(is(currency('X', 'J', 'B'), "", "XJB")); require(is(currency('X', 'J', 'C'), "", "XJC")); require(is(currency('X', 'J', 'D'), "", "XJD")); require(is(currency('X', 'J', 'E'), "", "XJE")); require(is(currency('X', 'J', 'F'), "", "XJF")); require(is(currency('X', 'J', 'G'), "", "XJG")); require(is(currency('X', 'J', 'H'), "", "XJH")); require(is(currency('X', 'J', 'I'), "", "XJI")); require(is(currency('X', 'J', 'J'), "", "XJJ")); require(is(currency('X', 'J', 'K'), "", "XJK")); require(is(currency('X', 'J', 'L'), "", "XJL")); require(is(currency('X', 'J', 'M'), "", "XJM")); require(is(currency('X', 'J', 'N'), "", "XJN")); require(is(currency('X', 'J', 'O'), "", "XJO")); require(is(currency('X', 'J', 'P'), "", "XJP")); require(is(currency('X', 'J', 'Q'), "", "XJQ")); require(is(currency('X', 'J', 'R'), "", "XJR")); require(is(currency('X', 'J', 'S'), "", "XJS")); require(is(currency('X', 'J', 'T'), "", "XJT")); require(is(currency('X', 'J', 'U'), "", "XJU")); require(is(currency('X', 'J', 'V'), "", "XJV")); require(is(currency('X', 'J', 'W'), "", "XJW")); require(is(currency('X', 'J', 'X'), "", "XJX")); require(is(currency('X', 'J', 'Y'), "", "XJY")); require(is(currency('X', 'J', 'Z'), "", "XJZ"));)
OBLIGATION(no_currency_XK, "esl/economics/currencies.hpp: currency_name (codes without a currency from XK)", (), require(is(currency('X', 'K', 'A'), "", "XKA")); require(is(currency('X', 'K', 'B'), "", "XKB")); require(is(currency('X', 'K', 'C'), "", "XKC")); require(is(currency('X', 'K', 'D'), "", "XKD")); require(is(currency('X', 'K', 'E'), "", "XKE")); require(is(currency('X', 'K', 'F'), "", "XKF")); require(is(currency('X', 'K', 'G'), "", "XKG")); require(is(currency('X', 'K', 'H'), "", "XKH")); require(is(currency('X', 'K', 'I'), "", "XKI")); require(is(currency('X', 'K', 'J'), "", "XKJ")); require(is(currency('X', 'K', 'K'), "", "XKK")); require(is(currency('X', 'K', 'L'), "", "XKL")); require(is(currency('X', 'K', 'M'), "", "XKM")); require(is(currency('X', 'K', 'N'), "", "XKN")); require(is(currency('X', 'K', 'O'), "", "XKO")); require(is(currency('X', 'K', 'P'), "", "XKP")); require(is(currency('X', 'K', 'Q'), "", "XKQ")); require(is(currency('X', 'K', 'R'), "", "XKR")); require(is(currency('X', 'K', 'S'), "", "XKS")); require(is(currency('X', 'K', 'T'), "", "XKT")); require(is(currency('X', 'K', 'U'), "", "XKU")); require(is(currency('X', 'K', 'V'), "", "XKV")); require(is(currency('X', 'K', 'W'), "", "XKW")); require(is(currency('X', 'K', 'X'), "", "XKX")); require(is(currency('X', 'K', 'Y'), "", "XKY")); require(is(currency('X', 'K', 'Z'), "", "XKZ"));)
OBLIGATION(no_currency_XL, "esl/economics/currencies.hpp: currency_name (codes without a currency from XL)", (), require(is(currency('X', 'L', 'A'), "", "XLA")); require(is(currency('X', 'L', 'B'), "", "XLB")); require(is(currency('X', 'L', 'C'), "", "XLC")); require(is(currency('X', 'L', 'D'), "", "XLD")); require(is(currency('X', 'L', 'E'), "", "XLE")); require(is(currency('X', 'L', 'F'), "", "XLF")); require(is(currency('X', 'L', 'G'), "", "XLG")); require(is(currency('X', 'L', 'H'), "", "XLH")); require(is(currency('X', 'L', 'I'), "", "XLI")); require(is(currency('X', 'L', 'J'), "", "XLJ")); require(is(currency('X', 'L', 'K'), "", "XLK")); require(is(currency('X', 'L', 'L'), "", "XLL")); require(is(currency('X', 'L', 'M'), "", "XLM")); require(is(currency('X', 'L', 'N'), "", "XLN")); require(is(currency('X', 'L', 'O'), "", "XLO")); require(is(currency('X', 'L', 'P'), "", "XLP")); require(is(currency('X', 'L', 'Q'), "", "XLQ")); require(is(currency('X', 'L', 'R'), "", "XLR")); require(is(currency('X', 'L', 'S'), "", "XLS")); require(is(currency('X', 'L', 'T'), "", "XLT")); require(is(currency('X', 'L', 'U'), "", "XLU")); require(is(currency('X', 'L', 'V'), "", "XLV")); require(is(currency('X', 'L', 'W'), "", "XLW")); require(is(currency('X', 'L', 'X'), "", "XLX")); require(is(currency('X', 'L', 'Y'), "", "XLY")); require(is(currency('X', 'L', 'Z'), "", "XLZ"));)
OBLIGATION(no_currency_XM, "esl/economics/currencies.hpp: currency_name (codes without a currency from XM)", (), require(is(currency('X', 'M', 'A'), "", "XMA")); require(is(currency('X', 'M', 'B'), "", "XMB")); require(is(currency('X', 'M', 'C'), "", "XMC")); require(is(currency('X', 'M', 'D'), "", "XMD")); require(is(currency('X', 'M', 'E'), "", "XME")); require(is(currency('X', 'M', 'F'), "", "XMF")); require(is(currency('X', 'M', 'G'), "", "XMG")); require(is(currency('X', 'M', 'H'), "", "XMH")); require(is(currency('X', 'M', 'I'), "", "XMI")); require(is(currency('X', 'M', 'J'), "", "XMJ")); require(is(currency('X', 'M', 'K'), "", "XMK")); require(is(currency('X', 'M', 'L'), "", "XML")); require(is(currency('X', 'M', 'M'), "", "XMM")); require(is(currency('X', 'M', 'N'), "", "XMN")); require(is(currency('X', 'M', 'O'), "", "XMO")); require(is(currency('X', 'M', 'P'), "", "XMP")); require(is(currency('X', 'M', 'Q'), "", "XMQ")); require(is(currency('X', 'M', 'R'), "", "XMR")); require(is(currency('X', 'M', 'S'), "", "XMS")); require(is(currency('X', 'M', 'T'), "", "XMT")); require(is(currency('X', 'M', 'U'), "", "XMU")); require(is(currency('X', 'M', 'V'), "", "XMV")); require(is(currency('X', 'M', 'W'), "", "XMW")); require(is(currency('X', 'M', 'X'), "", "XMX")); require(is(currency('X', 'M', 'Y'), "", "XMY")); require(is(currency('X', 'M', 'Z'), "", "XMZ"));)
OBLIGATION(no_currency_XN, "esl/economics/currencies.hpp: currency_name (codes without a currency from XN)", (), require(is(currency('X', 'N', 'A'), "", "XNA")); require(is(currency('X', 'N', 'B'), "", "XNB")); require(is(currency('X', 'N', 'C'), "", "XNC")); require(is(currency('X', 'N', 'D'), "", "XND")); require(is(currency('X', 'N', 'E'), "", "XNE")); require(is(currency('X', 'N', 'F'), "", "XNF")); require(is(currency('X', 'N', 'G'), "", "XNG")); require(is(currency('X', 'N', 'H'), "", "XNH")); require(is(currency('X', 'N', 'I'), "", "XNI")); require(is(currency('X', 'N', 'J'), "", "XNJ")); require(is(currency('X', 'N', 'K'), "", "XNK")); require(is(currency('X', 'N', 'L'), "", "XNL")); require(is(currency('X', 'N', 'M'), "", "XNM")); require(is(currency('X', 'N', 'N'), "", "XNN")); require(is(currency('X', 'N', 'O'), "", "XNO")); require(is(currency('X', 'N', 'P'), "", "XNP")); require(is(currency('X', 'N', 'Q'), "", "XNQ")); require(is(currency('X', 'N', 'R'), "", "XNR")); require(is(currency('X', 'N', 'S'), "", "XNS")); require(is(currency('X', 'N', 'T'), "", "XNT")); require(is(currency('X', 'N', 'U'), "", "XNU")); require(is(currency('X', 'N', 'V'), "", "XNV")); require(is(currency('X', 'N', 'W'), "", "XNW")); require(is(currency('X', 'N', 'X'), "", "XNX")); require(is(currency('X', 'N', 'Y'), "", "XNY")); require(is(currency('X', 'N', 'Z'), "", "XNZ"));)
OBLIGATION(no_currency_XO, "esl/economics/currencies.hpp: currency_name (codes without a currency from XO)", (), require(is(currency('X', 'O', 'A'), "", "XOA")); require(is(currency('X', 'O', 'B'), "", "XOB")); require(is(currency('X', 'O', 'C'), "", "XOC")); require(is(currency('X', 'O', 'D'), "", "XOD")); require(is(currency('X', 'O', 'E'), "", "XOE")); require(is(currency('X', 'O', 'G'), "", "XOG")); require(is(currency('X', 'O', 'H'), "", "XOH")); require(is(currency('X', 'O', 'I'), "", "XOI")); require(is(currency('X', 'O', 'J'), "", "XOJ")); require(is(currency('X', 'O', 'K'), "", "XOK")); require(is(currency('X', 'O', 'L'), "", "XOL")); require(is(currency('X', 'O', 'M'), "", "XOM")); require(is(currency('X', 'O', 'N'), "", "XON")); require(is(currency('X', 'O', 'O'), "", "XOO")); require(is(currency('X', 'O', 'P'), "", "XOP")); require(is(currency('X', 'O', 'Q'), "", "XOQ")); require(is(currency('X', 'O', 'R'), "", "XOR")); require(is(currency('X', 'O', 'S'), "", "XOS")); require(is(currency('X', 'O', 'T'), "", "XOT")); require(is(currency('X', 'O', 'U'), "", "XOU")); require(is(currency('X', 'O', 'V'), "", "XOV")); require(is(currency('X', 'O', 'W'), "", "XOW")); require(is(currency('X', 'O', 'X'), "", "XOX")); require(is(currency('X', 'O', 'Y'), "", "XOY")); require(is(currency('X', 'O', 'Z'), "", "XOZ"));)
OBLIGATION(no_currency_XP, "esl/economics/currencies.hpp: currency_name (codes without a currency from XP)", (), require(is(currency('X', 'P', 'A'), "", "XPA")); require(is(currency('X', 'P', 'B'), "", "XPB")); require(is(currency('X', 'P', 'C'), "", "XPC")); require(is(currency('X', 'P', 'E'), "", "XPE")); require(is(currency('X', 'P', 'G'), "", "XPG")); require(is(currency('X', 'P', 'H'), "", "XPH")); require(is(currency('X', 'P', 'I'), "", "XPI")); require(is(currency('X', 'P', 'J'), "", "XPJ")); require(is(currency('X', 'P', 'K'), "", "XPK")); require(is(currency('X', 'P', 'L'), "", "XPL")); require(is(currency('X', 'P', 'M'), "", "XPM")); require(is(currency('X', 'P', 'N'), "", "XPN")); require(is(currency('X', 'P', 'O'), "", "XPO")); require(is(currency('X', 'P', 'P'), "", "XPP")); require(is(currency('X', 'P', 'Q'), "", "XPQ")); require(is(currency('X', 'P', 'R'), "", "XPR")); require(is(currency('X', 'P', 'S'), "", "XPS")); require(is(currency('X', 'P', 'U'), "", "XPU")); require(is(currency('X', 'P', 'V'), "", "XPV")); require(is(currency('X', 'P', 'W'), "", "XPW")); require(is(currency('X', 'P', 'X'), "", "XPX")); require(is(currency('X', 'P', 'Y'), "", "XPY")); require(is(currency('X', 'P', 'Z'), "", "XPZ"));)
OBLIGATION(no_currency_XQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from XQ)", (), require(is(currency('X', 'Q', 'A'), "", "XQA")); require(is(currency('X', 'Q', 'B'), "", "XQB")); require(is(currency('X', 'Q', 'C'), "", "XQC")); require(is(currency('X', 'Q', 'D'), "", "XQD")); require(is(currency('X', 'Q', 'E'), "", "XQE")); require(is(currency('X', 'Q', 'F'), "", "XQF")); require(is(currency('X', 'Q', 'G'), "", "XQG")); require(is(currency('X', 'Q', 'H'), "", "XQH")); require(is(currency('X', 'Q', 'I'), "", "XQI")); require(is(currency('X', 'Q', 'J'), "", "XQJ")); require(is(currency('X', 'Q', 'K'), "", "XQK")); require(is(currency('X', 'Q', 'L'), "", "XQL")); require(is(currency('X', 'Q', 'M'), "", "XQM")); require(is(currency('X', 'Q', 'N'), "", "XQN")); require(is(currency('X', 'Q', 'O'), "", "XQO")); require(is(currency('X', 'Q', 'P'), "", "XQP")); require(is(currency('X', 'Q', 'Q'), "", "XQQ")); require(is(currency('X', 'Q', 'R'), "", "XQR")); require(is(currency('X', 'Q', 'S'), "", "XQS")); require(is(currency('X', 'Q', 'T'), "", "XQT")); require(is(currency('X', 'Q', 'U'), "", "XQU")); require(is(currency('X', 'Q', 'V'), "", "XQV")); require(is(currency('X', 'Q', 'W'), "", "XQW")); require(is(currency('X', 'Q', 'X'), "", "XQX")); require(is(currency('X', 'Q', 'Y'), "", "XQY")); require(is(currency('X', 'Q', 'Z'), "", "XQZ"));)
OBLIGATION(no_currency_XR, "esl/economics/currencies.hpp: currency_name (codes without a currency from XR)", (), require(is(currency('X', 'R', 'A'), "", "XRA")); require(is(currency('X', 'R', 'B'), "", "XRB")); require(is(currency('X', 'R', 'C'), "", "XRC")); require(is(currency('X', 'R', 'D'), "", "XRD")); require(is(currency('X', 'R', 'E'), "", "XRE")); require(is(currency('X', 'R', 'F'), "", "XRF")); require(is(currency('X', 'R', 'G'), "", "XRG")); require(is(currency('X', 'R', 'H'), "", "XRH")); require(is(currency('X', 'R', 'I'), "", "XRI")); require(is(currency('X', 'R', 'J'), "", "XRJ")); require(is(currency('X', 'R', 'K'), "", "XRK")); require(is(currency('X', 'R', 'L'), "", "XRL")); require(is(currency('X', 'R', 'M'), "", "XRM")); require(is(currency('X', 'R', 'N'), "", "XRN")); require(is(currency('X', 'R', 'O'), "", "XRO")); require(is(currency('X', 'R', 'P'), "", "XRP")); require(is(currency('X', 'R', 'Q'), "", "XRQ")); require(is(currency('X', 'R', 'R'), "", "XRR")); require(is(currency('X', 'R', 'S'), "", "XRS")); require(is(currency('X', 'R', 'T'), "", "XRT")); require(is(currency('X', 'R', 'U'), "", "XRU")); require(is(currency('X', 'R', 'V'), "", "XRV")); require(is(currency('X', 'R', 'W'), "", "XRW")); require(is(currency('X', 'R', 'X'), "", "XRX")); require(is(currency('X', 'R', 'Y'), "", "XRY")); require(is(currency('X', 'R', 'Z'), "", "XRZ"));)
OBLIGATION(no_currency_XS, "esl/economics/currencies.hpp: currency_name (codes without a currency from XS)", (), require(is(currency('X', 'S', 'A'), "", "XSA")); require(is(currency('X', 'S', 'B'), "", "XSB")); require(is(currency('X', 'S', 'C'), "", "XSC")); require(is(currency('X', 'S', 'D'), "", "XSD")); require(is(currency('X', 'S', 'E'), "", "XSE")); require(is(currency('X', 'S', 'F'), "", "XSF")); require(is(currency('X', 'S', 'G'), "", "XSG")); require(is(currency('X', 'S', 'H'), "", "XSH")); require(is(currency('X', 'S', 'I'), "", "XSI")); require(is(currency('X', 'S', 'J'), "", "XSJ")); require(is(currency('X', 'S', 'K'), "", "XSK")); require(is(currency('X', 'S', 'L'), "", "XSL")); require(is(currency('X', 'S', 'M'), "", "XSM")); require(is(currency('X', 'S', 'N'), "", "XSN")); require(is(currency('X', 'S', 'O'), "", "XSO")); require(is(currency('X', 'S', 'P'), "", "XSP")); require(is(currency('X', 'S', 'Q'), "", "XSQ")); require(is(currency('X', 'S', 'R'), "", "XSR")); require(is(currency('X', 'S', 'S'), "", "XSS")); require(is(currency('X', 'S', 'T'), "", "XST")); require(is(currency('X', 'S', 'V'), "", "XSV")); require(is(currency('X', 'S', 'W'), "", "XSW")); require(is(currency('X', 'S', 'X'), "", "XSX")); require(is(currency('X', 'S', 'Y'), "", "XSY")); require(is(currency('X', 'S', 'Z'), "", "XSZ"));)
OBLIGATION(no_currency_XT, "esl/economics/currencies.hpp: currency_name (codes without a currency from XT)", (), require(is(currency('X', 'T', 'A'), "", "XTA")); require(is(currency('X', 'T', 'B'), "", "XTB")); require(is(currency('X', 'T', 'C'), "", "XTC")); require(is(currency('X', 'T', 'D'), "", "XTD")); require(is(currency('X', 'T', 'E'), "", "XTE")); require(is(currency('X', 'T', 'F'), "", "XTF")); require(is(currency('X', 'T', 'G'), "", "XTG")); require(is(currency('X', 'T', 'H'), "", "XTH")); require(is(currency('X', 'T', 'I'), "", "XTI")); require(is(currency('X', 'T', 'J'), "", "XTJ")); require(is(currency('X', 'T', 'K'), "", "XTK")); require(is(currency('X', 'T', 'L'), "", "XTL")); require(is(currency('X', 'T', 'M'), "", "XTM")); require(is(currency('X', 'T', 'N'), "", "XTN")); require(is(currency('X', 'T', 'O'), "", "XTO")); require(is(currency('X', 'T', 'P'), "", "XTP")); require(is(currency('X', 'T', 'Q'), "", "XTQ")); require(is(currency('X', 'T', 'R'), "", "XTR")); require(is(currency('X', 'T', 'T'), "", "XTT")); require(is(currency('X', 'T', 'U'), "", "XTU")); require(is(currency('X', 'T', 'V'), "", "XTV")); require(is(currency('X', 'T', 'W'), "", "XTW")); require(is(currency('X', 'T', 'X'), "", "XTX")); require(is(currency('X', 'T', 'Y'), "", "XTY")); require(is(currency('X', 'T', 'Z'), "", "XTZ"));)
OBLIGATION(no_currency_XU, "esl/economics/currencies.hpp: currency_name (codes without a currency from XU)", (), require(is(currency('X', 'U', 'B'), "", "XUB")); require(is(currency('X', 'U', 'C'), "", "XUC")); require(is(currency('X', 'U', 'D'), "", "XUD")); require(is(currency('X', 'U', 'E'), "", "XUE")); require(is(currency('X', 'U', 'F'), "", "XUF")); require(is(currency('X', 'U', 'G'), "", "XUG")); require(is(currency('X', 'U', 'H'), "", "XUH")); require(is(currency('X', 'U', 'I'), "", "XUI")); require(is(currency('X', 'U', 'J'), "", "XUJ")); require(is(currency('X', 'U', 'K'), "", "XUK")); require(is(currency('X', 'U', 'L'), "", "XUL")); require(is(currency('X', 'U', 'M'), "", "XUM")); require(is(currency('X', 'U', 'N'), "", "XUN")); require(is(currency('X', 'U', 'O'), "", "XUO")); require(is(currency('X', 'U', 'P'), "", "XUP")); require(is(currency('X', 'U', 'Q'), "", "XUQ")); require(is(currency('X', 'U', 'R'), "", "XUR")); require(is(currency('X', 'U', 'S'), "", "XUS")); require(is(currency('X', 'U', 'T'), "", "XUT")); require(is(currency('X', 'U', 'U'), "", "XUU")); require(is(currency('X', 'U', 'V'), "", "XUV")); require(is(currency('X', 'U', 'W'), "", "XUW")); require(is(currency('X', 'U', 'X'), "", "XUX")); require(is(currency('X', 'U', 'Y'), "", "XUY")); require(is(currency('X', 'U', 'Z'), "", "XUZ"));)
OBLIGATION(no_currency_XV, "esl/economics/currencies.hpp: currency_name (codes without a currency from XV)", (), require(is(currency('X', 'V', 'A'), "", "XVA")); require(is(currency('X', 'V', 'B'), "", "XVB")); require(is(currency('X', 'V', 'C'), "", "XVC")); require(is(currency('X', 'V', 'D'), "", "XVD")); require(is(currency('X', 'V', 'E'), "", "XVE")); require(is(currency('X', 'V', 'F'), "", "XVF")); require(is(currency('X', 'V', 'G'), "", "XVG")); require(is(currency('X', 'V', 'H'), "", "XVH")); require(is(currency('X', 'V', 'I'), "", "XVI")); require(is(currency('X', 'V', 'J'), "", "XVJ")); require(is(currency('X', 'V', 'K'), "", "XVK")); require(is(currency('X', 'V', 'L'), "", "XVL")); require(is(currency('X', 'V', 'M'), "", "XVM")); require(is(currency('X', 'V', 'N'), "", "XVN")); require(is(currency('X', 'V', 'O'), "", "XVO")); require(is(currency('X', 'V', 'P'), "", "XVP")); require(is(currency('X', 'V', 'Q'), "", "XVQ")); require(is(currency('X', 'V', 'R'), "", "XVR")); require(is(currency('X', 'V', 'S'), "", "XVS")); require(is(currency('X', 'V', 'T'), "", "XVT")); require(is(currency('X', 'V', 'U'), "", "XVU")); require(is(currency('X', 'V', 'V'), "", "XVV")); require(is(currency('X', 'V', 'W'), "", "XVW")); require(is(currency('X', 'V', 'X'), "", "XVX")); require(is(currency('X', 'V', 'Y'), "", "XVY")); require(is(currency('X', 'V', 'Z'), "", "XVZ"));)
OBLIGATION(no_currency_XW, "esl/economics/currencies.hpp: currency_name (codes without a currency from XW)", (), require(is(currency('X', 'W', 'A'), "", "XWA")); require(is(currency('X', 'W', 'B'), "", "XWB")); require(is(currency('X', 'W', 'C'), "", "XWC")); require(is(currency('X', 'W', 'D'), "", "XWD")); require(is(currency('X', 'W', 'E'), "", "XWE")); require(is(currency('X', 'W', 'F'), "", "XWF")); require(is(currency('X', 'W', 'G'), "", "XWG")); require(is(currency('X', 'W', 'H'), "", "XWH")); require(is(currency('X', 'W', 'I'), "", "XWI")); require(is(currency('X', 'W', 'J'), "", "XWJ")); require(is(currency('X', 'W', 'K'), "", "XWK")); require(is(currency('X', 'W', 'L'), "", "XWL")); require(is(currency('X', 'W', 'M'), "", "XWM")); require(is(currency('X', 'W', 'N'), "", "XWN")); require(is(currency('X', 'W', 'O'), "", "XWO")); require(is(currency('X', 'W', 'P'), "", "XWP")); require(is(currency('X', 'W', 'Q'), "", "XWQ")); require(is(currency('X', 'W', 'R'), "", "XWR")); require(is(currency('X', 'W', 'S'), "", "XWS")); require(is(currency('X', 'W', 'T'), "", "XWT")); require(is(currency('X', 'W', 'U'), "", "XWU")); require(is(currency('X', 'W', 'V'), "", "XWV")); require(is(currency('X', 'W', 'W'), "", "XWW")); require(is(currency('X', 'W', 'X'), "", "XWX")); require(is(currency('X', 'W', 'Y'), "", "XWY")); require(is(currency('X', 'W', 'Z'), "", "XWZ"));)
OBLIGATION(no_currency_XX, "esl/economics/currencies.hpp: currency_name (codes without a currency from XX)", (), require(is(currency('X', 'X', 'A'), "", "XXA")); require(is(currency('X', 'X', 'B'), "", "XXB")); require(is(currency('X', 'X', 'C'), "", "XXC")); require(is(currency('X', 'X', 'D'), "", "XXD")); require(is(currency('X', 'X', 'E'), "", "XXE")); require(is(currency('X', 'X', 'F'), "", "XXF")); require(is(currency('X', 'X', 'G'), "", "XXG")); require(is(currency('X', 'X', 'H'), "", "XXH")); require(is(currency('X', 'X', 'I'), "", "XXI")); require(is(currency('X', 'X', 'J'), "", "XXJ")); require(is(currency('X', 'X', 'K'), "", "XXK")); require(is(currency('X', 'X', 'L'), "", "XXL")); require(is(currency('X', 'X', 'M'), "", "XXM")); require(is(currency('X', 'X', 'N'), "", "XXN")); require(is(currency('X', 'X', 'O'), "", "XXO")); require(is(currency('X', 'X', 'P'), "", "XXP")); require(is(currency('X', 'X', 'Q'), "", "XXQ")); require(is(currency('X', 'X', 'R'), "", "XXR")); require(is(currency('X', 'X', 'S'), "", "XXS")); require(is(currency('X', 'X', 'T'), "", "XXT")); require(is(currency('X', 'X', 'U'), "", "XXU")); require(is(currency('X', 'X', 'V'), "", "XXV")); require(is(currency('X', 'X', 'W'), "", "XXW")); require(is(currency('X', 'X', 'Y'), "", "XXY")); require(is(currency('X', 'X', 'Z'), "", "XXZ"));)
OBLIGATION(no_currency_XY, "esl/economics/currencies.hpp: currency_name (codes without a currency from XY)", (), require(is(currency('X', 'Y', 'A'), "", "XYA")); require(is(currency('X', 'Y', 'B'), "", "XYB")); require(is(currency('X', 'Y', 'C'), "", "XYC")); require(is(currency('X', 'Y', 'D'), "", "XYD")); require(is(currency('X', 'Y', 'E'), "", "XYE")); require(is(currency('X', 'Y', 'F'), "", "XYF")); require(is(currency('X', 'Y', 'G'), "", "XYG")); require(is(currency('X', 'Y', 'H'), "", "XYH")); require(is(currency('X', 'Y', 'I'), "", "XYI")); require(is(currency('X', 'Y', 'J'), "", "XYJ")); require(is(currency('X', 'Y', 'K'), "", "XYK")); require(is(currency('X', 'Y', 'L'), "", "XYL")); require(is(currency('X', 'Y', 'M'), "", "XYM")); require(is(currency('X', 'Y', 'N'), "", "XYN")); require(is(currency('X', 'Y', 'O'), "", "XYO")); require(is(currency('X', 'Y', 'P'), "", "XYP")); require(is(currency('X', 'Y', 'Q'), "", "XYQ")); require(is(currency('X', 'Y', 'R'), "", "XYR")); require(is(currency('X', 'Y', 'S'), "", "XYS")); require(is(currency('X', 'Y', 'T'), "", "XYT")); require(is(currency('X', 'Y', 'U'), "", "XYU")); require(is(currency('X', 'Y', 'V'), "", "XYV")); require(is(currency('X', 'Y', 'W'), "", "XYW")); require(is(currency('X', 'Y', 'X'), "", "XYX")); require(is(currency('X', 'Y', 'Y'), "", "XYY")); require(is(currency('X', 'Y', 'Z'), "", "XYZ"));)
OBLIGATION(no_currency_XZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from XZ)", (), require(is(currency('X', 'Z', 'A'), "", "XZA")); require(is(currency('X', 'Z', 'B'), "", "XZB")); require(is(currency('X', 'Z', 'C'), "", "XZC")); require(is(currency('X', 'Z', 'D'), "", "XZD")); require(is(currency('X', 'Z', 'E'), "", "XZE")); require(is(currency('X', 'Z', 'F'), "", "XZF")); require(is(currency('X', 'Z', 'G'), "", "XZG")); require(is(currency('X', 'Z', 'H'), "", "XZH")); require(is(currency('X', 'Z', 'I'), "", "XZI")); require(is(currency('X', 'Z', 'J'), "", "XZJ")); require(is(currency('X', 'Z', 'K'), "", "XZK")); require(is(currency('X', 'Z', 'L'), "", "XZL")); require(is(currency('X', 'Z', 'M'), "", "XZM")); require(is(currency('X', 'Z', 'N'), "", "XZN")); require(is(currency('X', 'Z', 'O'), "", "XZO")); require(is(currency('X', 'Z', 'P'), "", "XZP")); require(is(currency('X', 'Z', 'Q'), "", "XZQ")); require(is(currency('X', 'Z', 'R'), "", "XZR")); require(is(currency('X', 'Z', 'S'), "", "XZS")); require(is(currency('X', 'Z', 'T'), "", "XZT")); require(is(currency('X', 'Z', 'U'), "", "XZU")); require(is(currency('X', 'Z', 'V'), "", "XZV")); require(is(currency('X', 'Z', 'W'), "", "XZW")); require(is(currency('X', 'Z', 'X'), "", "XZX")); require(is(currency('X', 'Z', 'Y'), "", "XZY")); require(is(currency('X', 'Z', 'Z'), "", "XZZ"));)
OBLIGATION(no_currency_YA, "esl/economics/currencies.hpp: currency_name (codes without a currency from YA)", (), require(is(currency('Y', 'A', 'A'), "", "YAA")); require(is(currency('Y', 'A', 'B'), "", "YAB")); require(is(currency('Y', 'A', 'C'), "", "YAC")); require(is(currency('Y', 'A', 'D'), "", "YAD")); require(is(currency('Y', 'A', 'E'), "", "YAE")); require(is(currency('Y', 'A', 'F'), "", "YAF")); require(is(currency('Y', 'A', 'G'), "", "YAG")); require(is(currency('Y', 'A', 'H'), "", "YAH")); require(is(currency('Y', 'A', 'I'), "", "YAI")); require(is(currency('Y', 'A', 'J'), "", "YAJ")); require(is(currency('Y', 'A', 'K'), "", "YAK")); require(is(currency('Y', 'A', 'L'), "", "YAL")); require(is(currency('Y', 'A', 'M'), "", "YAM")); require(is(currency('Y', 'A', 'N'), "", "YAN")); require(is(currency('Y', 'A', 'O'), "", "YAO")); require(is(currency('Y', 'A', 'P'), "", "YAP")); require(is(currency('Y', 'A', 'Q'), "", "YAQ")); require(is(currency('Y', 'A', 'R'), "", "YAR")); require(is(currency('Y', 'A', 'S'), "", "YAS")); require(is(currency('Y', 'A', 'T'), "", "YAT")); require(is(currency('Y', 'A', 'U'), "", "YAU")); require(is(currency('Y', 'A', 'V'), "", "YAV")); require(is(currency('Y', 'A', 'W'), "", "YAW")); require(is(currency('Y', 'A', 'X'), "", "YAX")); require(is(currency('Y', 'A', 'Y'), "", "YAY")); require(is(currency('Y', 'A', 'Z'), "", "YAZ"));)
OBLIGATION(no_currency_YB, "esl/economics/currencies.hpp: currency_name (codes without a currency from YB)", (), require(is(currency('Y', 'B', 'A'), "", "YBA")); require(is(currency('Y', 'B', 'B'), "", "YBB")); require(is(currency('Y', 'B', 'C'), "", "YBC")); require(is(currency('Y', 'B', 'D'), "", "YBD")); require(is(currency('Y', 'B', 'E'), "", "YBE")); require(is(currency('Y', 'B', 'F'), "", "YBF")); require(is(currency('Y', 'B', 'G'), "", "YBG")); require(is(currency('Y', 'B', 'H'), "", "YBH")); require(is(currency('Y', 'B', 'I'), "", "YBI")); require(is(currency('Y', 'B', 'J'), "", "YBJ")); require(is(currency('Y', 'B', 'K'), "", "YBK")); require(is(currency('Y', 'B', 'L'), "", "YBL")); require(is(currency('Y', 'B', 'M'), "", "YBM")); require(is(currency('Y', 'B', 'N'), "", "YBN")); require(is(currency('Y', 'B', 'O'), "", "YBO")); require(is(currency('Y', 'B', 'P'), "", "YBP")); require(is(currency('Y', 'B', 'Q'), "", "YBQ")); require(is(currency('Y', 'B', 'R'), "", "YBR")); require(is(currency('Y', 'B', 'S'), "", "YBS")); require(is(currency('Y', 'B', 'T'), "", "YBT")); require(is(currency('Y', 'B', 'U'), "", "YBU")); require(is(currency('Y', 'B', 'V'), "", "YBV")); require(is(currency('Y', 'B', 'W'), "", "YBW")); require(is(currency('Y', 'B', 'X'), "", "YBX")); require(is(currency('Y', 'B', 'Y'), "", "YBY")); require(is(currency('Y', 'B', 'Z'), "", "YBZ"));)
OBLIGATION(no_currency_YC, "esl/economics/currencies.hpp: currency_name (codes without a currency from YC)", (), require(is(currency('Y', 'C', 'A'), "", "YCA")); require(is(currency('Y', 'C', 'B'), "", "YCB")); require(is(currency('Y', 'C', 'C'), "", "YCC")); require(is(currency('Y', 'C', 'D'), "", "YCD")); require(is(currency('Y', 'C', 'E'), "", "YCE")); require(is(currency('Y', 'C', 'F'), "", "YCF")); require(is(currency('Y', 'C', 'G'), "", "YCG")); require(is(currency('Y', 'C', 'H'), "", "YCH")); require(is(currency('Y', 'C', 'I'), "", "YCI")); require(is(currency('Y', 'C', 'J'), "", "YCJ")); require(is(currency('Y', 'C', 'K'), "", "YCK")); require(is(currency('Y', 'C', 'L'), "", "YCL")); require(is(currency('Y', 'C', 'M'), "", "YCM")); require(is(currency('Y', 'C', 'N'), "", "YCN")); require(is(currency('Y', 'C', 'O'), "", "YCO")); require(is(currency('Y', 'C', 'P'), "", "YCP")); require(is(currency('Y', 'C', 'Q'), "", "YCQ")); require(is(currency('Y', 'C', 'R'), "", "YCR")); require(is(currency('Y', 'C', 'S'), "", "YCS")); require(is(currency('Y', 'C', 'T'), "", "YCT")); require(is(currency('Y', 'C', 'U'), "", "YCU")); require(is(currency('Y', 'C', 'V'), "", "YCV")); require(is(currency('Y', 'C', 'W'), "", "YCW")); require(is(currency('Y', 'C', 'X'), "", "YCX")); require(is(currency('Y', 'C', 'Y'), "", "YCY")); require(is(currency('Y', 'C', 'Z'), "", "YCZ"));)
OBLIGATION(no_currency_YD, "esl/economics/currencies.hpp: currency_name (codes without a currency from YD)", (), require(is(currency('Y', 'D', 'A'), "", "YDA")); require(is(currency('Y', 'D', 'B'), "", "YDB")); require(is(currency('Y', 'D', 'C'), "", "YDC")); require(is(currency('Y', 'D', 'D'), "", "YDD")); require(is(currency('Y', 'D', 'E'), "", "YDE")); require(is(currency('Y', 'D', 'F'), "", "YDF")); require(is(currency('Y', 'D', 'G'), "", "YDG")); require(is(currency('Y', 'D', 'H'), "", "YDH")); require(is(currency('Y', 'D', 'I'), "", "YDI")); require(is(currency('Y', 'D', 'J'), "", "YDJ")); require(is(currency('Y', 'D', 'K'), "", "YDK")); require(is(currency('Y', 'D', 'L'), "", "YDL")); require(is(currency('Y', 'D', 'M'), "", "YDM")); require(is(currency('Y', 'D', 'N'), "", "YDN")); require(is(currency('Y', 'D', 'O'), "", "YDO")); require(is(currency('Y', 'D', 'P'), "", "YDP")); require(is(currency('Y', 'D', 'Q'), "", "YDQ")); require(is(currency('Y', 'D', 'R'), "", "YDR")); require(is(currency('Y', 'D', 'S'), "", "YDS")); require(is(currency('Y', 'D', 'T'), "", "YDT")); require(is(currency('Y', 'D', 'U'), "", "YDU")); require(is(currency('Y', 'D', 'V'), "", "YDV")); require(is(currency('Y', 'D', 'W'), "", "YDW")); require(is(currency('Y', 'D', 'X'), "", "YDX")); require(is(currency('Y', 'D', 'Y'), "", "YDY")); require(is(currency('Y', 'D', 'Z'), "", "YDZ"));)
OBLIGATION(no_currency_YE, "esl/economics/currencies.hpp: currency_name (codes without a currency from YE)", (), require(is(currency('Y', 'E', 'A'), "", "YEA")); require(is(currency('Y', 'E', 'B'), "", "YEB")); require(is(currency('Y', 'E', 'C'), "", "YEC")); require(is(currency('Y', 'E', 'D'), "", "YED")); require(is(currency('Y', 'E', 'E'), "", "YEE")); require(is(currency('Y', 'E', 'F'), "", "YEF")); require(is(currency('Y', 'E', 'G'), "", "YEG")); require(is(currency('Y', 'E', 'H'), "", "YEH")); require(is(currency('Y', 'E', 'I'), "", "YEI")); require(is(currency('Y', 'E', 'J'), "", "YEJ")); require(is(currency('Y', 'E', 'K'), "", "YEK")); require(is(currency('Y', 'E', 'L'), "", "YEL")); require(is(currency('Y', 'E', 'M'), "", "YEM")); require(is(currency('Y', 'E', 'N'), "", "YEN")); require(is(currency('Y', 'E', 'O'), "", "YEO")); require(is(currency('Y', 'E', 'P'), "", "YEP")); require(is(currency('Y', 'E', 'Q'), "", "YEQ")); require(is(currency('Y', 'E', 'S'), "", "YES")); require(is(currency('Y', 'E', 'T'), "", "YET")); require(is(currency('Y', 'E', 'U'), "", "YEU")); require(is(currency('Y', 'E', 'V'), "", "YEV")); require(is(currency('Y', 'E', 'W'), "", "YEW")); require(is(currency('Y', 'E', 'X'), "", "YEX")); require(is(currency('Y', 'E', 'Y'), "", "YEY")); require(is(currency('Y', 'E', 'Z'), "", "YEZ"));)
OBLIGATION(no_currency_YF, "esl/economics/currencies.hpp: currency_name (codes without a currency from YF)", (), require(is(currency('Y', 'F', 'A'), "", "YFA")); require(is(currency('Y', 'F', 'B'), "", "YFB")); require(is(currency('Y', 'F', 'C'), "", "YFC")); require(is(currency('Y', 'F', 'D'), "", "YFD")); require(is(currency('Y', 'F', 'E'), "", "YFE")); require(is(currency('Y', 'F', 'F'), "", "YFF")); require(is(currency('Y', 'F', 'G'), "", "YFG")); require(is(currency('Y', 'F', 'H'), "", "YFH")); require(is(currency('Y', 'F', 'I'), "", "YFI")); require(is(currency('Y', 'F', 'J'), "", "YFJ")); require(is(currency('Y', 'F', 'K'), "", "YFK")); require(is(currency('Y', 'F', 'L'), "", "YFL")); require(is(currency('Y', 'F', 'M'), "", "YFM")); require(is(currency('Y', 'F', 'N'), "", "YFN")); require(is(currency('Y', 'F', 'O'), "", "YFO")); require(is(currency('Y', 'F', 'P'), "", "YFP")); require(is(currency('Y', 'F', 'Q'), "", "YFQ")); require(is(currency('Y', 'F', 'R'), "", "YFR")); require(is(currency('Y', 'F', 'S'), "", "YFS")); require(is(currency('Y', 'F', 'T'), "", "YFT")); require(is(currency('Y', 'F', 'U'), "", "YFU")); require(is(currency('Y', 'F', 'V'), "", "YFV")); require(is(currency('Y', 'F', 'W'), "", "YFW")); require(is(currency('Y', 'F', 'X'), "", "YFX")); require(is(currency('Y', 'F', 'Y'), "", "YFY")); require(is(currency('Y', 'F', 'Z'), "", "YFZ"));)
OBLIGATION(no_currency_YG, "esl/economics/currencies.hpp: currency_name (codes without a currency from YG)", (), require(is(currency('Y', 'G', 'A'), "", "YGA")); require(is(currency('Y', 'G', 'B'), "", "YGB")); require(is(currency('Y', 'G', 'C'), "", "YGC")); require(is(currency('Y', 'G', 'D'), "", "YGD")); require(is(currency('Y', 'G', 'E'), "", "YGE")); require(is(currency('Y', 'G', 'F'), "", "YGF")); require(is(currency('Y', 'G', 'G'), "", "YGG")); require(is(currency('Y', 'G', 'H'), "", "YGH")); require(is(currency('Y', 'G', 'I'), "", "YGI")); require(is(currency('Y', 'G', 'J'), "", "YGJ")); require(is(currency('Y', 'G', 'K'), "", "YGK")); require(is(currency('Y', 'G', 'L'), "", "YGL")); require(is(currency('Y', 'G', 'M'), "", "YGM")); require(is(currency('Y', 'G', 'N'), "", "YGN")); require(is(currency('Y', 'G', 'O'), "", "YGO")); require(is(currency('Y', 'G', 'P'), "", "YGP")); require(is(currency('Y', 'G', 'Q'), "", "YGQ")); require(is(currency('Y', 'G', 'R'), "", "YGR")); require(is(currency('Y', 'G', 'S'), "", "YGS")); require(is(currency('Y', 'G', 'T'), "", "YGT")); require(is(currency('Y', 'G', 'U'), "", "YGU")); require(is(currency('Y', 'G', 'V'), "", "YGV")); require(is(currency('Y', 'G', 'W'), "", "YGW")); require(is(currency('Y', 'G', 'X'), "", "YGX")); require(is(currency('Y', 'G', 'Y'), "", "YGY")); require(is(currency('Y', 'G', 'Z'), "", "YGZ"));)
OBLIGATION(no_currency_YH, "esl/economics/currencies.hpp: currency_name (codes without a currency from YH)", (), require(is(currency('Y', 'H', 'A'), "", "YHA")); require(is(currency('Y', 'H', 'B'), "", "YHB")); require(is(currency('Y', 'H', 'C'), "", "YHC")); require(is(currency('Y', 'H', 'D'), "", "YHD")); require(is(currency('Y', 'H', 'E'), "", "YHE")); require(is(currency('Y', 'H', 'F'), "", "YHF")); require(is(currency('Y', 'H', 'G'), "", "YHG")); require(is(currency('Y', 'H', 'H'), "", "YHH")); require(is(currency('Y', 'H', 'I'), "", "YHI")); require(is(currency('Y', 'H', 'J'), "", "YHJ")); require(is(currency('Y', 'H', 'K'), "", "YHK")); require(is(currency('Y', 'H', 'L'), "", "YHL")); require(is(currency('Y', 'H', 'M'), "", "YHM")); require(is(currency('Y', 'H', 'N'), "", "YHN")); require(is(currency('Y', 'H', 'O'), "", "YHO")); require(is(currency('Y', 'H', 'P'), "", "YHP")); require(is(currency('Y', 'H', 'Q'), "", "YHQ")); require(is(currency('Y', 'H', 'R'), "", "YHR")); require(is(currency('Y', 'H', 'S'), "", "YHS")); require(is(currency('Y', 'H', 'T'), "", "YHT")); require(is(currency('Y', 'H', 'U'), "", "YHU")); require(is(currency('Y', 'H', 'V'), "", "YHV")); require(is(currency('Y', 'H', 'W'), "", "YHW")); require(is(currency('Y', 'H', 'X'), "", "YHX")); require(is(currency('Y', 'H', 'Y'), "", "YHY")); require(is(currency('Y', 'H', 'Z'), "", "YHZ"));)
OBLIGATION(no_currency_YI, "esl/economics/currencies.hpp: currency_name (codes without a currency from YI)", (), require(is(currency('Y', 'I', 'A'), "", "YIA")); require(is(currency('Y', 'I', 'B'), "", "YIB")); require(is(currency('Y', 'I', 'C'), "", "YIC")); require(is(currency('Y', 'I', 'D'), "", "YID")); require(is(currency('Y', 'I', 'E'), "", "YIE")); require(is(currency('Y', 'I', 'F'), "", "YIF")); require(is(currency('Y', 'I', 'G'), "", "YIG")); require(is(currency('Y', 'I', 'H'), "", "YIH")); require(is(currency('Y', 'I', 'I'), "", "YII")); require(is(currency('Y', 'I', 'J'), "", "YIJ")); require(is(currency('Y', 'I', 'K'), "", "YIK")); require(is(currency('Y', 'I', 'L'), "", "YIL")); require(is(currency('Y', 'I', 'M'), "", "YIM")); require(is(currency('Y', 'I', 'N'), "", "YIN")); require(is(currency('Y', 'I', 'O'), "", "YIO")); require(is(currency('Y', 'I', 'P'), "", "YIP")); require(is(currency('Y', 'I', 'Q'), "", "YIQ")); require(is(currency('Y', 'I', 'R'), "", "YIR")); require(is(currency('Y', 'I', 'S'), "", "YIS")); require(is(currency('Y', 'I', 'T'), "", "YIT")); require(is(currency('Y', 'I', 'U'), "", "YIU")); require(is(currency('Y', 'I', 'V'), "", "YIV")); require(is(currency('Y', 'I', 'W'), "", "YIW")); require(is(currency('Y', 'I', 'X'), "", "YIX")); require(is(currency('Y', 'I', 'Y'), "", "YIY")); require(is(currency('Y', 'I', 'Z'), "", "YIZ"));)
OBLIGATION(no_currency_YJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from YJ)", (), require(is(currency('Y', 'J', 'A'), "", "YJA")); require(is(currency('Y', 'J', 'B'), "", "YJB")); require(is(currency('Y', 'J', 'C'), "", "YJC")); require(is(currency('Y', 'J', 'D'), "", "YJD")); require(is(currency('Y', 'J', 'E'), "", "YJE")); require(is(currency('Y', 'J', 'F'), "", "YJF")); require(is(currency('Y', 'J', 'G'), "", "YJG")); require(is(currency('Y', 'J', 'H'), "", "YJH")); require(is(currency('Y', 'J', 'I'), "", "YJI")); require(is(currency('Y', 'J', 'J'), "", "YJJ")); require(is(currency('Y', 'J', 'K'), "", "YJK")); require(is(currency('Y', 'J', 'L'), "", "YJL")); require(is(currency('Y', 'J', 'M'), "", "YJM")); require(is(currency('Y', 'J', 'N'), "", "YJN")); require(is(currency('Y', 'J', 'O'), "", "YJO")); require(is(currency('Y', 'J', 'P'), "", "YJP")); require(is(currency('Y', 'J', 'Q'), "", "YJQ")); require(is(currency('Y', 'J', 'R'), "", "YJR")); require(is(currency('Y', 'J', 'S'), "", "YJS")); require(is(currency('Y', 'J', 'T'), "", "YJT")); require(is(currency('Y', 'J', 'U'), "", "YJU")); require(is(currency('Y', 'J', 'V'), "", "YJV")); require(is(currency('Y', 'J', 'W'), "", "YJW")); require(is(currency('Y', 'J', 'X'), "", "YJX")); require(is(currency('Y', 'J', 'Y'), "", "YJY")); require(is(currency('Y', 'J', 'Z'), "", "YJZ"));)
OBLIGATION(no_currency_YK, "esl/economics/currencies.hpp: currency_name (codes without a currency from YK)", (), require(is(currency('Y', 'K', 'A'), "", "YKA")); require(is(currency('Y', 'K', 'B'), "", "YKB")); require(is(currency('Y', 'K', 'C'), "", "YKC")); require(is(currency('Y', 'K', 'D'), "", "YKD")); require(is(currency('Y', 'K', 'E'), "", "YKE")); require(is(currency('Y', 'K', 'F'), "", "YKF")); require(is(currency('Y', 'K', 'G'), "", "YKG")); require(is(currency('Y', 'K', 'H'), "", "YKH")); require(is(currency('Y', 'K', 'I'), "", "YKI")); require(is(currency('Y', 'K', 'J'), "", "YKJ")); require(is(currency('Y', 'K', 'K'), "", "YKK")); require(is(currency('Y', 'K', 'L'), "", "YKL")); require(is(currency('Y', 'K', 'M'), "", "YKM")); require(is(currency('Y', 'K', 'N'), "", "YKN")); require(is(currency('Y', 'K', 'O'), "", "YKO")); require(is(currency('Y', 'K', 'P'), "", "YKP")); require(is(currency('Y', 'K', 'Q'), "", "YKQ")); require(is(currency('Y', 'K', 'R'), "", "YKR")); require(is(currency('Y', 'K', 'S'), "", "YKS")); require(is(currency('Y', 'K', 'T'), "", "YKT")); require(is(currency('Y', 'K', 'U'), "", "YKU")); require(is(currency('Y', 'K', 'V'), "", "YKV")); require(is(currency('Y', 'K', 'W'), "", "YKW")); require(is(currency('Y', 'K', 'X'), "", "YKX")); require(is(currency('Y', 'K', 'Y'), "", "YKY")); require(is(currency('Y', 'K', 'Z'), "", "YKZ"));)
OBLIGATION(no_currency_YL, "esl/economics/currencies.hpp: currency_name (codes without a currency from YL)", (), require(is(currency('Y', 'L', 'A'), "", "YLA")); require(is(currency('Y', 'L', 'B'), "", "YLB")); require(is(currency('Y', 'L', 'C'), "", "YLC")); require(is(currency('Y', 'L', 'D'), "", "YLD")); require(is(currency('Y', 'L', 'E'), "", "YLE")); require(is(currency('Y', 'L', 'F'), "", "YLF")); require(is(currency('Y', 'L', 'G'), "", "YLG")); require(is(currency('Y', 'L', 'H'), "", "YLH")); require(is(currency('Y', 'L', 'I'), "", "YLI")); require(is(currency('Y', 'L', 'J'), "", "YLJ")); require(is(currency('Y', 'L', 'K'), "", "YLK")); require(is(currency('Y', 'L', 'L'), "", "YLL")); require(is(currency('Y', 'L', 'M'), "", "YLM")); require(is(currency('Y', 'L', 'N'), "", "YLN")); require(is(currency('Y', 'L', 'O'), "", "YLO")); require(is(currency('Y', 'L', 'P'), "", "YLP")); require(is(currency('Y', 'L', 'Q'), "", "YLQ")); require(is(currency('Y', 'L', 'R'), "", "YLR")); require(is(currency('Y', 'L', 'S'), "", "YLS")); require(is(currency('Y', 'L', 'T'), "", "YLT")); require(is(currency('Y', 'L', 'U'), "", "YLU")); require(is(currency('Y', 'L', 'V'), "", "YLV")); require(is(currency('Y', 'L', 'W'), "", "YLW")); require(is(currency('Y', 'L', 'X'), "", "YLX")); require(is(currency('Y', 'L', 'Y'), "", "YLY")); require(is(currency('Y', 'L', 'Z'), "", "YLZ"));)
OBLIGATION(no_currency_YM, "esl/economics/currencies.hpp: currency_name (codes without a currency from YM)", (), require(is(currency('Y', 'M', 'A'), "", "YMA")); require(is(currency('Y', 'M', 'B'), "", "YMB")); require(is(currency('Y', 'M', 'C'), "", "YMC")); require(is(currency('Y', 'M', 'D'), "", "YMD")); require(is(currency('Y', 'M', 'E'), "", "YME")); require(is(currency('Y', 'M', 'F'), "", "YMF")); require(is(currency('Y', 'M', 'G'), "", "YMG")); require(is(currency('Y', 'M', 'H'), "", "YMH")); require(is(currency('Y', 'M', 'I'), "", "YMI")); require(is(currency('Y', 'M', 'J'), "", "YMJ")); require(is(currency('Y', 'M', 'K'), "", "YMK")); require(is(currency('Y', 'M', 'L'), "", "YML")); require(is(currency('Y', 'M', 'M'), "", "YMM")); require(is(currency('Y', 'M', 'N'), "", "YMN")); require(is(currency('Y', 'M', 'O'), "", "YMO")); require(is(currency('Y', 'M', 'P'), "", "YMP")); require(is(currency('Y', 'M', 'Q'), "", "YMQ")); require(is(currency('Y', 'M', 'R'), "", "YMR")); require(is(currency('Y', 'M', 'S'), "", "YMS")); require(is(currency('Y', 'M', 'T'), "", "YMT")); require(is(currency('Y', 'M', 'U'), "", "YMU")); require(is(currency('Y', 'M', 'V'), "", "YMV")); require(is(currency('Y', 'M', 'W'), "", "YMW")); require(is(currency('Y', 'M', 'X'), "", "YMX")); require(is(currency('Y', 'M', 'Y'), "", "YMY")); require(is(currency('Y', 'M', 'Z'), "", "YMZ"));)
OBLIGATION(no_currency_YN, "esl/economics/currencies.hpp: currency_name (codes without a currency from YN)", (), require(is(currency('Y', 'N', 'A'), "", "YNA")); require(is(currency('Y', 'N', 'B'), "", "YNB")); require(is(currency('Y', 'N', 'C'), "", "YNC")); require(is(currency('Y', 'N', 'D'), "", "YND")); require(is(currency('Y', 'N', 'E'), "", "YNE")); require(is(currency('Y', 'N', 'F'), "", "YNF")); require(is(currency('Y', 'N', 'G'), "", "YNG")); require(is(currency('Y', 'N', 'H'), "", "YNH")); require(is(currency('Y', 'N', 'I'), "", "YNI")); require(is(currency('Y', 'N', 'J'), "", "YNJ")); require(is(currency('Y', 'N', 'K'), "", "YNK")); require(is(currency('Y', 'N', 'L'), "", "YNL")); require(is(currency('Y', 'N', 'M'), "", "YNM")); require(is(currency('Y', 'N', 'N'), "", "YNN")); require(is(currency('Y', 'N', 'O'), "", "YNO")); require(is(currency('Y', 'N', 'P'), "", "YNP")); require(is(currency('Y', 'N', 'Q'), "", "YNQ")); require(is(currency('Y', 'N', 'R'), "", "YNR")); require(is(currency('Y', 'N', 'S'), "", "YNS")); require(is(currency('Y', 'N', 'T'), "", "YNT")); require(is(currency('Y', 'N', 'U'), "", "YNU")); require(is(currency('Y', 'N', 'V'), "", "YNV")); require(is(currency('Y', 'N', 'W'), "", "YNW")); require(is(currency('Y', 'N', 'X'), "", "YNX")); require(is(currency('Y', 'N', 'Y'), "", "YNY")); require(is(currency('Y', 'N', 'Z'), "", "YNZ"));)
OBLIGATION(no_currency_YO, "esl/economics/currencies.hpp: currency_name (codes without a currency from YO)", (), require(is(currency('Y', 'O', 'A'), "", "YOA")); require(is(currency('Y', 'O', 'B'), "", "YOB")); require(is(currency('Y', 'O', 'C'), "", "YOC")); require(is(currency('Y', 'O', 'D'), "", "YOD")); require(is(currency('Y', 'O', 'E'), "", "YOE")); require(is(currency('Y', 'O', 'F'), "", "YOF")); require(is(currency('Y', 'O', 'G'), "", "YOG")); require(is(currency('Y', 'O', 'H'), "", "YOH")); require(is(currency('Y', 'O', 'I'), "", "YOI")); require(is(currency('Y', 'O', 'J'), "", "YOJ")); require(is(currency('Y', 'O', 'K'), "", "YOK")); require(is(currency('Y', 'O', 'L'), "", "YOL")); require(is(currency('Y', 'O', 'M'), "", "YOM")); require(is(currency('Y', 'O', 'N'), "", "YON")); require(is(currency('Y', 'O', 'O'), "", "YOO")); require(is(currency('Y', 'O', 'P'), "", "YOP")); require(is(currency('Y', 'O', 'Q'), "", "YOQ")); require(is(currency('Y', 'O', 'R'), "", "YOR")); require(is(currency('Y', 'O', 'S'), "", "YOS")); require(is(currency('Y', 'O', 'T'), "", "YOT")); require(is(currency('Y', 'O', 'U'), "", "YOU")); require(is(currency('Y', 'O', 'V'), "", "YOV")); require(is(currency('Y', 'O', 'W'), "", "YOW")); require(is(currency('Y', 'O', 'X'), "", "YOX")); require(is(currency('Y', 'O', 'Y'), "", "YOY")); require(is(currency('Y', 'O', 'Z'), "", "YOZ"));)
OBLIGATION(no_currency_YP, "esl/economics/currencies.hpp: currency_name (codes without a currency from YP)", (), require(is(currency('Y', 'P', 'A'), "", "YPA")); require(is(currency('Y', 'P', 'B'), "", "YPB")); require(is(currency('Y', 'P', 'C'), "", "YPC")); require(is(currency('Y', 'P', 'D'), "", "YPD")); require(is(currency('Y', 'P', 'E'), "", "YPE")); require(is(currency('Y', 'P', 'F'), "", "YPF")); require(is(currency('Y', 'P', 'G'), "", "YPG")); require(is(currency('Y', 'P', 'H'), "", "YPH")); require(is(currency('Y', 'P', 'I'), "", "YPI")); require(is(currency('Y', 'P', 'J'), "", "YPJ")); require(is(currency('Y', 'P', 'K'), "", "YPK")); require(is(currency('Y', 'P', 'L'), "", "YPL")); require(is(currency('Y', 'P', 'M'), "", "YPM")); require(is(currency('Y', 'P', 'N'), "", "YPN")); require(is(currency('Y', 'P', 'O'), "", "YPO")); require(is(currency('Y', 'P', 'P'), "", "YPP")); require(is(currency('Y', 'P', 'Q'), "", "YPQ")); require(is(currency('Y', 'P', 'R'), "", "YPR")); require(is(currency('Y', 'P', 'S'), "", "YPS")); require(is(currency('Y', 'P', 'T'), "", "YPT")); require(is(currency('Y', 'P', 'U'), "", "YPU")); require(is(currency('Y', 'P', 'V'), "", "YPV")); require(is(currency('Y', 'P', 'W'), "", "YPW")); require(is(currency('Y', 'P', 'X'), "", "YPX")); require(is(currency('Y', 'P', 'Y'), "", "YPY")); require(is(currency('Y', 'P', 'Z'), "", "YPZ"));)
OBLIGATION(no_currency_YQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from YQ)", (), require(is(currency('Y', 'Q', 'A'), "", "YQA")); require(is(currency('Y', 'Q', 'B'), "", "YQB")); require(is(currency('Y', 'Q', 'C'), "", "YQC")); require(is(currency('Y', 'Q', 'D'), "", "YQD")); require(is(currency('Y', 'Q', 'E'), "", "YQE")); require(is(currency('Y', 'Q', 'F'), "", "YQF")); require(is(currency('Y', 'Q', 'G'), "", "YQG")); require(is(currency('Y', 'Q', 'H'), "", "YQH")); require(is(currency('Y', 'Q', 'I'), "", "YQI")); require(is(currency('Y', 'Q', 'J'), "", "YQJ")); require(is(currency('Y', 'Q', 'K'), "", "YQK")); require(is(currency('Y', 'Q', 'L'), "", "YQL")); require(is(currency('Y', 'Q', 'M'), "", "YQM")); require(is(currency('Y', 'Q', 'N'), "", "YQN")); require(is(currency('Y', 'Q', 'O'), "", "YQO")); require(is(currency('Y', 'Q', 'P'), "", "YQP")); require(is(currency('Y', 'Q', 'Q'), "", "YQQ")); require(is(currency('Y', 'Q', 'R'), "", "YQR")); require(is(currency('Y', 'Q', 'S'), "", "YQS")); require(is(currency('Y', 'Q', 'T'), "", "YQT")); require(is(currency('Y', 'Q', 'U'), "", "YQU")); require(is(currency('Y', 'Q', 'V'), "", "YQV")); require(is(currency('Y', 'Q', 'W'), "", "YQW")); require(is(currency('Y', 'Q', 'X'), "", "YQX")); require(is(currency('Y', 'Q', 'Y'), "", "YQY")); require(is(currency('Y', 'Q', 'Z'), "", "YQZ"));)
OBLIGATION(no_currency_YR, "esl/economics/currencies.hpp: currency_name (codes without a currency from YR)", (), require(is(currency('Y', 'R', 'A'), "", "YRA")); require(is(currency('Y', 'R', 'B'), "", "YRB")); require(is(currency('Y', 'R', 'C'), "", "YRC")); require(is(currency('Y', 'R', 'D'), "", "YRD")); require(is(currency('Y', 'R', 'E'), "", "YRE")); require(is(currency('Y', 'R', 'F'), "", "YRF")); require(is(currency('Y', 'R', 'G'), "", "YRG")); require(is(currency('Y', 'R', 'H'), "", "YRH")); require(is(currency('Y', 'R', 'I'), "", "YRI")); require(is(currency('Y', 'R', 'J'), "", "YRJ")); require(is(currency('Y', 'R', 'K'), "", "YRK")); require(is(currency('Y', 'R', 'L'), "", "YRL")); require(is(currency('Y', 'R', 'M'), "", "YRM")); require(is(currency('Y', 'R', 'N'), "", "YRN")); require(is(currency('Y', 'R', 'O'), "", "YRO")); require(is(currency('Y', 'R', 'P'), "", "YRP")); require(is(currency('Y', 'R', 'Q'), "", "YRQ")); require(is(currency('Y', 'R', 'R'), "", "YRR")); require(is(currency('Y', 'R', 'S'), "", "YRS")); require(is(currency('Y', 'R', 'T'), "", "YRT")); require(is(currency('Y', 'R', 'U'), "", "YRU")); require(is(currency('Y', 'R', 'V'), "", "YRV")); require(is(currency('Y', 'R', 'W'), "", "YRW")); require(is(currency('Y', 'R', 'X'), "", "YRX")); require(is(currency('Y', 'R', 'Y'), "", "YRY")); require(is(currency('Y', 'R', 'Z'), "", "YRZ"));)
OBLIGATION(no_currency_YS, "esl/economics/currencies.hpp: currency_name (codes without a currency from YS)", (), require(is(currency('Y', 'S', 'A'), "", "YSA")); require(is(currency('Y', 'S', 'B'), "", "YSB")); require(is(currency('Y', 'S', 'C'), "", "YSC")); require(is(currency('Y', 'S', 'D'), "", "YSD")); require(is(currency('Y', 'S', 'E'), "", "YSE")); require(is(currency('Y', 'S', 'F'), "", "YSF")); require(is(currency('Y', 'S', 'G'), "", "YSG")); require(is(currency('Y', 'S', 'H'), "", "YSH")); require(is(currency('Y', 'S', 'I'), "", "YSI")); require(is(currency('Y', 'S', 'J'), "", "YSJ")); require(is(currency('Y', 'S', 'K'), "", "YSK")); require(is(currency('Y', 'S', 'L'), "", "YSL")); require(is(currency('Y', 'S', 'M'), "", "YSM")); require(is(currency('Y', 'S', 'N'), "", "YSN")); require(is(currency('Y', 'S', 'O'), "", "YSO")); require(is(currency('Y', 'S', 'P'), "", "YSP")); require(is(currency('Y', 'S', 'Q'), "", "YSQ")); require(is(currency('Y', 'S', 'R'), "", "YSR")); require(is(currency('Y', 'S', 'S'), "", "YSS")); require(is(currency('Y', 'S', 'T'), "", "YST")); require(is(currency('Y', 'S', 'U'), "", "YSU")); require(is(currency('Y', 'S', 'V'), "", "YSV")); require(is(currency('Y', 'S', 'W'), "", "YSW")); require(is(currency('Y', 'S', 'X'), "", "YSX")); require(is(currency('Y', 'S', 'Y'), "", "YSY")); require(is(currency('Y', 'S', 'Z'), "", "YSZ"));)
OBLIGATION(no_currency_YT, "esl/economics/currencies.hpp: currency_name (codes without a currency from YT)", (), require(is(currency('Y', 'T', 'A'), "", "YTA")); require(is(currency('Y', 'T', 'B'), "", "YTB")); require(is(currency('Y', 'T', 'C'), "", "YTC")); require(is(currency('Y', 'T', 'D'), "", "YTD")); require(is(currency('Y', 'T', 'E'), "", "YTE")); require(is(currency('Y', 'T', 'F'), "", "YTF")); require(is(currency('Y', 'T', 'G'), "", "YTG")); require(is(currency('Y', 'T', 'H'), "", "YTH")); require(is(currency('Y', 'T', 'I'), "", "YTI")); require(is(currency('Y', 'T', 'J'), "", "YTJ")); require(is(currency('Y', 'T', 'K'), "", "YTK")); require(is(currency('Y', 'T', 'L'), "", "YTL")); require(is(currency('Y', 'T', 'M'), "", "YTM")); require(is(currency('Y', 'T', 'N'), "", "YTN")); require(is(currency('Y', 'T', 'O'), "", "YTO")); require(is(currency('Y', 'T', 'P'), "", "YTP")); require(is(currency('Y', 'T', 'Q'), "", "YTQ")); require(is(currency('Y', 'T', 'R'), "", "YTR")); require(is(currency('Y', 'T', 'S'), "", "YTS")); require(is(currency('Y', 'T', 'T'), "", "YTT")); require(is(currency('Y', 'T', 'U'), "", "YTU")); require(is(currency('Y', 'T', 'V'), "", "YTV")); require(is(currency('Y', 'T', 'W'), "", "YTW")); require(is(currency('Y', 'T', 'X'), "", "YTX")); require(is(currency('Y', 'T', 'Y'), "", "YTY")); require(is(currency('Y', 'T', 'Z'), "", "YTZ"));)
OBLIGATION(no_currency_YU, "esl/economics/currencies.hpp: currency_name (codes without a currency from YU)", (), require(is(currency('Y', 'U', 'A'), "", "YUA")); require(is(currency('Y', 'U', 'B'), "", "YUB")); require(is(currency('Y', 'U', 'C'), "", "YUC")); require(is(currency('Y', 'U', 'D'), "", "YUD")); require(is(currency('Y', 'U', 'E'), "", "YUE")); require(is(currency('Y', 'U', 'F'), "", "YUF")); require(is(currency('Y', 'U', 'G'), "", "YUG")); require(is(currency('Y', 'U', 'H'), "", "YUH")); require(is(currency('Y', 'U', 'I'), "", "YUI")); require(is(currency('Y', 'U', 'J'), "", "YUJ")); require(is(currency('Y', 'U', 'K'), "", "YUK")); require(is(currency('Y', 'U', 'L'), "", "YUL")); require(is(currency('Y', 'U', 'M'), "", "YUM")); require(is(currency('Y', 'U', 'N'), "", "YUN")); require(is(currency('Y', 'U', 'O'), "", "YUO")); require(is(currency('Y', 'U', 'P'), "", "YUP")); require(is(currency('Y', 'U', 'Q'), "", "YUQ")); require(is(currency('Y', 'U', 'R'), "", "YUR")); require(is(currency('Y', 'U', 'S'), "", "YUS")); require(is(currency('Y', 'U', 'T'), "", "YUT")); require(is(currency('Y', 'U', 'U'), "", "YUU")); require(is(currency('Y', 'U', 'V'), "", "YUV")); require(is(currency('Y', 'U', 'W'), "", "YUW")); require(is(currency('Y', 'U', 'X'), "", "YUX")); require(is(currency('Y', 'U', 'Y'), "", "YUY")); require(is(currency('Y', 'U', 'Z'), "", "YUZ"));)
OBLIGATION(no_currency_YV, "esl/economics/currencies.hpp: currency_name (codes without a currency from YV)", (), require(is(currency('Y', 'V', 'A'), "", "YVA")); require(is(currency('Y', 'V', 'B'), "", "YVB")); require(is(currency('Y', 'V', 'C'), "", "YVC")); require(is(currency('Y', 'V', 'D'), "", "YVD")); require(is(currency('Y', 'V', 'E'), "", "YVE")); require(is(currency('Y', 'V', 'F'), "", "YVF")); require(is(currency('Y', 'V', 'G'), "", "YVG")); require(is(currency('Y', 'V', 'H'), "", "YVH")); require(is(currency('Y', 'V', 'I'), "", "YVI")); require(is(currency('Y', 'V', 'J'), "", "YVJ")); require(is(currency('Y', 'V', 'K'), "", "YVK")); require(is(currency('Y', 'V', 'L'), "", "YVL")); require(is(currency('Y', 'V', 'M'), "", "YVM")); require(is(currency('Y', 'V', 'N'), "", "YVN")); require(is(currency('Y', 'V', 'O'), "", "YVO")); require(is(currency('Y', 'V', 'P'), "", "YVP")); require(is(currency('Y', 'V', 'Q'), "", "YVQ")); require(is(currency('Y', 'V', 'R'), "", "YVR")); require(is(currency('Y', 'V', 'S'), "", "YVS")); require(is(currency('Y', 'V', 'T'), "", "YVT")); require(is(currency('Y', 'V', 'U'), "", "YVU")); require(is(currency('Y', 'V', 'V'), "", "YVV")); require(is(currency('Y', 'V', 'W'), "", "YVW")); require(is(currency('Y', 'V', 'X'), "", "YVX")); require(is(currency('Y', 'V', 'Y'), "", "YVY")); require(is(currency('Y', 'V', 'Z'), "", "YVZ"));)
OBLIGATION(no_currency_YW, "esl/economics/currencies.hpp: currency_name (codes without a currency from YW)", (), require(is(currency('Y', 'W', 'A'), "", "YWA")); require(is(currency('Y', 'W', 'B'), "", "YWB")); require(is(currency('Y', 'W', 'C'), "", "YWC")); require(is(currency('Y', 'W', 'D'), "", "YWD")); require(is(currency('Y', 'W', 'E'), "", "YWE")); require(is(currency('Y', 'W', 'F'), "", "YWF")); require(is(currency('Y', 'W', 'G'), "", "YWG")); require(is(currency('Y', 'W', 'H'), "", "YWH")); require(is(currency('Y', 'W', 'I'), "", "YWI")); require(is(currency('Y', 'W', 'J'), "", "YWJ")); require(is(currency('Y', 'W', 'K'), "", "YWK")); require(is(currency('Y', 'W', 'L'), "", "YWL")); require(is(currency('Y', 'W', 'M'), "", "YWM")); require(is(currency('Y', 'W', 'N'), "", "YWN")); require(is(currency('Y', 'W', 'O'), "", "YWO")); require(is(currency('Y', 'W', 'P'), "", "YWP")); require(is(currency('Y', 'W', 'Q'), "", "YWQ")); require(is(currency('Y', 'W', 'R'), "", "YWR")); require(is(currency('Y', 'W', 'S'), "", "YWS")); require(is(currency('Y', 'W', 'T'), "", "YWT")); require(is(currency('Y', 'W', 'U'), "", "YWU")); require(is(currency('Y', 'W', 'V'), "", "YWV")); require(is(currency('Y', 'W', 'W'), "", "YWW")); require(is(currency('Y', 'W', 'X'), "", "YWX")); require(is(currency('Y', 'W', 'Y'), "", "YWY")); require(is(currency('Y', 'W', 'Z'), "", "YWZ"));)
OBLIGATION(no_currency_YX, "esl/economics/currencies.hpp: currency_name (codes without a currency from YX)", (), require(is(currency('Y', 'X', 'A'), "", "YXA")); require(is(currency('Y', 'X', 'B'), "", "YXB")); require(is(currency('Y', 'X', 'C'), "", "YXC")); require(is(currency('Y', 'X', 'D'), "", "YXD")); require(is(currency('Y', 'X', 'E'), "", "YXE")); require(is(currency('Y', 'X', 'F'), "", "YXF")); require(is(currency('Y', 'X', 'G'), "", "YXG")); require(is(currency('Y', 'X', 'H'), "", "YXH")); require(is(currency('Y', 'X', 'I'), "", "YXI")); require(is(currency('Y', 'X', 'J'), "", "YXJ")); require(is(currency('Y', 'X', 'K'), "", "YXK")); require(is(currency('Y', 'X', 'L'), "", "YXL")); require(is(currency('Y', 'X', 'M'), "", "YXM")); require(is(currency('Y', 'X', 'N'), "", "YXN")); require(is(currency('Y', 'X', 'O'), "", "YXO")); require(is(currency('Y', 'X', 'P'), "", "YXP")); require(is(currency('Y', 'X', 'Q'), "", "YXQ")); require(is(currency('Y', 'X', 'R'), "", "YXR")); require(is(currency('Y', 'X', 'S'), "", "YXS")); require(is(currency('Y', 'X', 'T'), "", "YXT")); require(is(currency('Y', 'X', 'U'), "", "YXU")); require(is(currency('Y', 'X', 'V'), "", "YXV")); require(is(currency('Y', 'X', 'W'), "", "YXW")); require(is(currency('Y', 'X', 'X'), "", "YXX")); require(is(currency('Y', 'X', 'Y'), "", "YXY")); require(is(currency('Y', 'X', 'Z'), "", "YXZ"));)
OBLIGATION(no_currency_YY, "esl/economics/currencies.hpp: currency_name (codes without a currency from YY)", (), require(is(currency('Y', 'Y', 'A'), "", "YYA")); require(is(currency('Y', 'Y', 'B'), "", "YYB")); require(is(currency('Y', 'Y', 'C'), "", "YYC")); require(is(currency('Y', 'Y', 'D'), "", "YYD")); require(is(currency('Y', 'Y', 'E'), "", "YYE")); require(is(currency('Y', 'Y', 'F'), "", "YYF")); require(is(currency('Y', 'Y', 'G'), "", "YYG")); require(is(currency('Y', 'Y', 'H'), "", "YYH")); require(is(currency('Y', 'Y', 'I'), "", "YYI")); require(is(currency('Y', 'Y', 'J'), "", "YYJ")); require(is(currency('Y', 'Y', 'K'), "", "YYK")); require(is(currency('Y', 'Y', 'L'), "", "YYL")); require(is(currency('Y', 'Y', 'M'), "", "YYM")); require(is(currency('Y', 'Y', 'N'), "", "YYN")); require(is(currency('Y', 'Y', 'O'), "", "YYO")); require(is(currency('Y', 'Y', 'P'), "", "YYP")); require(is(currency('Y', 'Y', 'Q'), "", "YYQ")); require(is(currency('Y', 'Y', 'R'), "", "YYR")); require(is(currency('Y', 'Y', 'S'), "", "YYS")); require(is(currency('Y', 'Y', 'T'), "", "YYT")); require(is(currency('Y', 'Y', 'U'), "", "YYU")); require(is(currency('Y', 'Y', 'V'), "", "YYV")); require(is(currency('Y', 'Y', 'W'), "", "YYW")); require(is(currency('Y', 'Y', 'X'), "", "YYX")); require(is(currency('Y', 'Y', 'Y'), "", "YYY")); require(is(currency('Y', 'Y', 'Z'), "", "YYZ"));)
OBLIGATION(no_currency_YZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from YZ)", (), require(is(currency('Y', 'Z', 'A'), "", "YZA")); require(is(currency('Y', 'Z', 'B'), "", "YZB")); require(is(currency('Y', 'Z', 'C'), "", "YZC")); require(is(currency('Y', 'Z', 'D'), "", "YZD")); require(is(currency('Y', 'Z', 'E'), "", "YZE")); require(is(currency('Y', 'Z', 'F'), "", "YZF")); require(is(currency('Y', 'Z', 'G'), "", "YZG")); require(is(currency('Y', 'Z', 'H'), "", "YZH")); require(is(currency('Y', 'Z', 'I'), "", "YZI")); require(is(currency('Y', 'Z', 'J'), "", "YZJ")); require(is(currency('Y', 'Z', 'K'), "", "YZK")); require(is(currency('Y', 'Z', 'L'), "", "YZL")); require(is(currency('Y', 'Z', 'M'), "", "YZM")); require(is(currency('Y', 'Z', 'N'), "", "YZN")); require(is(currency('Y', 'Z', 'O'), "", "YZO")); require(is(currency('Y', 'Z', 'P'), "", "YZP")); require(is(currency('Y', 'Z', 'Q'), "", "YZQ")); require(is(currency('Y', 'Z', 'R'), "", "YZR")); require(is(currency('Y', 'Z', 'S'), "", "YZS")); require(is(currency('Y', 'Z', 'T'), "", "YZT")); require(is(currency('Y', 'Z', 'U'), "", "YZU")); require(is(currency('Y', 'Z', 'V'), "", "YZV")); require(is(currency('Y', 'Z', 'W'), "", "YZW")); require(is(currency('Y', 'Z', 'X'), "", "YZX")); require(is(currency('Y', 'Z', 'Y'), "", "YZY")); require(is(currency('Y', 'Z', 'Z'), "", "YZZ"));)
OBLIGATION(no_currency_ZA, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZA)", (), require(is(currency('Z', 'A', 'A'), "", "ZAA")); require(is(currency('Z', 'A', 'B'), "", "ZAB")); require(is(currency('Z', 'A', 'C'), "", "ZAC")); require(is(currency('Z', 'A', 'D'), "", "ZAD")); require(is(currency('Z', 'A', 'E'), "", "ZAE")); require(is(currency('Z', 'A', 'F'), "", "ZAF")); require(is(currency('Z', 'A', 'G'), "", "ZAG")); require(is(currency('Z', 'A', 'H'), "", "ZAH")); require(is(currency('Z', 'A', 'I'), "", "ZAI")); require(is(currency('Z', 'A', 'J'), "", "ZAJ")); require(is(currency('Z', 'A', 'K'), "", "ZAK")); require(is(currency('Z', 'A', 'L'), "", "ZAL")); require(is(currency('Z', 'A', 'M'), "", "ZAM")); require(is(currency('Z', 'A', 'N'), "", "ZAN")); require(is(currency('Z', 'A', 'O'), "", "ZAO")); require(is(currency('Z', 'A', 'P'), "", "ZAP")); require(is(currency('Z', 'A', 'Q'), "", "ZAQ")); require(is(currency('Z', 'A', 'S'), "", "ZAS")); require(is(currency('Z', 'A', 'T'), "", "ZAT")); require(is(currency('Z', 'A', 'U'), "", "ZAU")); require(is(currency('Z', 'A', 'V'), "", "ZAV")); require(is(currency('Z', 'A', 'W'), "", "ZAW")); require(is(currency('Z', 'A', 'X'), "", "ZAX")); require(is(currency('Z', 'A', 'Y'), "", "ZAY")); require(is(currency('Z', 'A', 'Z'), "", "ZAZ"));)
OBLIGATION(no_currency_ZB, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZB)", (), require(is(currency('Z', 'B', 'A'), "", "ZBA")); require(is(currency('Z', 'B', 'B'), "", "ZBB")); require(is(currency('Z', 'B', 'C'), "", "ZBC")); require(is(currency('Z', 'B', 'D'), "", "ZBD")); require(is(currency('Z', 'B', 'E'), "", "ZBE")); require(is(currency('Z', 'B', 'F'), "", "ZBF")); require(is(currency('Z', 'B', 'G'), "", "ZBG")); require(is(currency('Z', 'B', 'H'), "", "ZBH")); require(is(currency('Z', 'B', 'I'), "", "ZBI")); require(is(currency('Z', 'B', 'J'), "", "ZBJ")); require(is(currency('Z', 'B', 'K'), "", "ZBK")); require(is(currency('Z', 'B', 'L'), "", "ZBL")); require(is(currency('Z', 'B', 'M'), "", "ZBM")); require(is(currency('Z', 'B', 'N'), "", "ZBN")); require(is(currency('Z', 'B', 'O'), "", "ZBO")); require(is(currency('Z', 'B', 'P'), "", "ZBP")); require(is(currency('Z', 'B', 'Q'), "", "ZBQ")); require(is(currency('Z', 'B', 'R'), "", "ZBR")); require(is(currency('Z', 'B', 'S'), "", "ZBS")); require(is(currency('Z', 'B', 'T'), "", "ZBT")); require(is(currency('Z', 'B', 'U'), "", "ZBU")); require(is(currency('Z', 'B', 'V'), "", "ZBV")); require(is(currency('Z', 'B', 'W'), "", "ZBW")); require(is(currency('Z', 'B', 'X'), "", "ZBX")); require(is(currency('Z', 'B', 'Y'), "", "ZBY")); require(is(currency('Z', 'B', 'Z'), "", "ZBZ"));)
OBLIGATION(no_currency_ZC, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZC)", (), require(is(currency('Z', 'C', 'A'), "", "ZCA")); require(is(currency('Z', 'C', 'B'), "", "ZCB")); require(is(currency('Z', 'C', 'C'), "", "ZCC")); require(is(currency('Z', 'C', 'D'), "", "ZCD")); require(is(currency('Z', 'C', 'E'), "", "ZCE")); require(is(currency('Z', 'C', 'F'), "", "ZCF")); require(is(currency('Z', 'C', 'G'), "", "ZCG")); require(is(currency('Z', 'C', 'H'), "", "ZCH")); require(is(currency('Z', 'C', 'I'), "", "ZCI")); require(is(currency('Z', 'C', 'J'), "", "ZCJ")); require(is(currency('Z', 'C', 'K'), "", "ZCK")); require(is(currency('Z', 'C', 'L'), "", "ZCL")); require(is(currency('Z', 'C', 'M'), "", "ZCM")); require(is(currency('Z', 'C', 'N'), "", "ZCN")); require(is(currency('Z', 'C', 'O'), "", "ZCO")); require(is(currency('Z', 'C', 'P'), "", "ZCP")); require(is(currency('Z', 'C', 'Q'), "", "ZCQ")); require(is(currency('Z', 'C', 'R'), "", "ZCR")); require(is(currency('Z', 'C', 'S'), "", "ZCS")); require(is(currency('Z', 'C', 'T'), "", "ZCT")); require(is(currency('Z', 'C', 'U'), "", "ZCU")); require(is(currency('Z', 'C', 'V'), "", "ZCV")); require(is(currency('Z', 'C', 'W'), "", "ZCW")); require(is(currency('Z', 'C', 'X'), "", "ZCX")); require(is(currency('Z', 'C', 'Y'), "", "ZCY")); require(is(currency('Z', 'C', 'Z'), "", "ZCZ"));)
OBLIGATION(no_currency_ZD, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZD)", (), require(is(currency('Z', 'D', 'A'), "", "ZDA")); require(is(currency('Z', 'D', 'B'), "", "ZDB")); require(is(currency('Z', 'D', 'C'), "", "ZDC")); require(is(currency('Z', 'D', 'D'), "", "ZDD")); require(is(currency('Z', 'D', 'E'), "", "ZDE")); require(is(currency('Z', 'D', 'F'), "", "ZDF")); require(is(currency('Z', 'D', 'G'), "", "ZDG")); require(is(currency('Z', 'D', 'H'), "", "ZDH")); require(is(currency('Z', 'D', 'I'), "", "ZDI")); require(is(currency('Z', 'D', 'J'), "", "ZDJ")); require(is(currency('Z', 'D', 'K'), "", "ZDK")); require(is(currency('Z', 'D', 'L'), "", "ZDL")); require(is(currency('Z', 'D', 'M'), "", "ZDM")); require(is(currency('Z', 'D', 'N'), "", "ZDN")); require(is(currency('Z', 'D', 'O'), "", "ZDO")); require(is(currency('Z', 'D', 'P'), "", "ZDP")); require(is(currency('Z', 'D', 'Q'), "", "ZDQ")); require(is(currency('Z', 'D', 'R'), "", "ZDR")); require(is(currency('Z', 'D', 'S'), "", "ZDS")); require(is(currency('Z', 'D', 'T'), "", "ZDT")); require(is(currency('Z', 'D', 'U'), "", "ZDU")); require(is(currency('Z', 'D', 'V'), "", "ZDV")); require(is(currency('Z', 'D', 'W'), "", "ZDW")); require(is(currency('Z', 'D', 'X'), "", "ZDX")); require(is(currency('Z', 'D', 'Y'), "", "ZDY")); require(is(currency('Z', 'D', 'Z'), "", "ZDZ"));)
OBLIGATION(no_currency_ZE, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZE)", (), require(is(currency('Z', 'E', 'A'), "", "ZEA")); require(is(currency('Z', 'E', 'B'), "", "ZEB")); require(is(currency('Z', 'E', 'C'), "", "ZEC")); require(is(currency('Z', 'E', 'D'), "", "ZED")); require(is(currency('Z', 'E', 'E'), "", "ZEE")); require(is(currency('Z', 'E', 'F'), "", "ZEF")); require(is(currency('Z', 'E', 'G'), "", "ZEG")); require(is(currency('Z', 'E', 'H'), "", "ZEH")); require(is(currency('Z', 'E', 'I'), "", "ZEI")); require(is(currency('Z', 'E', 'J'), "", "ZEJ")); require(is(currency('Z', 'E', 'K'), "", "ZEK")); require(is(currency('Z', 'E', 'L'), "", "ZEL")); require(is(currency('Z', 'E', 'M'), "", "ZEM")); require(is(currency('Z', 'E', 'N'), "", "ZEN")); require(is(currency('Z', 'E', 'O'), "", "ZEO")); require(is(currency('Z', 'E', 'P'), "", "ZEP")); require(is(currency('Z', 'E', 'Q'), "", "ZEQ")); require(is(currency('Z', 'E', 'R'), "", "ZER")); require(is(currency('Z', 'E', 'S'), "", "ZES")); require(is(currency('Z', 'E', 'T'), "", "ZET")); require(is(currency('Z', 'E', 'U'), "", "ZEU")); require(is(currency('Z', 'E', 'V'), "", "ZEV")); require(is(currency('Z', 'E', 'W'), "", "ZEW")); require(is(currency('Z', 'E', 'X'), "", "ZEX")); require(is(currency('Z', 'E', 'Y'), "", "ZEY")); require(is(currency('Z', 'E', 'Z'), "", "ZEZ"));)
OBLIGATION(no_currency_ZF, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZF)", (), require(is(currency('Z', 'F', 'A'), "", "ZFA")); require(is(currency('Z', 'F', 'B'), "", "ZFB")); require(is(currency('Z', 'F', 'C'), "", "ZFC")); require(is(currency('Z', 'F', 'D'), "", "ZFD")); require(is(currency('Z', 'F', 'E'), "", "ZFE")); require(is(currency('Z', 'F', 'F'), "", "ZFF")); require(is(currency('Z', 'F', 'G'), "", "ZFG")); require(is(currency('Z', 'F', 'H'), "", "ZFH")); require(is(currency('Z', 'F', 'I'), "", "ZFI")); require(is(currency('Z', 'F', 'J'), "", "ZFJ")); require(is(currency('Z', 'F', 'K'), "", "ZFK")); require(is(currency('Z', 'F', 'L'), "", "ZFL")); require(is(currency('Z', 'F', 'M'), "", "ZFM")); require(is(currency('Z', 'F', 'N'), "", "ZFN")); require(is(currency('Z', 'F', 'O'), "", "ZFO")); require(is(currency('Z', 'F', 'P'), "", "ZFP")); require(is(currency('Z', 'F', 'Q'), "", "ZFQ")); require(is(currency('Z', 'F', 'R'), "", "ZFR")); require(is(currency('Z', 'F', 'S'), "", "ZFS")); require(is(currency('Z', 'F', 'T'), "", "ZFT")); require(is(currency('Z', 'F', 'U'), "", "ZFU")); require(is(currency('Z', 'F', 'V'), "", "ZFV")); require(is(currency('Z', 'F', 'W'), "", "ZFW")); require(is(currency('Z', 'F', 'X'), "", "ZFX")); require(is(currency('Z', 'F', 'Y'), "", "ZFY")); require(is(currency('Z', 'F', 'Z'), "", "ZFZ"));)
OBLIGATION(no_currency_ZG, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZG)", (), require(is(currency('Z', 'G', 'A'), "", "ZGA")); require(is(currency('Z', 'G', 'B'), "", "ZGB")); require(is(currency('Z', 'G', 'C'), "", "ZGC")); require(is(currency('Z', 'G', 'D'), "", "ZGD")); require(is(currency('Z', 'G', 'E'), "", "ZGE")); require(is(currency('Z', 'G', 'F'), "", "ZGF")); require(is(currency('Z', 'G', 'G'), "", "ZGG")); require(is(currency('Z', 'G', 'H'), "", "ZGH")); require(is(currency('Z', 'G', 'I'), "", "ZGI")); require(is(currency('Z', 'G', 'J'), "", "ZGJ")); require(is(currency('Z', 'G', 'K'), "", "ZGK")); require(is(currency('Z', 'G', 'L'), "", "ZGL")); require(is(currency('Z', 'G', 'M'), "", "ZGM")); require(is(currency('Z', 'G', 'N'), "", "ZGN")); require(is(currency('Z', 'G', 'O'), "", "ZGO")); require(is(currency('Z', 'G', 'P'), "", "ZGP")); require(is(currency('Z', 'G', 'Q'), "", "ZGQ")); require(is(currency('Z', 'G', 'R'), "", "ZGR")); require(is(currency('Z', 'G', 'S'), "", "ZGS")); require(is(currency('Z', 'G', 'T'), "", "ZGT")); require(is(currency('Z', 'G', 'U'), "", "ZGU")); require(is(currency('Z', 'G', 'V'), "", "ZGV")); require(is(currency('Z', 'G', 'W'), "", "ZGW")); require(is(currency('Z', 'G', 'X'), "", "ZGX")); require(is(currency('Z', 'G', 'Y'), "", "ZGY")); require(is(currency('Z', 'G', 'Z'), "", "ZGZ"));)
OBLIGATION(no_currency_ZH, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZH)", (), require(is(currency('Z', 'H', 'A'), "", "ZHA")); require(is(currency('Z', 'H', 'B'), "", "ZHB")); require(is(currency('Z', 'H', 'C'), "", "ZHC")); require(is(currency('Z', 'H', 'D'), "", "ZHD")); require(is(currency('Z', 'H', 'E'), "", "ZHE")); require(is(currency('Z', 'H', 'F'), "", "ZHF")); require(is(currency('Z', 'H', 'G'), "", "ZHG")); require(is(currency('Z', 'H', 'H'), "", "ZHH")); require(is(currency('Z', 'H', 'I'), "", "ZHI")); require(is(currency('Z', 'H', 'J'), "", "ZHJ")); require(is(currency('Z', 'H', 'K'), "", "ZHK")); require(is(currency('Z', 'H', 'L'), "", "ZHL")); require(is(currency('Z', 'H', 'M'), "", "ZHM")); require(is(currency('Z', 'H', 'N'), "", "ZHN")); require(is(currency('Z', 'H', 'O'), "", "ZHO")); require(is(currency('Z', 'H', 'P'), "", "ZHP")); require(is(currency('Z', 'H', 'Q'), "", "ZHQ")); require(is(currency('Z', 'H', 'R'), "", "ZHR")); require(is(currency('Z', 'H', 'S'), "", "ZHS")); require(is(currency('Z', 'H', 'T'), "", "ZHT")); require(is(currency('Z', 'H', 'U'), "", "ZHU")); require(is(currency('Z', 'H', 'V'), "", "ZHV")); require(is(currency('Z', 'H', 'W'), "", "ZHW")); require(is(currency('Z', 'H', 'X'), "", "ZHX")); require(is(currency('Z', 'H', 'Y'), "", "ZHY")); require(is(currency('Z', 'H', 'Z'), "", "ZHZ"));)
OBLIGATION(no_currency_ZI, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZI)", (), require(is(currency('Z', 'I', 'A'), "", "ZIA")); require(is(currency('Z', 'I', 'B'), "", "ZIB")); require(is(currency('Z', 'I', 'C'), "", "ZIC")); require(is(currency('Z', 'I', 'D'), "", "ZID")); require(is(currency('Z', 'I', 'E'), "", "ZIE")); require(is(currency('Z', 'I', 'F'), "", "ZIF")); require(is(currency('Z', 'I', 'G'), "", "ZIG")); require(is(currency('Z', 'I', 'H'), "", "ZIH")); require(is(currency('Z', 'I', 'I'), "", "ZII")); require(is(currency('Z', 'I', 'J'), "", "ZIJ")); require(is(currency('Z', 'I', 'K'), "", "ZIK")); require(is(currency('Z', 'I', 'L'), "", "ZIL")); require(is(currency('Z', 'I', 'M'), "", "ZIM")); require(is(currency('Z', 'I', 'N'), "", "ZIN")); require(is(currency('Z', 'I', 'O'), "", "ZIO")); require(is(currency('Z', 'I', 'P'), "", "ZIP")); require(is(currency('Z', 'I', 'Q'), "", "ZIQ")); require(is(currency('Z', 'I', 'R'), "", "ZIR")); require(is(currency('Z', 'I', 'S'), "", "ZIS")); require(is(currency('Z', 'I', 'T'), "", "ZIT")); require(is(currency('Z', 'I', 'U'), "", "ZIU")); require(is(currency('Z', 'I', 'V'), "", "ZIV")); require(is(currency('Z', 'I', 'W'), "", "ZIW")); require(is(currency('Z', 'I', 'X'), "", "ZIX")); require(is(currency('Z', 'I', 'Y'), "", "ZIY")); require(is(currency('Z', 'I', 'Z'), "", "ZIZ"));)
OBLIGATION(no_currency_ZJ, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZJ)", (), require(is(currency('Z', 'J', 'A'), "", "ZJA")); require(is(currency('Z', 'J', 'B'), "", "ZJB")); require(is(currency('Z', 'J', 'C'), "", "ZJC")); require(is(currency('Z', 'J', 'D'), "", "ZJD")); require(is(currency('Z', 'J', 'E'), "", "ZJE")); require(is(currency('Z', 'J', 'F'), "", "ZJF")); require(is(currency('Z', 'J', 'G'), "", "ZJG")); require(is(currency('Z', 'J', 'H'), "", "ZJH")); require(is(currency('Z', 'J', 'I'), "", "ZJI")); require(is(currency('Z', 'J', 'J'), "", "ZJJ")); require(is(currency('Z', 'J', 'K'), "", "ZJK")); require(is(currency('Z', 'J', 'L'), "", "ZJL")); require(is(currency('Z', 'J', 'M'), "", "ZJM")); require(is(currency('Z', 'J', 'N'), "", "ZJN")); require(is(currency('Z', 'J', 'O'), "", "ZJO")); require(is(currency('Z', 'J', 'P'), "", "ZJP")); require(is(currency('Z', 'J', 'Q'), "", "ZJQ")); require(is(currency('Z', 'J', 'R'), "", "ZJR")); require(is(currency('Z', 'J', 'S'), "", "ZJS")); require(is(currency('Z', 'J', 'T'), "", "ZJT")); require(is(currency('Z', 'J', 'U'), "", "ZJU")); require(is(currency('Z', 'J', 'V'), "", "ZJV")); require(is(currency('Z', 'J', 'W'), "", "ZJW")); require(is(currency('Z', 'J', 'X'), "", "ZJX")); require(is(currency('Z', 'J', 'Y'), "", "ZJY")); require(is(currency('Z', 'J', 'Z'), "", "ZJZ"));)
OBLIGATION(no_currency_ZK, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZK)", (), require(is(currency('Z', 'K', 'A'), "", "ZKA")); require(is(currency('Z', 'K', 'B'), "", "ZKB")); require(is(currency('Z', 'K', 'C'), "", "ZKC")); require(is(currency('Z', 'K', 'D'), "", "ZKD")); require(is(currency('Z', 'K', 'E'), "", "ZKE")); require(is(currency('Z', 'K', 'F'), "", "ZKF")); require(is(currency('Z', 'K', 'G'), "", "ZKG")); require(is(currency('Z', 'K', 'H'), "", "ZKH")); require(is(currency('Z', 'K', 'I'), "", "ZKI")); require(is(currency('Z', 'K', 'J'), "", "ZKJ")); require(is(currency('Z', 'K', 'K'), "", "ZKK")); require(is(currency('Z', 'K', 'L'), "", "ZKL")); require(is(currency('Z', 'K', 'M'), "", "ZKM")); require(is(currency('Z', 'K', 'N'), "", "ZKN")); require(is(currency('Z', 'K', 'O'), "", "ZKO")); require(is(currency('Z', 'K', 'P'), "", "ZKP")); require(is(currency('Z', 'K', 'Q'), "", "ZKQ")); require(is(currency('Z', 'K', 'R'), "", "ZKR")); require(is(currency('Z', 'K', 'S'), "", "ZKS")); require(is(currency('Z', 'K', 'T'), "", "ZKT")); require(is(currency('Z', 'K', 'U'), "", "ZKU")); require(is(currency('Z', 'K', 'V'), "", "ZKV")); require(is(currency('Z', 'K', 'W'), "", "ZKW")); require(is(currency('Z', 'K', 'X'), "", "ZKX")); require(is(currency('Z', 'K', 'Y'), "", "ZKY")); require(is(currency('Z', 'K', 'Z'), "", "ZKZ"));)
OBLIGATION(no_currency_ZL, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZL)", (), require(is(currency('Z', 'L', 'A'), "", "ZLA")); require(is(currency('Z', 'L', 'B'), "", "ZLB")); require(is(currency('Z', 'L', 'C'), "", "ZLC")); require(is(currency('Z', 'L', 'D'), "", "ZLD")); require(is(currency('Z', 'L', 'E'), "", "ZLE")); require(is(currency('Z', 'L', 'F'), "", "ZLF")); require(is(currency('Z', 'L', 'G'), "", "ZLG")); require(is(currency('Z', 'L', 'H'), "", "ZLH")); require(is(currency('Z', 'L', 'I'), "", "ZLI")); require(is(currency('Z', 'L', 'J'), "", "ZLJ")); require(is(currency('Z', 'L', 'K'), "", "ZLK")); require(is(currency('Z', 'L', 'L'), "", "ZLL")); require(is(currency('Z', 'L', 'M'), "", "ZLM")); require(is(currency('Z', 'L', 'N'), "", "ZLN")); require(is(currency('Z', 'L', 'O'), "", "ZLO")); require(is(currency('Z', 'L', 'P'), "", "ZLP")); require(is(currency('Z', 'L', 'Q'), "", "ZLQ")); require(is(currency('Z', 'L', 'R'), "", "ZLR")); require(is(currency('Z', 'L', 'S'), "", "ZLS")); require(is(currency('Z', 'L', 'T'), "", "ZLT")); require(is(currency('Z', 'L', 'U'), "", "ZLU")); require(is(currency('Z', 'L', 'V'), "", "ZLV")); require(is(currency('Z', 'L', 'W'), "", "ZLW")); require(is(currency('Z', 'L', 'X'), "", "ZLX")); require(is(currency('Z', 'L', 'Y'), "", "ZLY")); require(is(currency('Z', 'L', 'Z'), "", "ZLZ"));)
OBLIGATION(no_currency_ZM, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZM)", (), require(is(currency('Z', 'M', 'A'), "", "ZMA")); require(is(currency('Z', 'M', 'B'), "", "ZMB")); require(is(currency('Z', 'M', 'C'), "", "ZMC")); require(is(currency('Z', 'M', 'D'), "", "ZMD")); require(is(currency('Z', 'M', 'E'), "", "ZME")); require(is(currency('Z', 'M', 'F'), "", "ZMF")); require(is(currency('Z', 'M', 'G'), "", "ZMG")); require(is(currency('Z', 'M', 'H'), "", "ZMH")); require(is(currency('Z', 'M', 'I'), "", "ZMI")); require(is(currency('Z', 'M', 'J'), "", "ZMJ")); require(is(currency('Z', 'M', 'K'), "", "ZMK")); require(is(currency('Z', 'M', 'L'), "", "ZML")); require(is(currency('Z', 'M', 'M'), "", "ZMM")); require(is(currency('Z', 'M', 'N'), "", "ZMN")); require(is(currency('Z', 'M', 'O'), "", "ZMO")); require(is(currency('Z', 'M', 'P'), "", "ZMP")); require(is(currency('Z', 'M', 'Q'), "", "ZMQ")); require(is(currency('Z', 'M', 'R'), "", "ZMR")); require(is(currency('Z', 'M', 'S'), "", "ZMS")); require(is(currency('Z', 'M', 'T'), "", "ZMT")); require(is(currency('Z', 'M', 'U'), "", "ZMU")); require(is(currency('Z', 'M', 'V'), "", "ZMV")); require(is(currency('Z', 'M', 'X'), "", "ZMX")); require(is(currency('Z', 'M', 'Y'), "", "ZMY")); require(is(currency('Z', 'M', 'Z'), "", "ZMZ"));)
OBLIGATION(no_currency_ZN, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZN)", (), require(is(currency('Z', 'N', 'A'), "", "ZNA")); require(is(currency('Z', 'N', 'B'), "", "ZNB")); require(is(currency('Z', 'N', 'C'), "", "ZNC")); require(is(currency('Z', 'N', 'D'), "", "ZND")); require(is(currency('Z', 'N', 'E'), "", "ZNE")); require(is(currency('Z', 'N', 'F'), "", "ZNF")); require(is(currency('Z', 'N', 'G'), "", "ZNG")); require(is(currency('Z', 'N', 'H'), "", "ZNH")); require(is(currency('Z', 'N', 'I'), "", "ZNI")); require(is(currency('Z', 'N', 'J'), "", "ZNJ")); require(is(currency('Z', 'N', 'K'), "", "ZNK")); require(is(currency('Z', 'N', 'L'), "", "ZNL")); require(is(currency('Z', 'N', 'M'), "", "ZNM")); require(is(currency('Z', 'N', 'N'), "", "ZNN")); require(is(currency('Z', 'N', 'O'), "", "ZNO")); require(is(currency('Z', 'N', 'P'), "", "ZNP")); require(is(currency('Z', 'N', 'Q'), "", "ZNQ")); require(is(currency('Z', 'N', 'R'), "", "ZNR")); require(is(currency('Z', 'N', 'S'), "", "ZNS")); require(is(currency('Z', 'N', 'T'), "", "ZNT")); require(is(currency('Z', 'N', 'U'), "", "ZNU")); require(is(currency('Z', 'N', 'V'), "", "ZNV")); require(is(currency('Z', 'N', 'W'), "", "ZNW")); require(is(currency('Z', 'N', 'X'), "", "ZNX")); require(is(currency('Z', 'N', 'Y'), "", "ZNY")); require(is(currency('Z', 'N', 'Z'), "", "ZNZ"));)
OBLIGATION(no_currency_ZO, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZO)", (), require(is(currency('Z', 'O', 'A'), "", "ZOA")); require(is(currency('Z', 'O', 'B'), "", "ZOB")); require(is(currency('Z', 'O', 'C'), "", "ZOC")); require(is(currency('Z', 'O', 'D'), "", "ZOD")); require(is(currency('Z', 'O', 'E'), "", "ZOE")); require(is(currency('Z', 'O', 'F'), "", "ZOF")); require(is(currency('Z', 'O', 'G'), "", "ZOG")); require(is(currency('Z', 'O', 'H'), "", "ZOH")); require(is(currency('Z', 'O', 'I'), "", "ZOI")); require(is(currency('Z', 'O', 'J'), "", "ZOJ")); require(is(currency('Z', 'O', 'K'), "", "ZOK")); require(is(currency('Z', 'O', 'L'), "", "ZOL")); require(is(currency('Z', 'O', 'M'), "", "ZOM")); require(is(currency('Z', 'O', 'N'), "", "ZON")); require(is(currency('Z', 'O', 'O'), "", "ZOO")); require(is(currency('Z', 'O', 'P'), "", "ZOP")); require(is(currency('Z', 'O', 'Q'), "", "ZOQ")); require(is(currency('Z', 'O', 'R'), "", "ZOR")); require(is(currency('Z', 'O', 'S'), "", "ZOS")); require(is(currency('Z', 'O', 'T'), "", "ZOT")); require(is(currency('Z', 'O', 'U'), "", "ZOU")); require(is(currency('Z', 'O', 'V'), "", "ZOV")); require(is(currency('Z', 'O', 'W'), "", "ZOW")); require(is(currency('Z', 'O', 'X'), "", "ZOX")); require(is(currency('Z', 'O', 'Y'), "", "ZOY")); require(is(currency('Z', 'O', 'Z'), "", "ZOZ"));)
OBLIGATION(no_currency_ZP, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZP)", (), require(is(currency('Z', 'P', 'A'), "", "ZPA")); require(is(currency('Z', 'P', 'B'), "", "ZPB")); require(is(currency('Z', 'P', 'C'), "", "ZPC")); require(is(currency('Z', 'P', 'D'), "", "ZPD")); require(is(currency('Z', 'P', 'E'), "", "ZPE")); require(is(currency('Z', 'P', 'F'), "", "ZPF")); require(is(currency('Z', 'P', 'G'), "", "ZPG")); require(is(currency('Z', 'P', 'H'), "", "ZPH")); require(is(currency('Z', 'P', 'I'), "", "ZPI")); require(is(currency('Z', 'P', 'J'), "", "ZPJ")); require(is(currency('Z', 'P', 'K'), "", "ZPK")); require(is(currency('Z', 'P', 'L'), "", "ZPL")); require(is(currency('Z', 'P', 'M'), "", "ZPM")); require(is(currency('Z', 'P', 'N'), "", "ZPN")); require(is(currency('Z', 'P', 'O'), "", "ZPO")); require(is(currency('Z', 'P', 'P'), "", "ZPP")); require(is(currency('Z', 'P', 'Q'), "", "ZPQ")); require(is(currency('Z', 'P', 'R'), "", "ZPR")); require(is(currency('Z', 'P', 'S'), "", "ZPS")); require(is(currency('Z', 'P', 'T'), "", "ZPT")); require(is(currency('Z', 'P', 'U'), "", "ZPU")); require(is(currency('Z', 'P', 'V'), "", "ZPV")); require(is(currency('Z', 'P', 'W'), "", "ZPW")); require(is(currency('Z', 'P', 'X'), "", "ZPX")); require(is(currency('Z', 'P', 'Y'), "", "ZPY")); require(is(currency('Z', 'P', 'Z'), "", "ZPZ"));)
OBLIGATION(no_currency_ZQ, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZQ)", (), require(is(currency('Z', 'Q', 'A'), "", "ZQA")); require(is(currency('Z', 'Q', 'B'), "", "ZQB")); require(is(currency('Z', 'Q', 'C'), "", "ZQC")); require(is(currency('Z', 'Q', 'D'), "", "ZQD")); require(is(currency('Z', 'Q', 'E'), "", "ZQE")); require(is(currency('Z', 'Q', 'F'), "", "ZQF")); require(is(currency('Z', 'Q', 'G'), "", "ZQG")); require(is(currency('Z', 'Q', 'H'), "", "ZQH")); require(is(currency('Z', 'Q', 'I'), "", "ZQI")); require(is(currency('Z', 'Q', 'J'), "", "ZQJ")); require(is(currency('Z', 'Q', 'K'), "", "ZQK")); require(is(currency('Z', 'Q', 'L'), "", "ZQL")); require(is(currency('Z', 'Q', 'M'), "", "ZQM")); require(is(currency('Z', 'Q', 'N'), "", "ZQN")); require(is(currency('Z', 'Q', 'O'), "", "ZQO")); require(is(currency('Z', 'Q', 'P'), "", "ZQP")); require(is(currency('Z', 'Q', 'Q'), "", "ZQQ")); require(is(currency('Z', 'Q', 'R'), "", "ZQR")); require(is(currency('Z', 'Q', 'S'), "", "ZQS")); require(is(currency('Z', 'Q', 'T'), "", "ZQT")); require(is(currency('Z', 'Q', 'U'), "", "ZQU")); require(is(currency('Z', 'Q', 'V'), "", "ZQV")); require(is(currency('Z', 'Q', 'W'), "", "ZQW")); require(is(currency('Z', 'Q', 'X'), "", "ZQX")); require(is(currency('Z', 'Q', 'Y'), "", "ZQY")); require(is(currency('Z', 'Q', 'Z'), "", "ZQZ"));)
OBLIGATION(no_currency_ZR, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZR)", (), require(is(currency('Z', 'R', 'A'), "", "ZRA")); require(is(currency('Z', 'R', 'B'), "", "ZRB")); require(is(currency('Z', 'R', 'C'), "", "ZRC")); require(is(currency('Z', 'R', 'D'), "", "ZRD")); require(is(currency('Z', 'R', 'E'), "", "ZRE")); require(is(currency('Z', 'R', 'F'), "", "ZRF")); require(is(currency('Z', 'R', 'G'), "", "ZRG")); require(is(currency('Z', 'R', 'H'), "", "ZRH")); require(is(currency('Z', 'R', 'I'), "", "ZRI")); require(is(currency('Z', 'R', 'J'), "", "ZRJ")); require(is(currency('Z', 'R', 'K'), "", "ZRK")); require(is(currency('Z', 'R', 'L'), "", "ZRL")); require(is(currency('Z', 'R', 'M'), "", "ZRM")); require(is(currency('Z', 'R', 'N'), "", "ZRN")); require(is(currency('Z', 'R', 'O'), "", "ZRO")); require(is(currency('Z', 'R', 'P'), "", "ZRP")); require(is(currency('Z', 'R', 'Q'), "", "ZRQ")); require(is(currency('Z', 'R', 'R'), "", "ZRR")); require(is(currency('Z', 'R', 'S'), "", "ZRS")); require(is(currency('Z', 'R', 'T'), "", "ZRT")); require(is(currency('Z', 'R', 'U'), "", "ZRU")); require(is(currency('Z', 'R', 'V'), "", "ZRV")); require(is(currency('Z', 'R', 'W'), "", "ZRW")); require(is(currency('Z', 'R', 'X'), "", "ZRX")); require(is(currency('Z', 'R', 'Y'), "", "ZRY")); require(is(currency('Z', 'R', 'Z'), "", "ZRZ"));)
OBLIGATION(no_currency_ZS, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZS)", (), require(is(currency('Z', 'S', 'A'), "", "ZSA")); require(is(currency('Z', 'S', 'B'), "", "ZSB")); require(is(currency('Z', 'S', 'C'), "", "ZSC")); require(is(currency('Z', 'S', 'D'), "", "ZSD")); require(is(currency('Z', 'S', 'E'), "", "ZSE")); require(is(currency('Z', 'S', 'F'), "", "ZSF")); require(is(currency('Z', 'S', 'G'), "", "ZSG")); require(is(currency('Z', 'S', 'H'), "", "ZSH")); require(is(currency('Z', 'S', 'I'), "", "ZSI")); require(is(currency('Z', 'S', 'J'), "", "ZSJ")); require(is(currency('Z', 'S', 'K'), "", "ZSK")); require(is(currency('Z', 'S', 'L'), "", "ZSL")); require(is(currency('Z', 'S', 'M'), "", "ZSM")); require(is(currency('Z', 'S', 'N'), "", "ZSN")); require(is(currency('Z', 'S', 'O'), "", "ZSO")); require(is(currency('Z', 'S', 'P'), "", "ZSP")); require(is(currency('Z', 'S', 'Q'), "", "ZSQ")); require(is(currency('Z', 'S', 'R'), "", "ZSR")); require(is(currency('Z', 'S', 'S'), "", "ZSS")); require(is(currency('Z', 'S', 'T'), "", "ZST")); require(is(currency('Z', 'S', 'U'), "", "ZSU")); require(is(currency('Z', 'S', 'V'), "", "ZSV")); require(is(currency('Z', 'S', 'W'), "", "ZSW")); require(is(currency('Z', 'S', 'X'), "", "ZSX")); require(is(currency('Z', 'S', 'Y'), "", "ZSY")); require(is(currency('Z', 'S', 'Z'), "", "ZSZ"));)
OBLIGATION(no_currency_ZT, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZT)", (), require(is(currency('Z', 'T', 'A'), "", "ZTA")); require(is(currency('Z', 'T', 'B'), "", "ZTB")); require(is(currency('Z', 'T', 'C'), "", "ZTC")); require(is(currency('Z', 'T', 'D'), "", "ZTD")); require(is(currency('Z', 'T', 'E'), "", "ZTE")); require(is(currency('Z', 'T', 'F'), "", "ZTF")); require(is(currency('Z', 'T', 'G'), "", "ZTG")); require(is(currency('Z', 'T', 'H'), "", "ZTH")); require(is(currency('Z', 'T', 'I'), "", "ZTI")); require(is(currency('Z', 'T', 'J'), "", "ZTJ")); require(is(currency('Z', 'T', 'K'), "", "ZTK")); require(is(currency('Z', 'T', 'L'), "", "ZTL")); require(is(currency('Z', 'T', 'M'), "", "ZTM")); require(is(currency('Z', 'T', 'N'), "", "ZTN")); require(is(currency('Z', 'T', 'O'), "", "ZTO")); require(is(currency('Z', 'T', 'P'), "", "ZTP")); require(is(currency('Z', 'T', 'Q'), "", "ZTQ")); require(is(currency('Z', 'T', 'R'), "", "ZTR")); require(is(currency('Z', 'T', 'S'), "", "ZTS")); require(is(currency('Z', 'T', 'T'), "", "ZTT")); require(is(currency('Z', 'T', 'U'), "", "ZTU")); require(is(currency('Z', 'T', 'V'), "", "ZTV")); require(is(currency('Z', 'T', 'W'), "", "ZTW")); require(is(currency('Z', 'T', 'X'), "", "ZTX")); require(is(currency('Z', 'T', 'Y'), "", "ZTY")); require(is(currency('Z', 'T', 'Z'), "", "ZTZ"));)
OBLIGATION(no_currency_ZU, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZU)", (), require(is(currency('Z', 'U', 'A'), "", "ZUA")); require(is(currency('Z', 'U', 'B'), "", "ZUB")); require(is(currency('Z', 'U', 'C'), "", "ZUC")); require(is(currency('Z', 'U', 'D'), "", "ZUD")); require(is(currency('Z', 'U', 'E'), "", "ZUE")); require(is(currency('Z', 'U', 'F'), "", "ZUF")); require(is(currency('Z', 'U', 'G'), "", "ZUG")); require(is(currency('Z', 'U', 'H'), "", "ZUH")); require(is(currency('Z', 'U', 'I'), "", "ZUI")); require(is(currency('Z', 'U', 'J'), "", "ZUJ")); require(is(currency('Z', 'U', 'K'), "", "ZUK")); require(is(currency('Z', 'U', 'L'), "", "ZUL")); require(is(currency('Z', 'U', 'M'), "", "ZUM")); require(is(currency('Z', 'U', 'N'), "", "ZUN")); require(is(currency('Z', 'U', 'O'), "", "ZUO")); require(is(currency('Z', 'U', 'P'), "", "ZUP")); require(is(currency('Z', 'U', 'Q'), "", "ZUQ")); require(is(currency('Z', 'U', 'R'), "", "ZUR")); require(is(currency('Z', 'U', 'S'), "", "ZUS")); require(is(currency('Z', 'U', 'T'), "", "ZUT")); require(is(currency('Z', 'U', 'U'), "", "ZUU")); require(is(currency('Z', 'U', 'V'), "", "ZUV")); require(is(currency('Z', 'U', 'W'), "", "ZUW")); require(is(currency('Z', 'U', 'X'), "", "ZUX")); require(is(currency('Z', 'U', 'Y'), "", "ZUY")); require(is(currency('Z', 'U', 'Z'), "", "ZUZ"));)
OBLIGATION(no_currency_ZV, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZV)", (), require(is(currency('Z', 'V', 'A'), "", "ZVA")); require(is(currency('Z', 'V', 'B'), "", "ZVB")); require(is(currency('Z', 'V', 'C'), "", "ZVC")); require(is(currency('Z', 'V', 'D'), "", "ZVD")); require(is(currency('Z', 'V', 'E'), "", "ZVE")); require(is(currency('Z', 'V', 'F'), "", "ZVF")); require(is(currency('Z', 'V', 'G'), "", "ZVG")); require(is(currency('Z', 'V', 'H'), "", "ZVH")); require(is(currency('Z', 'V', 'I'), "", "ZVI")); require(is(currency('Z', 'V', 'J'), "", "ZVJ")); require(is(currency('Z', 'V', 'K'), "", "ZVK")); require(is(currency('Z', 'V', 'L'), "", "ZVL")); require(is(currency('Z', 'V', 'M'), "", "ZVM")); require(is(currency('Z', 'V', 'N'), "", "ZVN")); require(is(currency('Z', 'V', 'O'), "", "ZVO")); require(is(currency('Z', 'V', 'P'), "", "ZVP")); require(is(currency('Z', 'V', 'Q'), "", "ZVQ")); require(is(currency('Z', 'V', 'R'), "", "ZVR")); require(is(currency('Z', 'V', 'S'), "", "ZVS")); require(is(currency('Z', 'V', 'T'), "", "ZVT")); require(is(currency('Z', 'V', 'U'), "", "ZVU")); require(is(currency('Z', 'V', 'V'), "", "ZVV")); require(is(currency('Z', 'V', 'W'), "", "ZVW")); require(is(currency('Z', 'V', 'X'), "", "ZVX")); require(is(currency('Z', 'V', 'Y'), "", "ZVY")); require(is(currency('Z', 'V', 'Z'), "", "ZVZ"));)
OBLIGATION(no_currency_ZW, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZW)", (), require(is(currency('Z', 'W', 'A'), "", "ZWA")); require(is(currency('Z', 'W', 'B'), "", "ZWB")); require(is(currency('Z', 'W', 'C'), "", "ZWC")); require(is(currency('Z', 'W', 'D'), "", "ZWD")); require(is(currency('Z', 'W', 'E'), "", "ZWE")); require(is(currency('Z', 'W', 'F'), "", "ZWF")); require(is(currency('Z', 'W', 'G'), "", "ZWG")); require(is(currency('Z', 'W', 'H'), "", "ZWH")); require(is(currency('Z', 'W', 'I'), "", "ZWI")); require(is(currency('Z', 'W', 'J'), "", "ZWJ")); require(is(currency('Z', 'W', 'K'), "", "ZWK")); require(is(currency('Z', 'W', 'M'), "", "ZWM")); require(is(currency('Z', 'W', 'N'), "", "ZWN")); require(is(currency('Z', 'W', 'O'), "", "ZWO")); require(is(currency('Z', 'W', 'P'), "", "ZWP")); require(is(currency('Z', 'W', 'Q'), "", "ZWQ")); require(is(currency('Z', 'W', 'R'), "", "ZWR")); require(is(currency('Z', 'W', 'S'), "", "ZWS")); require(is(currency('Z', 'W', 'T'), "", "ZWT")); require(is(currency('Z', 'W', 'U'), "", "ZWU")); require(is(currency('Z', 'W', 'V'), "", "ZWV")); require(is(currency('Z', 'W', 'W'), "", "ZWW")); require(is(currency('Z', 'W', 'X'), "", "ZWX")); require(is(currency('Z', 'W', 'Y'), "", "ZWY")); require(is(currency('Z', 'W', 'Z'), "", "ZWZ"));)
OBLIGATION(no_currency_ZX, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZX)", (), require(is(currency('Z', 'X', 'A'), "", "ZXA")); require(is(currency('Z', 'X', 'B'), "", "ZXB")); require(is(currency('Z', 'X', 'C'), "", "ZXC")); require(is(currency('Z', 'X', 'D'), "", "ZXD")); require(is(currency('Z', 'X', 'E'), "", "ZXE")); require(is(currency('Z', 'X', 'F'), "", "ZXF")); require(is(currency('Z', 'X', 'G'), "", "ZXG")); require(is(currency('Z', 'X', 'H'), "", "ZXH")); require(is(currency('Z', 'X', 'I'), "", "ZXI")); require(is(currency('Z', 'X', 'J'), "", "ZXJ")); require(is(currency('Z', 'X', 'K'), "", "ZXK")); require(is(currency('Z', 'X', 'L'), "", "ZXL")); require(is(currency('Z', 'X', 'M'), "", "ZXM")); require(is(currency('Z', 'X', 'N'), "", "ZXN")); require(is(currency('Z', 'X', 'O'), "", "ZXO")); require(is(currency('Z', 'X', 'P'), "", "ZXP")); require(is(currency('Z', 'X', 'Q'), "", "ZXQ")); require(is(currency('Z', 'X', 'R'), "", "ZXR")); require(is(currency('Z', 'X', 'S'), "", "ZXS")); require(is(currency('Z', 'X', 'T'), "", "ZXT")); require(is(currency('Z', 'X', 'U'), "", "ZXU")); require(is(currency('Z', 'X', 'V'), "", "ZXV")); require(is(currency('Z', 'X', 'W'), "", "ZXW")); require(is(currency('Z', 'X', 'X'), "", "ZXX")); require(is(currency('Z', 'X', 'Y'), "", "ZXY")); require(is(currency('Z', 'X', 'Z'), "", "ZXZ"));)
OBLIGATION(no_currency_ZY, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZY)", (), require(is(currency('Z', 'Y', 'A'), "", "ZYA")); require(is(currency('Z', 'Y', 'B'), "", "ZYB")); require(is(currency('Z', 'Y', 'C'), "", "ZYC")); require(is(currency('Z', 'Y', 'D'), "", "ZYD")); require(is(currency('Z', 'Y', 'E'), "", "ZYE")); require(is(currency('Z', 'Y', 'F'), "", "ZYF")); require(is(currency('Z', 'Y', 'G'), "", "ZYG")); require(is(currency('Z', 'Y', 'H'), "", "ZYH")); require(is(currency('Z', 'Y', 'I'), "", "ZYI")); require(is(currency('Z', 'Y', 'J'), "", "ZYJ")); require(is(currency('Z', 'Y', 'K'), "", "ZYK")); require(is(currency('Z', 'Y', 'L'), "", "ZYL")); require(is(currency('Z', 'Y', 'M'), "", "ZYM")); require(is(currency('Z', 'Y', 'N'), "", "ZYN")); require(is(currency('Z', 'Y', 'O'), "", "ZYO")); require(is(currency('Z', 'Y', 'P'), "", "ZYP")); require(is(currency('Z', 'Y', 'Q'), "", "ZYQ")); require(is(currency('Z', 'Y', 'R'), "", "ZYR")); require(is(currency('Z', 'Y', 'S'), "", "ZYS")); require(is(currency('Z', 'Y', 'T'), "", "ZYT")); require(is(currency('Z', 'Y', 'U'), "", "ZYU")); require(is(currency('Z', 'Y', 'V'), "", "ZYV")); require(is(currency('Z', 'Y', 'W'), "", "ZYW")); require(is(currency('Z', 'Y', 'X'), "", "ZYX")); require(is(currency('Z', 'Y', 'Y'), "", "ZYY")); require(is(currency('Z', 'Y', 'Z'), "", "ZYZ"));)
OBLIGATION(no_currency_ZZ, "esl/economics/currencies.hpp: currency_name (codes without a currency from ZZ)", (), require(is(currency('Z', 'Z', 'A'), "", "ZZA")); require(is(currency('Z', 'Z', 'B'), "", "ZZB")); require(is(currency('Z', 'Z', 'C'), "", "ZZC")); require(is(currency('Z', 'Z', 'D'), "", "ZZD")); require(is(currency('Z', 'Z', 'E'), "", "ZZE")); require(is(currency('Z', 'Z', 'F'), "", "ZZF")); require(is(currency('Z', 'Z', 'G'), "", "ZZG")); require(is(currency('Z', 'Z', 'H'), "", "ZZH")); require(is(currency('Z', 'Z', 'I'), "", "ZZI")); require(is(currency('Z', 'Z', 'J'), "", "ZZJ")); require(is(currency('Z', 'Z', 'K'), "", "ZZK")); require(is(currency('Z', 'Z', 'L'), "", "ZZL")); require(is(currency('Z', 'Z', 'M'), "", "ZZM")); require(is(currency('Z', 'Z', 'N'), "", "ZZN")); require(is(currency('Z', 'Z', 'O'), "", "ZZO")); require(is(currency('Z', 'Z', 'P'), "", "ZZP")); require(is(currency('Z', 'Z', 'Q'), "", "ZZQ")); require(is(currency('Z', 'Z', 'R'), "", "ZZR")); require(is(currency('Z', 'Z', 'S'), "", "ZZS")); require(is(currency('Z', 'Z', 'T'), "", "ZZT")); require(is(currency('Z', 'Z', 'U'), "", "ZZU")); require(is(currency('Z', 'Z', 'V'), "", "ZZV")); require(is(currency('Z', 'Z', 'W'), "", "ZZW")); require(is(currency('Z', 'Z', 'X'), "", "ZZX")); require(is(currency('Z', 'Z', 'Y'), "", "ZZY")); require(is(currency('Z', 'Z', 'Z'), "", "ZZZ"));)
OBLIGATION(jurisdiction_AD, "esl/law/jurisdictions.hpp: jurisdictions::AD", (), require(law::jurisdictions::AD.sovereign.code[0] == 'A' && law::jurisdictions::AD.sovereign.code[1] == 'D');)
OBLIGATION(tender_AD, "esl/law/jurisdictions.hpp: jurisdictions::AD (legal tender)", (), require(law::jurisdictions::AD.tender.code[0] == 'E' && law::jurisdictions::AD.tender.code[1] == 'U' && law::jurisdictions::AD.tender.code[2] == 'R' && law::jurisdictions::AD.tender.denominator == 100);)
OBLIGATION(jurisdiction_AE, "esl/law/jurisdictions.hpp: jurisdictions::AE", (), require(law::jurisdictions::AE.sovereign.code[0] == 'A' && law::jurisdictions::AE.sovereign.code[1] == 'E');)
OBLIGATION(tender_AE, "esl/law/jurisdictions.hpp: jurisdictions::AE (legal tender)", (), require(law::jurisdictions::AE.tender.code[0] == 'A' && law::jurisdictions::AE.tender.code[1] == 'E' && law::jurisdictions::AE.tender.code[2] == 'D' && law::jurisdictions::AE.tender.denominator == 100);)
OBLIGATION(jurisdiction_AF, "esl/law/jurisdictions.hpp: jurisdictions::AF", (), require(law::jurisdictions::AF.sovereign.code[0] == 'A' && law::jurisdictions::AF.sovereign.code[1] == 'F');)
OBLIGATION(tender_AF, "esl/law/jurisdictions.hpp: jurisdictions::AF (legal tender)", (), require(law::jurisdictions::AF.tender.code[0] == 'A' && law::jurisdictions::AF.tender.code[1] == 'F' && law::jurisdictions::AF.tender.code[2] == 'N' && law::jurisdictions::AF.tender.denominator == 100);)
OBLIGATION(jurisdiction_AG, "esl/law/jurisdictions.hpp: jurisdictions::AG", (), require(law::jurisdictions::AG.sovereign.code[0] == 'A' && law::jurisdictions::AG.sovereign.code[1] == 'G');)
OBLIGATION(tender_AG, "esl/law/jurisdictions.hpp: jurisdictions::AG (legal tender)", (), require(law::jurisdictions::AG.tender.code[0] == 'X' && law::jurisdictions::AG.tender.code[1] == 'C' && law::jurisdictions::AG.tender.code[2] == 'D' && law::jurisdictions::AG.tender.denominator == 100);)
OBLIGATION(jurisdiction_AI, "esl/law/jurisdictions.hpp: jurisdictions::AI", (), require(law::jurisdictions::AI.sovereign.code[0] == 'A' && law::jurisdictions::AI.sovereign.code[1] == 'I');)
OBLIGATION(tender_AI, "esl/law/jurisdictions.hpp: jurisdictions::AI (legal tender)", (), require(law::jurisdictions::AI.tender.code[0] == 'X' && law::jurisdictions::AI.tender.code[1] == 'C' && law::jurisdictions::AI.tender.code[2] == 'D' && law::jurisdictions::AI.tender.denominator == 100);)
OBLIGATION(jurisdiction_AL, "esl/law/jurisdictions.hpp: jurisdictions::AL", (), require(law::jurisdictions::AL.sovereign.code[0] == 'A' && law::jurisdictions::AL.sovereign.code[1] == 'L');)
OBLIGATION(tender_AL, "esl/law/jurisdictions.hpp: jurisdictions::AL (legal tender)", (), require(law::jurisdictions::AL.tender.code[0] == 'A' && law::jurisdictions::AL.tender.code[1] == 'L' && law::jurisdictions::AL.tender.code[2] == 'L' && law::jurisdictions::AL.tender.denominator == 100);)
OBLIGATION(jurisdiction_AM, "esl/law/jurisdictions.hpp: jurisdictions::AM", (), require(law::jurisdictions::AM.sovereign.code[0] == 'A' && law::jurisdictions::AM.sovereign.code[1] == 'M');)
OBLIGATION(tender_AM, "esl/law/jurisdictions.hpp: jurisdictions::AM (legal tender)", (), require(law::jurisdictions::AM.tender.code[0] == 'A' && law::jurisdictions::AM.tender.code[1] == 'M' && law::jurisdictions::AM.tender.code[2] == 'D' && law::jurisdictions::AM.tender.denominator == 100);)
OBLIGATION(jurisdiction_AO, "esl/law/jurisdictions.hpp: jurisdictions::AO", (), require(law::jurisdictions::AO.sovereign.code[0] == 'A' && law::jurisdictions::AO.sovereign.code[1] == 'O');)
OBLIGATION(tender_AO, "esl/law/jurisdictions.hpp: jurisdictions::AO (legal tender)", (), require(law::jurisdictions::AO.tender.code[0] == 'A' && law::jurisdictions::AO.tender.code[1] == 'O' && law::jurisdictions::AO.tender.code[2] == 'A' && law::jurisdictions::AO.tender.denominator == 100);)
OBLIGATION(jurisdiction_AR, "esl/law/jurisdictions.hpp: jurisdictions::AR", (), require(law::jurisdictions::AR.sovereign.code[0] == 'A' && law::jurisdictions::AR.sovereign.code[1] == 'R');)
OBLIGATION(tender_AR, "esl/law/jurisdictions.hpp: jurisdictions::AR (legal tender)", (), require(law::jurisdictions::AR.tender.code[0] == 'A' && law::jurisdictions::AR.tender.code[1] == 'R' && law::jurisdictions::AR.tender.code[2] == 'S' && law::jurisdictions::AR.tender.denominator == 100);)
OBLIGATION(jurisdiction_AS, "esl/law/jurisdictions.hpp: jurisdictions::AS", (), require(law::jurisdictions::AS.sovereign.code[0] == 'A' && law::jurisdictions::AS.sovereign.code[1] == 'S');)
OBLIGATION(tender_AS, "esl/law/jurisdictions.hpp: jurisdictions::AS (legal tender)", (), require(law::jurisdictions::AS.tender.code[0] == 'U' && law::jurisdictions::AS.tender.code[1] == 'S' && law::jurisdictions::AS.tender.code[2] == 'D' && law::jurisdictions::AS.tender.denominator == 100);)
OBLIGATION(jurisdiction_AT, "esl/law/jurisdictions.hpp: jurisdictions::AT", (), require(law::jurisdictions::AT.sovereign.code[0] == 'A' && law::jurisdictions::AT.sovereign.code[1] == 'T');)
OBLIGATION(tender_AT, "esl/law/jurisdictions.hpp: jurisdictions::AT (legal tender)", (), require(law::jurisdictions::AT.tender.code[0] == 'E' && law::jurisdictions::AT.tender.code[1] == 'U' && law::jurisdictions::AT.tender.code[2] == 'R' && law::jurisdictions::AT.tender.denominator == 100);)
OBLIGATION(jurisdiction_AU, "esl/law/jurisdictions.hpp: jurisdictions::AU", (), require(law::jurisdictions::AU.sovereign.code[0] == 'A' && law::jurisdictions::AU.sovereign.code[1] == 'U');)
OBLIGATION(tender_AU, "esl/law/jurisdictions.hpp: jurisdictions::AU (legal tender)", (), require(law::jurisdictions::AU.tender.code[0] == 'A' && law::jurisdictions::AU.tender.code[1] == 'U' && law::jurisdictions::AU.tender.code[2] == 'D' && law::jurisdictions::AU.tender.denominator == 100);)
OBLIGATION(jurisdiction_AW, "esl/law/jurisdictions.hpp: jurisdictions::AW", (), require(law::jurisdictions::AW.sovereign.code[0] == 'A' && law::jurisdictions::AW.sovereign.code[1] == 'W');)
OBLIGATION(tender_AW, "esl/law/jurisdictions.hpp: jurisdictions::AW (legal tender)", (), require(law::jurisdictions::AW.tender.code[0] == 'A' && law::jurisdictions::AW.tender.code[1] == 'W' && law::jurisdictions::AW.tender.code[2] == 'G' && law::jurisdictions::AW.tender.denominator == 100);)
OBLIGATION(jurisdiction_AX, "esl/law/jurisdictions.hpp: jurisdictions::AX", (), require(law::jurisdictions::AX.sovereign.code[0] == 'A' && law::jurisdictions::AX.sovereign.code[1] == 'X');)
OBLIGATION(tender_AX, "esl/law/jurisdictions.hpp: jurisdictions::AX (legal tender)", (), require(law::jurisdictions::AX.tender.code[0] == 'E' && law::jurisdictions::AX.tender.code[1] == 'U' && law::jurisdictions::AX.tender.code[2] == 'R' && law::jurisdictions::AX.tender.denominator == 100);)
OBLIGATION(jurisdiction_AZ, "esl/law/jurisdictions.hpp: jurisdictions::AZ", (), require(law::jurisdictions::AZ.sovereign.code[0] == 'A' && law::jurisdictions::AZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_AZ, "esl/law/jurisdictions.hpp: jurisdictions::AZ (legal tender)", (), require(law::jurisdictions::AZ.tender.code[0] == 'A' && law::jurisdictions::AZ.tender.code[1] == 'Z' && law::jurisdictions::AZ.tender.code[2] == 'N' && law::jurisdictions::AZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_BA, "esl/law/jurisdictions.hpp: jurisdictions::BA", (), require(law::jurisdictions::BA.sovereign.code[0] == 'B' && law::jurisdictions::BA.sovereign.code[1] == 'A');)
OBLIGATION(tender_BA, "esl/law/jurisdictions.hpp: jurisdictions::BA (legal tender)", (), require(law::jurisdictions::BA.tender.code[0] == 'B' && law::jurisdictions::BA.tender.code[1] == 'A' && law::jurisdictions::BA.tender.code[2] == 'M' && law::jurisdictions::BA.tender.denominator == 100);)
OBLIGATION(jurisdiction_BB, "esl/law/jurisdictions.hpp: jurisdictions::BB", (), require(law::jurisdictions::BB.sovereign.code[0] == 'B' && law::jurisdictions::BB.sovereign.code[1] == 'B');)
OBLIGATION(tender_BB, "esl/law/jurisdictions.hpp: jurisdictions::BB (legal tender)", (), require(law::jurisdictions::BB.tender.code[0] == 'B' && law::jurisdictions::BB.tender.code[1] == 'B' && law::jurisdictions::BB.tender.code[2] == 'D' && law::jurisdictions::BB.tender.denominator == 100);)
OBLIGATION(jurisdiction_BD, "esl/law/jurisdictions.hpp: jurisdictions::BD", (), require(law::jurisdictions::BD.sovereign.code[0] == 'B' && law::jurisdictions::BD.sovereign.code[1] == 'D');)
OBLIGATION(tender_BD, "esl/law/jurisdictions.hpp: jurisdictions::BD (legal tender)", (), require(law::jurisdictions::BD.tender.code[0] == 'B' && law::jurisdictions::BD.tender.code[1] == 'D' && law::jurisdictions::BD.tender.code[2] == 'T' && law::jurisdictions::BD.tender.denominator == 100);)
OBLIGATION(jurisdiction_BE, "esl/law/jurisdictions.hpp: jurisdictions::BE", (), require(law::jurisdictions::BE.sovereign.code[0] == 'B' && law::jurisdictions::BE.sovereign.code[1] == 'E');)
OBLIGATION(tender_BE, "esl/law/jurisdictions.hpp: jurisdictions::BE (legal tender)", (), require(law::jurisdictions::BE.tender.code[0] == 'E' && law::jurisdictions::BE.tender.code[1] == 'U' && law::jurisdictions::BE.tender.code[2] == 'R' && law::jurisdictions::BE.tender.denominator == 100);)
OBLIGATION(jurisdiction_BF, "esl/law/jurisdictions.hpp: jurisdictions::BF", (), require(law::jurisdictions::BF.sovereign.code[0] == 'B' && law::jurisdictions::BF.sovereign.code[1] == 'F');)
OBLIGATION(tender_BF, "esl/law/jurisdictions.hpp: jurisdictions::BF (legal tender)", (), require(law::jurisdictions::BF.tender.code[0] == 'X' && law::jurisdictions::BF.tender.code[1] == 'O' && law::jurisdictions::BF.tender.code[2] == 'F' && law::jurisdictions::BF.tender.denominator == 1);)
OBLIGATION(jurisdiction_BG, "esl/law/jurisdictions.hpp: jurisdictions::BG", (), require(law::jurisdictions::BG.sovereign.code[0] == 'B' && law::jurisdictions::BG.sovereign.code[1] == 'G');)
OBLIGATION(tender_BG, "esl/law/jurisdictions.hpp: jurisdictions::BG (legal tender)", (), require(law::jurisdictions::BG.tender.code[0] == 'B' && law::jurisdictions::BG.tender.code[1] == 'G' && law::jurisdictions::BG.tender.code[2] == 'N' && law::jurisdictions::BG.tender.denominator == 100);)
OBLIGATION(jurisdiction_BH, "esl/law/jurisdictions.hpp: jurisdictions::BH", (), require(law::jurisdictions::BH.sovereign.code[0] == 'B' && law::jurisdictions::BH.sovereign.code[1] == 'H');)
OBLIGATION(tender_BH, "esl/law/jurisdictions.hpp: jurisdictions::BH (legal tender)", (), require(law::jurisdictions::BH.tender.code[0] == 'B' && law::jurisdictions::BH.tender.code[1] == 'H' && law::jurisdictions::BH.tender.code[2] == 'D' && law::jurisdictions::BH.tender.denominator == 1000);)
OBLIGATION(jurisdiction_BI, "esl/law/jurisdictions.hpp: jurisdictions::BI", (), require(law::jurisdictions::BI.sovereign.code[0] == 'B' && law::jurisdictions::BI.sovereign.code[1] == 'I');)
OBLIGATION(tender_BI, "esl/law/jurisdictions.hpp: jurisdictions::BI (legal tender)", (), require(law::jurisdictions::BI.tender.code[0] == 'B' && law::jurisdictions::BI.tender.code[1] == 'I' && law::jurisdictions::BI.tender.code[2] == 'F' && law::jurisdictions::BI.tender.denominator == 1);)
OBLIGATION(jurisdiction_BJ, "esl/law/jurisdictions.hpp: jurisdictions::BJ", (), require(law::jurisdictions::BJ.sovereign.code[0] == 'B' && law::jurisdictions::BJ.sovereign.code[1] == 'J');)
OBLIGATION(tender_BJ, "esl/law/jurisdictions.hpp: jurisdictions::BJ (legal tender)", (), require(law::jurisdictions::BJ.tender.code[0] == 'X' && law::jurisdictions::BJ.tender.code[1] == 'O' && law::jurisdictions::BJ.tender.code[2] == 'F' && law::jurisdictions::BJ.tender.denominator == 1);)
OBLIGATION(jurisdiction_BL, "esl/law/jurisdictions.hpp: jurisdictions::BL", (), require(law::jurisdictions::BL.sovereign.code[0] == 'B' && law::jurisdictions::BL.sovereign.code[1] == 'L');)
OBLIGATION(tender_BL, "esl/law/jurisdictions.hpp: jurisdictions::BL (legal tender)", (), require(law::jurisdictions::BL.tender.code[0] == 'E' && law::jurisdictions::BL.tender.code[1] == 'U' && law::jurisdictions::BL.tender.code[2] == 'R' && law::jurisdictions::BL.tender.denominator == 100);)
OBLIGATION(jurisdiction_BM, "esl/law/jurisdictions.hpp: jurisdictions::BM", (), require(law::jurisdictions::BM.sovereign.code[0] == 'B' && law::jurisdictions::BM.sovereign.code[1] == 'M');)
OBLIGATION(tender_BM, "esl/law/jurisdictions.hpp: jurisdictions::BM (legal tender)", (), require(law::jurisdictions::BM.tender.code[0] == 'B' && law::jurisdictions::BM.tender.code[1] == 'M' && law::jurisdictions::BM.tender.code[2] == 'D' && law::jurisdictions::BM.tender.denominator == 100);)
OBLIGATION(jurisdiction_BN, "esl/law/jurisdictions.hpp: jurisdictions::BN", (), require(law::jurisdictions::BN.sovereign.code[0] == 'B' && law::jurisdictions::BN.sovereign.code[1] == 'N');)
OBLIGATION(tender_BN, "esl/law/jurisdictions.hpp: jurisdictions::BN (legal tender)", (), require(law::jurisdictions::BN.tender.code[0] == 'B' && law::jurisdictions::BN.tender.code[1] == 'N' && law::jurisdictions::BN.tender.code[2] == 'D' && law::jurisdictions::BN.tender.denominator == 100);)
OBLIGATION(jurisdiction_BO, "esl/law/jurisdictions.hpp: jurisdictions::BO", (), require(law::jurisdictions::BO.sovereign.code[0] == 'B' && law::jurisdictions::BO.sovereign.code[1] == 'O');)
OBLIGATION(tender_BO, "esl/law/jurisdictions.hpp: jurisdictions::BO (legal tender)", (), require(law::jurisdictions::BO.tender.code[0] == 'B' && law::jurisdictions::BO.tender.code[1] == 'O' && law::jurisdictions::BO.tender.code[2] == 'B' && law::jurisdictions::BO.tender.denominator == 100);)
OBLIGATION(jurisdiction_BQ, "esl/law/jurisdictions.hpp: jurisdictions::BQ", (), require(law::jurisdictions::BQ.sovereign.code[0] == 'B' && law::jurisdictions::BQ.sovereign.code[1] == 'Q');)
OBLIGATION(tender_BQ, "esl/law/jurisdictions.hpp: jurisdictions::BQ (legal tender)", (), require(law::jurisdictions::BQ.tender.code[0] == 'U' && law::jurisdictions::BQ.tender.code[1] == 'S' && law::jurisdictions::BQ.tender.code[2] == 'D' && law::jurisdictions::BQ.tender.denominator == 100);)
OBLIGATION(jurisdiction_BR, "esl/law/jurisdictions.hpp: jurisdictions::BR", (), require(law::jurisdictions::BR.sovereign.code[0] == 'B' && law::jurisdictions::BR.sovereign.code[1] == 'R');)
OBLIGATION(tender_BR, "esl/law/jurisdictions.hpp: jurisdictions::BR (legal tender)", (), require(law::jurisdictions::BR.tender.code[0] == 'B' && law::jurisdictions::BR.tender.code[1] == 'R' && law::jurisdictions::BR.tender.code[2] == 'L' && law::jurisdictions::BR.tender.denominator == 100);)
OBLIGATION(jurisdiction_BS, "esl/law/jurisdictions.hpp: jurisdictions::BS", (), require(law::jurisdictions::BS.sovereign.code[0] == 'B' && law::jurisdictions::BS.sovereign.code[1] == 'S');)
OBLIGATION(tender_BS, "esl/law/jurisdictions.hpp: jurisdictions::BS (legal tender)", (), require(law::jurisdictions::BS.tender.code[0] == 'B' && law::jurisdictions::BS.tender.code[1] == 'S' && law::jurisdictions::BS.tender.code[2] == 'D' && law::jurisdictions::BS.tender.denominator == 100);)
OBLIGATION(jurisdiction_BT, "esl/law/jurisdictions.hpp: jurisdictions::BT", (), require(law::jurisdictions::BT.sovereign.code[0] == 'B' && law::jurisdictions::BT.sovereign.code[1] == 'T');)
OBLIGATION(tender_BT, "esl/law/jurisdictions.hpp: jurisdictions::BT (legal tender)", (), require(law::jurisdictions::BT.tender.code[0] == 'B' && law::jurisdictions::BT.tender.code[1] == 'T' && law::jurisdictions::BT.tender.code[2] == 'N' && law::jurisdictions::BT.tender.denominator == 100);)
OBLIGATION(jurisdiction_BV, "esl/law/jurisdictions.hpp: jurisdictions::BV", (), require(law::jurisdictions::BV.sovereign.code[0] == 'B' && law::jurisdictions::BV.sovereign.code[1] == 'V');)
OBLIGATION(tender_BV, "esl/law/jurisdictions.hpp: jurisdictions::BV (legal tender)", (), require(law::jurisdictions::BV.tender.code[0] == 'N' && law::jurisdictions::BV.tender.code[1] == 'O' && law::jurisdictions::BV.tender.code[2] == 'K' && law::jurisdictions::BV.tender.denominator == 100);)
OBLIGATION(jurisdiction_BW, "esl/law/jurisdictions.hpp: jurisdictions::BW", (), require(law::jurisdictions::BW.sovereign.code[0] == 'B' && law::jurisdictions::BW.sovereign.code[1] == 'W');)
OBLIGATION(tender_BW, "esl/law/jurisdictions.hpp: jurisdictions::BW (legal tender)", (), require(law::jurisdictions::BW.tender.code[0] == 'B' && law::jurisdictions::BW.tender.code[1] == 'W' && law::jurisdictions::BW.tender.code[2] == 'P' && law::jurisdictions::BW.tender.denominator == 100);)
OBLIGATION(jurisdiction_BY, "esl/law/jurisdictions.hpp: jurisdictions::BY", (), require(law::jurisdictions::BY.sovereign.code[0] == 'B' && law::jurisdictions::BY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_BY, "esl/law/jurisdictions.hpp: jurisdictions::BY (legal tender)", (), require(law::jurisdictions::BY.tender.code[0] == 'B' && law::jurisdictions::BY.tender.code[1] == 'Y' && law::jurisdictions::BY.tender.code[2] == 'N' && law::jurisdictions::BY.tender.denominator == 100);)
OBLIGATION(jurisdiction_BZ, "esl/law/jurisdictions.hpp: jurisdictions::BZ", (), require(law::jurisdictions::BZ.sovereign.code[0] == 'B' && law::jurisdictions::BZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_BZ, "esl/law/jurisdictions.hpp: jurisdictions::BZ (legal tender)", (), require(law::jurisdictions::BZ.tender.code[0] == 'B' && law::jurisdictions::BZ.tender.code[1] == 'Z' && law::jurisdictions::BZ.tender.code[2] == 'D' && law::jurisdictions::BZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_CA, "esl/law/jurisdictions.hpp: jurisdictions::CA", (), require(law::jurisdictions::CA.sovereign.code[0] == 'C' && law::jurisdictions::CA.sovereign.code[1] == 'A');)
OBLIGATION(tender_CA, "esl/law/jurisdictions.hpp: jurisdictions::CA (legal tender)", (), require(law::jurisdictions::CA.tender.code[0] == 'C' && law::jurisdictions::CA.tender.code[1] == 'A' && law::jurisdictions::CA.tender.code[2] == 'D' && law::jurisdictions::CA.tender.denominator == 100);)
OBLIGATION(jurisdiction_CC, "esl/law/jurisdictions.hpp: jurisdictions::CC", (), require(law::jurisdictions::CC.sovereign.code[0] == 'C' && law::jurisdictions::CC.sovereign.code[1] == 'C');)
OBLIGATION(tender_CC, "esl/law/jurisdictions.hpp: jurisdictions::CC (legal tender)", (), require(law::jurisdictions::CC.tender.code[0] == 'A' && law::jurisdictions::CC.tender.code[1] == 'U' && law::jurisdictions::CC.tender.code[2] == 'D' && law::jurisdictions::CC.tender.denominator == 100);)
OBLIGATION(jurisdiction_CD, "esl/law/jurisdictions.hpp: jurisdictions::CD", (), require(law::jurisdictions::CD.sovereign.code[0] == 'C' && law::jurisdictions::CD.sovereign.code[1] == 'D');)
OBLIGATION(tender_CD, "esl/law/jurisdictions.hpp: jurisdictions::CD (legal tender)", (), require(law::jurisdictions::CD.tender.code[0] == 'C' && law::jurisdictions::CD.tender.code[1] == 'D' && law::jurisdictions::CD.tender.code[2] == 'F' && law::jurisdictions::CD.tender.denominator == 100);)
OBLIGATION(jurisdiction_CF, "esl/law/jurisdictions.hpp: jurisdictions::CF", (), require(law::jurisdictions::CF.sovereign.code[0] == 'C' && law::jurisdictions::CF.sovereign.code[1] == 'F');)
OBLIGATION(tender_CF, "esl/law/jurisdictions.hpp: jurisdictions::CF (legal tender)", (), require(law::jurisdictions::CF.tender.code[0] == 'X' && law::jurisdictions::CF.tender.code[1] == 'A' && law::jurisdictions::CF.tender.code[2] == 'F' && law::jurisdictions::CF.tender.denominator == 1);)
OBLIGATION(jurisdiction_CG, "esl/law/jurisdictions.hpp: jurisdictions::CG", (), require(law::jurisdictions::CG.sovereign.code[0] == 'C' && law::jurisdictions::CG.sovereign.code[1] == 'G');)
OBLIGATION(tender_CG, "esl/law/jurisdictions.hpp: jurisdictions::CG (legal tender)", (), require(law::jurisdictions::CG.tender.code[0] == 'X' && law::jurisdictions::CG.tender.code[1] == 'A' && law::jurisdictions::CG.tender.code[2] == 'F' && law::jurisdictions::CG.tender.denominator == 1);)
OBLIGATION(jurisdiction_CH, "esl/law/jurisdictions.hpp: jurisdictions::CH", (), require(law::jurisdictions::CH.sovereign.code[0] == 'C' && law::jurisdictions::CH.sovereign.code[1] == 'H');)
OBLIGATION(tender_CH, "esl/law/jurisdictions.hpp: jurisdictions::CH (legal tender)", (), require(law::jurisdictions::CH.tender.code[0] == 'C' && law::jurisdictions::CH.tender.code[1] == 'H' && law::jurisdictions::CH.tender.code[2] == 'F' && law::jurisdictions::CH.tender.denominator == 100);)
OBLIGATION(jurisdiction_CI, "esl/law/jurisdictions.hpp: jurisdictions::CI", (), require(law::jurisdictions::CI.sovereign.code[0] == 'C' && law::jurisdictions::CI.sovereign.code[1] == 'I');)
OBLIGATION(tender_CI, "esl/law/jurisdictions.hpp: jurisdictions::CI (legal tender)", (), require(law::jurisdictions::CI.tender.code[0] == 'X' && law::jurisdictions::CI.tender.code[1] == 'O' && law::jurisdictions::CI.tender.code[2] == 'F' && law::jurisdictions::CI.tender.denominator == 1);)
OBLIGATION(jurisdiction_CK, "esl/law/jurisdictions.hpp: jurisdictions::CK", (), require(law::jurisdictions::CK.sovereign.code[0] == 'C' && law::jurisdictions::CK.sovereign.code[1] == 'K');)
OBLIGATION(tender_CK, "esl/law/jurisdictions.hpp: jurisdictions::CK (legal tender)", (), require(law::jurisdictions::CK.tender.code[0] == 'N' && law::jurisdictions::CK.tender.code[1] == 'Z' && law::jurisdictions::CK.tender.code[2] == 'D' && law::jurisdictions::CK.tender.denominator == 100);)
OBLIGATION(jurisdiction_CL, "esl/law/jurisdictions.hpp: jurisdictions::CL", (), require(law::jurisdictions::CL.sovereign.code[0] == 'C' && law::jurisdictions::CL.sovereign.code[1] == 'L');)
OBLIGATION(tender_CL, "esl/law/jurisdictions.hpp: jurisdictions::CL (legal tender)", (), require(law::jurisdictions::CL.tender.code[0] == 'C' && law::jurisdictions::CL.tender.code[1] == 'L' && law::jurisdictions::CL.tender.code[2] == 'P' && law::jurisdictions::CL.tender.denominator == 1);)
OBLIGATION(jurisdiction_CM, "esl/law/jurisdictions.hpp: jurisdictions::CM", (), require(law::jurisdictions::CM.sovereign.code[0] == 'C' && law::jurisdictions::CM.sovereign.code[1] == 'M');)
OBLIGATION(tender_CM, "esl/law/jurisdictions.hpp: jurisdictions::CM (legal tender)", (), require(law::jurisdictions::CM.tender.code[0] == 'X' && law::jurisdictions::CM.tender.code[1] == 'A' && law::jurisdictions::CM.tender.code[2] == 'F' && law::jurisdictions::CM.tender.denominator == 1);)
OBLIGATION(jurisdiction_CN, "esl/law/jurisdictions.hpp: jurisdictions::CN", (), require(law::jurisdictions::CN.sovereign.code[0] == 'C' && law::jurisdictions::CN.sovereign.code[1] == 'N');)
OBLIGATION(tender_CN, "esl/law/jurisdictions.hpp: jurisdictions::CN (legal tender)", (), require(law::jurisdictions::CN.tender.code[0] == 'C' && law::jurisdictions::CN.tender.code[1] == 'N' && law::jurisdictions::CN.tender.code[2] == 'Y' && law::jurisdictions::CN.tender.denominator == 100);)
OBLIGATION(jurisdiction_CO, "esl/law/jurisdictions.hpp: jurisdictions::CO", (), require(law::jurisdictions::CO.sovereign.code[0] == 'C' && law::jurisdictions::CO.sovereign.code[1] == 'O');)
OBLIGATION(tender_CO, "esl/law/jurisdictions.hpp: jurisdictions::CO (legal tender)", (), require(law::jurisdictions::CO.tender.code[0] == 'C' && law::jurisdictions::CO.tender.code[1] == 'O' && law::jurisdictions::CO.tender.code[2] == 'P' && law::jurisdictions::CO.tender.denominator == 100);)
OBLIGATION(jurisdiction_CR, "esl/law/jurisdictions.hpp: jurisdictions::CR", (), require(law::jurisdictions::CR.sovereign.code[0] == 'C' && law::jurisdictions::CR.sovereign.code[1] == 'R');)
OBLIGATION(tender_CR, "esl/law/jurisdictions.hpp: jurisdictions::CR (legal tender)", (), require(law::jurisdictions::CR.tender.code[0] == 'C' && law::jurisdictions::CR.tender.code[1] == 'R' && law::jurisdictions::CR.tender.code[2] == 'C' && law::jurisdictions::CR.tender.denominator == 100);)
OBLIGATION(jurisdiction_CU, "esl/law/jurisdictions.hpp: jurisdictions::CU", (), require(law::jurisdictions::CU.sovereign.code[0] == 'C' && law::jurisdictions::CU.sovereign.code[1] == 'U');)
OBLIGATION(tender_CU, "esl/law/jurisdictions.hpp: jurisdictions::CU (legal tender)", (), require(law::jurisdictions::CU.tender.code[0] == 'C' && law::jurisdictions::CU.tender.code[1] == 'U' && law::jurisdictions::CU.tender.code[2] == 'P' && law::jurisdictions::CU.tender.denominator == 100);)
OBLIGATION(jurisdiction_CV, "esl/law/jurisdictions.hpp: jurisdictions::CV", (), require(law::jurisdictions::CV.sovereign.code[0] == 'C' && law::jurisdictions::CV.sovereign.code[1] == 'V');)
OBLIGATION(tender_CV, "esl/law/jurisdictions.hpp: jurisdictions::CV (legal tender)", (), require(law::jurisdictions::CV.tender.code[0] == 'C' && law::jurisdictions::CV.tender.code[1] == 'V' && law::jurisdictions::CV.tender.code[2] == 'E' && law::jurisdictions::CV.tender.denominator == 100);)
OBLIGATION(jurisdiction_CW, "esl/law/jurisdictions.hpp: jurisdictions::CW", (), require(law::jurisdictions::CW.sovereign.code[0] == 'C' && law::jurisdictions::CW.sovereign.code[1] == 'W');)
OBLIGATION(tender_CW, "esl/law/jurisdictions.hpp: jurisdictions::CW (legal tender)", (), require(law::jurisdictions::CW.tender.code[0] == 'A' && law::jurisdictions::CW.tender.code[1] == 'N' && law::jurisdictions::CW.tender.code[2] == 'G' && law::jurisdictions::CW.tender.denominator == 100);)
OBLIGATION(jurisdiction_CX, "esl/law/jurisdictions.hpp: jurisdictions::CX", (), require(law::jurisdictions::CX.sovereign.code[0] == 'C' && law::jurisdictions::CX.sovereign.code[1] == 'X');)
OBLIGATION(tender_CX, "esl/law/jurisdictions.hpp: jurisdictions::CX (legal tender)", (), require(law::jurisdictions::CX.tender.code[0] == 'A' && law::jurisdictions::CX.tender.code[1] == 'U' && law::jurisdictions::CX.tender.code[2] == 'D' && law::jurisdictions::CX.tender.denominator == 100);)
OBLIGATION(jurisdiction_CY, "esl/law/jurisdictions.hpp: jurisdictions::CY", (), require(law::jurisdictions::CY.sovereign.code[0] == 'C' && law::jurisdictions::CY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_CY, "esl/law/jurisdictions.hpp: jurisdictions::CY (legal tender)", (), require(law::jurisdictions::CY.tender.code[0] == 'E' && law::jurisdictions::CY.tender.code[1] == 'U' && law::jurisdictions::CY.tender.code[2] == 'R' && law::jurisdictions::CY.tender.denominator == 100);)
OBLIGATION(jurisdiction_CZ, "esl/law/jurisdictions.hpp: jurisdictions::CZ", (), require(law::jurisdictions::CZ.sovereign.code[0] == 'C' && law::jurisdictions::CZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_CZ, "esl/law/jurisdictions.hpp: jurisdictions::CZ (legal tender)", (), require(law::jurisdictions::CZ.tender.code[0] == 'C' && law::jurisdictions::CZ.tender.code[1] == 'Z' && law::jurisdictions::CZ.tender.code[2] == 'K' && law::jurisdictions::CZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_DE, "esl/law/jurisdictions.hpp: jurisdictions::DE", (), require(law::jurisdictions::DE.sovereign.code[0] == 'D' && law::jurisdictions::DE.sovereign.code[1] == 'E');)
OBLIGATION(tender_DE, "esl/law/jurisdictions.hpp: jurisdictions::DE (legal tender)", (), require(law::jurisdictions::DE.tender.code[0] == 'E' && law::jurisdictions::DE.tender.code[1] == 'U' && law::jurisdictions::DE.tender.code[2] == 'R' && law::jurisdictions::DE.tender.denominator == 100);)
OBLIGATION(jurisdiction_DJ, "esl/law/jurisdictions.hpp: jurisdictions::DJ", (), require(law::jurisdictions::DJ.sovereign.code[0] == 'D' && law::jurisdictions::DJ.sovereign.code[1] == 'J');)
OBLIGATION(tender_DJ, "esl/law/jurisdictions.hpp: jurisdictions::DJ (legal tender)", (), require(law::jurisdictions::DJ.tender.code[0] == 'D' && law::jurisdictions::DJ.tender.code[1] == 'J' && law::jurisdictions::DJ.tender.code[2] == 'F' && law::jurisdictions::DJ.tender.denominator == 1);)
OBLIGATION(jurisdiction_DK, "esl/law/jurisdictions.hpp: jurisdictions::DK", (), require(law::jurisdictions::DK.sovereign.code[0] == 'D' && law::jurisdictions::DK.sovereign.code[1] == 'K');)
OBLIGATION(tender_DK, "esl/law/jurisdictions.hpp: jurisdictions::DK (legal tender)", (), require(law::jurisdictions::DK.tender.code[0] == 'D' && law::jurisdictions::DK.tender.code[1] == 'K' && law::jurisdictions::DK.tender.code[2] == 'K' && law::jurisdictions::DK.tender.denominator == 100);)
OBLIGATION(jurisdiction_DM, "esl/law/jurisdictions.hpp: jurisdictions::DM", (), require(law::jurisdictions::DM.sovereign.code[0] == 'D' && law::jurisdictions::DM.sovereign.code[1] == 'M');)
OBLIGATION(tender_DM, "esl/law/jurisdictions.hpp: jurisdictions::DM (legal tender)", (), require(law::jurisdictions::DM.tender.code[0] == 'X' && law::jurisdictions::DM.tender.code[1] == 'C' && law::jurisdictions::DM.tender.code[2] == 'D' && law::jurisdictions::DM.tender.denominator == 100);)
OBLIGATION(jurisdiction_DO, "esl/law/jurisdictions.hpp: jurisdictions::DO", (), require(law::jurisdictions::DO.sovereign.code[0] == 'D' && law::jurisdictions::DO.sovereign.code[1] == 'O');)
OBLIGATION(tender_DO, "esl/law/jurisdictions.hpp: jurisdictions::DO (legal tender)", (), require(law::jurisdictions::DO.tender.code[0] == 'D' && law::jurisdictions::DO.tender.code[1] == 'O' && law::jurisdictions::DO.tender.code[2] == 'P' && law::jurisdictions::DO.tender.denominator == 100);)
OBLIGATION(jurisdiction_DZ, "esl/law/jurisdictions.hpp: jurisdictions::DZ", (), require(law::jurisdictions::DZ.sovereign.code[0] == 'D' && law::jurisdictions::DZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_DZ, "esl/law/jurisdictions.hpp: jurisdictions::DZ (legal tender)", (), require(law::jurisdictions::DZ.tender.code[0] == 'D' && law::jurisdictions::DZ.tender.code[1] == 'Z' && law::jurisdictions::DZ.tender.code[2] == 'D' && law::jurisdictions::DZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_EC, "esl/law/jurisdictions.hpp: jurisdictions::EC", (), require(law::jurisdictions::EC.sovereign.code[0] == 'E' && law::jurisdictions::EC.sovereign.code[1] == 'C');)
OBLIGATION(tender_EC, "esl/law/jurisdictions.hpp: jurisdictions::EC (legal tender)", (), require(law::jurisdictions::EC.tender.code[0] == 'U' && law::jurisdictions::EC.tender.code[1] == 'S' && law::jurisdictions::EC.tender.code[2] == 'D' && law::jurisdictions::EC.tender.denominator == 100);)
OBLIGATION(jurisdiction_EE, "esl/law/jurisdictions.hpp: jurisdictions::EE", (), require(law::jurisdictions::EE.sovereign.code[0] == 'E' && law::jurisdictions::EE.sovereign.code[1] == 'E');)
OBLIGATION(tender_EE, "esl/law/jurisdictions.hpp: jurisdictions::EE (legal tender)", (), require(law::jurisdictions::EE.tender.code[0] == 'E' && law::jurisdictions::EE.tender.code[1] == 'U' && law::jurisdictions::EE.tender.code[2] == 'R' && law::jurisdictions::EE.tender.denominator == 100);)
OBLIGATION(jurisdiction_EG, "esl/law/jurisdictions.hpp: jurisdictions::EG", (), require(law::jurisdictions::EG.sovereign.code[0] == 'E' && law::jurisdictions::EG.sovereign.code[1] == 'G');)
OBLIGATION(tender_EG, "esl/law/jurisdictions.hpp: jurisdictions::EG (legal tender)", (), require(law::jurisdictions::EG.tender.code[0] == 'E' && law::jurisdictions::EG.tender.code[1] == 'G' && law::jurisdictions::EG.tender.code[2] == 'P' && law::jurisdictions::EG.tender.denominator == 100);)
OBLIGATION(jurisdiction_EH, "esl/law/jurisdictions.hpp: jurisdictions::EH", (), require(law::jurisdictions::EH.sovereign.code[0] == 'E' && law::jurisdictions::EH.sovereign.code[1] == 'H');)
OBLIGATION(tender_EH, "esl/law/jurisdictions.hpp: jurisdictions::EH (legal tender)", (), require(law::jurisdictions::EH.tender.code[0] == 'M' && law::jurisdictions::EH.tender.code[1] == 'A' && law::jurisdictions::EH.tender.code[2] == 'D' && law::jurisdictions::EH.tender.denominator == 100);)
OBLIGATION(jurisdiction_ER, "esl/law/jurisdictions.hpp: jurisdictions::ER", (), require(law::jurisdictions::ER.sovereign.code[0] == 'E' && law::jurisdictions::ER.sovereign.code[1] == 'R');)
OBLIGATION(tender_ER, "esl/law/jurisdictions.hpp: jurisdictions::ER (legal tender)", (), require(law::jurisdictions::ER.tender.code[0] == 'E' && law::jurisdictions::ER.tender.code[1] == 'R' && law::jurisdictions::ER.tender.code[2] == 'N' && law::jurisdictions::ER.tender.denominator == 100);)
OBLIGATION(jurisdiction_ES, "esl/law/jurisdictions.hpp: jurisdictions::ES", (), require(law::jurisdictions::ES.sovereign.code[0] == 'E' && law::jurisdictions::ES.sovereign.code[1] == 'S');)
OBLIGATION(tender_ES, "esl/law/jurisdictions.hpp: jurisdictions::ES (legal tender)", (), require(law::jurisdictions::ES.tender.code[0] == 'E' && law::jurisdictions::ES.tender.code[1] == 'U' && law::jurisdictions::ES.tender.code[2] == 'R' && law::jurisdictions::ES.tender.denominator == 100);)
OBLIGATION(jurisdiction_ET, "esl/law/jurisdictions.hpp: jurisdictions::ET", (), require(law::jurisdictions::ET.sovereign.code[0] == 'E' && law::jurisdictions::ET.sovereign.code[1] == 'T');)
OBLIGATION(tender_ET, "esl/law/jurisdictions.hpp: jurisdictions::ET (legal tender)", (), require(law::jurisdictions::ET.tender.code[0] == 'E' && law::jurisdictions::ET.tender.code[1] == 'T' && law::jurisdictions::ET.tender.code[2] == 'B' && law::jurisdictions::ET.tender.denominator == 100);)
OBLIGATION(jurisdiction_FI, "esl/law/jurisdictions.hpp: jurisdictions::FI", (), require(law::jurisdictions::FI.sovereign.code[0] == 'F' && law::jurisdictions::FI.sovereign.code[1] == 'I');)
OBLIGATION(tender_FI, "esl/law/jurisdictions.hpp: jurisdictions::FI (legal tender)", (), require(law::jurisdictions::FI.tender.code[0] == 'E' && law::jurisdictions::FI.tender.code[1] == 'U' && law::jurisdictions::FI.tender.code[2] == 'R' && law::jurisdictions::FI.tender.denominator == 100);)
OBLIGATION(jurisdiction_FJ, "esl/law/jurisdictions.hpp: jurisdictions::FJ", (), require(law::jurisdictions::FJ.sovereign.code[0] == 'F' && law::jurisdictions::FJ.sovereign.code[1] == 'J');)
OBLIGATION(tender_FJ, "esl/law/jurisdictions.hpp: jurisdictions::FJ (legal tender)", (), require(law::jurisdictions::FJ.tender.code[0] == 'F' && law::jurisdictions::FJ.tender.code[1] == 'J' && law::jurisdictions::FJ.tender.code[2] == 'D' && law::jurisdictions::FJ.tender.denominator == 100);)
OBLIGATION(jurisdiction_FM, "esl/law/jurisdictions.hpp: jurisdictions::FM", (), require(law::jurisdictions::FM.sovereign.code[0] == 'F' && law::jurisdictions::FM.sovereign.code[1] == 'M');)
OBLIGATION(tender_FM, "esl/law/jurisdictions.hpp: jurisdictions::FM (legal tender)", (), require(law::jurisdictions::FM.tender.code[0] == 'U' && law::jurisdictions::FM.tender.code[1] == 'S' && law::jurisdictions::FM.tender.code[2] == 'D' && law::jurisdictions::FM.tender.denominator == 100);)
OBLIGATION(jurisdiction_FO, "esl/law/jurisdictions.hpp: jurisdictions::FO", (), require(law::jurisdictions::FO.sovereign.code[0] == 'F' && law::jurisdictions::FO.sovereign.code[1] == 'O');)
OBLIGATION(tender_FO, "esl/law/jurisdictions.hpp: jurisdictions::FO (legal tender)", (), require(law::jurisdictions::FO.tender.code[0] == 'D' && law::jurisdictions::FO.tender.code[1] == 'K' && law::jurisdictions::FO.tender.code[2] == 'K' && law::jurisdictions::FO.tender.denominator == 100);)
OBLIGATION(jurisdiction_FR, "esl/law/jurisdictions.hpp: jurisdictions::FR", (), require(law::jurisdictions::FR.sovereign.code[0] == 'F' && law::jurisdictions::FR.sovereign.code[1] == 'R');)
OBLIGATION(tender_FR, "esl/law/jurisdictions.hpp: jurisdictions::FR (legal tender)", (), require(law::jurisdictions::FR.tender.code[0] == 'E' && law::jurisdictions::FR.tender.code[1] == 'U' && law::jurisdictions::FR.tender.code[2] == 'R' && law::jurisdictions::FR.tender.denominator == 100);)
OBLIGATION(jurisdiction_GA, "esl/law/jurisdictions.hpp: jurisdictions::GA", (), require(law::jurisdictions::GA.sovereign.code[0] == 'G' && law::jurisdictions::GA.sovereign.code[1] == 'A');)
OBLIGATION(tender_GA, "esl/law/jurisdictions.hpp: jurisdictions::GA (legal tender)", (), require(law::jurisdictions::GA.tender.code[0] == 'X' && law::jurisdictions::GA.tender.code[1] == 'A' && law::jurisdictions::GA.tender.code[2] == 'F' && law::jurisdictions::GA.tender.denominator == 1);)
OBLIGATION(jurisdiction_GB, "esl/law/jurisdictions.hpp: jurisdictions::GB", (), require(law::jurisdictions::GB.sovereign.code[0] == 'G' && law::jurisdictions::GB.sovereign.code[1] == 'B');)
OBLIGATION(tender_GB, "esl/law/jurisdictions.hpp: jurisdictions::GB (legal tender)", (), require(law::jurisdictions::GB.tender.code[0] == 'G' && law::jurisdictions::GB.tender.code[1] == 'B' && law::jurisdictions::GB.tender.code[2] == 'P' && law::jurisdictions::GB.tender.denominator == 100);)
OBLIGATION(jurisdiction_GD, "esl/law/jurisdictions.hpp: jurisdictions::GD", (), require(law::jurisdictions::GD.sovereign.code[0] == 'G' && law::jurisdictions::GD.sovereign.code[1] == 'D');)
OBLIGATION(tender_GD, "esl/law/jurisdictions.hpp: jurisdictions::GD (legal tender)", (), require(law::jurisdictions::GD.tender.code[0] == 'X' && law::jurisdictions::GD.tender.code[1] == 'C' && law::jurisdictions::GD.tender.code[2] == 'D' && law::jurisdictions::GD.tender.denominator == 100);)
OBLIGATION(jurisdiction_GE, "esl/law/jurisdictions.hpp: jurisdictions::GE", (), require(law::jurisdictions::GE.sovereign.code[0] == 'G' && law::jurisdictions::GE.sovereign.code[1] == 'E');)
OBLIGATION(tender_GE, "esl/law/jurisdictions.hpp: jurisdictions::GE (legal tender)", (), require(law::jurisdictions::GE.tender.code[0] == 'G' && law::jurisdictions::GE.tender.code[1] == 'E' && law::jurisdictions::GE.tender.code[2] == 'L' && law::jurisdictions::GE.tender.denominator == 100);)
OBLIGATION(jurisdiction_GF, "esl/law/jurisdictions.hpp: jurisdictions::GF", (), require(law::jurisdictions::GF.sovereign.code[0] == 'G' && law::jurisdictions::GF.sovereign.code[1] == 'F');)
OBLIGATION(tender_GF, "esl/law/jurisdictions.hpp: jurisdictions::GF (legal tender)", (), require(law::jurisdictions::GF.tender.code[0] == 'E' && law::jurisdictions::GF.tender.code[1] == 'U' && law::jurisdictions::GF.tender.code[2] == 'R' && law::jurisdictions::GF.tender.denominator == 100);)
OBLIGATION(jurisdiction_GG, "esl/law/jurisdictions.hpp: jurisdictions::GG", (), require(law::jurisdictions::GG.sovereign.code[0] == 'G' && law::jurisdictions::GG.sovereign.code[1] == 'G');)
OBLIGATION(tender_GG, "esl/law/jurisdictions.hpp: jurisdictions::GG (legal tender)", (), require(law::jurisdictions::GG.tender.code[0] == 'G' && law::jurisdictions::GG.tender.code[1] == 'B' && law::jurisdictions::GG.tender.code[2] == 'P' && law::jurisdictions::GG.tender.denominator == 100);)
OBLIGATION(jurisdiction_GH, "esl/law/jurisdictions.hpp: jurisdictions::GH", (), require(law::jurisdictions::GH.sovereign.code[0] == 'G' && law::jurisdictions::GH.sovereign.code[1] == 'H');)
OBLIGATION(tender_GH, "esl/law/jurisdictions.hpp: jurisdictions::GH (legal tender)", (), require(law::jurisdictions::GH.tender.code[0] == 'G' && law::jurisdictions::GH.tender.code[1] == 'H' && law::jurisdictions::GH.tender.code[2] == 'S' && law::jurisdictions::GH.tender.denominator == 100);)
OBLIGATION(jurisdiction_GI, "esl/law/jurisdictions.hpp: jurisdictions::GI", (), require(law::jurisdictions::GI.sovereign.code[0] == 'G' && law::jurisdictions::GI.sovereign.code[1] == 'I');)
OBLIGATION(tender_GI, "esl/law/jurisdictions.hpp: jurisdictions::GI (legal tender)", (), require(law::jurisdictions::GI.tender.code[0] == 'G' && law::jurisdictions::GI.tender.code[1] == 'I' && law::jurisdictions::GI.tender.code[2] == 'P' && law::jurisdictions::GI.tender.denominator == 100);)
OBLIGATION(jurisdiction_GL, "esl/law/jurisdictions.hpp: jurisdictions::GL", (), require(law::jurisdictions::GL.sovereign.code[0] == 'G' && law::jurisdictions::GL.sovereign.code[1] == 'L');)
OBLIGATION(tender_GL, "esl/law/jurisdictions.hpp: jurisdictions::GL (legal tender)", (), require(law::jurisdictions::GL.tender.code[0] == 'D' && law::jurisdictions::GL.tender.code[1] == 'K' && law::jurisdictions::GL.tender.code[2] == 'K' && law::jurisdictions::GL.tender.denominator == 100);)
OBLIGATION(jurisdiction_GM, "esl/law/jurisdictions.hpp: jurisdictions::GM", (), require(law::jurisdictions::GM.sovereign.code[0] == 'G' && law::jurisdictions::GM.sovereign.code[1] == 'M');)
OBLIGATION(tender_GM, "esl/law/jurisdictions.hpp: jurisdictions::GM (legal tender)", (), require(law::jurisdictions::GM.tender.code[0] == 'G' && law::jurisdictions::GM.tender.code[1] == 'M' && law::jurisdictions::GM.tender.code[2] == 'D' && law::jurisdictions::GM.tender.denominator == 100);)
OBLIGATION(jurisdiction_GN, "esl/law/jurisdictions.hpp: jurisdictions::GN", (), require(law::jurisdictions::GN.sovereign.code[0] == 'G' && law::jurisdictions::GN.sovereign.code[1] == 'N');)
OBLIGATION(tender_GN, "esl/law/jurisdictions.hpp: jurisdictions::GN (legal tender)", (), require(law::jurisdictions::GN.tender.code[0] == 'G' && law::jurisdictions::GN.tender.code[1] == 'N' && law::jurisdictions::GN.tender.code[2] == 'F' && law::jurisdictions::GN.tender.denominator == 1);)
OBLIGATION(jurisdiction_GP, "esl/law/jurisdictions.hpp: jurisdictions::GP", (), require(law::jurisdictions::GP.sovereign.code[0] == 'G' && law::jurisdictions::GP.sovereign.code[1] == 'P');)
OBLIGATION(tender_GP, "esl/law/jurisdictions.hpp: jurisdictions::GP (legal tender)", (), require(law::jurisdictions::GP.tender.code[0] == 'E' && law::jurisdictions::GP.tender.code[1] == 'U' && law::jurisdictions::GP.tender.code[2] == 'R' && law::jurisdictions::GP.tender.denominator == 100);)
OBLIGATION(jurisdiction_GQ, "esl/law/jurisdictions.hpp: jurisdictions::GQ", (), require(law::jurisdictions::GQ.sovereign.code[0] == 'G' && law::jurisdictions::GQ.sovereign.code[1] == 'Q');)
OBLIGATION(tender_GQ, "esl/law/jurisdictions.hpp: jurisdictions::GQ (legal tender)", (), require(law::jurisdictions::GQ.tender.code[0] == 'X' && law::jurisdictions::GQ.tender.code[1] == 'A' && law::jurisdictions::GQ.tender.code[2] == 'F' && law::jurisdictions::GQ.tender.denominator == 1);)
OBLIGATION(jurisdiction_GR, "esl/law/jurisdictions.hpp: jurisdictions::GR", (), require(law::jurisdictions::GR.sovereign.code[0] == 'G' && law::jurisdictions::GR.sovereign.code[1] == 'R');)
OBLIGATION(tender_GR, "esl/law/jurisdictions.hpp: jurisdictions::GR (legal tender)", (), require(law::jurisdictions::GR.tender.code[0] == 'E' && law::jurisdictions::GR.tender.code[1] == 'U' && law::jurisdictions::GR.tender.code[2] == 'R' && law::jurisdictions::GR.tender.denominator == 100);)
OBLIGATION(jurisdiction_GT, "esl/law/jurisdictions.hpp: jurisdictions::GT", (), require(law::jurisdictions::GT.sovereign.code[0] == 'G' && law::jurisdictions::GT.sovereign.code[1] == 'T');)
OBLIGATION(tender_GT, "esl/law/jurisdictions.hpp: jurisdictions::GT (legal tender)", (), require(law::jurisdictions::GT.tender.code[0] == 'G' && law::jurisdictions::GT.tender.code[1] == 'T' && law::jurisdictions::GT.tender.code[2] == 'Q' && law::jurisdictions::GT.tender.denominator == 100);)
OBLIGATION(jurisdiction_GU, "esl/law/jurisdictions.hpp: jurisdictions::GU", (), require(law::jurisdictions::GU.sovereign.code[0] == 'G' && law::jurisdictions::GU.sovereign.code[1] == 'U');)
OBLIGATION(tender_GU, "esl/law/jurisdictions.hpp: jurisdictions::GU (legal tender)", (), require(law::jurisdictions::GU.tender.code[0] == 'U' && law::jurisdictions::GU.tender.code[1] == 'S' && law::jurisdictions::GU.tender.code[2] == 'D' && law::jurisdictions::GU.tender.denominator == 100);)
OBLIGATION(jurisdiction_GW, "esl/law/jurisdictions.hpp: jurisdictions::GW", (), require(law::jurisdictions::GW.sovereign.code[0] == 'G' && law::jurisdictions::GW.sovereign.code[1] == 'W');)
OBLIGATION(tender_GW, "esl/law/jurisdictions.hpp: jurisdictions::GW (legal tender)", (), require(law::jurisdictions::GW.tender.code[0] == 'X' && law::jurisdictions::GW.tender.code[1] == 'O' && law::jurisdictions::GW.tender.code[2] == 'F' && law::jurisdictions::GW.tender.denominator == 1);)
OBLIGATION(jurisdiction_GY, "esl/law/jurisdictions.hpp: jurisdictions::GY", (), require(law::jurisdictions::GY.sovereign.code[0] == 'G' && law::jurisdictions::GY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_GY, "esl/law/jurisdictions.hpp: jurisdictions::GY (legal tender)", (), require(law::jurisdictions::GY.tender.code[0] == 'G' && law::jurisdictions::GY.tender.code[1] == 'Y' && law::jurisdictions::GY.tender.code[2] == 'D' && law::jurisdictions::GY.tender.denominator == 100);)
OBLIGATION(jurisdiction_HK, "esl/law/jurisdictions.hpp: jurisdictions::HK", (), require(law::jurisdictions::HK.sovereign.code[0] == 'H' && law::jurisdictions::HK.sovereign.code[1] == 'K');)
OBLIGATION(tender_HK, "esl/law/jurisdictions.hpp: jurisdictions::HK (legal tender)", (), require(law::jurisdictions::HK.tender.code[0] == 'H' && law::jurisdictions::HK.tender.code[1] == 'K' && law::jurisdictions::HK.tender.code[2] == 'D' && law::jurisdictions::HK.tender.denominator == 100);)
OBLIGATION(jurisdiction_HM, "esl/law/jurisdictions.hpp: jurisdictions::HM", (), require(law::jurisdictions::HM.sovereign.code[0] == 'H' && law::jurisdictions::HM.sovereign.code[1] == 'M');)
OBLIGATION(tender_HM, "esl/law/jurisdictions.hpp: jurisdictions::HM (legal tender)", (), require(law::jurisdictions::HM.tender.code[0] == 'A' && law::jurisdictions::HM.tender.code[1] == 'U' && law::jurisdictions::HM.tender.code[2] == 'D' && law::jurisdictions::HM.tender.denominator == 100);)
OBLIGATION(jurisdiction_HN, "esl/law/jurisdictions.hpp: jurisdictions::HN", (), require(law::jurisdictions::HN.sovereign.code[0] == 'H' && law::jurisdictions::HN.sovereign.code[1] == 'N');)
OBLIGATION(tender_HN, "esl/law/jurisdictions.hpp: jurisdictions::HN (legal tender)", (), require(law::jurisdictions::HN.tender.code[0] == 'H' && law::jurisdictions::HN.tender.code[1] == 'N' && law::jurisdictions::HN.tender.code[2] == 'L' && law::jurisdictions::HN.tender.denominator == 100);)
OBLIGATION(jurisdiction_HR, "esl/law/jurisdictions.hpp: jurisdictions::HR", (), require(law::jurisdictions::HR.sovereign.code[0] == 'H' && law::jurisdictions::HR.sovereign.code[1] == 'R');)
OBLIGATION(tender_HR, "esl/law/jurisdictions.hpp: jurisdictions::HR (legal tender)", (), require(law::jurisdictions::HR.tender.code[0] == 'H' && law::jurisdictions::HR.tender.code[1] == 'R' && law::jurisdictions::HR.tender.code[2] == 'K' && law::jurisdictions::HR.tender.denominator == 100);)
OBLIGATION(jurisdiction_HT, "esl/law/jurisdictions.hpp: jurisdictions::HT", (), require(law::jurisdictions::HT.sovereign.code[0] == 'H' && law::jurisdictions::HT.sovereign.code[1] == 'T');)
OBLIGATION(tender_HT, "esl/law/jurisdictions.hpp: jurisdictions::HT (legal tender)", (), require(law::jurisdictions::HT.tender.code[0] == 'H' && law::jurisdictions::HT.tender.code[1] == 'T' && law::jurisdictions::HT.tender.code[2] == 'G' && law::jurisdictions::HT.tender.denominator == 100);)
OBLIGATION(jurisdiction_HU, "esl/law/jurisdictions.hpp: jurisdictions::HU", (), require(law::jurisdictions::HU.sovereign.code[0] == 'H' && law::jurisdictions::HU.sovereign.code[1] == 'U');)
OBLIGATION(tender_HU, "esl/law/jurisdictions.hpp: jurisdictions::HU (legal tender)", (), require(law::jurisdictions::HU.tender.code[0] == 'H' && law::jurisdictions::HU.tender.code[1] == 'U' && law::jurisdictions::HU.tender.code[2] == 'F' && law::jurisdictions::HU.tender.denominator == 100);)
OBLIGATION(jurisdiction_ID, "esl/law/jurisdictions.hpp: jurisdictions::ID", (), require(law::jurisdictions::ID.sovereign.code[0] == 'I' && law::jurisdictions::ID.sovereign.code[1] == 'D');)
OBLIGATION(tender_ID, "esl/law/jurisdictions.hpp: jurisdictions::ID (legal tender)", (), require(law::jurisdictions::ID.tender.code[0] == 'I' && law::jurisdictions::ID.tender.code[1] == 'D' && law::jurisdictions::ID.tender.code[2] == 'R' && law::jurisdictions::ID.tender.denominator == 100);)
OBLIGATION(jurisdiction_IE, "esl/law/jurisdictions.hpp: jurisdictions::IE", (), require(law::jurisdictions::IE.sovereign.code[0] == 'I' && law::jurisdictions::IE.sovereign.code[1] == 'E');)
OBLIGATION(tender_IE, "esl/law/jurisdictions.hpp: jurisdictions::IE (legal tender)", (), require(law::jurisdictions::IE.tender.code[0] == 'E' && law::jurisdictions::IE.tender.code[1] == 'U' && law::jurisdictions::IE.tender.code[2] == 'R' && law::jurisdictions::IE.tender.denominator == 100);)
OBLIGATION(jurisdiction_IL, "esl/law/jurisdictions.hpp: jurisdictions::IL", (), require(law::jurisdictions::IL.sovereign.code[0] == 'I' && law::jurisdictions::IL.sovereign.code[1] == 'L');)
OBLIGATION(tender_IL, "esl/law/jurisdictions.hpp: jurisdictions::IL (legal tender)", (), require(law::jurisdictions::IL.tender.code[0] == 'I' && law::jurisdictions::IL.tender.code[1] == 'L' && law::jurisdictions::IL.tender.code[2] == 'S' && law::jurisdictions::IL.tender.denominator == 100);)
OBLIGATION(jurisdiction_IM, "esl/law/jurisdictions.hpp: jurisdictions::IM", (), require(law::jurisdictions::IM.sovereign.code[0] == 'I' && law::jurisdictions::IM.sovereign.code[1] == 'M');)
OBLIGATION(tender_IM, "esl/law/jurisdictions.hpp: jurisdictions::IM (legal tender)", (), require(law::jurisdictions::IM.tender.code[0] == 'G' && law::jurisdictions::IM.tender.code[1] == 'B' && law::jurisdictions::IM.tender.code[2] == 'P' && law::jurisdictions::IM.tender.denominator == 100);)
OBLIGATION(jurisdiction_IO, "esl/law/jurisdictions.hpp: jurisdictions::IO", (), require(law::jurisdictions::IO.sovereign.code[0] == 'I' && law::jurisdictions::IO.sovereign.code[1] == 'O');)
OBLIGATION(tender_IO, "esl/law/jurisdictions.hpp: jurisdictions::IO (legal tender)", (), require(law::jurisdictions::IO.tender.code[0] == 'U' && law::jurisdictions::IO.tender.code[1] == 'S' && law::jurisdictions::IO.tender.code[2] == 'D' && law::jurisdictions::IO.tender.denominator == 100);)
OBLIGATION(jurisdiction_IQ, "esl/law/jurisdictions.hpp: jurisdictions::IQ", (), require(law::jurisdictions::IQ.sovereign.code[0] == 'I' && law::jurisdictions::IQ.sovereign.code[1] == 'Q');)
OBLIGATION(tender_IQ, "esl/law/jurisdictions.hpp: jurisdictions::IQ (legal tender)", (), require(law::jurisdictions::IQ.tender.code[0] == 'I' && law::jurisdictions::IQ.tender.code[1] == 'Q' && law::jurisdictions::IQ.tender.code[2] == 'D' && law::jurisdictions::IQ.tender.denominator == 1000);)
OBLIGATION(jurisdiction_IR, "esl/law/jurisdictions.hpp: jurisdictions::IR", (), require(law::jurisdictions::IR.sovereign.code[0] == 'I' && law::jurisdictions::IR.sovereign.code[1] == 'R');)
OBLIGATION(tender_IR, "esl/law/jurisdictions.hpp: jurisdictions::IR (legal tender)", (), require(law::jurisdictions::IR.tender.code[0] == 'I' && law::jurisdictions::IR.tender.code[1] == 'R' && law::jurisdictions::IR.tender.code[2] == 'R' && law::jurisdictions::IR.tender.denominator == 100);)
OBLIGATION(jurisdiction_IS, "esl/law/jurisdictions.hpp: jurisdictions::IS", (), require(law::jurisdictions::IS.sovereign.code[0] == 'I' && law::jurisdictions::IS.sovereign.code[1] == 'S');)
OBLIGATION(tender_IS, "esl/law/jurisdictions.hpp: jurisdictions::IS (legal tender)", (), require(law::jurisdictions::IS.tender.code[0] == 'I' && law::jurisdictions::IS.tender.code[1] == 'S' && law::jurisdictions::IS.tender.code[2] == 'K' && law::jurisdictions::IS.tender.denominator == 1);)
OBLIGATION(jurisdiction_IT, "esl/law/jurisdictions.hpp: jurisdictions::IT", (), require(law::jurisdictions::IT.sovereign.code[0] == 'I' && law::jurisdictions::IT.sovereign.code[1] == 'T');)
OBLIGATION(tender_IT, "esl/law/jurisdictions.hpp: jurisdictions::IT (legal tender)", (), require(law::jurisdictions::IT.tender.code[0] == 'E' && law::jurisdictions::IT.tender.code[1] == 'U' && law::jurisdictions::IT.tender.code[2] == 'R' && law::jurisdictions::IT.tender.denominator == 100);)
OBLIGATION(jurisdiction_JE, "esl/law/jurisdictions.hpp: jurisdictions::JE", (), require(law::jurisdictions::JE.sovereign.code[0] == 'J' && law::jurisdictions::JE.sovereign.code[1] == 'E');)
OBLIGATION(tender_JE, "esl/law/jurisdictions.hpp: jurisdictions::JE (legal tender)", (), require(law::jurisdictions::JE.tender.code[0] == 'G' && law::jurisdictions::JE.tender.code[1] == 'B' && law::jurisdictions::JE.tender.code[2] == 'P' && law::jurisdictions::JE.tender.denominator == 100);)
OBLIGATION(jurisdiction_JM, "esl/law/jurisdictions.hpp: jurisdictions::JM", (), require(law::jurisdictions::JM.sovereign.code[0] == 'J' && law::jurisdictions::JM.sovereign.code[1] == 'M');)
OBLIGATION(tender_JM, "esl/law/jurisdictions.hpp: jurisdictions::JM (legal tender)", (), require(law::jurisdictions::JM.tender.code[0] == 'J' && law::jurisdictions::JM.tender.code[1] == 'M' && law::jurisdictions::JM.tender.code[2] == 'D' && law::jurisdictions::JM.tender.denominator == 100);)
OBLIGATION(jurisdiction_JO, "esl/law/jurisdictions.hpp: jurisdictions::JO", (), require(law::jurisdictions::JO.sovereign.code[0] == 'J' && law::jurisdictions::JO.sovereign.code[1] == 'O');)
OBLIGATION(tender_JO, "esl/law/jurisdictions.hpp: jurisdictions::JO (legal tender)", (), require(law::jurisdictions::JO.tender.code[0] == 'J' && law::jurisdictions::JO.tender.code[1] == 'O' && law::jurisdictions::JO.tender.code[2] == 'D' && law::jurisdictions::JO.tender.denominator == 1000);)
OBLIGATION(jurisdiction_JP, "esl/law/jurisdictions.hpp: jurisdictions::JP", (), require(law::jurisdictions::JP.sovereign.code[0] == 'J' && law::jurisdictions::JP.sovereign.code[1] == 'P');)
OBLIGATION(tender_JP, "esl/law/jurisdictions.hpp: jurisdictions::JP (legal tender)", (), require(law::jurisdictions::JP.tender.code[0] == 'J' && law::jurisdictions::JP.tender.code[1] == 'P' && law::jurisdictions::JP.tender.code[2] == 'Y' && law::jurisdictions::JP.tender.denominator == 1);)
OBLIGATION(jurisdiction_KE, "esl/law/jurisdictions.hpp: jurisdictions::KE", (), require(law::jurisdictions::KE.sovereign.code[0] == 'K' && law::jurisdictions::KE.sovereign.code[1] == 'E');)
OBLIGATION(tender_KE, "esl/law/jurisdictions.hpp: jurisdictions::KE (legal tender)", (), require(law::jurisdictions::KE.tender.code[0] == 'K' && law::jurisdictions::KE.tender.code[1] == 'E' && law::jurisdictions::KE.tender.code[2] == 'S' && law::jurisdictions::KE.tender.denominator == 100);)
OBLIGATION(jurisdiction_KG, "esl/law/jurisdictions.hpp: jurisdictions::KG", (), require(law::jurisdictions::KG.sovereign.code[0] == 'K' && law::jurisdictions::KG.sovereign.code[1] == 'G');)
OBLIGATION(tender_KG, "esl/law/jurisdictions.hpp: jurisdictions::KG (legal tender)", (), require(law::jurisdictions::KG.tender.code[0] == 'K' && law::jurisdictions::KG.tender.code[1] == 'G' && law::jurisdictions::KG.tender.code[2] == 'S' && law::jurisdictions::KG.tender.denominator == 100);)
OBLIGATION(jurisdiction_KH, "esl/law/jurisdictions.hpp: jurisdictions::KH", (), require(law::jurisdictions::KH.sovereign.code[0] == 'K' && law::jurisdictions::KH.sovereign.code[1] == 'H');)
OBLIGATION(tender_KH, "esl/law/jurisdictions.hpp: jurisdictions::KH (legal tender)", (), require(law::jurisdictions::KH.tender.code[0] == 'K' && law::jurisdictions::KH.tender.code[1] == 'H' && law::jurisdictions::KH.tender.code[2] == 'R' && law::jurisdictions::KH.tender.denominator == 100);)
OBLIGATION(jurisdiction_KI, "esl/law/jurisdictions.hpp: jurisdictions::KI", (), require(law::jurisdictions::KI.sovereign.code[0] == 'K' && law::jurisdictions::KI.sovereign.code[1] == 'I');)
OBLIGATION(tender_KI, "esl/law/jurisdictions.hpp: jurisdictions::KI (legal tender)", (), require(law::jurisdictions::KI.tender.code[0] == 'A' && law::jurisdictions::KI.tender.code[1] == 'U' && law::jurisdictions::KI.tender.code[2] == 'D' && law::jurisdictions::KI.tender.denominator == 100);)
OBLIGATION(jurisdiction_KM, "esl/law/jurisdictions.hpp: jurisdictions::KM", (), require(law::jurisdictions::KM.sovereign.code[0] == 'K' && law::jurisdictions::KM.sovereign.code[1] == 'M');)
OBLIGATION(tender_KM, "esl/law/jurisdictions.hpp: jurisdictions::KM (legal tender)", (), require(law::jurisdictions::KM.tender.code[0] == 'K' && law::jurisdictions::KM.tender.code[1] == 'M' && law::jurisdictions::KM.tender.code[2] == 'F' && law::jurisdictions::KM.tender.denominator == 1);)
OBLIGATION(jurisdiction_KN, "esl/law/jurisdictions.hpp: jurisdictions::KN", (), require(law::jurisdictions::KN.sovereign.code[0] == 'K' && law::jurisdictions::KN.sovereign.code[1] == 'N');)
OBLIGATION(tender_KN, "esl/law/jurisdictions.hpp: jurisdictions::KN (legal tender)", (), require(law::jurisdictions::KN.tender.code[0] == 'X' && law::jurisdictions::KN.tender.code[1] == 'C' && law::jurisdictions::KN.tender.code[2] == 'D' && law::jurisdictions::KN.tender.denominator == 100);)
OBLIGATION(jurisdiction_KP, "esl/law/jurisdictions.hpp: jurisdictions::KP", (), require(law::jurisdictions::KP.sovereign.code[0] == 'K' && law::jurisdictions::KP.sovereign.code[1] == 'P');)
OBLIGATION(tender_KP, "esl/law/jurisdictions.hpp: jurisdictions::KP (legal tender)", (), require(law::jurisdictions::KP.tender.code[0] == 'K' && law::jurisdictions::KP.tender.code[1] == 'P' && law::jurisdictions::KP.tender.code[2] == 'W' && law::jurisdictions::KP.tender.denominator == 100);)
OBLIGATION(jurisdiction_KR, "esl/law/jurisdictions.hpp: jurisdictions::KR", (), require(law::jurisdictions::KR.sovereign.code[0] == 'K' && law::jurisdictions::KR.sovereign.code[1] == 'R');)
OBLIGATION(tender_KR, "esl/law/jurisdictions.hpp: jurisdictions::KR (legal tender)", (), require(law::jurisdictions::KR.tender.code[0] == 'K' && law::jurisdictions::KR.tender.code[1] == 'R' && law::jurisdictions::KR.tender.code[2] == 'W' && law::jurisdictions::KR.tender.denominator == 1);)
OBLIGATION(jurisdiction_KW, "esl/law/jurisdictions.hpp: jurisdictions::KW", (), require(law::jurisdictions::KW.sovereign.code[0] == 'K' && law::jurisdictions::KW.sovereign.code[1] == 'W');)
OBLIGATION(tender_KW, "esl/law/jurisdictions.hpp: jurisdictions::KW (legal tender)", (), require(law::jurisdictions::KW.tender.code[0] == 'K' && law::jurisdictions::KW.tender.code[1] == 'W' && law::jurisdictions::KW.tender.code[2] == 'D' && law::jurisdictions::KW.tender.denominator == 1000);)
OBLIGATION(jurisdiction_KY, "esl/law/jurisdictions.hpp: jurisdictions::KY", (), require(law::jurisdictions::KY.sovereign.code[0] == 'K' && law::jurisdictions::KY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_KY, "esl/law/jurisdictions.hpp: jurisdictions::KY (legal tender)", (), require(law::jurisdictions::KY.tender.code[0] == 'K' && law::jurisdictions::KY.tender.code[1] == 'Y' && law::jurisdictions::KY.tender.code[2] == 'D' && law::jurisdictions::KY.tender.denominator == 100);)
OBLIGATION(jurisdiction_KZ, "esl/law/jurisdictions.hpp: jurisdictions::KZ", (), require(law::jurisdictions::KZ.sovereign.code[0] == 'K' && law::jurisdictions::KZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_KZ, "esl/law/jurisdictions.hpp: jurisdictions::KZ (legal tender)", (), require(law::jurisdictions::KZ.tender.code[0] == 'K' && law::jurisdictions::KZ.tender.code[1] == 'Z' && law::jurisdictions::KZ.tender.code[2] == 'T' && law::jurisdictions::KZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_LA, "esl/law/jurisdictions.hpp: jurisdictions::LA", (), require(law::jurisdictions::LA.sovereign.code[0] == 'L' && law::jurisdictions::LA.sovereign.code[1] == 'A');)
OBLIGATION(tender_LA, "esl/law/jurisdictions.hpp: jurisdictions::LA (legal tender)", (), require(law::jurisdictions::LA.tender.code[0] == 'L' && law::jurisdictions::LA.tender.code[1] == 'A' && law::jurisdictions::LA.tender.code[2] == 'K' && law::jurisdictions::LA.tender.denominator == 100);)
OBLIGATION(jurisdiction_LB, "esl/law/jurisdictions.hpp: jurisdictions::LB", (), require(law::jurisdictions::LB.sovereign.code[0] == 'L' && law::jurisdictions::LB.sovereign.code[1] == 'B');)
OBLIGATION(tender_LB, "esl/law/jurisdictions.hpp: jurisdictions::LB (legal tender)", (), require(law::jurisdictions::LB.tender.code[0] == 'L' && law::jurisdictions::LB.tender.code[1] == 'B' && law::jurisdictions::LB.tender.code[2] == 'P' && law::jurisdictions::LB.tender.denominator == 100);)
OBLIGATION(jurisdiction_LC, "esl/law/jurisdictions.hpp: jurisdictions::LC", (), require(law::jurisdictions::LC.sovereign.code[0] == 'L' && law::jurisdictions::LC.sovereign.code[1] == 'C');)
OBLIGATION(tender_LC, "esl/law/jurisdictions.hpp: jurisdictions::LC (legal tender)", (), require(law::jurisdictions::LC.tender.code[0] == 'X' && law::jurisdictions::LC.tender.code[1] == 'C' && law::jurisdictions::LC.tender.code[2] == 'D' && law::jurisdictions::LC.tender.denominator == 100);)
OBLIGATION(jurisdiction_LI, "esl/law/jurisdictions.hpp: jurisdictions::LI", (), require(law::jurisdictions::LI.sovereign.code[0] == 'L' && law::jurisdictions::LI.sovereign.code[1] == 'I');)
OBLIGATION(tender_LI, "esl/law/jurisdictions.hpp: jurisdictions::LI (legal tender)", (), require(law::jurisdictions::LI.tender.code[0] == 'C' && law::jurisdictions::LI.tender.code[1] == 'H' && law::jurisdictions::LI.tender.code[2] == 'F' && law::jurisdictions::LI.tender.denominator == 100);)
OBLIGATION(jurisdiction_LK, "esl/law/jurisdictions.hpp: jurisdictions::LK", (), require(law::jurisdictions::LK.sovereign.code[0] == 'L' && law::jurisdictions::LK.sovereign.code[1] == 'K');)
OBLIGATION(tender_LK, "esl/law/jurisdictions.hpp: jurisdictions::LK (legal tender)", (), require(law::jurisdictions::LK.tender.code[0] == 'L' && law::jurisdictions::LK.tender.code[1] == 'K' && law::jurisdictions::LK.tender.code[2] == 'R' && law::jurisdictions::LK.tender.denominator == 100);)
OBLIGATION(jurisdiction_LR, "esl/law/jurisdictions.hpp: jurisdictions::LR", (), require(law::jurisdictions::LR.sovereign.code[0] == 'L' && law::jurisdictions::LR.sovereign.code[1] == 'R');)
OBLIGATION(tender_LR, "esl/law/jurisdictions.hpp: jurisdictions::LR (legal tender)", (), require(law::jurisdictions::LR.tender.code[0] == 'L' && law::jurisdictions::LR.tender.code[1] == 'R' && law::jurisdictions::LR.tender.code[2] == 'D' && law::jurisdictions::LR.tender.denominator == 100);)
OBLIGATION(jurisdiction_LS, "esl/law/jurisdictions.hpp: jurisdictions::LS", (), require(law::jurisdictions::LS.sovereign.code[0] == 'L' && law::jurisdictions::LS.sovereign.code[1] == 'S');)
OBLIGATION(tender_LS, "esl/law/jurisdictions.hpp: jurisdictions::LS (legal tender)", (), require(law::jurisdictions::LS.tender.code[0] == 'L' && law::jurisdictions::LS.tender.code[1] == 'S' && law::jurisdictions::LS.tender.code[2] == 'L' && law::jurisdictions::LS.tender.denominator == 100);)
OBLIGATION(jurisdiction_LT, "esl/law/jurisdictions.hpp: jurisdictions::LT", (), require(law::jurisdictions::LT.sovereign.code[0] == 'L' && law::jurisdictions::LT.sovereign.code[1] == 'T');)
OBLIGATION(tender_LT, "esl/law/jurisdictions.hpp: jurisdictions::LT (legal tender)", (), require(law::jurisdictions::LT.tender.code[0] == 'E' && law::jurisdictions::LT.tender.code[1] == 'U' && law::jurisdictions::LT.tender.code[2] == 'R' && law::jurisdictions::LT.tender.denominator == 100);)
OBLIGATION(jurisdiction_LU, "esl/law/jurisdictions.hpp: jurisdictions::LU", (), require(law::jurisdictions::LU.sovereign.code[0] == 'L' && law::jurisdictions::LU.sovereign.code[1] == 'U');)
OBLIGATION(tender_LU, "esl/law/jurisdictions.hpp: jurisdictions::LU (legal tender)", (), require(law::jurisdictions::LU.tender.code[0] == 'E' && law::jurisdictions::LU.tender.code[1] == 'U' && law::jurisdictions::LU.tender.code[2] == 'R' && law::jurisdictions::LU.tender.denominator == 100);)
OBLIGATION(jurisdiction_LV, "esl/law/jurisdictions.hpp: jurisdictions::LV", (), require(law::jurisdictions::LV.sovereign.code[0] == 'L' && law::jurisdictions::LV.sovereign.code[1] == 'V');)
OBLIGATION(tender_LV, "esl/law/jurisdictions.hpp: jurisdictions::LV (legal tender)", (), require(law::jurisdictions::LV.tender.code[0] == 'E' && law::jurisdictions::LV.tender.code[1] == 'U' && law::jurisdictions::LV.tender.code[2] == 'R' && law::jurisdictions::LV.tender.denominator == 100);)
OBLIGATION(jurisdiction_LY, "esl/law/jurisdictions.hpp: jurisdictions::LY", (), require(law::jurisdictions::LY.sovereign.code[0] == 'L' && law::jurisdictions::LY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_LY, "esl/law/jurisdictions.hpp: jurisdictions::LY (legal tender)", (), require(law::jurisdictions::LY.tender.code[0] == 'L' && law::jurisdictions::LY.tender.code[1] == 'Y' && law::jurisdictions::LY.tender.code[2] == 'D' && law::jurisdictions::LY.tender.denominator == 1000);)
OBLIGATION(jurisdiction_MA, "esl/law/jurisdictions.hpp: jurisdictions::MA", (), require(law::jurisdictions::MA.sovereign.code[0] == 'M' && law::jurisdictions::MA.sovereign.code[1] == 'A');)
OBLIGATION(tender_MA, "esl/law/jurisdictions.hpp: jurisdictions::MA (legal tender)", (), require(law::jurisdictions::MA.tender.code[0] == 'M' && law::jurisdictions::MA.tender.code[1] == 'A' && law::jurisdictions::MA.tender.code[2] == 'D' && law::jurisdictions::MA.tender.denominator == 100);)
OBLIGATION(jurisdiction_MC, "esl/law/jurisdictions.hpp: jurisdictions::MC", (), require(law::jurisdictions::MC.sovereign.code[0] == 'M' && law::jurisdictions::MC.sovereign.code[1] == 'C');)
OBLIGATION(tender_MC, "esl/law/jurisdictions.hpp: jurisdictions::MC (legal tender)", (), require(law::jurisdictions::MC.tender.code[0] == 'E' && law::jurisdictions::MC.tender.code[1] == 'U' && law::jurisdictions::MC.tender.code[2] == 'R' && law::jurisdictions::MC.tender.denominator == 100);)
OBLIGATION(jurisdiction_MD, "esl/law/jurisdictions.hpp: jurisdictions::MD", (), require(law::jurisdictions::MD.sovereign.code[0] == 'M' && law::jurisdictions::MD.sovereign.code[1] == 'D');)
OBLIGATION(tender_MD, "esl/law/jurisdictions.hpp: jurisdictions::MD (legal tender)", (), require(law::jurisdictions::MD.tender.code[0] == 'M' && law::jurisdictions::MD.tender.code[1] == 'D' && law::jurisdictions::MD.tender.code[2] == 'L' && law::jurisdictions::MD.tender.denominator == 100);)
OBLIGATION(jurisdiction_ME, "esl/law/jurisdictions.hpp: jurisdictions::ME", (), require(law::jurisdictions::ME.sovereign.code[0] == 'M' && law::jurisdictions::ME.sovereign.code[1] == 'E');)
OBLIGATION(tender_ME, "esl/law/jurisdictions.hpp: jurisdictions::ME (legal tender)", (), require(law::jurisdictions::ME.tender.code[0] == 'E' && law::jurisdictions::ME.tender.code[1] == 'U' && law::jurisdictions::ME.tender.code[2] == 'R' && law::jurisdictions::ME.tender.denominator == 100);)
OBLIGATION(jurisdiction_MF, "esl/law/jurisdictions.hpp: jurisdictions::MF", (), require(law::jurisdictions::MF.sovereign.code[0] == 'M' && law::jurisdictions::MF.sovereign.code[1] == 'F');)
OBLIGATION(tender_MF, "esl/law/jurisdictions.hpp: jurisdictions::MF (legal tender)", (), require(law::jurisdictions::MF.tender.code[0] == 'E' && law::jurisdictions::MF.tender.code[1] == 'U' && law::jurisdictions::MF.tender.code[2] == 'R' && law::jurisdictions::MF.tender.denominator == 100);)
OBLIGATION(jurisdiction_MG, "esl/law/jurisdictions.hpp: jurisdictions::MG", (), require(law::jurisdictions::MG.sovereign.code[0] == 'M' && law::jurisdictions::MG.sovereign.code[1] == 'G');)
OBLIGATION(tender_MG, "esl/law/jurisdictions.hpp: jurisdictions::MG (legal tender)", (), require(law::jurisdictions::MG.tender.code[0] == 'M' && law::jurisdictions::MG.tender.code[1] == 'G' && law::jurisdictions::MG.tender.code[2] == 'A' && law::jurisdictions::MG.tender.denominator == 100);)
OBLIGATION(jurisdiction_MH, "esl/law/jurisdictions.hpp: jurisdictions::MH", (), require(law::jurisdictions::MH.sovereign.code[0] == 'M' && law::jurisdictions::MH.sovereign.code[1] == 'H');)
OBLIGATION(tender_MH, "esl/law/jurisdictions.hpp: jurisdictions::MH (legal tender)", (), require(law::jurisdictions::MH.tender.code[0] == 'U' && law::jurisdictions::MH.tender.code[1] == 'S' && law::jurisdictions::MH.tender.code[2] == 'D' && law::jurisdictions::MH.tender.denominator == 100);)
OBLIGATION(jurisdiction_MK, "esl/law/jurisdictions.hpp: jurisdictions::MK", (), require(law::jurisdictions::MK.sovereign.code[0] == 'M' && law::jurisdictions::MK.sovereign.code[1] == 'K');)
OBLIGATION(tender_MK, "esl/law/jurisdictions.hpp: jurisdictions::MK (legal tender)", (), require(law::jurisdictions::MK.tender.code[0] == 'M' && law::jurisdictions::MK.tender.code[1] == 'K' && law::jurisdictions::MK.tender.code[2] == 'D' && law::jurisdictions::MK.tender.denominator == 100);)
OBLIGATION(jurisdiction_ML, "esl/law/jurisdictions.hpp: jurisdictions::ML", (), require(law::jurisdictions::ML.sovereign.code[0] == 'M' && law::jurisdictions::ML.sovereign.code[1] == 'L');)
OBLIGATION(tender_ML, "esl/law/jurisdictions.hpp: jurisdictions::ML (legal tender)", (), require(law::jurisdictions::ML.tender.code[0] == 'X' && law::jurisdictions::ML.tender.code[1] == 'O' && law::jurisdictions::ML.tender.code[2] == 'F' && law::jurisdictions::ML.tender.denominator == 1);)
OBLIGATION(jurisdiction_MM, "esl/law/jurisdictions.hpp: jurisdictions::MM", (), require(law::jurisdictions::MM.sovereign.code[0] == 'M' && law::jurisdictions::MM.sovereign.code[1] == 'M');)
OBLIGATION(tender_MM, "esl/law/jurisdictions.hpp: jurisdictions::MM (legal tender)", (), require(law::jurisdictions::MM.tender.code[0] == 'M' && law::jurisdictions::MM.tender.code[1] == 'M' && law::jurisdictions::MM.tender.code[2] == 'K' && law::jurisdictions::MM.tender.denominator == 100);)
OBLIGATION(jurisdiction_MN, "esl/law/jurisdictions.hpp: jurisdictions::MN", (), require(law::jurisdictions::MN.sovereign.code[0] == 'M' && law::jurisdictions::MN.sovereign.code[1] == 'N');)
OBLIGATION(tender_MN, "esl/law/jurisdictions.hpp: jurisdictions::MN (legal tender)", (), require(law::jurisdictions::MN.tender.code[0] == 'M' && law::jurisdictions::MN.tender.code[1] == 'N' && law::jurisdictions::MN.tender.code[2] == 'T' && law::jurisdictions::MN.tender.denominator == 100);)
OBLIGATION(jurisdiction_MO, "esl/law/jurisdictions.hpp: jurisdictions::MO", (), require(law::jurisdictions::MO.sovereign.code[0] == 'M' && law::jurisdictions::MO.sovereign.code[1] == 'O');)
OBLIGATION(tender_MO, "esl/law/jurisdictions.hpp: jurisdictions::MO (legal tender)", (), require(law::jurisdictions::MO.tender.code[0] == 'M' && law::jurisdictions::MO.tender.code[1] == 'O' && law::jurisdictions::MO.tender.code[2] == 'P' && law::jurisdictions::MO.tender.denominator == 100);)
OBLIGATION(jurisdiction_MP, "esl/law/jurisdictions.hpp: jurisdictions::MP", (), require(law::jurisdictions::MP.sovereign.code[0] == 'M' && law::jurisdictions::MP.sovereign.code[1] == 'P');)
OBLIGATION(tender_MP, "esl/law/jurisdictions.hpp: jurisdictions::MP (legal tender)", (), require(law::jurisdictions::MP.tender.code[0] == 'U' && law::jurisdictions::MP.tender.code[1] == 'S' && law::jurisdictions::MP.tender.code[2] == 'D' && law::jurisdictions::MP.tender.denominator == 100);)
OBLIGATION(jurisdiction_MQ, "esl/law/jurisdictions.hpp: jurisdictions::MQ", (), require(law::jurisdictions::MQ.sovereign.code[0] == 'M' && law::jurisdictions::MQ.sovereign.code[1] == 'Q');)
OBLIGATION(tender_MQ, "esl/law/jurisdictions.hpp: jurisdictions::MQ (legal tender)", (), require(law::jurisdictions::MQ.tender.code[0] == 'E' && law::jurisdictions::MQ.tender.code[1] == 'U' && law::jurisdictions::MQ.tender.code[2] == 'R' && law::jurisdictions::MQ.tender.denominator == 100);)
OBLIGATION(jurisdiction_MR, "esl/law/jurisdictions.hpp: jurisdictions::MR", (), require(law::jurisdictions::MR.sovereign.code[0] == 'M' && law::jurisdictions::MR.sovereign.code[1] == 'R');)
OBLIGATION(tender_MR, "esl/law/jurisdictions.hpp: jurisdictions::MR (legal tender)", (), require(law::jurisdictions::MR.tender.code[0] == 'M' && law::jurisdictions::MR.tender.code[1] == 'R' && law::jurisdictions::MR.tender.code[2] == 'U' && law::jurisdictions::MR.tender.denominator == 100);)
OBLIGATION(jurisdiction_MS, "esl/law/jurisdictions.hpp: jurisdictions::MS", (), require(law::jurisdictions::MS.sovereign.code[0] == 'M' && law::jurisdictions::MS.sovereign.code[1] == 'S');)
OBLIGATION(tender_MS, "esl/law/jurisdictions.hpp: jurisdictions::MS (legal tender)", (), require(law::jurisdictions::MS.tender.code[0] == 'X' && law::jurisdictions::MS.tender.code[1] == 'C' && law::jurisdictions::MS.tender.code[2] == 'D' && law::jurisdictions::MS.tender.denominator == 100);)
OBLIGATION(jurisdiction_MT, "esl/law/jurisdictions.hpp: jurisdictions::MT", (), require(law::jurisdictions::MT.sovereign.code[0] == 'M' && law::jurisdictions::MT.sovereign.code[1] == 'T');)
OBLIGATION(tender_MT, "esl/law/jurisdictions.hpp: jurisdictions::MT (legal tender)", (), require(law::jurisdictions::MT.tender.code[0] == 'E' && law::jurisdictions::MT.tender.code[1] == 'U' && law::jurisdictions::MT.tender.code[2] == 'R' && law::jurisdictions::MT.tender.denominator == 100);)
OBLIGATION(jurisdiction_MU, "esl/law/jurisdictions.hpp: jurisdictions::MU", (), require(law::jurisdictions::MU.sovereign.code[0] == 'M' && law::jurisdictions::MU.sovereign.code[1] == 'U');)
OBLIGATION(tender_MU, "esl/law/jurisdictions.hpp: jurisdictions::MU (legal tender)", (), require(law::jurisdictions::MU.tender.code[0] == 'M' && law::jurisdictions::MU.tender.code[1] == 'U' && law::jurisdictions::MU.tender.code[2] == 'R' && law::jurisdictions::MU.tender.denominator == 100);)
OBLIGATION(jurisdiction_MV, "esl/law/jurisdictions.hpp: jurisdictions::MV", (), require(law::jurisdictions::MV.sovereign.code[0] == 'M' && law::jurisdictions::MV.sovereign.code[1] == 'V');)
OBLIGATION(tender_MV, "esl/law/jurisdictions.hpp: jurisdictions::MV (legal tender)", (), require(law::jurisdictions::MV.tender.code[0] == 'M' && law::jurisdictions::MV.tender.code[1] == 'V' && law::jurisdictions::MV.tender.code[2] == 'R' && law::jurisdictions::MV.tender.denominator == 100);)
OBLIGATION(jurisdiction_MW, "esl/law/jurisdictions.hpp: jurisdictions::MW", (), require(law::jurisdictions::MW.sovereign.code[0] == 'M' && law::jurisdictions::MW.sovereign.code[1] == 'W');)
OBLIGATION(tender_MW, "esl/law/jurisdictions.hpp: jurisdictions::MW (legal tender)", (), require(law::jurisdictions::MW.tender.code[0] == 'M' && law::jurisdictions::MW.tender.code[1] == 'W' && law::jurisdictions::MW.tender.code[2] == 'K' && law::jurisdictions::MW.tender.denominator == 100);)
OBLIGATION(jurisdiction_MX, "esl/law/jurisdictions.hpp: jurisdictions::MX", (), require(law::jurisdictions::MX.sovereign.code[0] == 'M' && law::jurisdictions::MX.sovereign.code[1] == 'X');)
OBLIGATION(tender_MX, "esl/law/jurisdictions.hpp: jurisdictions::MX (legal tender)", (), require(law::jurisdictions::MX.tender.code[0] == 'M' && law::jurisdictions::MX.tender.code[1] == 'X' && law::jurisdictions::MX.tender.code[2] == 'N' && law::jurisdictions::MX.tender.denominator == 100);)
OBLIGATION(jurisdiction_MY, "esl/law/jurisdictions.hpp: jurisdictions::MY", (), require(law::jurisdictions::MY.sovereign.code[0] == 'M' && law::jurisdictions::MY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_MY, "esl/law/jurisdictions.hpp: jurisdictions::MY (legal tender)", (), require(law::jurisdictions::MY.tender.code[0] == 'M' && law::jurisdictions::MY.tender.code[1] == 'Y' && law::jurisdictions::MY.tender.code[2] == 'R' && law::jurisdictions::MY.tender.denominator == 100);)
OBLIGATION(jurisdiction_MZ, "esl/law/jurisdictions.hpp: jurisdictions::MZ", (), require(law::jurisdictions::MZ.sovereign.code[0] == 'M' && law::jurisdictions::MZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_MZ, "esl/law/jurisdictions.hpp: jurisdictions::MZ (legal tender)", (), require(law::jurisdictions::MZ.tender.code[0] == 'M' && law::jurisdictions::MZ.tender.code[1] == 'Z' && law::jurisdictions::MZ.tender.code[2] == 'N' && law::jurisdictions::MZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_NA, "esl/law/jurisdictions.hpp: jurisdictions::NA", (), require(law::jurisdictions::NA.sovereign.code[0] == 'N' && law::jurisdictions::NA.sovereign.code[1] == 'A');)
OBLIGATION(tender_NA, "esl/law/jurisdictions.hpp: jurisdictions::NA (legal tender)", (), require(law::jurisdictions::NA.tender.code[0] == 'N' && law::jurisdictions::NA.tender.code[1] == 'A' && law::jurisdictions::NA.tender.code[2] == 'D' && law::jurisdictions::NA.tender.denominator == 100);)
OBLIGATION(jurisdiction_NC, "esl/law/jurisdictions.hpp: jurisdictions::NC", (), require(law::jurisdictions::NC.sovereign.code[0] == 'N' && law::jurisdictions::NC.sovereign.code[1] == 'C');)
OBLIGATION(tender_NC, "esl/law/jurisdictions.hpp: jurisdictions::NC (legal tender)", (), require(law::jurisdictions::NC.tender.code[0] == 'X' && law::jurisdictions::NC.tender.code[1] == 'P' && law::jurisdictions::NC.tender.code[2] == 'F' && law::jurisdictions::NC.tender.denominator == 1);)
OBLIGATION(jurisdiction_NE, "esl/law/jurisdictions.hpp: jurisdictions::NE", (), require(law::jurisdictions::NE.sovereign.code[0] == 'N' && law::jurisdictions::NE.sovereign.code[1] == 'E');)
OBLIGATION(tender_NE, "esl/law/jurisdictions.hpp: jurisdictions::NE (legal tender)", (), require(law::jurisdictions::NE.tender.code[0] == 'X' && law::jurisdictions::NE.tender.code[1] == 'O' && law::jurisdictions::NE.tender.code[2] == 'F' && law::jurisdictions::NE.tender.denominator == 1);)
OBLIGATION(jurisdiction_NF, "esl/law/jurisdictions.hpp: jurisdictions::NF", (), require(law::jurisdictions::NF.sovereign.code[0] == 'N' && law::jurisdictions::NF.sovereign.code[1] == 'F');)
OBLIGATION(tender_NF, "esl/law/jurisdictions.hpp: jurisdictions::NF (legal tender)", (), require(law::jurisdictions::NF.tender.code[0] == 'A' && law::jurisdictions::NF.tender.code[1] == 'U' && law::jurisdictions::NF.tender.code[2] == 'D' && law::jurisdictions::NF.tender.denominator == 100);)
OBLIGATION(jurisdiction_NG, "esl/law/jurisdictions.hpp: jurisdictions::NG", (), require(law::jurisdictions::NG.sovereign.code[0] == 'N' && law::jurisdictions::NG.sovereign.code[1] == 'G');)
OBLIGATION(tender_NG, "esl/law/jurisdictions.hpp: jurisdictions::NG (legal tender)", (), require(law::jurisdictions::NG.tender.code[0] == 'N' && law::jurisdictions::NG.tender.code[1] == 'G' && law::jurisdictions::NG.tender.code[2] == 'N' && law::jurisdictions::NG.tender.denominator == 100);)
OBLIGATION(jurisdiction_NI, "esl/law/jurisdictions.hpp: jurisdictions::NI", (), require(law::jurisdictions::NI.sovereign.code[0] == 'N' && law::jurisdictions::NI.sovereign.code[1] == 'I');)
OBLIGATION(tender_NI, "esl/law/jurisdictions.hpp: jurisdictions::NI (legal tender)", (), require(law::jurisdictions::NI.tender.code[0] == 'N' && law::jurisdictions::NI.tender.code[1] == 'I' && law::jurisdictions::NI.tender.code[2] == 'O' && law::jurisdictions::NI.tender.denominator == 100);)
OBLIGATION(jurisdiction_NL, "esl/law/jurisdictions.hpp: jurisdictions::NL", (), require(law::jurisdictions::NL.sovereign.code[0] == 'N' && law::jurisdictions::NL.sovereign.code[1] == 'L');)
OBLIGATION(tender_NL, "esl/law/jurisdictions.hpp: jurisdictions::NL (legal tender)", (), require(law::jurisdictions::NL.tender.code[0] == 'E' && law::jurisdictions::NL.tender.code[1] == 'U' && law::jurisdictions::NL.tender.code[2] == 'R' && law::jurisdictions::NL.tender.denominator == 100);)
OBLIGATION(jurisdiction_NO, "esl/law/jurisdictions.hpp: jurisdictions::NO", (), require(law::jurisdictions::NO.sovereign.code[0] == 'N' && law::jurisdictions::NO.sovereign.code[1] == 'O');)
OBLIGATION(tender_NO, "esl/law/jurisdictions.hpp: jurisdictions::NO (legal tender)", (), require(law::jurisdictions::NO.tender.code[0] == 'N' && law::jurisdictions::NO.tender.code[1] == 'O' && law::jurisdictions::NO.tender.code[2] == 'K' && law::jurisdictions::NO.tender.denominator == 100);)
OBLIGATION(jurisdiction_NP, "esl/law/jurisdictions.hpp: jurisdictions::NP", (), require(law::jurisdictions::NP.sovereign.code[0] == 'N' && law::jurisdictions::NP.sovereign.code[1] == 'P');)
OBLIGATION(tender_NP, "esl/law/jurisdictions.hpp: jurisdictions::NP (legal tender)", (), require(law::jurisdictions::NP.tender.code[0] == 'N' && law::jurisdictions::NP.tender.code[1] == 'P' && law::jurisdictions::NP.tender.code[2] == 'R' && law::jurisdictions::NP.tender.denominator == 100);)
OBLIGATION(jurisdiction_NR, "esl/law/jurisdictions.hpp: jurisdictions::NR", (), require(law::jurisdictions::NR.sovereign.code[0] == 'N' && law::jurisdictions::NR.sovereign.code[1] == 'R');)
OBLIGATION(tender_NR, "esl/law/jurisdictions.hpp: jurisdictions::NR (legal tender)", (), require(law::jurisdictions::NR.tender.code[0] == 'A' && law::jurisdictions::NR.tender.code[1] == 'U' && law::jurisdictions::NR.tender.code[2] == 'D' && law::jurisdictions::NR.tender.denominator == 100);)
OBLIGATION(jurisdiction_NU, "esl/law/jurisdictions.hpp: jurisdictions::NU", (), require(law::jurisdictions::NU.sovereign.code[0] == 'N' && law::jurisdictions::NU.sovereign.code[1] == 'U');)
OBLIGATION(tender_NU, "esl/law/jurisdictions.hpp: jurisdictions::NU (legal tender)", (), require(law::jurisdictions::NU.tender.code[0] == 'N' && law::jurisdictions::NU.tender.code[1] == 'Z' && law::jurisdictions::NU.tender.code[2] == 'D' && law::jurisdictions::NU.tender.denominator == 100);)
OBLIGATION(jurisdiction_NZ, "esl/law/jurisdictions.hpp: jurisdictions::NZ", (), require(law::jurisdictions::NZ.sovereign.code[0] == 'N' && law::jurisdictions::NZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_NZ, "esl/law/jurisdictions.hpp: jurisdictions::NZ (legal tender)", (), require(law::jurisdictions::NZ.tender.code[0] == 'N' && law::jurisdictions::NZ.tender.code[1] == 'Z' && law::jurisdictions::NZ.tender.code[2] == 'D' && law::jurisdictions::NZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_OM, "esl/law/jurisdictions.hpp: jurisdictions::OM", (), require(law::jurisdictions::OM.sovereign.code[0] == 'O' && law::jurisdictions::OM.sovereign.code[1] == 'M');)
OBLIGATION(tender_OM, "esl/law/jurisdictions.hpp: jurisdictions::OM (legal tender)", (), require(law::jurisdictions::OM.tender.code[0] == 'O' && law::jurisdictions::OM.tender.code[1] == 'M' && law::jurisdictions::OM.tender.code[2] == 'R' && law::jurisdictions::OM.tender.denominator == 1000);)
OBLIGATION(jurisdiction_PA, "esl/law/jurisdictions.hpp: jurisdictions::PA", (), require(law::jurisdictions::PA.sovereign.code[0] == 'P' && law::jurisdictions::PA.sovereign.code[1] == 'A');)
OBLIGATION(tender_PA, "esl/law/jurisdictions.hpp: jurisdictions::PA (legal tender)", (), require(law::jurisdictions::PA.tender.code[0] == 'P' && law::jurisdictions::PA.tender.code[1] == 'A' && law::jurisdictions::PA.tender.code[2] == 'B' && law::jurisdictions::PA.tender.denominator == 100);)
OBLIGATION(jurisdiction_PE, "esl/law/jurisdictions.hpp: jurisdictions::PE", (), require(law::jurisdictions::PE.sovereign.code[0] == 'P' && law::jurisdictions::PE.sovereign.code[1] == 'E');)
OBLIGATION(tender_PE, "esl/law/jurisdictions.hpp: jurisdictions::PE (legal tender)", (), require(law::jurisdictions::PE.tender.code[0] == 'P' && law::jurisdictions::PE.tender.code[1] == 'E' && law::jurisdictions::PE.tender.code[2] == 'N' && law::jurisdictions::PE.tender.denominator == 100);)
OBLIGATION(jurisdiction_PF, "esl/law/jurisdictions.hpp: jurisdictions::PF", (), require(law::jurisdictions::PF.sovereign.code[0] == 'P' && law::jurisdictions::PF.sovereign.code[1] == 'F');)
OBLIGATION(tender_PF, "esl/law/jurisdictions.hpp: jurisdictions::PF (legal tender)", (), require(law::jurisdictions::PF.tender.code[0] == 'X' && law::jurisdictions::PF.tender.code[1] == 'P' && law::jurisdictions::PF.tender.code[2] == 'F' && law::jurisdictions::PF.tender.denominator == 1);)
OBLIGATION(jurisdiction_PG, "esl/law/jurisdictions.hpp: jurisdictions::PG", (), require(law::jurisdictions::PG.sovereign.code[0] == 'P' && law::jurisdictions::PG.sovereign.code[1] == 'G');)
OBLIGATION(tender_PG, "esl/law/jurisdictions.hpp: jurisdictions::PG (legal tender)", (), require(law::jurisdictions::PG.tender.code[0] == 'P' && law::jurisdictions::PG.tender.code[1] == 'G' && law::jurisdictions::PG.tender.code[2] == 'K' && law::jurisdictions::PG.tender.denominator == 100);)
OBLIGATION(jurisdiction_PH, "esl/law/jurisdictions.hpp: jurisdictions::PH", (), require(law::jurisdictions::PH.sovereign.code[0] == 'P' && law::jurisdictions::PH.sovereign.code[1] == 'H');)
OBLIGATION(tender_PH, "esl/law/jurisdictions.hpp: jurisdictions::PH (legal tender)", (), require(law::jurisdictions::PH.tender.code[0] == 'P' && law::jurisdictions::PH.tender.code[1] == 'H' && law::jurisdictions::PH.tender.code[2] == 'P' && law::jurisdictions::PH.tender.denominator == 100);)
OBLIGATION(jurisdiction_PK, "esl/law/jurisdictions.hpp: jurisdictions::PK", (), require(law::jurisdictions::PK.sovereign.code[0] == 'P' && law::jurisdictions::PK.sovereign.code[1] == 'K');)
OBLIGATION(tender_PK, "esl/law/jurisdictions.hpp: jurisdictions::PK (legal tender)", (), require(law::jurisdictions::PK.tender.code[0] == 'P' && law::jurisdictions::PK.tender.code[1] == 'K' && law::jurisdictions::PK.tender.code[2] == 'R' && law::jurisdictions::PK.tender.denominator == 100);)
OBLIGATION(jurisdiction_PL, "esl/law/jurisdictions.hpp: jurisdictions::PL", (), require(law::jurisdictions::PL.sovereign.code[0] == 'P' && law::jurisdictions::PL.sovereign.code[1] == 'L');)
OBLIGATION(tender_PL, "esl/law/jurisdictions.hpp: jurisdictions::PL (legal tender)", (), require(law::jurisdictions::PL.tender.code[0] == 'P' && law::jurisdictions::PL.tender.code[1] == 'L' && law::jurisdictions::PL.tender.code[2] == 'N' && law::jurisdictions::PL.tender.denominator == 100);)
OBLIGATION(jurisdiction_PM, "esl/law/jurisdictions.hpp: jurisdictions::PM", (), require(law::jurisdictions::PM.sovereign.code[0] == 'P' && law::jurisdictions::PM.sovereign.code[1] == 'M');)
OBLIGATION(tender_PM, "esl/law/jurisdictions.hpp: jurisdictions::PM (legal tender)", (), require(law::jurisdictions::PM.tender.code[0] == 'E' && law::jurisdictions::PM.tender.code[1] == 'U' && law::jurisdictions::PM.tender.code[2] == 'R' && law::jurisdictions::PM.tender.denominator == 100);)
OBLIGATION(jurisdiction_PN, "esl/law/jurisdictions.hpp: jurisdictions::PN", (), require(law::jurisdictions::PN.sovereign.code[0] == 'P' && law::jurisdictions::PN.sovereign.code[1] == 'N');)
OBLIGATION(tender_PN, "esl/law/jurisdictions.hpp: jurisdictions::PN (legal tender)", (), require(law::jurisdictions::PN.tender.code[0] == 'N' && law::jurisdictions::PN.tender.code[1] == 'Z' && law::jurisdictions::PN.tender.code[2] == 'D' && law::jurisdictions::PN.tender.denominator == 100);)
OBLIGATION(jurisdiction_PR, "esl/law/jurisdictions.hpp: jurisdictions::PR", (), require(law::jurisdictions::PR.sovereign.code[0] == 'P' && law::jurisdictions::PR.sovereign.code[1] == 'R');)
OBLIGATION(tender_PR, "esl/law/jurisdictions.hpp: jurisdictions::PR (legal tender)", (), require(law::jurisdictions::PR.tender.code[0] == 'U' && law::jurisdictions::PR.tender.code[1] == 'S' && law::jurisdictions::PR.tender.code[2] == 'D' && law::jurisdictions::PR.tender.denominator == 100);)
OBLIGATION(jurisdiction_PT, "esl/law/jurisdictions.hpp: jurisdictions::PT", (), require(law::jurisdictions::PT.sovereign.code[0] == 'P' && law::jurisdictions::PT.sovereign.code[1] == 'T');)
OBLIGATION(tender_PT, "esl/law/jurisdictions.hpp: jurisdictions::PT (legal tender)", (), require(law::jurisdictions::PT.tender.code[0] == 'E' && law::jurisdictions::PT.tender.code[1] == 'U' && law::jurisdictions::PT.tender.code[2] == 'R' && law::jurisdictions::PT.tender.denominator == 100);)
OBLIGATION(jurisdiction_PW, "esl/law/jurisdictions.hpp: jurisdictions::PW", (), require(law::jurisdictions::PW.sovereign.code[0] == 'P' && law::jurisdictions::PW.sovereign.code[1] == 'W');)
OBLIGATION(tender_PW, "esl/law/jurisdictions.hpp: jurisdictions::PW (legal tender)", (), require(law::jurisdictions::PW.tender.code[0] == 'U' && law::jurisdictions::PW.tender.code[1] == 'S' && law::jurisdictions::PW.tender.code[2] == 'D' && law::jurisdictions::PW.tender.denominator == 100);)
OBLIGATION(jurisdiction_PY, "esl/law/jurisdictions.hpp: jurisdictions::PY", (), require(law::jurisdictions::PY.sovereign.code[0] == 'P' && law::jurisdictions::PY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_PY, "esl/law/jurisdictions.hpp: jurisdictions::PY (legal tender)", (), require(law::jurisdictions::PY.tender.code[0] == 'P' && law::jurisdictions::PY.tender.code[1] == 'Y' && law::jurisdictions::PY.tender.code[2] == 'G' && law::jurisdictions::PY.tender.denominator == 1);)
OBLIGATION(jurisdiction_QA, "esl/law/jurisdictions.hpp: jurisdictions::QA", (), require(law::jurisdictions::QA.sovereign.code[0] == 'Q' && law::jurisdictions::QA.sovereign.code[1] == 'A');)
OBLIGATION(tender_QA, "esl/law/jurisdictions.hpp: jurisdictions::QA (legal tender)", (), require(law::jurisdictions::QA.tender.code[0] == 'Q' && law::jurisdictions::QA.tender.code[1] == 'A' && law::jurisdictions::QA.tender.code[2] == 'R' && law::jurisdictions::QA.tender.denominator == 100);)
OBLIGATION(jurisdiction_RE, "esl/law/jurisdictions.hpp: jurisdictions::RE", (), require(law::jurisdictions::RE.sovereign.code[0] == 'R' && law::jurisdictions::RE.sovereign.code[1] == 'E');)
OBLIGATION(tender_RE, "esl/law/jurisdictions.hpp: jurisdictions::RE (legal tender)", (), require(law::jurisdictions::RE.tender.code[0] == 'E' && law::jurisdictions::RE.tender.code[1] == 'U' && law::jurisdictions::RE.tender.code[2] == 'R' && law::jurisdictions::RE.tender.denominator == 100);)
OBLIGATION(jurisdiction_RO, "esl/law/jurisdictions.hpp: jurisdictions::RO", (), require(law::jurisdictions::RO.sovereign.code[0] == 'R' && law::jurisdictions::RO.sovereign.code[1] == 'O');)
OBLIGATION(tender_RO, "esl/law/jurisdictions.hpp: jurisdictions::RO (legal tender)", (), require(law::jurisdictions::RO.tender.code[0] == 'R' && law::jurisdictions::RO.tender.code[1] == 'O' && law::jurisdictions::RO.tender.code[2] == 'N' && law::jurisdictions::RO.tender.denominator == 100);)
OBLIGATION(jurisdiction_RS, "esl/law/jurisdictions.hpp: jurisdictions::RS", (), require(law::jurisdictions::RS.sovereign.code[0] == 'R' && law::jurisdictions::RS.sovereign.code[1] == 'S');)
OBLIGATION(tender_RS, "esl/law/jurisdictions.hpp: jurisdictions::RS (legal tender)", (), require(law::jurisdictions::RS.tender.code[0] == 'R' && law::jurisdictions::RS.tender.code[1] == 'S' && law::jurisdictions::RS.tender.code[2] == 'D' && law::jurisdictions::RS.tender.denominator == 100);)
OBLIGATION(jurisdiction_RU, "esl/law/jurisdictions.hpp: jurisdictions::RU", (), require(law::jurisdictions::RU.sovereign.code[0] == 'R' && law::jurisdictions::RU.sovereign.code[1] == 'U');)
OBLIGATION(tender_RU, "esl/law/jurisdictions.hpp: jurisdictions::RU (legal tender)", (), require(law::jurisdictions::RU.tender.code[0] == 'R' && law::jurisdictions::RU.tender.code[1] == 'U' && law::jurisdictions::RU.tender.code[2] == 'B' && law::jurisdictions::RU.tender.denominator == 100);)
OBLIGATION(jurisdiction_RW, "esl/law/jurisdictions.hpp: jurisdictions::RW", (), require(law::jurisdictions::RW.sovereign.code[0] == 'R' && law::jurisdictions::RW.sovereign.code[1] == 'W');)
OBLIGATION(tender_RW, "esl/law/jurisdictions.hpp: jurisdictions::RW (legal tender)", (), require(law::jurisdictions::RW.tender.code[0] == 'R' && law::jurisdictions::RW.tender.code[1] == 'W' && law::jurisdictions::RW.tender.code[2] == 'F' && law::jurisdictions::RW.tender.denominator == 1);)
OBLIGATION(jurisdiction_SA, "esl/law/jurisdictions.hpp: jurisdictions::SA", (), require(law::jurisdictions::SA.sovereign.code[0] == 'S' && law::jurisdictions::SA.sovereign.code[1] == 'A');)
OBLIGATION(tender_SA, "esl/law/jurisdictions.hpp: jurisdictions::SA (legal tender)", (), require(law::jurisdictions::SA.tender.code[0] == 'S' && law::jurisdictions::SA.tender.code[1] == 'A' && law::jurisdictions::SA.tender.code[2] == 'R' && law::jurisdictions::SA.tender.denominator == 100);)
OBLIGATION(jurisdiction_SB, "esl/law/jurisdictions.hpp: jurisdictions::SB", (), require(law::jurisdictions::SB.sovereign.code[0] == 'S' && law::jurisdictions::SB.sovereign.code[1] == 'B');)
OBLIGATION(tender_SB, "esl/law/jurisdictions.hpp: jurisdictions::SB (legal tender)", (), require(law::jurisdictions::SB.tender.code[0] == 'S' && law::jurisdictions::SB.tender.code[1] == 'B' && law::jurisdictions::SB.tender.code[2] == 'D' && law::jurisdictions::SB.tender.denominator == 100);)
OBLIGATION(jurisdiction_SC, "esl/law/jurisdictions.hpp: jurisdictions::SC", (), require(law::jurisdictions::SC.sovereign.code[0] == 'S' && law::jurisdictions::SC.sovereign.code[1] == 'C');)
OBLIGATION(tender_SC, "esl/law/jurisdictions.hpp: jurisdictions::SC (legal tender)", (), require(law::jurisdictions::SC.tender.code[0] == 'S' && law::jurisdictions::SC.tender.code[1] == 'C' && law::jurisdictions::SC.tender.code[2] == 'R' && law::jurisdictions::SC.tender.denominator == 100);)
OBLIGATION(jurisdiction_SD, "esl/law/jurisdictions.hpp: jurisdictions::SD", (), require(law::jurisdictions::SD.sovereign.code[0] == 'S' && law::jurisdictions::SD.sovereign.code[1] == 'D');)
OBLIGATION(tender_SD, "esl/law/jurisdictions.hpp: jurisdictions::SD (legal tender)", (), require(law::jurisdictions::SD.tender.code[0] == 'S' && law::jurisdictions::SD.tender.code[1] == 'D' && law::jurisdictions::SD.tender.code[2] == 'G' && law::jurisdictions::SD.tender.denominator == 100);)
OBLIGATION(jurisdiction_SE, "esl/law/jurisdictions.hpp: jurisdictions::SE", (), require(law::jurisdictions::SE.sovereign.code[0] == 'S' && law::jurisdictions::SE.sovereign.code[1] == 'E');)
OBLIGATION(tender_SE, "esl/law/jurisdictions.hpp: jurisdictions::SE (legal tender)", (), require(law::jurisdictions::SE.tender.code[0] == 'S' && law::jurisdictions::SE.tender.code[1] == 'E' && law::jurisdictions::SE.tender.code[2] == 'K' && law::jurisdictions::SE.tender.denominator == 100);)
OBLIGATION(jurisdiction_SG, "esl/law/jurisdictions.hpp: jurisdictions::SG", (), require(law::jurisdictions::SG.sovereign.code[0] == 'S' && law::jurisdictions::SG.sovereign.code[1] == 'G');)
OBLIGATION(tender_SG, "esl/law/jurisdictions.hpp: jurisdictions::SG (legal tender)", (), require(law::jurisdictions::SG.tender.code[0] == 'S' && law::jurisdictions::SG.tender.code[1] == 'G' && law::jurisdictions::SG.tender.code[2] == 'D' && law::jurisdictions::SG.tender.denominator == 100);)
OBLIGATION(jurisdiction_SH, "esl/law/jurisdictions.hpp: jurisdictions::SH", (), require(law::jurisdictions::SH.sovereign.code[0] == 'S' && law::jurisdictions::SH.sovereign.code[1] == 'H');)
OBLIGATION(tender_SH, "esl/law/jurisdictions.hpp: jurisdictions::SH (legal tender)", (), require(law::jurisdictions::SH.tender.code[0] == 'S' && law::jurisdictions::SH.tender.code[1] == 'H' && law::jurisdictions::SH.tender.code[2] == 'P' && law::jurisdictions::SH.tender.denominator == 100);)
OBLIGATION(jurisdiction_SI, "esl/law/jurisdictions.hpp: jurisdictions::SI", (), require(law::jurisdictions::SI.sovereign.code[0] == 'S' && law::jurisdictions::SI.sovereign.code[1] == 'I');)
OBLIGATION(tender_SI, "esl/law/jurisdictions.hpp: jurisdictions::SI (legal tender)", (), require(law::jurisdictions::SI.tender.code[0] == 'E' && law::jurisdictions::SI.tender.code[1] == 'U' && law::jurisdictions::SI.tender.code[2] == 'R' && law::jurisdictions::SI.tender.denominator == 100);)
OBLIGATION(jurisdiction_SJ, "esl/law/jurisdictions.hpp: jurisdictions::SJ", (), require(law::jurisdictions::SJ.sovereign.code[0] == 'S' && law::jurisdictions::SJ.sovereign.code[1] == 'J');)
OBLIGATION(tender_SJ, "esl/law/jurisdictions.hpp: jurisdictions::SJ (legal tender)", (), require(law::jurisdictions::SJ.tender.code[0] == 'N' && law::jurisdictions::SJ.tender.code[1] == 'O' && law::jurisdictions::SJ.tender.code[2] == 'K' && law::jurisdictions::SJ.tender.denominator == 100);)
OBLIGATION(jurisdiction_SK, "esl/law/jurisdictions.hpp: jurisdictions::SK", (), require(law::jurisdictions::SK.sovereign.code[0] == 'S' && law::jurisdictions::SK.sovereign.code[1] == 'K');)
OBLIGATION(tender_SK, "esl/law/jurisdictions.hpp: jurisdictions::SK (legal tender)", (), require(law::jurisdictions::SK.tender.code[0] == 'E' && law::jurisdictions::SK.tender.code[1] == 'U' && law::jurisdictions::SK.tender.code[2] == 'R' && law::jurisdictions::SK.tender.denominator == 100);)
OBLIGATION(jurisdiction_SL, "esl/law/jurisdictions.hpp: jurisdictions::SL", (), require(law::jurisdictions::SL.sovereign.code[0] == 'S' && law::jurisdictions::SL.sovereign.code[1] == 'L');)
OBLIGATION(tender_SL, "esl/law/jurisdictions.hpp: jurisdictions::SL (legal tender)", (), require(law::jurisdictions::SL.tender.code[0] == 'S' && law::jurisdictions::SL.tender.code[1] == 'L' && law::jurisdictions::SL.tender.code[2] == 'L' && law::jurisdictions::SL.tender.denominator == 100);)
OBLIGATION(jurisdiction_SM, "esl/law/jurisdictions.hpp: jurisdictions::SM", (), require(law::jurisdictions::SM.sovereign.code[0] == 'S' && law::jurisdictions::SM.sovereign.code[1] == 'M');)
OBLIGATION(tender_SM, "esl/law/jurisdictions.hpp: jurisdictions::SM (legal tender)", (), require(law::jurisdictions::SM.tender.code[0] == 'E' && law::jurisdictions::SM.tender.code[1] == 'U' && law::jurisdictions::SM.tender.code[2] == 'R' && law::jurisdictions::SM.tender.denominator == 100);)
OBLIGATION(jurisdiction_SN, "esl/law/jurisdictions.hpp: jurisdictions::SN", (), require(law::jurisdictions::SN.sovereign.code[0] == 'S' && law::jurisdictions::SN.sovereign.code[1] == 'N');)
OBLIGATION(tender_SN, "esl/law/jurisdictions.hpp: jurisdictions::SN (legal tender)", (), require(law::jurisdictions::SN.tender.code[0] == 'X' && law::jurisdictions::SN.tender.code[1] == 'O' && law::jurisdictions::SN.tender.code[2] == 'F' && law::jurisdictions::SN.tender.denominator == 1);)
OBLIGATION(jurisdiction_SO, "esl/law/jurisdictions.hpp: jurisdictions::SO", (), require(law::jurisdictions::SO.sovereign.code[0] == 'S' && law::jurisdictions::SO.sovereign.code[1] == 'O');)
OBLIGATION(tender_SO, "esl/law/jurisdictions.hpp: jurisdictions::SO (legal tender)", (), require(law::jurisdictions::SO.tender.code[0] == 'S' && law::jurisdictions::SO.tender.code[1] == 'O' && law::jurisdictions::SO.tender.code[2] == 'S' && law::jurisdictions::SO.tender.denominator == 100);)
OBLIGATION(jurisdiction_SR, "esl/law/jurisdictions.hpp: jurisdictions::SR", (), require(law::jurisdictions::SR.sovereign.code[0] == 'S' && law::jurisdictions::SR.sovereign.code[1] == 'R');)
OBLIGATION(tender_SR, "esl/law/jurisdictions.hpp: jurisdictions::SR (legal tender)", (), require(law::jurisdictions::SR.tender.code[0] == 'S' && law::jurisdictions::SR.tender.code[1] == 'R' && law::jurisdictions::SR.tender.code[2] == 'D' && law::jurisdictions::SR.tender.denominator == 100);)
OBLIGATION(jurisdiction_SS, "esl/law/jurisdictions.hpp: jurisdictions::SS", (), require(law::jurisdictions::SS.sovereign.code[0] == 'S' && law::jurisdictions::SS.sovereign.code[1] == 'S');)
OBLIGATION(tender_SS, "esl/law/jurisdictions.hpp: jurisdictions::SS (legal tender)", (), require(law::jurisdictions::SS.tender.code[0] == 'S' && law::jurisdictions::SS.tender.code[1] == 'S' && law::jurisdictions::SS.tender.code[2] == 'P' && law::jurisdictions::SS.tender.denominator == 100);)
OBLIGATION(jurisdiction_ST, "esl/law/jurisdictions.hpp: jurisdictions::ST", (), require(law::jurisdictions::ST.sovereign.code[0] == 'S' && law::jurisdictions::ST.sovereign.code[1] == 'T');)
OBLIGATION(tender_ST, "esl/law/jurisdictions.hpp: jurisdictions::ST (legal tender)", (), require(law::jurisdictions::ST.tender.code[0] == 'S' && law::jurisdictions::ST.tender.code[1] == 'T' && law::jurisdictions::ST.tender.code[2] == 'N' && law::jurisdictions::ST.tender.denominator == 100);)
OBLIGATION(jurisdiction_SV, "esl/law/jurisdictions.hpp: jurisdictions::SV", (), require(law::jurisdictions::SV.sovereign.code[0] == 'S' && law::jurisdictions::SV.sovereign.code[1] == 'V');)
OBLIGATION(tender_SV, "esl/law/jurisdictions.hpp: jurisdictions::SV (legal tender)", (), require(law::jurisdictions::SV.tender.code[0] == 'S' && law::jurisdictions::SV.tender.code[1] == 'V' && law::jurisdictions::SV.tender.code[2] == 'C' && law::jurisdictions::SV.tender.denominator == 100);)
OBLIGATION(jurisdiction_SX, "esl/law/jurisdictions.hpp: jurisdictions::SX", (), require(law::jurisdictions::SX.sovereign.code[0] == 'S' && law::jurisdictions::SX.sovereign.code[1] == 'X');)
OBLIGATION(tender_SX, "esl/law/jurisdictions.hpp: jurisdictions::SX (legal tender)", (), require(law::jurisdictions::SX.tender.code[0] == 'A' && law::jurisdictions::SX.tender.code[1] == 'N' && law::jurisdictions::SX.tender.code[2] == 'G' && law::jurisdictions::SX.tender.denominator == 100);)
OBLIGATION(jurisdiction_SY, "esl/law/jurisdictions.hpp: jurisdictions::SY", (), require(law::jurisdictions::SY.sovereign.code[0] == 'S' && law::jurisdictions::SY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_SY, "esl/law/jurisdictions.hpp: jurisdictions::SY (legal tender)", (), require(law::jurisdictions::SY.tender.code[0] == 'S' && law::jurisdictions::SY.tender.code[1] == 'Y' && law::jurisdictions::SY.tender.code[2] == 'P' && law::jurisdictions::SY.tender.denominator == 100);)
OBLIGATION(jurisdiction_SZ, "esl/law/jurisdictions.hpp: jurisdictions::SZ", (), require(law::jurisdictions::SZ.sovereign.code[0] == 'S' && law::jurisdictions::SZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_SZ, "esl/law/jurisdictions.hpp: jurisdictions::SZ (legal tender)", (), require(law::jurisdictions::SZ.tender.code[0] == 'S' && law::jurisdictions::SZ.tender.code[1] == 'Z' && law::jurisdictions::SZ.tender.code[2] == 'L' && law::jurisdictions::SZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_TC, "esl/law/jurisdictions.hpp: jurisdictions::TC", (), require(law::jurisdictions::TC.sovereign.code[0] == 'T' && law::jurisdictions::TC.sovereign.code[1] == 'C');)
OBLIGATION(tender_TC, "esl/law/jurisdictions.hpp: jurisdictions::TC (legal tender)", (), require(law::jurisdictions::TC.tender.code[0] == 'U' && law::jurisdictions::TC.tender.code[1] == 'S' && law::jurisdictions::TC.tender.code[2] == 'D' && law::jurisdictions::TC.tender.denominator == 100);)
OBLIGATION(jurisdiction_TD, "esl/law/jurisdictions.hpp: jurisdictions::TD", (), require(law::jurisdictions::TD.sovereign.code[0] == 'T' && law::jurisdictions::TD.sovereign.code[1] == 'D');)
OBLIGATION(tender_TD, "esl/law/jurisdictions.hpp: jurisdictions::TD (legal tender)", (), require(law::jurisdictions::TD.tender.code[0] == 'X' && law::jurisdictions::TD.tender.code[1] == 'A' && law::jurisdictions::TD.tender.code[2] == 'F' && law::jurisdictions::TD.tender.denominator == 1);)
OBLIGATION(jurisdiction_TF, "esl/law/jurisdictions.hpp: jurisdictions::TF", (), require(law::jurisdictions::TF.sovereign.code[0] == 'T' && law::jurisdictions::TF.sovereign.code[1] == 'F');)
OBLIGATION(tender_TF, "esl/law/jurisdictions.hpp: jurisdictions::TF (legal tender)", (), require(law::jurisdictions::TF.tender.code[0] == 'E' && law::jurisdictions::TF.tender.code[1] == 'U' && law::jurisdictions::TF.tender.code[2] == 'R' && law::jurisdictions::TF.tender.denominator == 100);)
OBLIGATION(jurisdiction_TG, "esl/law/jurisdictions.hpp: jurisdictions::TG", (), require(law::jurisdictions::TG.sovereign.code[0] == 'T' && law::jurisdictions::TG.sovereign.code[1] == 'G');)
OBLIGATION(tender_TG, "esl/law/jurisdictions.hpp: jurisdictions::TG (legal tender)", (), require(law::jurisdictions::TG.tender.code[0] == 'X' && law::jurisdictions::TG.tender.code[1] == 'O' && law::jurisdictions::TG.tender.code[2] == 'F' && law::jurisdictions::TG.tender.denominator == 1);)
OBLIGATION(jurisdiction_TH, "esl/law/jurisdictions.hpp: jurisdictions::TH", (), require(law::jurisdictions::TH.sovereign.code[0] == 'T' && law::jurisdictions::TH.sovereign.code[1] == 'H');)
OBLIGATION(tender_TH, "esl/law/jurisdictions.hpp: jurisdictions::TH (legal tender)", (), require(law::jurisdictions::TH.tender.code[0] == 'T' && law::jurisdictions::TH.tender.code[1] == 'H' && law::jurisdictions::TH.tender.code[2] == 'B' && law::jurisdictions::TH.tender.denominator == 100);)
OBLIGATION(jurisdiction_TJ, "esl/law/jurisdictions.hpp: jurisdictions::TJ", (), require(law::jurisdictions::TJ.sovereign.code[0] == 'T' && law::jurisdictions::TJ.sovereign.code[1] == 'J');)
OBLIGATION(tender_TJ, "esl/law/jurisdictions.hpp: jurisdictions::TJ (legal tender)", (), require(law::jurisdictions::TJ.tender.code[0] == 'T' && law::jurisdictions::TJ.tender.code[1] == 'J' && law::jurisdictions::TJ.tender.code[2] == 'S' && law::jurisdictions::TJ.tender.denominator == 100);)
OBLIGATION(jurisdiction_TK, "esl/law/jurisdictions.hpp: jurisdictions::TK", (), require(law::jurisdictions::TK.sovereign.code[0] == 'T' && law::jurisdictions::TK.sovereign.code[1] == 'K');)
OBLIGATION(tender_TK, "esl/law/jurisdictions.hpp: jurisdictions::TK (legal tender)", (), require(law::jurisdictions::TK.tender.code[0] == 'N' && law::jurisdictions::TK.tender.code[1] == 'Z' && law::jurisdictions::TK.tender.code[2] == 'D' && law::jurisdictions::TK.tender.denominator == 100);)
OBLIGATION(jurisdiction_TL, "esl/law/jurisdictions.hpp: jurisdictions::TL", (), require(law::jurisdictions::TL.sovereign.code[0] == 'T' && law::jurisdictions::TL.sovereign.code[1] == 'L');)
OBLIGATION(tender_TL, "esl/law/jurisdictions.hpp: jurisdictions::TL (legal tender)", (), require(law::jurisdictions::TL.tender.code[0] == 'U' && law::jurisdictions::TL.tender.code[1] == 'S' && law::jurisdictions::TL.tender.code[2] == 'D' && law::jurisdictions::TL.tender.denominator == 100);)
OBLIGATION(jurisdiction_TM, "esl/law/jurisdictions.hpp: jurisdictions::TM", (), require(law::jurisdictions::TM.sovereign.code[0] == 'T' && law::jurisdictions::TM.sovereign.code[1] == 'M');)
OBLIGATION(tender_TM, "esl/law/jurisdictions.hpp: jurisdictions::TM (legal tender)", (), require(law::jurisdictions::TM.tender.code[0] == 'T' && law::jurisdictions::TM.tender.code[1] == 'M' && law::jurisdictions::TM.tender.code[2] == 'T' && law::jurisdictions::TM.tender.denominator == 100);)
OBLIGATION(jurisdiction_TN, "esl/law/jurisdictions.hpp: jurisdictions::TN", (), require(law::jurisdictions::TN.sovereign.code[0] == 'T' && law::jurisdictions::TN.sovereign.code[1] == 'N');)
OBLIGATION(tender_TN, "esl/law/jurisdictions.hpp: jurisdictions::TN (legal tender)", (), require(law::jurisdictions::TN.tender.code[0] == 'T' && law::jurisdictions::TN.tender.code[1] == 'N' && law::jurisdictions::TN.tender.code[2] == 'D' && law::jurisdictions::TN.tender.denominator == 1000);)
OBLIGATION(jurisdiction_TO, "esl/law/jurisdictions.hpp: jurisdictions::TO", (), require(law::jurisdictions::TO.sovereign.code[0] == 'T' && law::jurisdictions::TO.sovereign.code[1] == 'O');)
OBLIGATION(tender_TO, "esl/law/jurisdictions.hpp: jurisdictions::TO (legal tender)", (), require(law::jurisdictions::TO.tender.code[0] == 'T' && law::jurisdictions::TO.tender.code[1] == 'O' && law::jurisdictions::TO.tender.code[2] == 'P' && law::jurisdictions::TO.tender.denominator == 100);)
OBLIGATION(jurisdiction_TR, "esl/law/jurisdictions.hpp: jurisdictions::TR", (), require(law::jurisdictions::TR.sovereign.code[0] == 'T' && law::jurisdictions::TR.sovereign.code[1] == 'R');)
OBLIGATION(tender_TR, "esl/law/jurisdictions.hpp: jurisdictions::TR (legal tender)", (), require(law::jurisdictions::TR.tender.code[0] == 'T' && law::jurisdictions::TR.tender.code[1] == 'R' && law::jurisdictions::TR.tender.code[2] == 'Y' && law::jurisdictions::TR.tender.denominator == 100);)
OBLIGATION(jurisdiction_TT, "esl/law/jurisdictions.hpp: jurisdictions::TT", (), require(law::jurisdictions::TT.sovereign.code[0] == 'T' && law::jurisdictions::TT.sovereign.code[1] == 'T');)
OBLIGATION(tender_TT, "esl/law/jurisdictions.hpp: jurisdictions::TT (legal tender)", (), require(law::jurisdictions::TT.tender.code[0] == 'T' && law::jurisdictions::TT.tender.code[1] == 'T' && law::jurisdictions::TT.tender.code[2] == 'D' && law::jurisdictions::TT.tender.denominator == 100);)
OBLIGATION(jurisdiction_TV, "esl/law/jurisdictions.hpp: jurisdictions::TV", (), require(law::jurisdictions::TV.sovereign.code[0] == 'T' && law::jurisdictions::TV.sovereign.code[1] == 'V');)
OBLIGATION(tender_TV, "esl/law/jurisdictions.hpp: jurisdictions::TV (legal tender)", (), require(law::jurisdictions::TV.tender.code[0] == 'A' && law::jurisdictions::TV.tender.code[1] == 'U' && law::jurisdictions::TV.tender.code[2] == 'D' && law::jurisdictions::TV.tender.denominator == 100);)
OBLIGATION(jurisdiction_TZ, "esl/law/jurisdictions.hpp: jurisdictions::TZ", (), require(law::jurisdictions::TZ.sovereign.code[0] == 'T' && law::jurisdictions::TZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_TZ, "esl/law/jurisdictions.hpp: jurisdictions::TZ (legal tender)", (), require(law::jurisdictions::TZ.tender.code[0] == 'T' && law::jurisdictions::TZ.tender.code[1] == 'Z' && law::jurisdictions::TZ.tender.code[2] == 'S' && law::jurisdictions::TZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_UA, "esl/law/jurisdictions.hpp: jurisdictions::UA", (), require(law::jurisdictions::UA.sovereign.code[0] == 'U' && law::jurisdictions::UA.sovereign.code[1] == 'A');)
OBLIGATION(tender_UA, "esl/law/jurisdictions.hpp: jurisdictions::UA (legal tender)", (), require(law::jurisdictions::UA.tender.code[0] == 'U' && law::jurisdictions::UA.tender.code[1] == 'A' && law::jurisdictions::UA.tender.code[2] == 'H' && law::jurisdictions::UA.tender.denominator == 100);)
OBLIGATION(jurisdiction_UG, "esl/law/jurisdictions.hpp: jurisdictions::UG", (), require(law::jurisdictions::UG.sovereign.code[0] == 'U' && law::jurisdictions::UG.sovereign.code[1] == 'G');)
OBLIGATION(tender_UG, "esl/law/jurisdictions.hpp: jurisdictions::UG (legal tender)", (), require(law::jurisdictions::UG.tender.code[0] == 'U' && law::jurisdictions::UG.tender.code[1] == 'G' && law::jurisdictions::UG.tender.code[2] == 'X' && law::jurisdictions::UG.tender.denominator == 1);)
OBLIGATION(jurisdiction_UM, "esl/law/jurisdictions.hpp: jurisdictions::UM", (), require(law::jurisdictions::UM.sovereign.code[0] == 'U' && law::jurisdictions::UM.sovereign.code[1] == 'M');)
OBLIGATION(tender_UM, "esl/law/jurisdictions.hpp: jurisdictions::UM (legal tender)", (), require(law::jurisdictions::UM.tender.code[0] == 'U' && law::jurisdictions::UM.tender.code[1] == 'S' && law::jurisdictions::UM.tender.code[2] == 'D' && law::jurisdictions::UM.tender.denominator == 100);)
OBLIGATION(jurisdiction_US, "esl/law/jurisdictions.hpp: jurisdictions::US", (), require(law::jurisdictions::US.sovereign.code[0] == 'U' && law::jurisdictions::US.sovereign.code[1] == 'S');)
OBLIGATION(tender_US, "esl/law/jurisdictions.hpp: jurisdictions::US (legal tender)", (), require(law::jurisdictions::US.tender.code[0] == 'U' && law::jurisdictions::US.tender.code[1] == 'S' && law::jurisdictions::US.tender.code[2] == 'D' && law::jurisdictions::US.tender.denominator == 100);)
OBLIGATION(jurisdiction_UY, "esl/law/jurisdictions.hpp: jurisdictions::UY", (), require(law::jurisdictions::UY.sovereign.code[0] == 'U' && law::jurisdictions::UY.sovereign.code[1] == 'Y');)
OBLIGATION(tender_UY, "esl/law/jurisdictions.hpp: jurisdictions::UY (legal tender)", (), require(law::jurisdictions::UY.tender.code[0] == 'U' && law::jurisdictions::UY.tender.code[1] == 'Y' && law::jurisdictions::UY.tender.code[2] == 'U' && law::jurisdictions::UY.tender.denominator == 100);)
OBLIGATION(jurisdiction_UZ, "esl/law/jurisdictions.hpp: jurisdictions::UZ", (), require(law::jurisdictions::UZ.sovereign.code[0] == 'U' && law::jurisdictions::UZ.sovereign.code[1] == 'Z');)
OBLIGATION(tender_UZ, "esl/law/jurisdictions.hpp: jurisdictions::UZ (legal tender)", (), require(law::jurisdictions::UZ.tender.code[0] == 'U' && law::jurisdictions::UZ.tender.code[1] == 'Z' && law::jurisdictions::UZ.tender.code[2] == 'S' && law::jurisdictions::UZ.tender.denominator == 100);)
OBLIGATION(jurisdiction_VA, "esl/law/jurisdictions.hpp: jurisdictions::VA", (), require(law::jurisdictions::VA.sovereign.code[0] == 'V' && law::jurisdictions::VA.sovereign.code[1] == 'A');)
OBLIGATION(tender_VA, "esl/law/jurisdictions.hpp: jurisdictions::VA (legal tender)", (), require(law::jurisdictions::VA.tender.code[0] == 'E' && law::jurisdictions::VA.tender.code[1] == 'U' && law::jurisdictions::VA.tender.code[2] == 'R' && law::jurisdictions::VA.tender.denominator == 100);)
OBLIGATION(jurisdiction_VC, "esl/law/jurisdictions.hpp: jurisdictions::VC", (), require(law::jurisdictions::VC.sovereign.code[0] == 'V' && law::jurisdictions::VC.sovereign.code[1] == 'C');)
OBLIGATION(tender_VC, "esl/law/jurisdictions.hpp: jurisdictions::VC (legal tender)", (), require(law::jurisdictions::VC.tender.code[0] == 'X' && law::jurisdictions::VC.tender.code[1] == 'C' && law::jurisdictions::VC.tender.code[2] == 'D' && law::jurisdictions::VC.tender.denominator == 100);)
OBLIGATION(jurisdiction_VE, "esl/law/jurisdictions.hpp: jurisdictions::VE", (), require(law::jurisdictions::VE.sovereign.code[0] == 'V' && law::jurisdictions::VE.sovereign.code[1] == 'E');)
OBLIGATION(tender_VE, "esl/law/jurisdictions.hpp: jurisdictions::VE (legal tender)", (), require(law::jurisdictions::VE.tender.code[0] == 'V' && law::jurisdictions::VE.tender.code[1] == 'E' && law::jurisdictions::VE.tender.code[2] == 'F' && law::jurisdictions::VE.tender.denominator == 100);)
OBLIGATION(jurisdiction_VG, "esl/law/jurisdictions.hpp: jurisdictions::VG", (), require(law::jurisdictions::VG.sovereign.code[0] == 'V' && law::jurisdictions::VG.sovereign.code[1] == 'G');)
OBLIGATION(tender_VG, "esl/law/jurisdictions.hpp: jurisdictions::VG (legal tender)", (), require(law::jurisdictions::VG.tender.code[0] == 'U' && law::jurisdictions::VG.tender.code[1] == 'S' && law::jurisdictions::VG.tender.code[2] == 'D' && law::jurisdictions::VG.tender.denominator == 100);)
OBLIGATION(jurisdiction_VI, "esl/law/jurisdictions.hpp: jurisdictions::VI", (), require(law::jurisdictions::VI.sovereign.code[0] == 'V' && law::jurisdictions::VI.sovereign.code[1] == 'I');)
OBLIGATION(tender_VI, "esl/law/jurisdictions.hpp: jurisdictions::VI (legal tender)", (), require(law::jurisdictions::VI.tender.code[0] == 'U' && law::jurisdictions::VI.tender.code[1] == 'S' && law::jurisdictions::VI.tender.code[2] == 'D' && law::jurisdictions::VI.tender.denominator == 100);)
OBLIGATION(jurisdiction_VN, "esl/law/jurisdictions.hpp: jurisdictions::VN", (), require(law::jurisdictions::VN.sovereign.code[0] == 'V' && law::jurisdictions::VN.sovereign.code[1] == 'N');)
OBLIGATION(tender_VN, "esl/law/jurisdictions.hpp: jurisdictions::VN (legal tender)", (), require(law::jurisdictions::VN.tender.code[0] == 'V' && law::jurisdictions::VN.tender.code[1] == 'N' && law::jurisdictions::VN.tender.code[2] == 'D' && law::jurisdictions::VN.tender.denominator == 1);)
OBLIGATION(jurisdiction_VU, "esl/law/jurisdictions.hpp: jurisdictions::VU", (), require(law::jurisdictions::VU.sovereign.code[0] == 'V' && law::jurisdictions::VU.sovereign.code[1] == 'U');)
OBLIGATION(tender_VU, "esl/law/jurisdictions.hpp: jurisdictions::VU (legal tender)", (), require(law::jurisdictions::VU.tender.code[0] == 'V' && law::jurisdictions::VU.tender.code[1] == 'U' && law::jurisdictions::VU.tender.code[2] == 'V' && law::jurisdictions::VU.tender.denominator == 1);)
OBLIGATION(jurisdiction_WF, "esl/law/jurisdictions.hpp: jurisdictions::WF", (), require(law::jurisdictions::WF.sovereign.code[0] == 'W' && law::jurisdictions::WF.sovereign.code[1] == 'F');)
OBLIGATION(tender_WF, "esl/law/jurisdictions.hpp: jurisdictions::WF (legal tender)", (), require(law::jurisdictions::WF.tender.code[0] == 'X' && law::jurisdictions::WF.tender.code[1] == 'P' && law::jurisdictions::WF.tender.code[2] == 'F' && law::jurisdictions::WF.tender.denominator == 1);)
OBLIGATION(jurisdiction_WS, "esl/law/jurisdictions.hpp: jurisdictions::WS", (), require(law::jurisdictions::WS.sovereign.code[0] == 'W' && law::jurisdictions::WS.sovereign.code[1] == 'S');)
OBLIGATION(tender_WS, "esl/law/jurisdictions.hpp: jurisdictions::WS (legal tender)", (), require(law::jurisdictions::WS.tender.code[0] == 'W' && law::jurisdictions::WS.tender.code[1] == 'S' && law::jurisdictions::WS.tender.code[2] == 'T' && law::jurisdictions::WS.tender.denominator == 100);)
OBLIGATION(jurisdiction_YE, "esl/law/jurisdictions.hpp: jurisdictions::YE", (), require(law::jurisdictions::YE.sovereign.code[0] == 'Y' && law::jurisdictions::YE.sovereign.code[1] == 'E');)
OBLIGATION(tender_YE, "esl/law/jurisdictions.hpp: jurisdictions::YE (legal tender)", (), require(law::jurisdictions::YE.tender.code[0] == 'Y' && law::jurisdictions::YE.tender.code[1] == 'E' && law::jurisdictions::YE.tender.code[2] == 'R' && law::jurisdictions::YE.tender.denominator == 100);)
OBLIGATION(jurisdiction_YT, "esl/law/jurisdictions.hpp: jurisdictions::YT", (), require(law::jurisdictions::YT.sovereign.code[0] == 'Y' && law::jurisdictions::YT.sovereign.code[1] == 'T');)
OBLIGATION(tender_YT, "esl/law/jurisdictions.hpp: jurisdictions::YT (legal tender)", (), require(law::jurisdictions::YT.tender.code[0] == 'E' && law::jurisdictions::YT.tender.code[1] == 'U' && law::jurisdictions::YT.tender.code[2] == 'R' && law::jurisdictions::YT.tender.denominator == 100);)
OBLIGATION(jurisdiction_ZA, "esl/law/jurisdictions.hpp: jurisdictions::ZA", (), require(law::jurisdictions::ZA.sovereign.code[0] == 'Z' && law::jurisdictions::ZA.sovereign.code[1] == 'A');)
OBLIGATION(tender_ZA, "esl/law/jurisdictions.hpp: jurisdictions::ZA (legal tender)", (), require(law::jurisdictions::ZA.tender.code[0] == 'Z' && law::jurisdictions::ZA.tender.code[1] == 'A' && law::jurisdictions::ZA.tender.code[2] == 'R' && law::jurisdictions::ZA.tender.denominator == 100);)
OBLIGATION(jurisdiction_ZM, "esl/law/jurisdictions.hpp: jurisdictions::ZM", (), require(law::jurisdictions::ZM.sovereign.code[0] == 'Z' && law::jurisdictions::ZM.sovereign.code[1] == 'M');)
OBLIGATION(tender_ZM, "esl/law/jurisdictions.hpp: jurisdictions::ZM (legal tender)", (), require(law::jurisdictions::ZM.tender.code[0] == 'Z' && law::jurisdictions::ZM.tender.code[1] == 'M' && law::jurisdictions::ZM.tender.code[2] == 'W' && law::jurisdictions::ZM.tender.denominator == 100);)
OBLIGATION(jurisdiction_ZW, "esl/law/jurisdictions.hpp: jurisdictions::ZW", (), require(law::jurisdictions::ZW.sovereign.code[0] == 'Z' && law::jurisdictions::ZW.sovereign.code[1] == 'W');)
OBLIGATION(tender_ZW, "esl/law/jurisdictions.hpp: jurisdictions::ZW (legal tender)", (), require(law::jurisdictions::ZW.tender.code[0] == 'Z' && law::jurisdictions::ZW.tender.code[1] == 'W' && law::jurisdictions::ZW.tender.code[2] == 'L' && law::jurisdictions::ZW.tender.denominator == 100);)
