#include "witness.hpp"
#include <esl/economics/finance/isin.hpp>
#include <esl/economics/finance/cusip.hpp>
#include <esl/economics/finance/sedol.hpp>
#define COMMA ,
using namespace esl::economics::finance;
struct cusip_ : cusip { using cusip::value; };
struct sedol_ : sedol { using sedol::value; };
struct isin_  : isin { using isin::value; };
#define CU "esl/economics/finance/cusip.hpp: cusip::"
#define SE "esl/economics/finance/sedol.hpp: sedol::"
#define IS "esl/economics/finance/isin.hpp: isin::"

// the value of every symbol
#define VALUES(n, t, type) OBLIGATION(value_digit_##n, t "value", (), require(type::value('0') == 0); require(type::value('1') == 1); require(type::value('2') == 2); require(type::value('3') == 3); require(type::value('4') == 4); require(type::value('5') == 5); require(type::value('6') == 6); require(type::value('7') == 7); require(type::value('8') == 8); require(type::value('9') == 9); ) \
    OBLIGATION(value_upper_##n, t "value", (), require(type::value('A') == 10); require(type::value('B') == 11); require(type::value('C') == 12); require(type::value('D') == 13); require(type::value('E') == 14); require(type::value('F') == 15); require(type::value('G') == 16); require(type::value('H') == 17); require(type::value('I') == 18); require(type::value('J') == 19); require(type::value('K') == 20); require(type::value('L') == 21); require(type::value('M') == 22); require(type::value('N') == 23); require(type::value('O') == 24); require(type::value('P') == 25); require(type::value('Q') == 26); require(type::value('R') == 27); require(type::value('S') == 28); require(type::value('T') == 29); require(type::value('U') == 30); require(type::value('V') == 31); require(type::value('W') == 32); require(type::value('X') == 33); require(type::value('Y') == 34); require(type::value('Z') == 35); ) \
    OBLIGATION(value_lower_##n, t "value", (), require(type::value('a') == 10); require(type::value('b') == 11); require(type::value('c') == 12); require(type::value('d') == 13); require(type::value('e') == 14); require(type::value('f') == 15); require(type::value('g') == 16); require(type::value('h') == 17); require(type::value('i') == 18); require(type::value('j') == 19); require(type::value('k') == 20); require(type::value('l') == 21); require(type::value('m') == 22); require(type::value('n') == 23); require(type::value('o') == 24); require(type::value('p') == 25); require(type::value('q') == 26); require(type::value('r') == 27); require(type::value('s') == 28); require(type::value('t') == 29); require(type::value('u') == 30); require(type::value('v') == 31); require(type::value('w') == 32); require(type::value('x') == 33); require(type::value('y') == 34); require(type::value('z') == 35); )
VALUES(cusip, CU, cusip_)
VALUES(sedol, SE, sedol_)
VALUES(isin, IS, isin_)
OBLIGATION(value_star_cusip, CU "value", (), require(cusip_::value('*') == 36 && cusip_::value('@') == 37 && cusip_::value('#') == 38))

#define AN(c) (('0' <= (c) && (c) <= '9') || ('A' <= (c) && (c) <= 'Z') || ('a' <= (c) && (c) <= 'z'))
OBLIGATION(sedol_digit, SE "checksum", (char a, char b, char c, char d, char e, char f), GIVEN(AN(a) && AN(b) && AN(c) && AN(d) && AN(e) && AN(f)) sedol s(std::array<char, 6>{a, b, c, d, e, f}); require(s.checksum() >= '0' && s.checksum() <= '9'))
#define CUP (char a, char b, char c, char d, char e, char f, char g, char h)
OBLIGATION(cusip_digit, CU "checksum", CUP, cusip s(std::array<char, 6>{a, b, c, d, e, f}, std::array<char, 2>{g, h}); require(s.checksum() >= '0' && s.checksum() <= '9'))
OBLIGATION(isin_digit, IS "checksum", (char a, char b, char c, char d, char e, char f, char g, char h, char i), isin s(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'U', 'S'}), std::array<char, 9>{a, b, c, d, e, f, g, h, i}); require(s.checksum() >= '0' && s.checksum() <= '9'))
OBLIGATION(isin_parts, IS "isin(array<char, 11>)", (char a, char b, char c, char d, char e, char f, char g, char h, char i, char x, char y), GIVEN('A' <= x && x <= 'Z' && 'A' <= y && y <= 'Z') isin s(std::array<char, 11>{x, y, a, b, c, d, e, f, g, h, i}); require(s.issuer.code[0] == x && s.issuer.code[1] == y && s.code == (std::array<char, 9>{a, b, c, d, e, f, g, h, i})))
// the contribution of every position: all other symbols are zeroes
OBLIGATION(sedol_position0, SE "checksum", (), sedol s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}); s.code = {'1','0','0','0','0','0'}; require(s.checksum() == '9'); s.code = {'2','0','0','0','0','0'}; require(s.checksum() == '8'); s.code = {'3','0','0','0','0','0'}; require(s.checksum() == '7'); s.code = {'4','0','0','0','0','0'}; require(s.checksum() == '6'); s.code = {'5','0','0','0','0','0'}; require(s.checksum() == '5'); s.code = {'6','0','0','0','0','0'}; require(s.checksum() == '4'); s.code = {'7','0','0','0','0','0'}; require(s.checksum() == '3'); s.code = {'8','0','0','0','0','0'}; require(s.checksum() == '2'); s.code = {'9','0','0','0','0','0'}; require(s.checksum() == '1'); s.code = {'A','0','0','0','0','0'}; require(s.checksum() == '0'); s.code = {'K','0','0','0','0','0'}; require(s.checksum() == '0'); s.code = {'Z','0','0','0','0','0'}; require(s.checksum() == '5');)
OBLIGATION(sedol_position1, SE "checksum", (), sedol s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}); s.code = {'0','1','0','0','0','0'}; require(s.checksum() == '7'); s.code = {'0','2','0','0','0','0'}; require(s.checksum() == '4'); s.code = {'0','3','0','0','0','0'}; require(s.checksum() == '1'); s.code = {'0','4','0','0','0','0'}; require(s.checksum() == '8'); s.code = {'0','5','0','0','0','0'}; require(s.checksum() == '5'); s.code = {'0','6','0','0','0','0'}; require(s.checksum() == '2'); s.code = {'0','7','0','0','0','0'}; require(s.checksum() == '9'); s.code = {'0','8','0','0','0','0'}; require(s.checksum() == '6'); s.code = {'0','9','0','0','0','0'}; require(s.checksum() == '3'); s.code = {'0','A','0','0','0','0'}; require(s.checksum() == '0'); s.code = {'0','K','0','0','0','0'}; require(s.checksum() == '0'); s.code = {'0','Z','0','0','0','0'}; require(s.checksum() == '5');)
OBLIGATION(sedol_position2, SE "checksum", (), sedol s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}); s.code = {'0','0','1','0','0','0'}; require(s.checksum() == '9'); s.code = {'0','0','2','0','0','0'}; require(s.checksum() == '8'); s.code = {'0','0','3','0','0','0'}; require(s.checksum() == '7'); s.code = {'0','0','4','0','0','0'}; require(s.checksum() == '6'); s.code = {'0','0','5','0','0','0'}; require(s.checksum() == '5'); s.code = {'0','0','6','0','0','0'}; require(s.checksum() == '4'); s.code = {'0','0','7','0','0','0'}; require(s.checksum() == '3'); s.code = {'0','0','8','0','0','0'}; require(s.checksum() == '2'); s.code = {'0','0','9','0','0','0'}; require(s.checksum() == '1'); s.code = {'0','0','A','0','0','0'}; require(s.checksum() == '0'); s.code = {'0','0','K','0','0','0'}; require(s.checksum() == '0'); s.code = {'0','0','Z','0','0','0'}; require(s.checksum() == '5');)
OBLIGATION(sedol_position3, SE "checksum", (), sedol s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}); s.code = {'0','0','0','1','0','0'}; require(s.checksum() == '3'); s.code = {'0','0','0','2','0','0'}; require(s.checksum() == '6'); s.code = {'0','0','0','3','0','0'}; require(s.checksum() == '9'); s.code = {'0','0','0','4','0','0'}; require(s.checksum() == '2'); s.code = {'0','0','0','5','0','0'}; require(s.checksum() == '5'); s.code = {'0','0','0','6','0','0'}; require(s.checksum() == '8'); s.code = {'0','0','0','7','0','0'}; require(s.checksum() == '1'); s.code = {'0','0','0','8','0','0'}; require(s.checksum() == '4'); s.code = {'0','0','0','9','0','0'}; require(s.checksum() == '7'); s.code = {'0','0','0','A','0','0'}; require(s.checksum() == '0'); s.code = {'0','0','0','K','0','0'}; require(s.checksum() == '0'); s.code = {'0','0','0','Z','0','0'}; require(s.checksum() == '5');)
OBLIGATION(sedol_position4, SE "checksum", (), sedol s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}); s.code = {'0','0','0','0','1','0'}; require(s.checksum() == '7'); s.code = {'0','0','0','0','2','0'}; require(s.checksum() == '4'); s.code = {'0','0','0','0','3','0'}; require(s.checksum() == '1'); s.code = {'0','0','0','0','4','0'}; require(s.checksum() == '8'); s.code = {'0','0','0','0','5','0'}; require(s.checksum() == '5'); s.code = {'0','0','0','0','6','0'}; require(s.checksum() == '2'); s.code = {'0','0','0','0','7','0'}; require(s.checksum() == '9'); s.code = {'0','0','0','0','8','0'}; require(s.checksum() == '6'); s.code = {'0','0','0','0','9','0'}; require(s.checksum() == '3'); s.code = {'0','0','0','0','A','0'}; require(s.checksum() == '0'); s.code = {'0','0','0','0','K','0'}; require(s.checksum() == '0'); s.code = {'0','0','0','0','Z','0'}; require(s.checksum() == '5');)
OBLIGATION(sedol_position5, SE "checksum", (), sedol s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}); s.code = {'0','0','0','0','0','1'}; require(s.checksum() == '1'); s.code = {'0','0','0','0','0','2'}; require(s.checksum() == '2'); s.code = {'0','0','0','0','0','3'}; require(s.checksum() == '3'); s.code = {'0','0','0','0','0','4'}; require(s.checksum() == '4'); s.code = {'0','0','0','0','0','5'}; require(s.checksum() == '5'); s.code = {'0','0','0','0','0','6'}; require(s.checksum() == '6'); s.code = {'0','0','0','0','0','7'}; require(s.checksum() == '7'); s.code = {'0','0','0','0','0','8'}; require(s.checksum() == '8'); s.code = {'0','0','0','0','0','9'}; require(s.checksum() == '9'); s.code = {'0','0','0','0','0','A'}; require(s.checksum() == '0'); s.code = {'0','0','0','0','0','K'}; require(s.checksum() == '0'); s.code = {'0','0','0','0','0','Z'}; require(s.checksum() == '5');)
OBLIGATION(cusip_position0, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'1','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'2','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'3','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '7'); s.issuer = {'4','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'5','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '5'); s.issuer = {'6','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '4'); s.issuer = {'7','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '3'); s.issuer = {'8','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '2'); s.issuer = {'9','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '1'); s.issuer = {'A','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'K','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'Z','0','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '2');)
OBLIGATION(cusip_position1, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','1','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','2','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','3','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '4'); s.issuer = {'0','4','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '2'); s.issuer = {'0','5','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','6','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '7'); s.issuer = {'0','7','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '5'); s.issuer = {'0','8','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '3'); s.issuer = {'0','9','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '1'); s.issuer = {'0','A','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','K','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','Z','0','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '3');)
OBLIGATION(cusip_position2, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','0','1','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','2','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','3','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '7'); s.issuer = {'0','0','4','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','5','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '5'); s.issuer = {'0','0','6','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '4'); s.issuer = {'0','0','7','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '3'); s.issuer = {'0','0','8','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '2'); s.issuer = {'0','0','9','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '1'); s.issuer = {'0','0','A','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','K','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','Z','0','0','0'}; s.code = {'0','0'}; require(s.checksum() == '2');)
OBLIGATION(cusip_position3, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','0','0','1','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','2','0','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','3','0','0'}; s.code = {'0','0'}; require(s.checksum() == '4'); s.issuer = {'0','0','0','4','0','0'}; s.code = {'0','0'}; require(s.checksum() == '2'); s.issuer = {'0','0','0','5','0','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','6','0','0'}; s.code = {'0','0'}; require(s.checksum() == '7'); s.issuer = {'0','0','0','7','0','0'}; s.code = {'0','0'}; require(s.checksum() == '5'); s.issuer = {'0','0','0','8','0','0'}; s.code = {'0','0'}; require(s.checksum() == '3'); s.issuer = {'0','0','0','9','0','0'}; s.code = {'0','0'}; require(s.checksum() == '1'); s.issuer = {'0','0','0','A','0','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','K','0','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','Z','0','0'}; s.code = {'0','0'}; require(s.checksum() == '3');)
OBLIGATION(cusip_position4, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','0','0','0','1','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','0','2','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','3','0'}; s.code = {'0','0'}; require(s.checksum() == '7'); s.issuer = {'0','0','0','0','4','0'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','0','5','0'}; s.code = {'0','0'}; require(s.checksum() == '5'); s.issuer = {'0','0','0','0','6','0'}; s.code = {'0','0'}; require(s.checksum() == '4'); s.issuer = {'0','0','0','0','7','0'}; s.code = {'0','0'}; require(s.checksum() == '3'); s.issuer = {'0','0','0','0','8','0'}; s.code = {'0','0'}; require(s.checksum() == '2'); s.issuer = {'0','0','0','0','9','0'}; s.code = {'0','0'}; require(s.checksum() == '1'); s.issuer = {'0','0','0','0','A','0'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','0','K','0'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','Z','0'}; s.code = {'0','0'}; require(s.checksum() == '2');)
OBLIGATION(cusip_position5, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','0','0','0','0','1'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','0','2'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','0','0','3'}; s.code = {'0','0'}; require(s.checksum() == '4'); s.issuer = {'0','0','0','0','0','4'}; s.code = {'0','0'}; require(s.checksum() == '2'); s.issuer = {'0','0','0','0','0','5'}; s.code = {'0','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','0','0','6'}; s.code = {'0','0'}; require(s.checksum() == '7'); s.issuer = {'0','0','0','0','0','7'}; s.code = {'0','0'}; require(s.checksum() == '5'); s.issuer = {'0','0','0','0','0','8'}; s.code = {'0','0'}; require(s.checksum() == '3'); s.issuer = {'0','0','0','0','0','9'}; s.code = {'0','0'}; require(s.checksum() == '1'); s.issuer = {'0','0','0','0','0','A'}; s.code = {'0','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','0','K'}; s.code = {'0','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','0','0','Z'}; s.code = {'0','0'}; require(s.checksum() == '3');)
OBLIGATION(cusip_position6, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','0','0','0','0','0'}; s.code = {'1','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'2','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'3','0'}; require(s.checksum() == '7'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'4','0'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'5','0'}; require(s.checksum() == '5'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'6','0'}; require(s.checksum() == '4'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'7','0'}; require(s.checksum() == '3'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'8','0'}; require(s.checksum() == '2'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'9','0'}; require(s.checksum() == '1'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'A','0'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'K','0'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'Z','0'}; require(s.checksum() == '2');)
OBLIGATION(cusip_position7, CU "checksum", (), cusip s(std::array<char, 6>{'0', '0', '0', '0', '0', '0'}, std::array<char, 2>{'0', '0'}); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','1'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','2'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','3'}; require(s.checksum() == '4'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','4'}; require(s.checksum() == '2'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','5'}; require(s.checksum() == '9'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','6'}; require(s.checksum() == '7'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','7'}; require(s.checksum() == '5'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','8'}; require(s.checksum() == '3'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','9'}; require(s.checksum() == '1'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','A'}; require(s.checksum() == '8'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','K'}; require(s.checksum() == '6'); s.issuer = {'0','0','0','0','0','0'}; s.code = {'0','Z'}; require(s.checksum() == '3');)
OBLIGATION(isin_position0, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'B','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'C','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'J','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'K','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'L','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'T','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'U','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'Z','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '7');)
OBLIGATION(isin_position1, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','B'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','C'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','J'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','K'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','L'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','T'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','U'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','Z'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','0'}).checksum() == '7');)
OBLIGATION(isin_position2, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'1','0','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'2','0','0','0','0','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'3','0','0','0','0','0','0','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'4','0','0','0','0','0','0','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'5','0','0','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'6','0','0','0','0','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'7','0','0','0','0','0','0','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'8','0','0','0','0','0','0','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'9','0','0','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'A','0','0','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'K','0','0','0','0','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'Z','0','0','0','0','0','0','0','0'}).checksum() == '4');)
OBLIGATION(isin_position3, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','1','0','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','2','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','3','0','0','0','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','4','0','0','0','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','5','0','0','0','0','0','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','6','0','0','0','0','0','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','7','0','0','0','0','0','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','8','0','0','0','0','0','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','9','0','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','A','0','0','0','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','K','0','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','Z','0','0','0','0','0','0','0'}).checksum() == '7');)
OBLIGATION(isin_position4, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','1','0','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','2','0','0','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','3','0','0','0','0','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','4','0','0','0','0','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','5','0','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','6','0','0','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','7','0','0','0','0','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','8','0','0','0','0','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','9','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','A','0','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','K','0','0','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','Z','0','0','0','0','0','0'}).checksum() == '4');)
OBLIGATION(isin_position5, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','1','0','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','2','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','3','0','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','4','0','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','5','0','0','0','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','6','0','0','0','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','7','0','0','0','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','8','0','0','0','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','9','0','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','A','0','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','K','0','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','Z','0','0','0','0','0'}).checksum() == '7');)
OBLIGATION(isin_position6, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','1','0','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','2','0','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','3','0','0','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','4','0','0','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','5','0','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','6','0','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','7','0','0','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','8','0','0','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','9','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','A','0','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','K','0','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','Z','0','0','0','0'}).checksum() == '4');)
OBLIGATION(isin_position7, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','1','0','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','2','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','3','0','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','4','0','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','5','0','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','6','0','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','7','0','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','8','0','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','9','0','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','A','0','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','K','0','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','Z','0','0','0'}).checksum() == '7');)
OBLIGATION(isin_position8, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','1','0','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','2','0','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','3','0','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','4','0','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','5','0','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','6','0','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','7','0','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','8','0','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','9','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','A','0','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','K','0','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','Z','0','0'}).checksum() == '4');)
OBLIGATION(isin_position9, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','1','0'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','2','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','3','0'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','4','0'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','5','0'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','6','0'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','7','0'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','8','0'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','9','0'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','A','0'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','K','0'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','Z','0'}).checksum() == '7');)
OBLIGATION(isin_position10, IS "checksum", (), require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','1'}).checksum() == '4'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','2'}).checksum() == '2'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','3'}).checksum() == '0'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','4'}).checksum() == '8'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','5'}).checksum() == '5'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','6'}).checksum() == '3'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','7'}).checksum() == '1'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','8'}).checksum() == '9'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','9'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','A'}).checksum() == '7'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','K'}).checksum() == '6'); require(isin(esl::geography::iso_3166_1_alpha_2(std::array<char, 2>{'A','A'}), std::array<char, 9>{'0','0','0','0','0','0','0','0','Z'}).checksum() == '4');)
