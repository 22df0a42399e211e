#!/usr/bin/env python3
"""writes witness/G01.cpp: the tables of ISO 3166-1 and ISO 4217 (as of 2018-07, which the library follows), to be compared with the constants and names of the library by the compilers"""
import os, string
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COUNTRIES = dict(x.split('=', 1) for x in '''AD=Andorra
AE=United Arab Emirates
AF=Afghanistan
AG=Antigua and Barbuda
AI=Anguilla
AL=Albania
AM=Armenia
AO=Angola
AQ=Antarctica
AR=Argentina
AS=American Samoa
AT=Austria
AU=Australia
AW=Aruba
AX=Åland Islands
AZ=Azerbaijan
BA=Bosnia and Herzegovina
BB=Barbados
BD=Bangladesh
BE=Belgium
BF=Burkina Faso
BG=Bulgaria
BH=Bahrain
BI=Burundi
BJ=Benin
BL=Saint Barthélemy
BM=Bermuda
BN=Brunei Darussalam
BO=Plurinational State of Bolivia
BQ=Bonaire, Sint Eustatius and Saba
BR=Brazil
BS=Bahamas
BT=Bhutan
BV=Bouvet Island
BW=Botswana
BY=Belarus
BZ=Belize
CA=Canada
CC=Cocos (Keeling) Islands
CD=the Democratic Republic of the Congo
CF=Central African Republic
CG=Congo
CH=Switzerland
CI=Côte d'Ivoire
CK=Cook Islands
CL=Chile
CM=Cameroon
CN=China
CO=Colombia
CR=Costa Rica
CU=Cuba
CV=Cabo Verde
CW=Curaçao
CX=Christmas Island
CY=Cyprus
CZ=Czechia
DE=Germany
DJ=Djibouti
DK=Denmark
DM=Dominica
DO=Dominican Republic
DZ=Algeria
EC=Ecuador
EE=Estonia
EG=Egypt
EH=Western Sahara
ER=Eritrea
ES=Spain
ET=Ethiopia
FI=Finland
FJ=Fiji
FK=Falkland Islands (Malvinas)
FM=Federated States of Micronesia
FO=Faroe Islands
FR=France
GA=Gabon
GB=United Kingdom of Great Britain and Northern Ireland
GD=Grenada
GE=Georgia
GF=French Guiana
GG=Guernsey
GH=Ghana
GI=Gibraltar
GL=Greenland
GM=Gambia
GN=Guinea
GP=Guadeloupe
GQ=Equatorial Guinea
GR=Greece
GS=South Georgia and the South Sandwich Islands
GT=Guatemala
GU=Guam
GW=Guinea-Bissau
GY=Guyana
HK=Hong Kong
HM=Heard Island and McDonald Islands
HN=Honduras
HR=Croatia
HT=Haiti
HU=Hungary
ID=Indonesia
IE=Ireland
IL=Israel
IM=Isle of Man
IO=British Indian Ocean Territory
IQ=Iraq
IR=Islamic Republic of Iran
IS=Iceland
IT=Italy
JE=Jersey
JM=Jamaica
JO=Jordan
JP=Japan
KE=Kenya
KG=Kyrgyzstan
KH=Cambodia
KI=Kiribati
KM=Comoros
KN=Saint Kitts and Nevis
KP=Democratic People's Republic of Korea
KR=Republic of Korea
KW=Kuwait
KY=Cayman Islands
KZ=Kazakhstan
LA=Lao People's Democratic Republic
LB=Lebanon
LC=Saint Lucia
LI=Liechtenstein
LK=Sri Lanka
LR=Liberia
LS=Lesotho
LT=Lithuania
LU=Luxembourg
LV=Latvia
LY=Libya
MA=Morocco
MC=Monaco
MD=Republic of Moldova
ME=Montenegro
MF=Saint Martin (French part)
MG=Madagascar
MH=Marshall Islands
MK=the former Yugoslav Republic of Macedonia
ML=Mali
MM=Myanmar
MN=Mongolia
MO=Macao
MP=Northern Mariana Islands
MQ=Martinique
MR=Mauritania
MS=Montserrat
MT=Malta
MU=Mauritius
MV=Maldives
MW=Malawi
MX=Mexico
MY=Malaysia
MZ=Mozambique
NA=Namibia
NC=New Caledonia
NE=Niger
NF=Norfolk Island
NG=Nigeria
NI=Nicaragua
NL=Netherlands
NO=Norway
NP=Nepal
NR=Nauru
NU=Niue
NZ=New Zealand
OM=Oman
PA=Panama
PE=Peru
PF=French Polynesia
PG=Papua New Guinea
PH=Philippines
PK=Pakistan
PL=Poland
PM=Saint Pierre and Miquelon
PN=Pitcairn
PR=Puerto Rico
PS=State of Palestine
PT=Portugal
PW=Palau
PY=Paraguay
QA=Qatar
RE=Réunion
RO=Romania
RS=Serbia
RU=Russian Federation
RW=Rwanda
SA=Saudi Arabia
SB=Solomon Islands
SC=Seychelles
SD=Sudan
SE=Sweden
SG=Singapore
SH=Saint Helena, Ascension and Tristan da Cunha
SI=Slovenia
SJ=Svalbard and Jan Mayen
SK=Slovakia
SL=Sierra Leone
SM=San Marino
SN=Senegal
SO=Somalia
SR=Suriname
SS=South Sudan
ST=Sao Tome and Principe
SV=El Salvador
SX=Sint Maarten (Dutch part)
SY=Syrian Arab Republic
SZ=Swaziland
TC=Turks and Caicos Islands
TD=Chad
TF=French Southern Territories
TG=Togo
TH=Thailand
TJ=Tajikistan
TK=Tokelau
TL=Timor-Leste
TM=Turkmenistan
TN=Tunisia
TO=Tonga
TR=Turkey
TT=Trinidad and Tobago
TV=Tuvalu
TW=Taiwan, Province of China
TZ=United Republic of Tanzania
UA=Ukraine
UG=Uganda
UM=United States Minor Outlying Islands
US=United States of America
UY=Uruguay
UZ=Uzbekistan
VA=Holy See
VC=Saint Vincent and the Grenadines
VE=Bolivarian Republic of Venezuela
VG=British Virgin Islands
VI=U.S. Virgin Islands
VN=Viet Nam
VU=Vanuatu
WF=Wallis and Futuna
WS=Samoa
YE=Yemen
YT=Mayotte
ZA=South Africa
ZM=Zambia
ZW=Zimbabwe'''.split('\n'))
CURRENCIES = dict(x.split('=', 1) for x in '''AED=UAE Dirham
AFN=Afghani
ALL=Lek
AMD=Armenian Dram
ANG=Netherlands Antillean Guilder
AOA=Kwanza
ARS=Argentine Peso
AUD=Australian Dollar
AWG=Aruban Florin
AZN=Azerbaijan Manat
BAM=Convertible Mark
BBD=Barbados Dollar
BDT=Taka
BGN=Bulgarian Lev
BHD=Bahraini Dinar
BIF=Burundi Franc
BMD=Bermudian Dollar
BND=Brunei Dollar
BOB=Boliviano
BOV=Mvdol
BRL=Brazilian Real
BSD=Bahamian Dollar
BTN=Ngultrum
BWP=Pula
BYN=Belarusian Ruble
BZD=Belize Dollar
CAD=Canadian Dollar
CDF=Congolese Franc
CHE=WIR Euro
CHF=Swiss Franc
CHW=WIR Franc
CLF=Unidad de Fomento
CLP=Chilean Peso
CNY=Yuan Renminbi
COP=Colombian Peso
COU=Unidad de Valor Real
CRC=Costa Rican Colon
CUC=Peso Convertible
CUP=Cuban Peso
CVE=Cabo Verde Escudo
CZK=Czech Koruna
DJF=Djibouti Franc
DKK=Danish Krone
DOP=Dominican Peso
DZD=Algerian Dinar
EGP=Egyptian Pound
ERN=Nakfa
ETB=Ethiopian Birr
EUR=Euro
FJD=Fiji Dollar
FKP=Falkland Islands Pound
GBP=Pound Sterling
GEL=Lari
GHS=Ghana Cedi
GIP=Gibraltar Pound
GMD=Dalasi
GNF=Guinean Franc
GTQ=Quetzal
GYD=Guyana Dollar
HKD=Hong Kong Dollar
HNL=Lempira
HRK=Kuna
HTG=Gourde
HUF=Forint
IDR=Rupiah
ILS=New Israeli Sheqel
INR=Indian Rupee
IQD=Iraqi Dinar
IRR=Iranian Rial
ISK=Iceland Krona
JMD=Jamaican Dollar
JOD=Jordanian Dinar
JPY=Yen
KES=Kenyan Shilling
KGS=Som
KHR=Riel
KMF=Comorian Franc 
KPW=North Korean Won
KRW=Won
KWD=Kuwaiti Dinar
KYD=Cayman Islands Dollar
KZT=Tenge
LAK=Lao Kip
LBP=Lebanese Pound
LKR=Sri Lanka Rupee
LRD=Liberian Dollar
LSL=Loti
LYD=Libyan Dinar
MAD=Moroccan Dirham
MDL=Moldovan Leu
MGA=Malagasy Ariary
MKD=Denar
MMK=Kyat
MNT=Tugrik
MOP=Pataca
MRU=Ouguiya
MUR=Mauritius Rupee
MVR=Rufiyaa
MWK=Malawi Kwacha
MXN=Mexican Peso
MXV=Mexican Unidad de Inversion (UDI)
MYR=Malaysian Ringgit
MZN=Mozambique Metical
NAD=Namibia Dollar
NGN=Naira
NIO=Cordoba Oro
NOK=Norwegian Krone
NPR=Nepalese Rupee
NZD=New Zealand Dollar
OMR=Rial Omani
PAB=Balboa
PEN=Sol
PGK=Kina
PHP=Philippine Piso
PKR=Pakistan Rupee
PLN=Zloty
PYG=Guarani
QAR=Qatari Rial
RON=Romanian Leu
RSD=Serbian Dinar
RUB=Russian Ruble
RWF=Rwanda Franc
SAR=Saudi Riyal
SBD=Solomon Islands Dollar
SCR=Seychelles Rupee
SDG=Sudanese Pound
SEK=Swedish Krona
SGD=Singapore Dollar
SHP=Saint Helena Pound
SLL=Leone
SOS=Somali Shilling
SRD=Surinam Dollar
SSP=South Sudanese Pound
STN=Dobra
SVC=El Salvador Colon
SYP=Syrian Pound
SZL=Lilangeni
THB=Baht
TJS=Somoni
TMT=Turkmenistan New Manat
TND=Tunisian Dinar
TOP=Pa’anga
TRY=Turkish Lira
TTD=Trinidad and Tobago Dollar
TWD=New Taiwan Dollar
TZS=Tanzanian Shilling
UAH=Hryvnia
UGX=Uganda Shilling
USD=US Dollar
UYI=Uruguay Peso en Unidades Indexadas (URUIURUI)
UYU=Peso Uruguayo
UZS=Uzbekistan Sum
VEF=Bolívar
VND=Dong
VUV=Vatu
WST=Tala
XAF=CFA Franc BEAC
XAG=Silver
XAU=Gold
XBA=Bond Markets Unit European Composite Unit (EURCO)
XBB=Bond Markets Unit European Monetary Unit (E.M.U.-6)
XBC=Bond Markets Unit European Unit of Account 9 (E.U.A.-9)
XBD=Bond Markets Unit European Unit of Account 17 (E.U.A.-17)
XCD=East Caribbean Dollar
XDR=SDR (Special Drawing Right)
XOF=CFA Franc BCEAO
XPD=Palladium
XPF=CFP Franc
XPT=Platinum
XSU=Sucre
XUA=ADB Unit of Account
YER=Yemeni Rial
ZAR=Rand
ZMW=Zambian Kwacha
ZWL=Zimbabwe Dollar'''.split('\n'))
MINOR = dict([(c, 1) for c in 'BIF CLP DJF GNF ISK JPY KMF KRW PYG RWF UGX UYI VND VUV XAF XOF XPF'.split()] + [(c, 1000) for c in 'BHD IQD JOD KWD LYD OMR TND'.split()] + [('CLF', 10000)])
TENDER = dict(x.split('=') for x in '''AD=EUR AE=AED AF=AFN AG=XCD AI=XCD AL=ALL AM=AMD AO=AOA AR=ARS AS=USD AT=EUR AU=AUD AW=AWG AX=EUR AZ=AZN BA=BAM BB=BBD BD=BDT BE=EUR BF=XOF BG=BGN BH=BHD BI=BIF BJ=XOF BL=EUR BM=BMD BN=BND BO=BOB BQ=USD BR=BRL BS=BSD BT=BTN BV=NOK BW=BWP BY=BYN BZ=BZD CA=CAD CC=AUD CD=CDF CF=XAF CG=XAF CH=CHF CI=XOF CK=NZD CL=CLP CM=XAF CN=CNY CO=COP CR=CRC CU=CUP CV=CVE CW=ANG CX=AUD CY=EUR CZ=CZK DE=EUR DJ=DJF DK=DKK DM=XCD DO=DOP DZ=DZD EC=USD EE=EUR EG=EGP EH=MAD ER=ERN ES=EUR ET=ETB FI=EUR FJ=FJD FM=USD FO=DKK FR=EUR GA=XAF GB=GBP GD=XCD GE=GEL GF=EUR GG=GBP GH=GHS GI=GIP GL=DKK GM=GMD GN=GNF GP=EUR GQ=XAF GR=EUR GT=GTQ GU=USD GW=XOF GY=GYD HK=HKD HM=AUD HN=HNL HR=HRK HT=HTG HU=HUF ID=IDR IE=EUR IL=ILS IM=GBP IO=USD IQ=IQD IR=IRR IS=ISK IT=EUR JE=GBP JM=JMD JO=JOD JP=JPY KE=KES KG=KGS KH=KHR KI=AUD KM=KMF KN=XCD KP=KPW KR=KRW KW=KWD KY=KYD KZ=KZT LA=LAK LB=LBP LC=XCD LI=CHF LK=LKR LR=LRD LS=LSL LT=EUR LU=EUR LV=EUR LY=LYD MA=MAD MC=EUR MD=MDL ME=EUR MF=EUR MG=MGA MH=USD MK=MKD ML=XOF MM=MMK MN=MNT MO=MOP MP=USD MQ=EUR MR=MRU MS=XCD MT=EUR MU=MUR MV=MVR MW=MWK MX=MXN MY=MYR MZ=MZN NA=NAD NC=XPF NE=XOF NF=AUD NG=NGN NI=NIO NL=EUR NO=NOK NP=NPR NR=AUD NU=NZD NZ=NZD OM=OMR PA=PAB PE=PEN PF=XPF PG=PGK PH=PHP PK=PKR PL=PLN PM=EUR PN=NZD PR=USD PT=EUR PW=USD PY=PYG QA=QAR RE=EUR RO=RON RS=RSD RU=RUB RW=RWF SA=SAR SB=SBD SC=SCR SD=SDG SE=SEK SG=SGD SH=SHP SI=EUR SJ=NOK SK=EUR SL=SLL SM=EUR SN=XOF SO=SOS SR=SRD SS=SSP ST=STN SV=SVC SX=ANG SY=SYP SZ=SZL TC=USD TD=XAF TF=EUR TG=XOF TH=THB TJ=TJS TK=NZD TL=USD TM=TMT TN=TND TO=TOP TR=TRY TT=TTD TV=AUD TZ=TZS UA=UAH UG=UGX UM=USD US=USD UY=UYU UZ=UZS VA=EUR VC=XCD VE=VEF VG=USD VI=USD VN=VND VU=VUV WF=XPF WS=WST YE=YER YT=EUR ZA=ZAR ZM=ZMW ZW=ZWL'''.split())
# USN, XTS and XXX are left out too, and IN is left out by the library: IN is a macro of some platforms
NAMES = 'esl/geography/countries.hpp: '
MONEY = 'esl/economics/currencies.hpp: '
LAW = 'esl/law/jurisdictions.hpp: '
o = ['''// pipelines: clang-O2 clang-O2-unroll\n// written by meta/gen_g01.py
#include "witness.hpp"
#include <initializer_list>
#include <string_view>
#include <type_traits>
#include <esl/geography/countries.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/law/jurisdictions.hpp>
using namespace esl;
// a string whose contents the compilers can follow
struct text { const char *p = ""; std::size_t l = 0; char c[8] = {}; unsigned n = 0;
  text() = default; text(const char *s) : p(s), l(__builtin_strlen(s)) {} text(std::string_view s) : p(s.data()), l(s.size()) {}
  text(const char *s, std::size_t k) { append(s, k); } text(std::size_t k, char x) { append(k, x); } text(std::initializer_list<char> x) { for(char y : x) { append(1, y); } }
  template<class I, class = decltype(*std::declval<I>()), class = std::enable_if_t<!std::is_integral_v<I>>> text(I b, I e) { for(; b != e; ++b) { append(1, *b); } }
  text &append(const char *s, std::size_t k) { for(std::size_t i = 0; i < k && n < 8; ++i) { c[n++] = s[i]; } return *this; }
  text &append(std::size_t k, char x) { for(std::size_t i = 0; i < k && n < 8; ++i) { c[n++] = x; } return *this; }
  template<class I, class = decltype(*std::declval<I>()), class = std::enable_if_t<!std::is_integral_v<I>>> text &append(I b, I e) { for(; b != e; ++b) { append(1, *b); } return *this; }
  text &append(const char *s) { if(l == 0 && n == 0) { p = s; l = __builtin_strlen(s); } else { append(s, __builtin_strlen(s)); } return *this; }
  text &append(const text &t) { if(l == 0 && n == 0) { return *this = t; } append(t.p, t.l); return append(t.c, t.n); }
  void push_back(char x) { append(1, x); } void reserve(std::size_t) {}
  text &operator+=(char x) { return append(1, x); } text &operator+=(const char *s) { return append(s); } text &operator+=(const text &t) { return append(t); }
  friend text operator+(text t, char x) { t += x; return t; } friend text operator+(text t, const char *x) { t += x; return t; } friend text operator+(text t, const text &x) { t += x; return t; } };
static inline bool is(const text &t, const char *s, const char *tail = "") { return t.l == __builtin_strlen(s) && __builtin_memcmp(t.p, s, t.l) == 0 && t.n == __builtin_strlen(tail) && (t.n < 1 || t.c[0] == tail[0]) && (t.n < 2 || t.c[1] == tail[1]) && (t.n < 3 || t.c[2] == tail[2]); }
static inline text country(char a, char b) { return geography::country_name<text>(geography::iso_3166_1_alpha_2(std::array<char, 2>{a, b})); }
static inline text currency(char a, char b, char c) { return economics::currency_name<text>(economics::iso_4217(std::array<char, 3>{a, b, c})); }
''']
def q(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else ''.join('\\%03o' % b for b in c.encode()) for c in s) + '"'
def ob(n, t, *r):
    o.append('OBLIGATION(%s, "%s", (), %s)' % (n, t, ' '.join('require(%s);' % x for x in r)))
def chars(s):
    return ', '.join("'%s'" % c for c in s)
for c, n in COUNTRIES.items():
    ob('country_' + c, NAMES + 'countries::' + c, "geography::countries::%s.code[0] == '%s' && geography::countries::%s.code[1] == '%s' && sizeof(geography::countries::%s.code) == 2" % (c, c[0], c, c[1], c))
    ob('country_name_' + c, NAMES + 'country_name (%s)' % c, 'is(country(%s), %s)' % (chars(c), q(n)), 'is(geography::country_name<text>(geography::countries::%s), %s)' % (c, q(n)))
for a in string.ascii_uppercase:
    ob('no_country_' + a, NAMES + 'country_name (codes without a country from %s)' % a, *['is(country(%s), "iso_3166_1_alpha_2 ", "%s")' % (chars(a + b), a + b) for b in string.ascii_uppercase if a + b not in COUNTRIES and a + b != 'IN'])
for c, n in CURRENCIES.items():
    k = 'economics::currencies::' + c
    ob('currency_' + c, MONEY + 'currencies::' + c, ' && '.join("%s.code[%d] == '%s'" % (k, i, x) for i, x in enumerate(c)) + ' && sizeof(%s.code) == 3' % k)
    ob('minor_units_' + c, MONEY + 'currencies::%s (minor units)' % c, '%s.denominator == %d' % (k, MINOR.get(c, 100)))
    ob('currency_name_' + c, MONEY + 'currency_name (%s)' % c, 'is(currency(%s), %s)' % (chars(c), q(n)), 'is(economics::currency_name<text>(%s), %s)' % (k, q(n)))
for a in string.ascii_uppercase:
    for b in string.ascii_uppercase:
        ob('no_currency_' + a + b, MONEY + 'currency_name (codes without a currency from %s)' % (a + b), *['is(currency(%s), "", "%s")' % (chars(a + b + x), a + b + x) for x in string.ascii_uppercase if a + b + x not in CURRENCIES and a + b + x not in ('USN', 'XTS', 'XXX')])
for c, m in TENDER.items():
    k = 'law::jurisdictions::' + c
    ob('jurisdiction_' + c, LAW + 'jurisdictions::' + c, "%s.sovereign.code[0] == '%s' && %s.sovereign.code[1] == '%s'" % (k, c[0], k, c[1]))
    ob('tender_' + c, LAW + 'jurisdictions::%s (legal tender)' % c, ' && '.join("%s.tender.code[%d] == '%s'" % (k, i, x) for i, x in enumerate(m)) + ' && %s.tender.denominator == %d' % (k, MINOR.get(m, 100)))
open(os.path.join(HERE, 'witness', 'G01.cpp'), 'w').write('\n'.join(o) + '\n')
