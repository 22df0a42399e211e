P='Q03'; F='esl/economics/markets/quote.hpp'; ENV=False
def edit(s): return s.replace("return (lot * k) < ((*vp) * other.lot );","return (lot * k).value / 100000 < ((*vp) * other.lot ).value / 100000 || ((lot * k).value / 100000 == ((*vp) * other.lot ).value / 100000 && (lot * k) < ((*vp) * other.lot) && lot < 1000);")
NEEDS='quotes per lots of a thousand or more that differ by less than one unit'
BREAKS='neither is less, equal or greater'
DEMO="""\n#include <esl/economics/markets/quote.hpp>\n#include <esl/economics/currencies.hpp>\nusing namespace esl::economics; using namespace esl::economics::markets;\nint main(){ quote a{price(100, currencies::USD), 1000}, b{price(101, currencies::USD), 1000}; return (a < b) && !(b < a) && !(a == b) ? 0 : 1; }"""
