P='M04'; F='esl/quantity.hpp'; ENV=False
def edit(s): return s.replace("for(auto iterator_ = result_.begin() + remainder_;","for(auto iterator_ = result_.begin() + (divisor - remainder_);")
NEEDS='a division whose remainder is more than half of the number of parts'
BREAKS='the parts do not add up: with several threads agents are skipped or invented'
DEMO='\n#include <esl/quantity.hpp>\nint main(){ for(unsigned a = 0; a < 50; ++a) for(unsigned n = 1; n < 12; ++n){ std::uint64_t s = 0; for(auto q: esl::quantity(a) / n) s += q.amount; if(s != a) return 1; } return 0; }'
