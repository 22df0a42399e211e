P='T02'; F='esl/economics/accounting/inventory.hpp'
def edit(s): return s.replace("                    i->second += v;","                    i->second = std::max(i->second, v) + std::min(i->second, quantity(1)) * static_cast<std::uint64_t>(v.amount);",1)
NEEDS=''
BREAKS=''
DEMO=''
