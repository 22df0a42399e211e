P='T02'; F='esl/economics/accounting/inventory.hpp'
def edit(s): return s.replace("                iterator_->second += q;","                iterator_->second += quantity(static_cast<unsigned int>(q.amount));")
NEEDS='property that is already held is added in a quantity of 2^32 units or more'
BREAKS='the inventory grows by less than what is added'
DEMO='''
#include <cstdint>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/law/property.hpp>
using namespace esl;
int main(){ economics::accounting::inventory_filter<law::property> i; auto p=std::make_shared<law::property>(identity<law::property>({1,2}));
 std::uint64_t total=0; for(int k=0;k<40;++k){ std::uint64_t q=std::uint64_t(1)<<k; i.insert(p,quantity(q)); total+=q; if(i.items[p].amount!=total) return 1; }
 return 0; }'''
