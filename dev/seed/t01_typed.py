P='T01'; F='esl/economics/owner.hpp'
def edit(s):
    i=s.rindex("if(!d) {\n                            continue;"); return s[:i]+s[i:].replace("continue;","break;",1)
NEEDS='property of another type precedes property of the kept type in one transfer'
BREAKS='the transferee\'s holdings by type miss what follows property of another type'
DEMO='''
#include <cstdint>
#include <esl/economics/owner.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/stock.hpp>
#include <esl/simulation/model.hpp>
#include <esl/interaction/transfer.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::law;
struct holder : public owner<cash> { explicit holder(const identity<owner<property>> &i) : agent(i), owner<property>(i), owner<cash>(i) {} };
int main(){
 for(int n=0;n<12;++n){
  auto a=std::make_shared<holder>(identity<owner<property>>({1,1})); auto b=std::make_shared<holder>(identity<owner<property>>({1,2}));
  accounting::inventory_filter<property> what; std::vector<std::shared_ptr<property>> others; std::shared_ptr<cash> c;
  for(int k=0;k<12;++k){ std::shared_ptr<property> p; if(k==n){ c=std::make_shared<cash>(currencies::USD); p=c; } else { p=std::make_shared<property>(identity<property>({7,(std::uint64_t)(k+100*n)})); }
   what.insert(p,quantity(3)); a->inventory[p]=quantity(5); }
  a->properties.insert(c,quantity(5));
  auto m=std::make_shared<interaction::transfer>(a->identifier,b->identifier,identity<owner<property>>({1,1}),identity<owner<property>>({1,2}),what);
  m->sent=0; m->received=1; std::seed_seq s{1};
  for(auto x:{a,b}){ x->inbox.insert({1,m}); x->process_messages({1,2},s); }
  if(b->inventory.size()!=12) return 2;
  if(b->properties.items.size()!=1 || b->properties.items.begin()->second!=quantity(3)) return 1;
  if(a->properties.items[c]!=quantity(2)) return 3;
 }
 return 0; }'''
