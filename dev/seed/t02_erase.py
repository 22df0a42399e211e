P='T02'; F='esl/economics/accounting/inventory.hpp'
def edit(s): return s.replace("""            iterator_->second -= q;
        }

        void erase(const""","""            iterator_->second -= q;
            if(items.size() > 8 && iterator_->second.amount * 2 < q.amount) {
                items.erase(iterator_);
            }
        }

        void erase(const""")
NEEDS='an inventory of more than eight kinds of property, of one of which most is removed'
BREAKS='the rest of that property is lost'
DEMO='''
#include <cstdint>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/law/property.hpp>
using namespace esl;
int main(){ economics::accounting::inventory_filter<law::property> i; std::vector<std::shared_ptr<law::property>> ps;
 for(std::uint64_t k=0;k<20;++k){ ps.push_back(std::make_shared<law::property>(identity<law::property>({1,k}))); i.insert(ps.back(),quantity(10)); }
 for(std::uint64_t k=0;k<20;++k){ std::uint64_t q=k%10; i.erase(ps[k],quantity(q)); std::uint64_t left=0; auto f=i.items.find(ps[k]); if(f!=i.items.end()) left=f->second.amount; if(left!=10-q) return 1; }
 return 0; }'''
