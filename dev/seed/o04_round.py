P='O04'; F='esl/computation/block_pool.hpp'
def edit(s): return s.replace("highest_ = std::max(highest_, assigned_ + 1);","highest_ = std::max(highest_, assigned_);")
NEEDS='an element is erased and replaced in the first round'
BREAKS='the new element gets the identifier of the erased one'
DEMO='''
#include <cstdint>
#include <esl/computation/block_pool.hpp>
#include <set>
int main(){ esl::computation::block_pool::static_block_pool<int> p(4); std::set<std::uint64_t> seen;
 for(int i=0;i<3;++i) if(!seen.insert(p.emplace(i).first).second) return 1;
 for(int k=0;k<20;++k){ auto x=*seen.rbegin(); p.erase(x); if(!seen.insert(p.emplace(k).first).second) return 1; }
 return 0; }'''
