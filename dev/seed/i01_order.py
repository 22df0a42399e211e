P='I01'; F='esl/simulation/identity.hpp'
def edit(s): return s.replace("""            return lexicographical_compare(digits.begin(),
                                           digits.end(),
                                           rhs.digits.begin(),
                                           rhs.digits.end());""","""            const auto length_ = digits.size() < rhs.digits.size() ? digits.size() : rhs.digits.size();
            for(std::size_t i = 0; i < length_; ++i) {
                if(digits[i] != rhs.digits[i]) {
                    return i < 3 ? digits[i] < rhs.digits[i] : (digits[i] & 0xFFFFFFFFull) < (rhs.digits[i] & 0xFFFFFFFFull);
                }
            }
            return digits.size() < rhs.digits.size();""")
NEEDS='identities that first differ in the fourth digit or later, there in the upper half of the digit'
BREAKS='neither is less than the other though they differ: maps keyed by identity take them for one'
DEMO='''
#include <cstdint>
#include <esl/agent.hpp>
#include <set>
using namespace esl;
int main(){ typedef std::uint64_t u; std::set<identity<agent>> s; int n=0;
 for(u k=0;k<40;++k){ s.insert(identity<agent>({1,u(1)<<k})); ++n; s.insert(identity<agent>({1,2,3,u(1)<<k,5})); ++n; }
 return s.size()==n ? 0 : 1; }'''
