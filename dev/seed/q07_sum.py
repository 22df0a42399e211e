P='Q07'; F='esl/economics/finance/sedol.hpp'
def edit(s): return s.replace("sum_ += value( code[i] ) * weights_[i];","const std::uint8_t term_ = value( code[i] ) * weights_[i];\n                sum_ += term_;")
NEEDS='a code whose last letter is late in the alphabet (weighted term above 255)'
BREAKS='the sum wraps around and the check digit is wrong'
DEMO=r'''
#include <esl/economics/finance/sedol.hpp>
#include <string>
int main(){ std::string c = "ZZ0Z0Z"; unsigned w[] = {1,3,1,7,3,9}, s = 0; for(int i=0;i<6;++i) s += (c[i] >= 'A' ? c[i]-'A'+10 : c[i]-'0')*w[i];
 esl::economics::finance::sedol x(c); return x.checksum() == char('0' + (10 - s % 10) % 10) ? 0 : 1; }
'''
