P='M07'; F='esl/economics/markets/market_data_request_message.hpp'
def edit(s): return s.replace(", depth(depth)",", depth(request_t::stream == type || instruments.empty() ? depth : std::uint8_t(depth & 0x0F))")
NEEDS='a snapshot of sixteen or more levels, or a cancellation that states them'
BREAKS='the depth of the request is lost above fifteen levels for snapshots'
DEMO='''
#include <cstdint>
#include <esl/economics/markets/centralized_exchange.hpp>
using namespace esl; using namespace esl::economics::markets;
int main(){ market_data_request_message q(identity<agent>({1}),identity<agent>({2}),10,20,std::vector<ticker>(2),market_data_request_message::snapshot,20); return !(q.depth==20&&q.sent==10&&q.received==20&&q.instruments.size()==2); }'''
