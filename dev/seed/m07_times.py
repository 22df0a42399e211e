P='M07'; F='esl/economics/markets/quote_message.hpp'
def edit(s): return s.replace("(sender, recipient,\n                                                          sent, received)","(sender, recipient,\n                                                          sent,\n                                                          binding == indication::firm ? received : sent)")
NEEDS='an indicative quote sent ahead of the time it is to be received, made without create_message'
BREAKS='an indicative quote is received at the time it is sent, not at the time it was made for'
DEMO='''
#include <cstdint>
#include <esl/economics/markets/walras/quote_message.hpp>
using namespace esl; using namespace esl::economics::markets;
int main(){ walras::quote_message q(identity<agent>({1}),identity<agent>({2}),{},10,20); return !(q.sent==10&&q.received==20&&q.sender==identity<agent>({1})&&q.recipient==identity<agent>({2})); }'''
