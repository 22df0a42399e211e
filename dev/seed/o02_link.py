P='O02'; F='esl/economics/markets/order_book/static_order_book.hpp'
def edit(s): return s.replace("ao->data.successor->data.predecessor = nullptr;","ao->data.predecessor = nullptr;")
NEEDS='the first of two orders at a level is filled, its block reused for an order at another level, then the second one cancelled'
BREAKS='the queue of the other level loses its later orders'
DEMO='#include <esl/economics/markets/order_book/static_order_book.hpp>\n#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>\n#include <esl/agent.hpp>\n#include <esl/economics/currencies.hpp>\n#include <set>\nusing namespace esl; using namespace esl::economics; using namespace esl::economics::markets::order_book; using esl::economics::markets::quote;\nstatic quote q(double d){ return quote(price::approximate(d, currencies::USD), 100*currencies::USD.denominator); }\nstatic limit_order o(limit_order::side_t s, double p, std::uint32_t n, std::uint64_t who=1){ return limit_order(markets::ticker(), identity<agent>({who}), s, q(p), n, limit_order::lifetime_t::good_until_cancelled); }\nint main(){ static_order_book b(q(0.01), q(10), 8); b.insert(o(limit_order::sell,5,10,1)); b.insert(o(limit_order::sell,5,10,2));\n b.insert(o(limit_order::buy,5,10,3)); auto second=b.orders().front();\n b.insert(o(limit_order::sell,6,10,4)); b.insert(o(limit_order::sell,6,10,5)); \n b.cancel(second); return b.orders().size()==2 ? 0 : 1; }'
