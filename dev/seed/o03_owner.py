P='O03'; F='esl/economics/markets/order_book/static_order_book.hpp'
def edit(s): return s.replace("                if(order_.predecessor) {\n                    order_.predecessor->data.successor = order_.successor; \n                }\n","                if(order_.predecessor) {\n                    order_.predecessor->data.successor = order_.successor; \n                    order_.predecessor = nullptr;\n                }\n")
NEEDS='an order in the middle of a queue is cancelled, then the first one filled by an order reusing blocks, then the last cancelled'
BREAKS='the order after the cancelled one forgets the order before it'
DEMO='#include <esl/economics/markets/order_book/static_order_book.hpp>\n#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>\n#include <esl/agent.hpp>\n#include <esl/economics/currencies.hpp>\n#include <set>\nusing namespace esl; using namespace esl::economics; using namespace esl::economics::markets::order_book; using esl::economics::markets::quote;\nstatic quote q(double d){ return quote(price::approximate(d, currencies::USD), 100*currencies::USD.denominator); }\nstatic limit_order o(limit_order::side_t s, double p, std::uint32_t n, std::uint64_t who=1){ return limit_order(markets::ticker(), identity<agent>({who}), s, q(p), n, limit_order::lifetime_t::good_until_cancelled); }\nint main(){ static_order_book b(q(0.01), q(10), 8); b.insert(o(limit_order::sell,5,10,1)); b.insert(o(limit_order::sell,5,10,2)); b.insert(o(limit_order::sell,5,10,3));\n auto v=b.orders(); b.cancel(v[1]); b.cancel(v[2]); b.insert(o(limit_order::sell,5,10,4)); return b.orders().size()==2 ? 0 : 1; }'
