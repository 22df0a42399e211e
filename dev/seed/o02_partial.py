P='O02'; F='esl/economics/markets/order_book/static_order_book.hpp'
def edit(s): return s.replace("const bool exhausted_ = ao->data.quantity <= remainder_;","const bool exhausted_ = ao->data.quantity < remainder_;")
NEEDS='an order that fills a resting order exactly'
BREAKS='an order without quantity stays in the book'
DEMO='#include <esl/economics/markets/order_book/static_order_book.hpp>\n#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>\n#include <esl/agent.hpp>\n#include <esl/economics/currencies.hpp>\n#include <set>\nusing namespace esl; using namespace esl::economics; using namespace esl::economics::markets::order_book; using esl::economics::markets::quote;\nstatic quote q(double d){ return quote(price::approximate(d, currencies::USD), 100*currencies::USD.denominator); }\nstatic limit_order o(limit_order::side_t s, double p, std::uint32_t n, std::uint64_t who=1){ return limit_order(markets::ticker(), identity<agent>({who}), s, q(p), n, limit_order::lifetime_t::good_until_cancelled); }\nint main(){ static_order_book b(q(0.01), q(10), 8); b.insert(o(limit_order::sell,5,10,1)); b.insert(o(limit_order::sell,6,10,2));\n b.insert(o(limit_order::buy,5,10,3)); return b.orders().size()==1 && b.ask().value()==q(6) ? 0 : 1; }'
