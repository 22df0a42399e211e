P='O01'; F='esl/economics/markets/order_book/binary_tree_order_book.hpp'
def edit(s): return s.replace("orders_ask.emplace(order.limit, pair_);","orders_ask.emplace_hint(orders_ask.lower_bound(order.limit), order.limit, pair_);")
NEEDS='two sell orders at one price, then a buy order that fills only one'
BREAKS='the later order at a price trades first'
DEMO='#include <esl/economics/markets/order_book/static_order_book.hpp>\n#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>\n#include <esl/agent.hpp>\n#include <esl/economics/currencies.hpp>\n#include <set>\nusing namespace esl; using namespace esl::economics; using namespace esl::economics::markets::order_book; using esl::economics::markets::quote;\nstatic quote q(double d){ return quote(price::approximate(d, currencies::USD), 100*currencies::USD.denominator); }\nstatic limit_order o(limit_order::side_t s, double p, std::uint32_t n, std::uint64_t who=1){ return limit_order(markets::ticker(), identity<agent>({who}), s, q(p), n, limit_order::lifetime_t::good_until_cancelled); }\nint main(){ binary_tree_order_book b; b.insert(o(limit_order::sell,5,10,1)); b.insert(o(limit_order::sell,5,10,2)); b.reports.clear(); b.insert(o(limit_order::buy,5,10,3));\n for(auto &r: b.reports) if(r.state==execution_report::match && r.owner==identity<agent>({2})) return 1; return 0; }'
