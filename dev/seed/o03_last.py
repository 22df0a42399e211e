P='O03'; F='esl/economics/markets/order_book/static_order_book.hpp'
def edit(s): return s.replace("if(limit_level_->second->index == order) {","if(limit_level_->second->index == order && limit_level_->first->index == order) {")
NEEDS='the last of several orders at a level is cancelled, then another arrives'
BREAKS='the new order is appended to the cancelled one and never found'
DEMO='#include <esl/economics/markets/order_book/static_order_book.hpp>\n#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>\n#include <esl/agent.hpp>\n#include <esl/economics/currencies.hpp>\n#include <set>\nusing namespace esl; using namespace esl::economics; using namespace esl::economics::markets::order_book; using esl::economics::markets::quote;\nstatic quote q(double d){ return quote(price::approximate(d, currencies::USD), 100*currencies::USD.denominator); }\nstatic limit_order o(limit_order::side_t s, double p, std::uint32_t n, std::uint64_t who=1){ return limit_order(markets::ticker(), identity<agent>({who}), s, q(p), n, limit_order::lifetime_t::good_until_cancelled); }\nint main(){ static_order_book b(q(0.01), q(10), 8); b.insert(o(limit_order::sell,5,10,1)); b.insert(o(limit_order::sell,5,10,2));\n auto last=b.orders().back(); b.cancel(last); b.insert(o(limit_order::sell,6,10,4)); b.insert(o(limit_order::sell,5,10,5)); b.reports.clear(); b.insert(o(limit_order::buy,5,20,6)); unsigned n=0; for(auto &r: b.reports) if(r.state==execution_report::match && r.owner==identity<agent>({6})) n+=r.quantity; return n==20 ? 0 : 1; }'
