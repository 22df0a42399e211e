. /tmp/w/m.sh; P=X01; F=esl/economics/markets/centralized_exchange.hpp; T=3
m to-sender <<'E'
s=s.replace("create_message<execution_report_message>(r.owner, arrival_)","create_message<execution_report_message>(m->sender, arrival_)",1)
E
m only-match <<'E'
s=s.replace("                // notify the participants involved in the trade\n                {","                if(r.state == execution_report::state_t::match || r.owner == m->sender) {",1)
E
m noclear <<'E'
s=s.replace("            b.reports.clear();\n            return ti.upper;","            return ti.upper;",1)
E
m clear-first <<'E'
s=s.replace("            b.reports.clear();\n            return ti.upper;","            return ti.upper;",1).replace("            b.insert(m->order_details);","            b.reports.clear();\n            b.insert(m->order_details);",1)
E
m ask-late <<'E'
s=s.replace("            const auto bid_ = b.bid();\n\n            b.insert(m->order_details);","            b.insert(m->order_details);\n            const auto bid_ = b.bid();",1)
E
m ask-and <<'E'
s=s.replace("(ask_ != b.ask() || bid_ != b.bid())","(ask_ != b.ask() && bid_ != b.bid())")
E
m ask-only <<'E'
s=s.replace("(ask_ != b.ask() || bid_ != b.bid())","(ask_ != b.ask())")
E
m twice <<'E'
s=s.replace("if(trade_ ? r.owner == m->sender : best_bid_ask_){","if(trade_ || best_bid_ask_){")
E
m due-ge <<'E'
s=s.replace("details_.start + details_.periodicity > ti.lower","details_.start + details_.periodicity >= ti.lower")
E
m due-start <<'E'
s=s.replace("                        details_.start = ti.lower;\n","                        details_.start += details_.periodicity;\n")
E
m due-nostart <<'E'
s=s.replace("                        details_.start = ti.lower;\n","")
E
m break <<'E'
s=s.replace("if(details_.start + details_.periodicity > ti.lower) {\n                            continue;","if(details_.start + details_.periodicity > ti.lower) {\n                            break;")
E
m copy <<'E'
s=s.replace("for(auto &[subscriber_, details_]: market","for(auto [subscriber_, details_]: market")
E
m data-latency <<'E'
s=s.replace("                                identifier, subscriber_, seed)","                                identifier, m->sender, seed)")
E
m data-bid <<'E'
s=s.replace("market_data_->bid.push_back({b.bid().value(), 1});","market_data_->bid.push_back({bid_.value(), 1});")
E
m data-swap <<'E'
s=s.replace("market_data_->bid.push_back","market_data_->ask.push_back")
E
m data-trades <<'E'
s=s.replace("                        if(trade_) {\n","                        {\n")
E
m data-trade2 <<'E'
s=s.replace("push_back({r.limit, r.quantity});","push_back({m->order_details.limit, r.quantity});")
E
m data-symbol <<'E'
s=s.replace("                        market_data_->symbol = m->order_details.symbol;\n","")
E
m log-all <<'E'
s=s.replace(" && r.owner == m->sender) {\n                    output","){\n                    output")
E
m log-limit <<'E'
s=s.replace("                                        , r.limit\n","                                        , m->order_details.limit\n")
E
m logon-keep <<'E'
s=s.replace("positions[t].insert_or_assign(m->sender, position_);","positions[t].emplace(m->sender, position_);")
E
m logon-zero <<'E'
s=s.replace("                    position_.supply = m->supply.find(t)->second;","                    position_.bought = m->supply.find(t)->second;")
E
m logon-static <<'E'
s=s.replace("                position_report position_;\n\n                if(m->supply","                if(m->supply").replace("            for(const auto &t: traded_properties){\n                if(m->supply","            position_report position_;\n            for(const auto &t: traded_properties){\n                if(m->supply")
E
m logout-all <<'E'
s=s.replace("                positions_->second.erase(individual_);\n                if(positions_->second.empty()) {\n","                positions_->second.erase(individual_);\n                {\n")
E
m logout-return <<'E'
s=s.replace("                // the individual did not trade in this market\n                if(positions_->second.end() == individual_) {  \n                    continue;","                if(positions_->second.end() == individual_) {  \n                    break;")
E
m logout-nocheck <<'E'
s=s.replace("                // the individual did not trade in this market\n                if(positions_->second.end() == individual_) {  \n                    continue;\n                }","")
E
m req-snap <<'E'
s=s.replace("s.periodicity = std::numeric_limits<simulation::time_point>::max();","s.periodicity = 0;")
E
m req-start <<'E'
s=s.replace("                              s.start = ti.lower;\n","")
E
m req-insert <<'E'
s=s.replace("""                            }else{
                                subscription_->second = s;
                            }""","""                            }""")
E
m req-cancelall <<'E'
s=s.replace("market_data_subscriptions[i].erase(subscription_);","market_data_subscriptions.erase(i);")
E
m req-upper <<'E'
s=s.replace("s.start = ti.lower;","s.start = ti.upper;")
E
m cancel-past <<'E'
s=s.replace("""                                        i->second->reports.clear();
                                        return step.upper;""","""                                        return step.upper;""")
E
m cancel-first <<'E'
s=s.replace("""                                        cancel(m->symbol, m->order); 
                                        auto i""","""                                        auto i""").replace("""                                        i->second->reports.clear();
                                        return step.upper;""","""                                        i->second->reports.clear();
                                        cancel(m->symbol, m->order); 
                                        return step.upper;""")
E
m cancel-sym <<'E'
s=s.replace("""            if(books.end() != i){
                i->second->cancel(identifier);""","""            if(books.end() == i) {
                i = books.begin();
            }
            if(books.end() != i){
                i->second->cancel(identifier);""")
E
m cancel-all <<'E'
s=s.replace("""            auto i = books.find(symbol);
            if(books.end() != i){
                i->second->cancel(identifier);
            }""","""            (void) symbol;
            for(auto &[k, b] : books) {
                b->cancel(identifier);
            }""")
E
m ins-first <<'E'
s=s.replace("            auto i = books.find(order.symbol);","            auto i = books.lower_bound(order.symbol);")
E
m dup-register <<'E'
s=s.replace("return insert_order(m, ti, s);","return logon_participant(nullptr, ti, s);")
E
m byref <<'E'
s=s.replace("""            books.reserve(traded.size());""","""            books.reserve(traded.size());
            unsigned long orders_ = 0;""").replace("                                        return insert_order(m, ti, s);","                                        ++orders_;\n                                        return insert_order(m, ti, s);")
E
