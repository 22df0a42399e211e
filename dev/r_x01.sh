. /tmp/w/m.sh; P=X01; F=esl/economics/markets/centralized_exchange.hpp; T=4
m helper-report <<'E'
s=s.replace("""                    simulation::time_point arrival_ = ti.lower;
                    if(communication_model) {
                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                    }
                    auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                    response_->sender = (*this);
                    response_->order  = m->order_details;
                    response_->sent   = ti.lower;
                    response_->report = r;
""","""                    report_to_owner(r, ti, seed)->order = m->order_details;
""")
s=s.replace("""                                            simulation::time_point arrival_ = step.lower;
                                            if(communication_model) {
                                                arrival_ += communication_model->sample(identifier, r.owner, s);
                                            }
                                            auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                                            response_->sender = (*this);
                                            response_->sent   = step.lower;
                                            response_->report = r;
""","""                                            report_to_owner(r, step, s);
""")
s=s.replace("""        simulation::time_point insert_order(""","""        simulation::time_point arrival(const identity<agent> &to, const simulation::time_interval &ti, std::seed_seq &seed)
        {
            return communication_model ? ti.lower + communication_model->sample(identifier, to, seed) : ti.lower;
        }

        std::shared_ptr<execution_report_message> report_to_owner(const execution_report &r, simulation::time_interval ti, std::seed_seq &seed)
        {
            auto response_ = this->template create_message<execution_report_message>(r.owner, arrival(r.owner, ti, seed));
            response_->sender = this->identifier;
            response_->sent   = ti.lower;
            response_->report = r;
            return response_;
        }

        simulation::time_point insert_order(""",1)
E
m publish-flag <<'E'
s=s.replace("if(trade_ ? r.owner == m->sender : best_bid_ask_){","const bool publish_ = trade_ ? r.owner == m->sender : best_bid_ask_;\n                if(!publish_) {\n                    continue;\n                }\n                {")
E
m publish-or <<'E'
s=s.replace("if(trade_ ? r.owner == m->sender : best_bid_ask_){","if((trade_ && r.owner == m->sender) || (!trade_ && best_bid_ask_)){")
E
m quotes-late <<'E'
s=s.replace("auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());","auto best_bid_ask_ = !trade_ && !(ask_ == b.ask() && bid_ == b.bid());")
E
m due-pos <<'E'
s=s.replace("""                        if(details_.start + details_.periodicity > ti.lower) {
                            continue;
                        }
""","""                        if(ti.lower < details_.start + details_.periodicity) {
                            continue;
                        }
""")
E
m due-nest <<'E'
s=s.replace("""                        if(details_.start + details_.periodicity > ti.lower) {
                            continue;
                        }
""","""                        const auto next_ = details_.periodicity + details_.start;
                        if(next_ <= ti.lower) {
""").replace("""                            market_data_->bid.push_back({b.bid().value(), 1});
                        }
""","""                            market_data_->bid.push_back({b.bid().value(), 1});
                        }
                        }
""")
E
m sub-pair <<'E'
s=s.replace("for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {","for(auto &pair_: market_data_subscriptions[m->order_details.symbol]) {\n                        const auto &subscriber_ = pair_.first;\n                        auto &details_ = pair_.second;\n")
E
m sub-find <<'E'
s=s.replace("""                if(market_data_subscriptions.end() == market_data_subscriptions.find(m->order_details.symbol)) {
                    continue;
                }""","""                auto subscribers_ = market_data_subscriptions.find(m->order_details.symbol);
                if(market_data_subscriptions.end() == subscribers_) {
                    continue;
                }""").replace("for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {","for(auto &[subscriber_, details_]: subscribers_->second) {")
E
m sub-helper <<'E'
a=s.index("                        simulation::time_point arrival_ = ti.lower;\n                        if(communication_model) {\n\n"); b=s.index("                    }\n                }\n            }\n            b.reports.clear();")
body=s[a:b]
s=s[:a]+"                        publish(subscriber_, b, m->order_details.symbol, r, ti, seed);\n"+s[b:]
body=body.replace("m->order_details.symbol","symbol").replace("if(trade_)","if(r.state == execution_report::state_t::match)")
s=s.replace("        simulation::time_point insert_order(","        void publish(const identity<agent> &subscriber_, order_book::basic_book &b, const ticker &symbol, const execution_report &r, simulation::time_interval ti, std::seed_seq &seed)\n        {\n"+body+"        }\n\n        simulation::time_point insert_order(",1)
E
m has-local <<'E'
s=s.replace("""                        if(b.ask().has_value()) {
                            market_data_->ask.push_back({b.ask().value(), 1});
                        }""","""                        if(const auto best_ = b.ask()) {
                            market_data_->ask.emplace_back(*best_, 1);
                        }""")
E
m rep-index <<'E'
s=s.replace("            for(const auto & r: b.reports){\n","            for(size_t n = 0; n < b.reports.size(); ++n){\n                const execution_report &r = b.reports[n];\n",1)
E
m rep-iter <<'E'
s=s.replace("            for(const auto & r: b.reports){\n","            for(auto it_ = b.reports.begin(); it_ != b.reports.end(); ++it_){\n                const auto &r = *it_;\n",1)
E
m rep-copy <<'E'
s=s.replace("            for(const auto & r: b.reports){\n","            for(auto r: b.reports){\n",1)
E
m book-ptr <<'E'
s=s.replace("order_book::basic_book &b = *(i->second);","auto book_ = i->second;\n            auto &b = *book_;")
E
m book-at <<'E'
s=s.replace("            auto i = books.find(m->order_details.symbol);\n\n            if(i == books.end()) {","            if(books.count(m->order_details.symbol) == 0) {").replace("*(i->second);\n\n            const auto ask_","*books.at(m->order_details.symbol);\n\n            const auto ask_")
E
m via-insert <<'E'
s=s.replace("            b.insert(m->order_details);\n","            this->insert(m->order_details);\n")
E
m symbol-local <<'E'
s=s.replace("            auto i = books.find(m->order_details.symbol);","            const auto &symbol_ = m->order_details.symbol;\n            auto i = books.find(symbol_);").replace("market_data_->symbol = m->order_details.symbol","market_data_->symbol = symbol_").replace("market_data_subscriptions[m->order_details.symbol]","market_data_subscriptions[symbol_]")
E
m logon-index <<'E'
s=s.replace("positions[t].insert_or_assign(m->sender, position_);","positions[t][m->sender] = position_;")
E
m logon-it <<'E'
s=s.replace("""                if(m->supply.find(t) != m->supply.end()){
                    position_.supply = m->supply.find(t)->second;
                }""","""                auto supplied_ = m->supply.find(t);
                if(supplied_ != m->supply.end()){
                    position_.supply = supplied_->second;
                }""")
E
m logon-ctor <<'E'
a=s.index("                position_report position_;\n"); b=s.index("                positions[t].insert_or")
s=s[:a]+"""                auto supplied_ = m->supply.find(t);
                const std::uint64_t supply_ = supplied_ == m->supply.end() ? 0 : supplied_->second;
                positions[t].insert_or_assign(m->sender, position_report(supply_));
"""+s[s.index("\n",b)+1:]
E
m logout-key <<'E'
s=s.replace("                positions_->second.erase(individual_);\n","                positions_->second.erase(m->sender);\n")
E
m logout-keep <<'E'
s=s.replace("""                if(positions_->second.empty()) {
                    positions.erase(positions_);
                }
""","")
E
m logout-nest <<'E'
s=s.replace("""                if(positions_->second.end() == individual_) {  
                    continue;
                }
""","""                if(positions_->second.end() != individual_) {  
""").replace("""                positions_->second.erase(individual_);
                if(positions_->second.empty()) {
                    positions.erase(positions_);
                }
""","""                positions_->second.erase(individual_);
                if(positions_->second.empty()) {
                    positions.erase(positions_);
                }
                }
""")
E
m req-switch <<'E'
s=s.replace("if(market_data_request_message::snapshot == m->type){","switch(m->type) {\n                        case market_data_request_message::snapshot: {",1)
s=s.replace("                        }else if(market_data_request_message::cancel == m->type) {","                        break; }\n                        case market_data_request_message::cancel: {")
s=s.replace("                        }else if(market_data_request_message::stream == m->type) {","                        break; }\n                        case market_data_request_message::stream: {")
s=s.replace("""                            }else{
                                subscription_->second = s;
                            }
                        }
                    }
""","""                            }else{
                                subscription_->second = s;
                            }
                        break; }
                        }
                    }
""")
E
m req-assign <<'E'
s=s.replace("""                            if(market_data_subscriptions[i].end() == subscription_){
                                market_data_subscriptions[i].insert(
                                    {m->sender, s});
                            }else{
                                subscription_->second = s;
                            }
""","""                            (void)subscription_;
                            market_data_subscriptions[i].insert_or_assign(m->sender, s);
""")
E
m req-index <<'E'
s=s.replace("""                            if(market_data_subscriptions[i].end() == subscription_){
                                market_data_subscriptions[i].insert(
                                    {m->sender, s});
                            }else{
                                subscription_->second = s;
                            }
""","""                            (void)subscription_;
                            market_data_subscriptions[i][m->sender] = s;
""")
E
m req-agg <<'E'
a=s.index("                              centralized_exchange::data_subscription s;\n                              s.depth"); b=s.index("\n",s.index("s.periodicity = 0;"))+1
s=s[:a]+"                            const centralized_exchange::data_subscription s{m->depth, ti.lower, 0};\n"+s[b:]
E
m req-erase <<'E'
a=s.index("                            auto subscription_ = market_data_subscriptions[i].find(m->sender);\n                            if(market_data_subscriptions[i].end() == subscription_) {"); b=s.index("\n",s.index("market_data_subscriptions[i].erase(subscription_);"))+1
s=s[:a]+"                            instrument_->second.erase(m->sender);\n"+s[b:]
E
m req-helper <<'E'
s=s.replace("""                            if(market_data_subscriptions[i].end() == subscription_){
                                market_data_subscriptions[i].insert(
                                    {m->sender, s});
                            }else{
                                subscription_->second = s;
                            }
""","""                            (void)subscription_;
                            subscribe(i, m->sender, s);
""")
s=s.replace("        simulation::time_point insert_order(","""        void subscribe(const ticker &t, const identity<agent> &who, const data_subscription &d)
        {
            auto &all_ = market_data_subscriptions[t];
            auto found_ = all_.find(who);
            if(found_ != all_.end()) {
                found_->second = d;
                return;
            }
            all_.emplace(who, d);
        }

        simulation::time_point insert_order(""",1)
E
m cancel-helper <<'E'
a=s.index("                                        cancel(m->symbol, m->order); \n"); b=s.index("                                        return step.upper;\n                                    }\n                                 , \"cancel")
body=s[a:b].replace("return step.upper;","return;")
s=s[:a]+"                                        cancel_order(m, step, s);\n"+s[b:]
s=s.replace("        simulation::time_point insert_order(","        void cancel_order(std::shared_ptr<cancel_order_message> m, simulation::time_interval step, std::seed_seq &s)\n        {\n"+body+"        }\n\n        simulation::time_point insert_order(",1)
E
m cancel-direct <<'E'
s=s.replace("""                                        cancel(m->symbol, m->order); 
                                        auto i = books.find(m->symbol);
                                        if(books.end() == i) {
                                            return step.upper;
                                        }
""","""                                        auto i = books.find(m->symbol);
                                        if(books.end() == i) {
                                            return step.upper;
                                        }
                                        i->second->cancel(m->order);
""")
E
m cancel-move <<'E'
s=s.replace("for(const auto &r: i->second->reports) {","auto &reports_ = i->second->reports;\n                                        for(const auto &r: reports_) {").replace("i->second->reports.clear();\n                                        return","reports_.clear();\n                                        return")
E
m this-cap <<'E'
s=s.replace("[&]( auto m","[this]( auto m").replace("[&](std::shared_ptr<new","[this](std::shared_ptr<new")
E
