. /tmp/w/m.sh; P=O01; F=esl/economics/markets/order_book/binary_tree_order_book.hpp; T=2
m cross-strict <<'E'
s=s.replace("order.limit >= i->first","order.limit > i->first")
E
m cross-flip <<'E'
s=s.replace("order.limit <= i->first","order.limit >= i->first")
E
m price-taker <<'E'
s=s.replace("""                        direct_order,
                        i->second.second.limit,
                        order.owner
                    ));""","""                        direct_order,
                        order.limit,
                        order.owner
                    ));""")
E
m price-both <<'E'
a=s.index("auto remainder_ = order.quantity;\n\n                std::vector<decltype(orders_bid")
s=s[:a]+s[a:].replace("i->second.second.limit","order.limit")
E
m less <<'E'
s=s.replace("std::greater<>","std::less<>")
E
m owner <<'E'
s=s.replace("                        i->second.second.limit,\n                        i->second.second.owner","                        i->second.second.limit,\n                        order.owner",1)
E
m nodec <<'E'
s=s.replace("i->second.second.quantity -= executed_;","i->second.second.quantity = 0;",1)
E
m norem <<'E'
s=s.replace("remainder_ -= executed_;","remainder_ -= std::min(remainder_, order.quantity);",1)
E
m max <<'E'
s=s.replace("std::min(remainder_, i->second.second.quantity)","std::max(remainder_, i->second.second.quantity)",1)
E
m noindex <<'E'
s=s.replace("limit_orders_.erase(matched_identifier_);","",1)
E
m erase-all <<'E'
s=s.replace("if(0 == i->second.second.quantity){\n                        //orders_ask","if(0 == remainder_){\n                        //orders_ask",1)
E
m placeqty <<'E'
s=s.replace("placed_.quantity    = remainder_;","placed_.quantity    = order.quantity;",1)
E
m placeside <<'E'
s=s.replace("orders_bid.emplace(order.limit, pair_);","orders_ask.emplace(order.limit, pair_);",1)
E
m nonext <<'E'
i=s.index("++next_;"); j=s.index("++next_;",i+1)
s=s[:j]+s[j+8:]
E
m hint <<'E'
s=s.replace("orders_ask.emplace(order.limit, pair_);","orders_ask.emplace_hint(orders_ask.begin(), order.limit, pair_);",1)
E
m firstonly <<'E'
s=s.replace("        orders_ask.erase(it);\n                }","        orders_ask.erase(it); break;\n                }",1)
E
m stop <<'E'
s=s.replace("i != orders_ask.end() && order.limit >= i->first","i != orders_ask.end() && reports.size() < 14 && order.limit >= i->first",1)
E
m selftrade <<'E'
s=s.replace("                    auto executed_ =\n","                    if(i->second.second.owner == order.owner) { continue; }\n                    auto executed_ =\n",1)
E
m cancel-first <<'E'
s=s.replace("if(i->second.first == order) {","if(i->second.first <= order) {",1)
E
m cancel-side <<'E'
s=s.replace("orders_bid.erase(i);\n                            limit","orders_bid.erase(begin_, end_);\n                            limit",1)
E
m cancel-quantity <<'E'
s=s.replace(", limit_order::sell\n                                , i->second.second.quantity",", limit_order::sell\n                                , 0")
E
m cancel-listed <<'E'
i=s.rindex("limit_orders_.erase(o);"); s=s[:i]+s[i+23:]
E
m best <<'E'
s=s.replace("return quote(orders_ask.begin()->first);","return quote(orders_ask.rbegin()->first);")
E
m best2 <<'E'
s=s.replace("return quote(orders_ask.begin()->first);","return quote(orders_bid.begin()->first);")
E
m list <<'E'
s=s.replace("result_.push_back(i->first);","if(i->first) result_.push_back(i->first);")
E
m report-once <<'E'
i=s.index("                    reports.emplace_back(execution_report {\n                        execution_report::match,\n                        i->second"); j=s.index("});",i)+3
s=s[:i]+"if(order.owner != i->second.second.owner) "+s[i:].lstrip()
E
m ioc <<'E'
s=s.replace("limit_order::lifetime_t::good_until_cancelled != order.lifetime","limit_order::lifetime_t::immediate_or_cancel == order.lifetime")
E
F=esl/economics/markets/order_book/matching_engine.hpp
m eng <<'E'
s=s.replace("auto i = books.find(order.symbol);","auto i = books.lower_bound(order.symbol);")
E
m eng2 <<'E'
s=s.replace("if(i == books.end()) {","if(i == books.end() || !i->second->bid()) {",1)
E
m eng3 <<'E'
s=s.replace("if(books.end() != i){","if(books.end() == i){",1)
E
F=esl/economics/markets/order_book/binary_tree_order_book.hpp
m cancel-gt <<'E'
s=s.replace("bid().value() >= o->second","bid().value() > o->second")
E
m cancel-noask <<'E'
s=s.replace("ask().has_value() && ask().value() <= o->second","!bid().has_value() && ask().has_value() && ask().value() <= o->second")
E
m cancel-range <<'E'
s=s.replace("orders_ask.equal_range(o->second)","orders_ask.equal_range(ask().value())")
E
echo ---------- refactorings
m r-eraseloop <<'E'
s=s.replace("""                    if(0 == i->second.second.quantity){
                        //orders_ask.erase(i);
                        //i = orders_ask.begin();
                        erase_.push_back(i);
                        limit_orders_.erase(matched_identifier_);
                    }
                }

                for(const auto it : erase_) {
                    orders_ask.erase(it);
                }
""","""                    if(0 == i->second.second.quantity){
                        i = orders_ask.erase(i);
                        limit_orders_.erase(matched_identifier_);
                    }else{
                        ++i;
                    }
                }
""").replace("""i != orders_ask.end() && order.limit >= i->first
                   ; ++ i){""","""i != orders_ask.end() && order.limit >= i->first
                   ; ){""").replace("std::vector<decltype(orders_ask.begin())> erase_;\n","")
E
m r-helper <<'E'
s=s.replace("""                if(remainder_ > 0 && limit_order::lifetime_t::good_until_cancelled != order.lifetime) {
                    // orders that must be executed immediately never rest
                    reports.emplace_back(execution_report {
                        execution_report::cancel,
                        order.side,
                        remainder_,
                        direct_order,
                        order.limit,
                        order.owner});
                }else if(remainder_ > 0) {""","""                if(remainder_ > 0 && limit_order::lifetime_t::good_until_cancelled != order.lifetime) {
                    kill(order, remainder_);
                }else if(remainder_ > 0) {""").replace("""        void insert(const limit_order &order) override""","""        void kill(const limit_order &order, std::uint32_t remainder)
        {
            reports.emplace_back(execution_report::cancel, order.side, remainder, direct_order, order.limit, order.owner);
        }

        void insert(const limit_order &order) override""")
E
m r-while <<'E'
s=s.replace("""                for( auto i = orders_ask.begin()
                   ; i != orders_ask.end() && order.limit >= i->first
                   ; ++ i){
""","""                for(auto i = orders_ask.begin(); i != orders_ask.end(); ++i) {
                    if(i->first > order.limit || remainder_ == 0) {
                        break;
                    }
""")
E
m r-auto <<'E'
s=s.replace("""                    i->second.second.quantity -= executed_;
                    auto matched_identifier_ = i->second.first;
""","""                    auto &[matched_identifier_, resting_] = i->second;
                    resting_.quantity -= executed_;
""",1)
E
m r-sell <<'E'
s=s.replace("if(limit_order::side_t::buy == order.side){","if(order.side != limit_order::side_t::sell){")
E
m r-place <<'E'
s=s.replace("""                    limit_order placed_ = order;
                    placed_.quantity    = remainder_;
                    auto pair_          = std::make_pair(next_, placed_);
                    orders_bid.emplace(order.limit, pair_);
                    limit_orders_.emplace(next_, order.limit);
                    reports.emplace_back(execution_report {
                        execution_report::placement,
                        order.side, 
                        remainder_,
                        next_,
                        order.limit,
                        order.owner});
                    ++next_;""","""                    const auto identifier_ = next_++;
                    limit_order placed_ = order;
                    placed_.quantity    = remainder_;
                    limit_orders_[identifier_] = order.limit;
                    orders_bid.insert({order.limit, {identifier_, placed_}});
                    reports.push_back(execution_report(execution_report::placement, order.side, placed_.quantity, identifier_, placed_.limit, placed_.owner));""")
E
m r-list <<'E'
i=s.index("for(decltype(limit_orders_)::const_iterator"); j=s.index("return result_;",i)
s=s[:i]+"""result_.reserve(limit_orders_.size());
            for(const auto &[k, v] : limit_orders_) {
                result_.push_back(k);
            }
            """+s[j:]
E
m r-list2 <<'E'
i=s.index("for(decltype(limit_orders_)::const_iterator"); j=s.index("return result_;",i)
s=s[:i]+"""for(const auto &o : limit_orders_) {
                result_.emplace_back(o.first);
            }
            """+s[j:]
E
m r-bid <<'E'
s=s.replace("""            if(orders_bid.empty()){
                return {};
            }
            return quote(orders_bid.begin()->first);""","""            return orders_bid.empty() ? std::nullopt : std::make_optional(orders_bid.begin()->first);""")
E
m r-bid2 <<'E'
s=s.replace("""            if(orders_bid.empty()){
                return {};
            }
            return quote(orders_bid.begin()->first);""","""            std::optional<quote> result_;
            if(auto i = orders_bid.begin(); i != orders_bid.end()) {
                result_ = i->first;
            }
            return result_;""")
E
m r-cancel <<'E'
s=s.replace("""            if(limit_orders_.end() != o) {
                
                if(bid()""","""            if(limit_orders_.end() == o) {
                return;
            }
            {
                if(bid()""")
E
m r-cancel2 <<'E'
s=s.replace("if(bid().has_value() && bid().value() >= o->second) {","const auto limit_ = o->second;\n                const auto bid_ = bid();\n                if(bid_ && *bid_ >= limit_) {")
E
m r-cancel3 <<'E'
s=s.replace("for(auto i = begin_; i != end_; ++i) {\n                        if(i->second.first == order) {\n                            reports.emplace_back(execution_report \n                                { execution_report::cancel\n                                , limit_order::sell","for(auto i = begin_; i != end_; ++i) {\n                        if(i->second.first != order) {\n                            continue;\n                        }\n                        {\n                            reports.emplace_back(execution_report \n                                { execution_report::cancel\n                                , limit_order::sell")
E
m r-min <<'E'
s=s.replace("auto executed_ = std::min(remainder_, i->second.second.quantity);","const auto executed_ = remainder_ < i->second.second.quantity ? remainder_ : i->second.second.quantity;")
E
F=esl/economics/markets/order_book/matching_engine.hpp
m r-eng <<'E'
s=s.replace("""            auto i = books.find(order.symbol);

            if(i == books.end()) {
                i = books.emplace(order.symbol, order_book_factory_()).first;
            }
            return i->second->insert(order);""","""            if(books.count(order.symbol) == 0) {
                books.emplace(order.symbol, order_book_factory_());
            }
            books.at(order.symbol)->insert(order);""")
E
m r-eng2 <<'E'
s=s.replace("""            if(books.end() != i){
                i->second->cancel(identifier);
            }""","""            if(i == books.end()) {
                return;
            }
            const auto &book_ = i->second;
            book_->cancel(identifier);""")
E
