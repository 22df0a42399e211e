. /tmp/w/m.sh; P=O03; F=esl/economics/markets/order_book/static_order_book.hpp; T=2
m contains <<'E'
s=s.replace("if(!pool_.contains(order)) {","if(pool_.empty()) {")
E
m side <<'E'
s=s.replace("bid_.value() < order_.limit){","bid_.value() <= order_.limit){")
E
m sideask <<'E'
s=s.replace("!bid_.has_value() || bid_.value() < order_.limit","bid_.has_value() && bid_.value() < order_.limit")
E
m first <<'E'
s=s.replace("""                    limits_[limit_index_].first =
                        limit_level_->first->data.successor;""","""                    limits_[limit_index_].first =
                        limit_level_->second;""")
E
m second <<'E'
s=s.replace("""                        limit_level_->second->data.predecessor;""","""                        limit_level_->second->data.successor;""")
E
m elsif <<'E'
s=s.replace("""                if(limit_level_->second->index == order) {""","""                else if(limit_level_->second->index == order) {""")
E
m erase-other <<'E'
s=s.replace("auto result_ = pool_.erase(order);","auto result_ = pool_.erase(limit_level_->first ? limit_level_->first->index : order);")
E
m qty <<'E'
s=s.replace("""                                         , order_.quantity
                                         , order
""","""                                         , 0
                                         , order
""")
E
m clearfirst <<'E'
s=s.replace("""                reports.emplace_back(execution_report
                                         ( execution_report::cancel
                                         , side_""","""                order_.owner    = identity<agent>();
                reports.emplace_back(execution_report
                                         ( execution_report::cancel
                                         , side_""")
E
m pred <<'E'
s=s.replace("order_.predecessor->data.successor = order_.successor; ","order_.predecessor->data.successor = nullptr; ")
E
m succ <<'E'
s=s.replace("order_.successor->data.predecessor = order_.predecessor;","")
E
m predclear <<'E'
s=s.replace("""                if(order_.successor) {
                    order_.successor->data.predecessor""","""                order_.predecessor = nullptr;
                if(order_.successor) {
                    order_.successor->data.predecessor""")
E
m noupd <<'E'
s=s.replace("""                update_best_bid();
                update_best_ask();
            }""","""                update_best_bid();
            }""")
E
m updbefore <<'E'
s=s.replace("""                update_best_bid();
                update_best_ask();
            }""","""            }""").replace("                limit limit_index_;\n                auto encode_success_ = encode(valid_limits, order_.limit","                update_best_bid();\n                update_best_ask();\n                limit limit_index_;\n                auto encode_success_ = encode(valid_limits, order_.limit")
E
m noreport <<'E'
s=s.replace("""                                         ( execution_report::cancel
                                         , side_""","""                                         ( execution_report::invalid
                                         , side_""")
E
m eraseearly <<'E'
s=s.replace("                auto result_ = pool_.erase(order);\n","").replace("                if(limit_level_->first->index == order) {","                auto result_ = pool_.erase(order);\n                if(limit_level_->first->index == order) {")
E
m bidnull <<'E'
a=s.index("std::optional<quote> bid() const override")
s=s[:a]+s[a:].replace("if(!best_bid_){","if(!best_ask_){",1)
E
m askpos <<'E'
s=s.replace("std::ptrdiff_t limit_ = best_ask_ - &limits_[0];","std::ptrdiff_t limit_ = best_ask_ - &limits_[0] + 1;")
E
m orders-last <<'E'
s=s.replace("i <= &limits_[limits_.size() - 1]; ++i) {\n                    for","i < &limits_[limits_.size() - 1]; ++i) {\n                    for")
E
m orders-first <<'E'
s=s.replace("for(auto i = &limits_[0]; i <=","for(auto i = &limits_[1]; i <=",1)
E
m orders-one <<'E'
s=s.replace("for(auto o = i->first; o; o = o->data.successor) {","if(auto o = i->first) {").replace("break;\n                        }\n                    }\n                }\n\n                return result_","}\n                    }\n                }\n\n                return result_",1)
E
m orders-best <<'E'
s=s.replace("for(auto i = &limits_[0]; i <= &limits_[limits_.size() - 1]; ++i) {\n                    for(auto o","for(auto i = best_bid_; i <= &limits_[limits_.size() - 1]; ++i) {\n                    for(auto o")
E
T=4
m r-local <<'E'
a=s.index("                if(order_.predecessor) {\n                    order_.predecessor->data.successor"); b=s.index("                order_.limit    = quote();")
s=s[:a]+"""                auto before_ = order_.predecessor;
                auto after_ = order_.successor;
                if(after_ != nullptr){
                    after_->data.predecessor = before_;
                }
                if(before_ != nullptr){
                    before_->data.successor = after_;
                }
                order_.predecessor = order_.successor = nullptr;
"""+s[b:]
E
m r-range <<'E'
s=s.replace("for(auto i = &limits_[0]; i <= &limits_[limits_.size() - 1]; ++i) {\n                    for(auto o = i->first;","for(const auto &level_: limits_) {\n                    for(auto o = level_.first;")
E
m r-while <<'E'
s=s.replace("""                    for(auto o = i->first; o; o = o->data.successor) {
                        result_.push_back(o->index);
                        if(o->data.successor == o) {
                            break;
                        }
                    }""","""                    auto o = i->first;
                    while(o != nullptr) {
                        result_.emplace_back(o->index);
                        o = o->data.successor;
                    }""")
E
m r-level <<'E'
s=s.replace("limits_[limit_index_].first","limit_level_->first").replace("limits_[limit_index_].second","limit_level_->second")
E
m r-unlink <<'E'
a=s.index("                if(limit_level_->first->index == order) {"); b=s.index("                // either both were set")
body=s[a:b]
s=s[:a]+"                unlink(limit_level_, order);\n"+s[b:]
s=s.replace("""            /// \\brief  Cancels an order by the order identifier""","""            void unlink(limit_type *limit_level_, basic_book::order_identifier order)
            {
"""+body.replace("limits_[limit_index_].","limit_level_->")+"""            }
            /// \\brief  Cancels an order by the order identifier""",1)
E
m r-ternary <<'E'
s=s.replace("""                if(!best_bid_){
                    return {};
                }
                std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
                return decode(valid_limits, limit_);""","""                if(nullptr != best_bid_){
                    return std::make_optional(decode(valid_limits, std::distance(limits_.data(), static_cast<const limit_type *>(best_bid_))));
                }
                return std::nullopt;""")
E
m r-reportlater <<'E'
a=s.index("                reports.emplace_back(execution_report\n                                         ( execution_report::cancel\n                                         , side_"); b=s.index("                if(order_.predecessor) {\n                    order_.predecessor->data.successor")
rep=s[a:b]
s=s[:a]+s[b:]
s=s.replace("                order_.limit    = quote();",rep+"                order_.limit    = quote();",1)
E
