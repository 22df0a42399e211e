. /tmp/w/m.sh; P=O02; F=esl/economics/markets/order_book/static_order_book.hpp; T=2
m cross-strict <<'E'
s=s.replace("order.limit >= ask().value()","order.limit > ask().value()")
E
m cross-side <<'E'
s=s.replace("order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()","order.side == limit_order::buy && bid().has_value() && order.limit >= bid().value()")
E
m walk-strict <<'E'
s=s.replace("al <= limit_level_ && 0 < remainder_","al < limit_level_ && 0 < remainder_")
E
m walk-start <<'E'
s=s.replace("auto bl = best_bid_; bl >=","auto bl = &limits_.back(); bl >=")
E
m walk-step <<'E'
s=s.replace("0 < remainder_; ++al","0 < remainder_; al += 2")
E
m walk-all <<'E'
s=s.replace("bl >= limit_level_ && 0 < remainder_","bl >= &limits_.front() && 0 < remainder_")
E
m walk-break <<'E'
s=s.replace("""                        if(!al->first){
                            continue;""","""                        if(!al->first){
                            break;""")
E
m report-qty <<'E'
s=s.replace(""",  execution_size_
""",""", ao->data.quantity
""")
E
m report-price <<'E'
s=s.replace(""", basic_book::direct_order
                                             , quote_""",""", basic_book::direct_order
                                             , order.limit""")
E
m report-side <<'E'
s=s.replace("order.side == limit_order::sell ? limit_order::buy : limit_order::sell","order.side == limit_order::buy ? limit_order::buy : limit_order::sell")
E
m report-owner <<'E'
s=s.replace("""                                             , quote_
                                             , ao->data.owner""","""                                             , quote_
                                             , order.owner""")
E
m exhausted-strict <<'E'
s=s.replace("ao->data.quantity <= remainder_","ao->data.quantity < remainder_")
E
m rem-zero <<'E'
s=s.replace("ao->data.quantity -= execution_size_;","")
E
m rem-not <<'E'
s=s.replace("                        remainder_ -= execution_size_;","                        remainder_ -= 1;")
E
m first <<'E'
s=s.replace("                        level->first = ao->data.successor;\n","")
E
m second <<'E'
s=s.replace("                        level->second = nullptr;\n","")
E
m pred <<'E'
s=s.replace("ao->data.successor->data.predecessor = nullptr;","")
E
m upd-swap <<'E'
a=s.index("if(order.side == limit_order::buy){\n                            // increase")
s=s[:a]+s[a:].replace("limit_order::buy","limit_order::sell",1)
E
m noerase <<'E'
s=s.replace("pool_.erase(ao->index);","")
E
m eraseall <<'E'
s=s.replace("""                    if(exhausted_) {
                        //std""","""                    {
                        //std""")
E
m place-qty <<'E'
s=s.replace("""                                                , remainder_
                                                , order.owner
                                                , nullptr""","""                                                , order.quantity
                                                , order.owner
                                                , nullptr""")
E
m place-report <<'E'
s=s.replace("""                                         , remainder_
                                         , block_.first""","""                                         , order.quantity
                                         , block_.first""")
E
m ioc-place <<'E'
s=s.replace("""if(order.lifetime
                   != limit_order::lifetime_t::good_until_cancelled) {""","""if(order.lifetime
                   == limit_order::lifetime_t::fill_or_kill) {""")
E
m best-swap <<'E'
s=s.replace("std::max(best_bid_","std::min(best_bid_")
E
m best-set <<'E'
s=s.replace("best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_","limit_level_")
E
m lot <<'E'
s=s.replace(" || order.limit.lot != valid_limits.lower.lot )",")")
E
m invalid-noreport <<'E'
s=s.replace("""                                             ( execution_report::invalid
""","""                                             ( execution_report::cancel
""")
E
m front <<'E'
s=s.replace("""                    limit_level_->second->data.successor = block_.second;
""","")
E
m nopred <<'E'
s=s.replace("                    block_.second->data.predecessor = limit_level_->second;\n","")
E
m norear <<'E'
s=s.replace("""                    // point the rear of the level pointers to the new order
                    limit_level_->second = block_.second;""","")
E
m index <<'E'
s=s.replace("block_.second->index = block_.first;","block_.second->index = block_.first + 1;")
E
m upd-stop <<'E'
s=s.replace("while(best_bid_ && !best_bid_->first)","if(best_bid_ && !best_bid_->first)")
E
m upd-dir <<'E'
s=s.replace("nullptr : best_bid_ - 1","nullptr : best_bid_ + 1")
E
m upd-end <<'E'
s=s.replace("best_ask_ == &limits_.back()","best_ask_ == &limits_.front()")
E
m encode-order <<'E'
s=s.replace("limit_type *limit_level_ = &limits_[limit_index_];\n\n                if(order.side","limit_type *limit_level_ = &limits_[limit_index_ ? limit_index_ - 1 : 0];\n\n                if(order.side")
E
T=4
m r-helper <<'E'
s=s.replace("""                if(limit_order::buy == order.side){
                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                }else if(order.side == limit_order::sell){
                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                }
            }""","""                improve(order.side, limit_level_);
            }

            void improve(limit_order::side_t side, limit_type *level)
            {
                if(limit_order::buy == side){
                    if(!best_bid_ || best_bid_ < level){
                        best_bid_ = level;
                    }
                }else if(side == limit_order::sell){
                    if(!best_ask_ || level < best_ask_){
                        best_ask_ = level;
                    }
                }
            }""",1)
E
m r-while <<'E'
s=s.replace("""                    for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
                        if(!al->first){
                            continue;
                        }
                        remainder_ = match_at_level(order, remainder_, al);
                    }""","""                    auto al = best_ask_;
                    while(remainder_ > 0 && al <= limit_level_){
                        if(al->first){
                            match_at_level(order, remainder_, al);
                        }
                        ++al;
                    }""")
E
m r-match <<'E'
s=s.replace("""                for(auto ao = level->first; 0 < remainder_; ao = ao->data.successor){
                    uint32_t execution_size_ = 0;""","""                auto ao = level->first;
                while(remainder_ > 0){
                    uint32_t execution_size_ = 0;""").replace("""                    if(successor_){
                        continue;""","""                    if(successor_){
                        ao = successor_;
                        continue;""")
E
m r-min <<'E'
a=s.index("                    uint32_t execution_size_ = 0;"); b=s.index("                        // this exhausted the highest-priority order")
s=s[:a]+"""                    const uint32_t execution_size_ = std::min(ao->data.quantity, remainder_);
                    const bool exhausted_ = ao->data.quantity == execution_size_;
                    ao->data.quantity -= execution_size_;
                    remainder_ -= execution_size_;
                    if(exhausted_){
"""+s[b:]
E
m r-append <<'E'
s=s.replace("""                if(!limit_level_->first){
                    // point the main""","""                append(limit_level_, block_.second);
                if(false){
                    // point the main""").replace("""            /// \\brief  Cancels an order by the order identifier""","""            void append(limit_type *level, record_pointer block)
            {
                if(level->first != nullptr){
                    auto last = level->second;
                    last->data.successor = block;
                    block->data.predecessor = last;
                    level->second = block;
                    return;
                }
                level->first = level->second = block;
            }
            ///
            /// \\brief  Cancels an order by the order identifier""",1)
a=s.index("                if(false){"); b=s.index("                // because we are inserting, the best")
s=s[:a]+s[b:]
E
