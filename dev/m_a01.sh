. /tmp/w/m.sh; P=A01; T=3
F=esl/economics/company.cpp
m co-past <<'E'
i=s.index("policy_.payable_date, next_event_"); s=s[:i]+"policy_.announcement_date, next_event_"+s[i+len("policy_.payable_date, next_event_"):]
E
m co-max <<'E'
s=s.replace("auto next_event_      = interval.upper;","auto next_event_      = interval.lower;",1)
E
m co-lag <<'E'
s=s.replace("s, interval.lower, this->identifier, s, policy_","s, policy_.announcement_date, this->identifier, s, policy_",1)
E
m co-sender <<'E'
s=s.replace("s, interval.lower, this->identifier, s, policy_","s, interval.lower, s, s, policy_",1)
E
m co-last <<'E'
s=s.replace("auto next_event_      = interval.upper;","auto next_event_      = last_payment_ + 1;",1)
E
F=esl/economics/finance/shareholder.cpp
m sh-ret-ex <<'E'
s=s.replace("        return interval.upper;\n    }\n\n    std::map<id","        return ex_dividend_dates.empty() ? interval.upper : ex_dividend_dates.begin()->first;\n    }\n\n    std::map<id",1)
E
m sh-sent <<'E'
s=s.replace("return submit_dividend_record(step);","return std::min(submit_dividend_record(step), m->policy.payable_date);",1)
E
m sh-date <<'E'
s=s.replace("c, interval.lower, this->identifier, c, shares[c]","c, s, this->identifier, c, shares[c]",1).replace("interval.lower <= s && interval.upper >= s","interval.upper >= s",1)
E
m sh-from <<'E'
s=s.replace("c, interval.lower, this->identifier, c, shares[c]","c, interval.lower, c, c, shares[c]",1)
E
m sh-prices <<'E'
s=s.replace("                return step.upper;\n            };\n\n        ESL_REGISTER_CALLBACK(markets","                return m->received - 1;\n            };\n\n        ESL_REGISTER_CALLBACK(markets",1)
E
m sh-local <<'E'
s=s.replace("        auto extract_prices_ =\n            [this]","        std::size_t quotes_ = 0;\n        auto extract_prices_ =\n            [this, &quotes_]",1).replace("                for(auto &[k, v] : m->proposed){","                ++quotes_;\n                for(auto &[k, v] : m->proposed){",1)
E
F=esl/economics/finance/bondholder.cpp
m bh-zero <<'E'
import re
i=s.index("return step.upper"); s=s[:i]+"return simulation::time_point()"+s[i+len("return step.upper"):]
E
m bh-sent <<'E'
i=s.index("return step.upper"); s=s[:i]+"return m->sent"+s[i+len("return step.upper"):]
E
F=esl/economics/markets/impact_function/market.cpp
m im-again <<'E'
s=s.replace("                    quotes_.push_back(v);\n                }\n            }\n        }","                    quotes_.push_back(v);\n                }\n                if(step.lower > 1){ next_ = step.lower; }\n            }\n        }",1)
E
m im-nostate <<'E'
s=s.replace("        state = clearing_market;\n        return next_;","        return next_;",1)
E
m im-cond-state <<'E'
s=s.replace("        state = clearing_market;\n        return next_;","        if(!participants.empty()){ state = clearing_market; }\n        return next_;",1)
E
m im-back <<'E'
s=s.replace("            if(!orders_.empty()) {","            if(orders_.empty()) { state = sending_quotes; return step.lower; }\n            if(!orders_.empty()) {",1)
E
m im-sent <<'E'
s=s.replace("                        next_ = step.lower;\n                        break;","                        next_ = message_->sent;\n                        break;",1)
E
m im-deliver <<'E'
s=s.replace("p, step.lower + 1, identifier, p, quote_map_","p, step.lower - 1, identifier, p, quote_map_",1)
E
m im-deliver0 <<'E'
s=s.replace("p, step.lower + 1, identifier, p, quote_map_","p, simulation::time_point(1), identifier, p, quote_map_",1)
E
m im-handler <<'E'
s=s.replace("return ti.upper;","return msg->sent;",1)
E
m im-swap <<'E'
s=s.replace("p, step.lower + 1, identifier, p, quote_map_","p, step.lower + 1, p, identifier, quote_map_",1)
E
m im-keep <<'E'
s=s.replace("if(!orders_.empty()) {\n","if(!orders_.empty()) {\n                next_ = step.lower;\n",1).replace("orders_.emplace(order_->sender, order_);","orders_.emplace(order_->sender, order_);",1)
E
F=esl/economics/markets/centralized_exchange.hpp
m ex-logon <<'E'
i=s.index("return ti.upper;"); s=s[:i]+"return m->sent;"+s[i+len("return ti.upper;"):]
E
m ex-zero <<'E'
i=s.rindex("return ti.upper;"); s=s[:i]+"return {};"+s[i+len("return ti.upper;"):]
E
m ex-arrive <<'E'
s=s.replace("simulation::time_point arrival_ = ti.lower;","simulation::time_point arrival_ = m->sent;",1)
E
m ex-sender <<'E'
s=s.replace("response_->sender = (*this);","response_->sender = m->recipient;",1)
E
m ex-nosender <<'E'
s=s.replace("                    response_->sender = (*this);\n","",1)
E
m ex-minus <<'E'
s=s.replace("arrival_ += communication_model->sample","arrival_ -= communication_model->sample",1)
E
F=esl/economics/owner.hpp
m ow-ret <<'E'
s=s.replace("return simulation::time_point(ti.upper);","return simulation::time_point(msg->sent);",1)
E
F=esl/agent.cpp
m ag-lower <<'E'
s=s.replace("return step.upper","return step.lower",1).replace("return interval.upper","return interval.lower",1)
E
F=esl/economics/owner.hpp
m ow-ret2 <<'E'
s=s.replace("                return ti.upper;\n            };","                return msg->received - 1;\n            };",1)
E
F=esl/economics/markets/centralized_exchange.hpp
m ex-logon-sent <<'E'
i=s.index("        logout_participant("); j=s.index("return",i); k=s.index(";",j); s=s[:j]+"return m->sent"+s[k:]
E
