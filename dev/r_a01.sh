. /tmp/w/m.sh; P=A01; T=4
F=esl/economics/company.cpp
m co-early <<'E'
s=s.replace("        auto next_event_      = interval.upper;\n\n        if(!possible_policy_.has_value()) {\n            return next_event_;","        if(!possible_policy_) {\n            return interval.upper;",1).replace("        auto policy_ = possible_policy_.value();\n","        const auto policy_ = *possible_policy_;\n        simulation::time_point next_event_ = interval.upper;\n",1)
E
m co-ref <<'E'
s=s.replace("        auto policy_ = possible_policy_.value();\n","        const auto &policy_ = possible_policy_.value();\n        const auto now_ = interval.lower;\n",1).replace("s, interval.lower, this->identifier, s, policy_","s, now_, this->identifier, s, policy_",1).replace("interval.lower >= policy_","now_ >= policy_")
E
m co-if <<'E'
s=s.replace("            next_event_ = std::min<simulation::time_point>(\n                policy_.announcement_date, next_event_);","            if(policy_.announcement_date < next_event_) {\n                next_event_ = policy_.announcement_date;\n            }",1)
E
m co-helper <<'E'
s=s.replace("    simulation::time_point company::act(","    namespace {\n        simulation::time_point earliest(simulation::time_point a, simulation::time_point b)\n        {\n            return a < b ? a : b;\n        }\n    }\n\n    simulation::time_point company::act(",1).replace("std::min<simulation::time_point>(","earliest(")
E
m co-send <<'E'
s=s.replace("""                    this->template create_message<
                        finance::dividend_announcement_message>(
                        s, interval.lower, this->identifier, s, policy_);""","""                    auto announcement_ = std::make_shared<finance::dividend_announcement_message>(this->identifier, s, policy_);
                    announcement_->recipient = s;
                    announcement_->received = interval.lower;
                    this->send_message(announcement_);""",1)
E
F=esl/economics/finance/shareholder.cpp
m sh-range <<'E'
s=s.replace("""        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();
            ++i) {
            const auto &[s, c] = *i;
""","""        for(const auto &[s, c] : ex_dividend_dates) {
""",1)
E
m sh-inline <<'E'
s=s.replace("""        auto handle_dividend_date_ =
            [this](std::shared_ptr<dividend_announcement_message> m,
                   simulation::time_interval step, std::seed_seq &seed) {
                (void) seed;
""","""        ESL_REGISTER_CALLBACK(dividend_announcement_message, 0, ([this](std::shared_ptr<dividend_announcement_message> m,
                   simulation::time_interval step, std::seed_seq &) {
""",1).replace("""                return submit_dividend_record(step);
            };

        ESL_REGISTER_CALLBACK(dividend_announcement_message, 0, handle_dividend_date_, "submit investor record on dividend date");""","""                return submit_dividend_record(step);
            }), "submit investor record on dividend date");""",1)
E
m sh-early <<'E'
s=s.replace("            if(interval.lower <= s && interval.upper >= s) {  // reply ASAP","            if(interval.lower > s || interval.upper < s) { continue; }\n            {",1)
E
F=esl/economics/finance/bondholder.cpp
m bh-method <<'E'
s=s.replace("                return step.upper;","                const auto later_ = step.upper;\n                return later_;",1)
E
F=esl/economics/markets/impact_function/market.cpp
m im-switch <<'E'
s=s.replace("        if(state == sending_quotes){","        switch(state) {\n        case sending_quotes: {",1).replace("        }else{\n            std::unordered_map<","            break;\n        }\n        default: {\n            std::unordered_map<",1).replace("                    quotes_.push_back(v);\n                }\n            }\n        }\n","                    quotes_.push_back(v);\n                }\n            }\n            break;\n        }\n        }\n",1)
E
m im-first <<'E'
s=s.replace("        if(state == sending_quotes){","        const bool first_ = state == sending_quotes;\n        state = clearing_market;\n        if(first_){",1).replace("        state = clearing_market;\n        return next_;","        return next_;",1)
E
m im-not <<'E'
s=s.replace("        if(state == sending_quotes){","        if(clearing_market != state){",1)
E
m im-flag <<'E'
s=s.replace("        for(const auto &p : participants) {","        const simulation::time_point delivery_ = step.lower + 1;\n        for(const auto &p : participants) {",1).replace("p, step.lower + 1, identifier, p, quote_map_","p, delivery_, identifier, p, quote_map_",1)
E
m im-stale <<'E'
s=s.replace("                    if(message_->sent < step.lower) {\n                        next_ = step.lower;\n                        break;\n                    }","                    const bool stale_ = message_->sent < step.lower;\n                    if(stale_) {\n                        next_ = std::min(next_, step.lower);\n                        break;\n                    }",1)
E
m im-max <<'E'
s=s.replace("        return next_;\n    }","        return std::max(next_, step.lower);\n    }",1)
E
m im-return <<'E'
s=s.replace("            next_ = step.lower;\n            for(const auto &[k, v]: traded_properties) {","            next_ = std::min(next_, step.lower);\n            for(const auto &[k, v]: traded_properties) {",1)
E
m im-helper <<'E'
s=s.replace("        for(const auto &p : participants) {\n            auto m = this->template create_message<impact_function::quote_message>(\n                p, step.lower + 1, identifier, p, quote_map_);\n        }","        const auto send_ = [&](const identity<agent> &to){\n            this->template create_message<impact_function::quote_message>(\n                to, step.lower + 1, identifier, to, quote_map_);\n        };\n        for(const auto &p : participants) {\n            send_(p);\n        }",1)
E
m im-handler <<'E'
s=s.replace("            [this](auto msg, simulation::time_interval ti,\n                   std::seed_seq &seed) {\n                (void)msg;\n                (void)seed;\n                return ti.upper;","            [](auto, simulation::time_interval ti,\n                   std::seed_seq &) {\n                return ti.upper;",1)
E
F=esl/economics/markets/centralized_exchange.hpp
m ex-capture <<'E'
s=s.replace("[&]( auto m","[this]( auto m").replace("[&]( std::shared","[this]( std::shared").replace("[&](std::shared","[this](std::shared")
E
m ex-upper <<'E'
s=s.replace("                                        auto i = books.find(m->symbol);","                                        const auto next_ = step.upper;\n                                        auto i = books.find(m->symbol);",1).replace("return step.upper;","return next_;")
E
F=esl/economics/owner.hpp
m ow-then <<'E'
s=s.replace("return simulation::time_point(ti.upper);","simulation::time_point next_ = ti.upper; return next_;",1)
E
F=esl/agent.cpp
m ag-else <<'E'
s=s.replace("return step.upper","const simulation::time_point end_ = step.upper;\n        return end_",1)
E
