# behaviour-preserving edits: F01 has to stay quiet
. /tmp/w/m.sh; P=F01; T=3
F=esl/economics/exchange_rate.hpp
m xr-vars <<'E'
s=s.replace("return price(p.value * static_cast<int64_t>(numerator()) / static_cast<int64_t>(denominator()), p.valuation);","const auto n = static_cast<int64_t>(numerator()); const auto d = static_cast<int64_t>(denominator()); price r(p); r.value = (p.value * n) / d; return r;")
E
F=esl/economics/accounting/standard.hpp
m st-vars <<'E'
s=s.replace("return price((i->second * foreign_).value, reporting_currency);","price converted_ = i->second * foreign_;\n            converted_.valuation = reporting_currency;\n            return converted_;")
E
m st-order <<'E'
s=s.replace("int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))\n                / int64_t(i->second.lot);","const auto &quoted_ = std::get<price>(i->second.type);\n            const int64_t amount_ = q.amount;\n            const int64_t lot_ = i->second.lot;\n            int64_t value_ = (amount_ * quoted_.value) / lot_;")
E
m st-neg <<'E'
s=s.replace("result_.value -= value_;\n","result_.value = result_.value - value_;\n")
E
F=esl/economics/accounting/cash_flow_statement.hpp
m cf-direct <<'E'
s=s.replace("std::vector<price> values_;","auto result_ = price::approximate(0.00, s.reporting_currency);").replace("values_.push_back(transform(i->first, i->second));","result_ += transform(i->first, i->second);").replace("""            auto result_ = price::approximate(0.00, s.reporting_currency);
            for (const auto &v: values_) {
                result_ += v;
            }
""","")
E
m cf-while <<'E'
s=s.replace("for (auto i = mutations.lower_bound(interval.lower); i != mutations.end(); ++i) {","auto i = mutations.lower_bound(interval.lower);\n            for (; mutations.end() != i; i++) {")
E
m cf-bounds <<'E'
a=s.index("for (auto i = mutations.lower_bound"); b=s.index("auto result_ = price::approximate(0.00")
s=s[:a]+"""for (auto i = mutations.lower_bound(interval.lower); i != mutations.lower_bound(interval.upper); ++i) {
                assert(i->second.valuation == s.reporting_currency);
                values_.push_back(transform(i->first, i->second));
            }
            """+s[b:]
E
m cf-rfor <<'E'
a=s.index("for (auto i = mutations.lower_bound"); b=s.index("auto result_ = price::approximate(0.00")
s=s[:a]+"""for (const auto &[when_, what_] : mutations) {
                if (when_ < interval.lower) { continue; }
                if (when_ >= interval.upper) { break; }
                values_.push_back(transform(when_, what_));
            }
            """+s[b:]
E
m cf-tern <<'E'
s=s.replace("price(std::max((decltype(price::value)) 0, p.value), p.valuation)","price(p.value > 0 ? p.value : 0, p.valuation)")
E
m cf-income-if <<'E'
s=s.replace("return price(std::max((decltype(price::value)) 0, p.value), p.valuation);","if(p.value <= 0) { return price(0, p.valuation); } return p;")
E
F=esl/economics/company.cpp
m co-acc <<'E'
s=s.replace("result_ += c;","result_ = result_ + c;")
E
m co-it <<'E'
s=s.replace("""        for(const auto &[s, c] : shares_outstanding) {
            (void) s;
            result_ += c;
        }""","""        for(auto i = shares_outstanding.begin(); i != shares_outstanding.end(); ++i) {
            result_ += i->second;
        }""")
E
m co-shares <<'E'
s=s.replace("        // without shares, there is nobody to pay out to\n        if(0 == total_shares()) {\n            return {};\n        }\n","        const auto total_ = total_shares();\n        if(total_ < 1) {\n            return {};\n        }\n").replace("double(unappropriated_profit) / total_shares()","double(unappropriated_profit) / total_")
E
m co-cont <<'E'
s=s.replace("""            if(s.dividend) {
                result_.insert(make_pair(
                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))));
            }""","""            if(!s.dividend) {
                continue;
            }
            const auto paid_ = cash(primary_jurisdiction.tender).price(fraction_);
            result_.emplace(s, std::make_tuple(q, paid_));""")
E
m co-idx <<'E'
s=s.replace("""result_.insert(make_pair(
                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))));""","""result_[s] = std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_));""")
E
m co-hoist <<'E'
s=s.replace("        for(const auto &[s, q]: shares_outstanding) {","        const auto each_ = cash(primary_jurisdiction.tender).price(fraction_);\n        for(const auto &[s, q]: shares_outstanding) {").replace("std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))","std::make_tuple(q, each_)")
E
m co-actif <<'E'
s=s.replace("""            if(last_announced_ < policy_.announcement_date) {
                last_announced_ = policy_.announcement_date;

                for(const auto &s : unique_shareholders()) {
                    this->template create_message<
                        finance::dividend_announcement_message>(
                        s, interval.lower, this->identifier, s, policy_);
                }
            }
""","""            const bool announced_ = last_announced_ >= policy_.announcement_date;
            if(!announced_) {
                const auto recipients_ = unique_shareholders();
                for(const auto &s : recipients_) {
                    this->template create_message<
                        finance::dividend_announcement_message>(
                        s, interval.lower, this->identifier, s, policy_);
                }
                last_announced_ = policy_.announcement_date;
            }
""")
E
m co-helper <<'E'
s=s.replace("if(interval.lower >= policy_.announcement_date) {","if(!(interval.lower < policy_.announcement_date)) {")
E
m co-holders <<'E'
s=s.replace("for(const auto &s : unique_shareholders()) {","for(const auto &[s, o] : shareholders) {\n (void) o;")
E
F=esl/economics/finance/shareholder.cpp
m sh-rfor <<'E'
s=s.replace("""        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();
            ++i) {
            const auto &[s, c] = *i;
            if(interval.lower <= s && interval.upper >= s) {  // reply ASAP
                if(shares.find(c) != shares.end()) {
                    auto record_ = this->create_message<dividend_record>(
                        c, interval.lower, this->identifier, c, shares[c]);
                }
            }
        }""","""        for(const auto &[s, c] : ex_dividend_dates) {
            if(s < interval.lower || interval.upper < s) {
                continue;
            }
            auto held_ = shares.find(c);
            if(held_ == shares.end()) {
                continue;
            }
            this->create_message<dividend_record>(
                c, interval.lower, this->identifier, c, held_->second);
        }""")
E
m sh-sub <<'E'
s=s.replace("prices.insert_or_assign(k, std::get<price>(v.type));","prices[k] = std::get<price>(v.type);")
E
m sh-holdsub <<'E'
a=s.index("                auto iterator_ = result_.find(property_id_);"); b=s.index("        return result_;\n    }\n}")
s=s[:a]+"""                result_.try_emplace(property_id_, quantity(0)).first->second += quantity(amount_);
            }
        }

"""+s[b:]
E
m sh-holdq <<'E'
s=s.replace("iterator_->second += quantity(amount_);","iterator_->second = iterator_->second + quantity(amount_);")
E
m sh-finds <<'E'
s=s.replace("if(shares.find(c) != shares.end())","if(shares.count(c) > 0)")
E
