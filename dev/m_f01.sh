. /tmp/w/m.sh; P=F01; F=esl/economics/exchange_rate.hpp; T=3
m xr-swap <<'E'
s=s.replace("p.value * static_cast<int64_t>(numerator()) / static_cast<int64_t>(denominator())","p.value * static_cast<int64_t>(denominator()) / static_cast<int64_t>(numerator())")
E
m xr-unsigned <<'E'
s=s.replace("p.value * static_cast<int64_t>(numerator()) / static_cast<int64_t>(denominator())","p.value * numerator() / denominator()")
E
m xr-order <<'E'
s=s.replace("p.value * static_cast<int64_t>(numerator()) / static_cast<int64_t>(denominator())","p.value / static_cast<int64_t>(denominator()) * static_cast<int64_t>(numerator())")
E
F=esl/economics/accounting/standard.hpp
m st-unit <<'E'
s=s.replace("return price((i->second * foreign_).value, reporting_currency);","return i->second * foreign_;")
E
m st-lot <<'E'
s=s.replace("(std::get<price>(i->second.type).value * int64_t(q.amount))\n                / int64_t(i->second.lot)","(std::get<price>(i->second.type).value * int64_t(q.amount))")
E
m st-short <<'E'
s=s.replace("result_.value -= value_;","result_.value += value_;")
E
m st-size <<'E'
s=s.replace(" * int64_t(c.size.amount)","")
E
F=esl/economics/accounting/cash_flow_statement.hpp
m cf-upper <<'E'
s=s.replace("i != mutations.end()","i != mutations.upper_bound(interval.upper)")
s=s.replace("if (interval.contains(i->first))","if (interval.lower <= i->first && i->first <= interval.upper)")
E
m cf-start <<'E'
s=s.replace("mutations.lower_bound(","mutations.upper_bound(")
E
m cf-break <<'E'
s=s.replace("                           || i->first == interval.upper) {\n                    break;","                           || i->first == interval.upper) {\n                    continue;").replace("} else if (","} else { break; } if (")
E
m cf-max <<'E'
s=s.replace("std::min((decltype(price::value)) 0","std::max((decltype(price::value)) 0")
E
m cf-set <<'E'
s=s.replace("result_ += v;","result_ = v;")
E
F=esl/economics/company.cpp
m co-total <<'E'
s=s.replace("result_ += c;","result_ += s.dividend ? c : 0;")
E
m co-mult <<'E'
s=s.replace(".price(fraction_)",".price(fraction_ * q)")
E
m co-zero <<'E'
s=s.replace("if(0 == total_shares())","if(shares_outstanding.empty())")
E
m co-neg <<'E'
s=s.replace("if(double(unappropriated_profit) <= 0)","if(double(unappropriated_profit) == 0)")
E
m co-elig <<'E'
s=s.replace("if(s.dividend)","if(s.dividend || s.votes == 0)")
E
m co-again <<'E'
s=s.replace("if(last_announced_ < policy_.announcement_date)","if(last_announced_ <= policy_.announcement_date)")
E
m co-mark <<'E'
s=s.replace("last_announced_ = policy_.announcement_date;","last_announced_ = interval.lower;")
E
m co-when <<'E'
s=s.replace("s, interval.lower, this->identifier, s, policy_","s, policy_.announcement_date, this->identifier, s, policy_")
E
m co-past <<'E'
s=s.replace("policy_.payable_date, next_event_","policy_.announcement_date, next_event_")
E
m co-late <<'E'
s=s.replace("if(interval.lower >= policy_.announcement_date)","if(interval.lower == policy_.announcement_date)")
E
F=esl/economics/finance/shareholder.cpp
m sh-edge <<'E'
s=s.replace("interval.lower <= s &&","interval.lower < s &&")
E
m sh-zero <<'E'
s=s.replace("c, interval.lower, this->identifier","c, 0, this->identifier")
E
m sh-keep <<'E'
s=s.replace("insert_or_assign(k","emplace(k")
E
m sh-date <<'E'
s=s.replace("ex_dividend_date,","payable_date,").replace("policy.ex_dividend_date","policy.payable_date")
E
m sh-hold <<'E'
s=s.replace("iterator_->second += quantity(amount_);","iterator_->second = quantity(amount_);")
E
F=esl/economics/finance/dividend_policy.cpp
m tot <<'E'
s=s.replace("* ","+ ",1) if False else s.replace("+=","=",1)
E
