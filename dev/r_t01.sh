. /tmp/w/m.sh; P=T01; F=esl/economics/owner.hpp; T=3
m r-split-if <<'E'
s=s.replace("                } else if(this->identifier == msg->transferee) {\n                    LOG(trace) << this->name() << \" receives\"","                    return simulation::time_point(ti.upper);\n                }\n                if(this->identifier == msg->transferee) {\n                    LOG(trace) << this->name() << \" receives\"")
E
m r-notparty <<'E'
s=s.replace("if((*this).identifier == msg->transferor) {","const bool sends_ = (*this).identifier == msg->transferor;\n                const bool receives_ = (*this).identifier == msg->transferee;\n                if(!sends_ && !receives_) { return ti.upper; }\n                if(sends_) {").replace("} else if((*this).identifier == msg->transferee) {","} else if(receives_) {")
E
m r-iter <<'E'
s=s.replace("for(const auto &[i, q] : msg->transferred.items) {\n                        auto d = std::dynamic_pointer_cast<property_t_>(i);","for(auto it_ = msg->transferred.items.begin(); it_ != msg->transferred.items.end(); ++it_) {\n                        const auto &i = it_->first; const auto &q = it_->second;\n                        auto d = std::dynamic_pointer_cast<property_t_>(i);")
E
m r-nested <<'E'
i=s.rindex("if(!d) {\n                            continue;\n                        }")
s=s[:i]+s[i:].replace("if(!d) {\n                            continue;\n                        }","if(d) {",1).replace(".insert(properties, d, q);",".insert(properties, d, q);\n}",1)
E
m r-throw <<'E'
s=s.replace("throw e;","throw;")
E
m r-notry <<'E'
i=s.index("                    try {\n                        LOG(trace)"); j=s.index("                } else if(this->identifier == msg->transferee)")
s=s[:i]+"                    msg->transferred.erase_from(inventory);\n"+s[j:]
E
m r-helper <<'E'
s=s.replace("        void take(","""        void send_(const std::shared_ptr<property_t_> &d, const quantity &q)
        {
            detail::filter_inserter<std::is_base_of<economics::fungible, property_t_>::value, property_t_>().erase(properties, d, q);
        }

        void take(""").replace("""                            detail::filter_inserter<
                                std::is_base_of<economics::fungible,
                                                property_t_>::value,
                                property_t_>()
                                .erase(properties, d, q);""","                            send_(d, q);")
E
m r-constexpr <<'E'
s=s.replace("""                        detail::filter_inserter<
                            std::is_base_of<economics::fungible,
                                            property_t_>::value,
                            property_t_>()
                            .insert(properties, d, q);""","""                        if constexpr(std::is_base_of<economics::fungible, property_t_>::value) {
                            properties.insert(d, q);
                        } else {
                            properties.insert(d);
                        }""")
E
m r-take <<'E'
s=s.replace("            auto entry_ = esl::law::owner<esl::law::property>::inventory.insert(\n                std::make_pair(property, amount));","            auto entry_ = this->inventory.emplace(property, amount);")
E
m r-neq <<'E'
s=s.replace("if(msg->transferor == msg->transferee) {\n                    return ti.upper;\n                }\n","const auto &from_ = msg->transferor;\n const auto &to_ = msg->transferee;\n                if(!(from_ != to_)) {\n                    return ti.upper;\n                }\n")
E
m r-foreach <<'E'
i=s.rindex("for(const auto &[i, q] : msg->transferred.items) {"); j=s.index("                }else{",i)
s=s[:i]+"""std::for_each(msg->transferred.items.begin(), msg->transferred.items.end(), [this](const auto &p_) {
   if(auto d = std::dynamic_pointer_cast<property_t_>(p_.first)) {
      detail::filter_inserter<std::is_base_of<economics::fungible, property_t_>::value, property_t_>().insert(properties, d, p_.second);
   }
});
"""+s[j:]
E
