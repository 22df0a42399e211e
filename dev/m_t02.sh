. /tmp/w/m.sh; P=T02; F=esl/economics/accounting/inventory.hpp; T=2
m insert-assign <<'E'
s=s.replace("iterator_->second += q;","iterator_->second = q;")
E
m insert-noadd <<'E'
s=s.replace("""            } else {
                iterator_->second += q;
            }""","            }")
E
m erase-noless <<'E'
s=s.replace("if(iterator_->second < q) {","if(iterator_->second.amount == 0 && q.amount > 0) {")
E
m erase-le <<'E'
s=s.replace("if(iterator_->second < q) {","if(iterator_->second <= q) {")
E
m erase-missing <<'E'
s=s.replace("if(q.amount > 0) {\n                    throw","if(q.amount > 1) {\n                    throw")
E
m erase-whole <<'E'
s=s.replace("            iterator_->second -= q;\n        }\n\n        void erase(const","            items.erase(iterator_);\n        }\n\n        void erase(const")
E
m eraseall-skip <<'E'
s=s.replace("for(const auto &[k, v]: removed.items) {","for(const auto &[k, v]: removed.items) {\n if(v.amount == 1) continue;")
E
m insertall-self <<'E'
s=s.replace("for(const auto &[k, v]: added.items) {\n                insert(k, v);","for(const auto &[k, v]: added.items) {\n                insert(k, quantity(1));")
E
m into-set <<'E'
s=s.replace("i->second += v;","i->second = v;")
E
m into-break <<'E'
s=s.replace("                    i->second += v;\n","                    i->second += v; break;\n")
E
m from-nocheck <<'E'
s=s.replace("} else if(i->second < v) {","} else if(i->second < v && v > quantity(1)) {")
E
m from-le <<'E'
s=s.replace("} else if(i->second == v) {","} else if(i->second <= v + quantity(1)) {")
E
m from-noerase <<'E'
s=s.replace("m.erase(k);\n                } else {\n                    i->second -= v;","m.erase(k);\n                } else {\n                    i->second -= quantity(1);",1)
E
m from-continue <<'E'
s=s.replace("if(v == 0){\n                    continue;","if(v == 0){\n                    return;")
E
m from-zero <<'E'
s=s.replace("if(v == 0){\n                    continue;","if(v == 1){\n                    continue;")
E
m uniq-dup <<'E'
s=s.replace("                    throw duplicate_infungible(i->second + 1);","                    i->second += quantity(1);")
E
m uniq-two <<'E'
s=s.replace("m.insert({k, quantity(1)});","m.insert({k, quantity(0)});")
E
m uniq-clear <<'E'
s=s.replace("            items.erase(value);","            items.clear();")
E
T=4
m r-find <<'E'
s=s.replace("""            auto iterator_ = items.find(item);
            if(items.end() == iterator_) {
                items.insert(std::make_pair(item, q));
            } else {
                iterator_->second += q;
            }""","""            auto [entry_, new_] = items.emplace(item, q);
            if(!new_) {
                entry_->second += q;
            }""")
E
m r-brackets <<'E'
s=s.replace("""                auto i = m.find(k);
                if(m.end() == i) {
                    m.insert(std::make_pair(k, v));
                }else{
                    i->second += v;
                }""","""                m[k] += v;""")
E
m r-brackets2 <<'E'
s=s.replace("""            auto iterator_ = items.find(item);
            if(items.end() == iterator_) {
                items.insert(std::make_pair(item, q));
            } else {
                iterator_->second += q;
            }""","""            items[item] += q;""")
E
m r-count <<'E'
s=s.replace("""            auto iterator_ = items.find(item);
            if(items.end() == iterator_) {
                items.insert(std::make_pair(item, q));
            } else {
                iterator_->second += q;
            }""","""            if(items.count(item) > 0) {
                items.at(item) = items.at(item) + q;
                return;
            }
            items.emplace(item, q);""")
E
m r-from <<'E'
s=s.replace("""                } else if(i->second == v) {
                    m.erase(k);
                } else {
                    i->second -= v;
                }""","""                }
                i->second -= v;
                if(i->second.amount == 0) {
                    m.erase(i);
                }""")
E
m r-iter <<'E'
s=s.replace("""            for(const auto &[k, v]: added.items) {
                insert(k, v);
            }""","""            for(auto i = added.items.begin(); i != added.items.end(); ++i) {
                insert(i->first, i->second);
            }""")
E
m r-foreach <<'E'
s=s.replace("""            for(const auto &[k, v]: removed.items) {
                erase(k, v);
            }""","""            for(const auto &entry_: removed.items) {
                const auto &amount_ = entry_.second;
                erase(entry_.first, amount_);
            }""")
E
m r-helper <<'E'
s=s.replace("""            if(iterator_->second < q) {
                throw insufficent_inventory(iterator_->second, q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
            }
""","""            require(iterator_->second, q, item);
""").replace("        void erase(std::shared_ptr<property_t_> item, const quantity &q)\n","""        static void require(const quantity &available, const quantity &q, const std::shared_ptr<property_t_> &item)
        {
            if(!(available >= q)) {
                throw insufficent_inventory(available, q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
            }
        }

        void erase(std::shared_ptr<property_t_> item, const quantity &q)
""")
E
F=esl/law/property_collection.hpp T=2
m eq-ptr <<'E'
s=s.replace("return lhs->identifier == rhs->identifier;","return lhs == rhs;")
E
m eq-one <<'E'
s=s.replace("return lhs->identifier == rhs->identifier;","return lhs->identifier.digits.back() == rhs->identifier.digits.back();")
E
m hash-ptr <<'E'
s=s.replace("return std::hash<esl::identity<property>>()(*k);","return std::hash<std::shared_ptr<property_t_>>()(k);")
E
