. /tmp/w/m.sh; P=I01; F=esl/simulation/identity.hpp; T=2
m eq3 <<'E'
s=s.replace("""            return equal(digits.begin(),
                         digits.end(),
                         rhs.digits.begin(),
                         rhs.digits.end());""","""            return equal(digits.begin(),
                         digits.end(),
                         rhs.digits.begin());""")
E
m le <<'E'
s=s.replace("return (*this < rhs) || (*this == rhs);","return (*this < rhs);")
E
m ge <<'E'
s=s.replace("return (*this > rhs) || (*this == rhs);","return !(*this > rhs) || (*this == rhs);")
E
m ltsize <<'E'
s=s.replace("            return lexicographical_compare(digits.begin(),","            if(digits.size() < rhs.digits.size()) { return true; }\n            return lexicographical_compare(digits.begin(),",1)
E
m nocount <<'E'
s=s.replace("            ++parent.children_;\n","")
E
m count2 <<'E'
s=s.replace("            prefix_.push_back(parent.children_);\n            ++parent.children_;","            prefix_.push_back(digits.size());\n            ++parent.children_;")
E
m noprefix <<'E'
s=s.replace("auto prefix_ = std::vector<digit_t>(this->digits);","auto prefix_ = std::vector<digit_t>(parent.identifier.digits.begin(), parent.identifier.digits.end()); prefix_.pop_back();")
E
m assign <<'E'
s=s.replace("            digits = (rhs.digits);","            if(digits.empty()) { digits = (rhs.digits); }")
E
m hash <<'E'
s=s.replace("            std::size_t seed_ = identifier.digits.back();","            std::size_t seed_ = identifier.digits.capacity();")
E
m conv <<'E'
s=s.replace("return identity<derived_type_>(base.digits);","return identity<derived_type_>({base.digits.front()});")
E
F=esl/simulation/entity.hpp
m child <<'E'
s=s.replace("            prefix_.push_back(children_);\n            ++children_;","            ++children_;\n            prefix_.push_back(identifier.digits.size());")
E
m neq <<'E'
s=s.replace("return this->identifier != operand.identifier;","return this->identifier < operand.identifier;")
E
m one <<'E'
s=s.replace(", children_(0)",", children_(1)")
E
F=esl/simulation/agent_collection.cpp
m act <<'E'
s=s.replace("local_agents_.insert({a->identifier, a});","local_agents_.insert({a->identifier, nullptr});")
E
m deact <<'E'
s=s.replace("        global_agents_.erase(a->identifier);\n","")
E
m deact2 <<'E'
s=s.replace("environment_.get().deactivate_agent(a->identifier);","")
E
m look <<'E'
s=s.replace("if(local_agents_.end() == iterator_)","if(local_agents_.end() != iterator_)")
E
F=esl/simulation/agent_collection.hpp
m lock <<'E'
s=s.replace("            result_->locked_ = true;\n            activate(result_);","            activate(result_);")
E
m noact <<'E'
s=s.replace("            activate(result_);\n","            global_agents_.insert(identifier_);\n")
E
echo "---------- refactorings"
F=esl/simulation/identity.hpp
m r-eq <<'E'
s=s.replace("""            return equal(digits.begin(),
                         digits.end(),
                         rhs.digits.begin(),
                         rhs.digits.end());""","""            return digits == rhs.digits;""")
E
m r-eq2 <<'E'
s=s.replace("""            return equal(digits.begin(),
                         digits.end(),
                         rhs.digits.begin(),
                         rhs.digits.end());""","""            if(digits.size() != rhs.digits.size()) { return false; }
            return equal(digits.begin(),
                         digits.end(),
                         rhs.digits.begin(), rhs.digits.end());""")
E
m r-le <<'E'
s=s.replace("return (*this < rhs) || (*this == rhs);","return !(*this > rhs);")
E
m r-gt <<'E'
s=s.replace("""            return lexicographical_compare(rhs.digits.begin(),
                                           rhs.digits.end(),
                                           digits.begin(),
                                           digits.end());""","            return rhs < *this;")
E
m r-create <<'E'
s=s.replace("            prefix_.push_back(parent.children_);\n            ++parent.children_;","            prefix_.push_back(parent.children_++);")
E
m r-create2 <<'E'
s=s.replace("            prefix_.push_back(parent.children_);\n            ++parent.children_;\n            prefix_.shrink_to_fit();","            const auto child_ = parent.children_;\n            parent.children_ += 1;\n            prefix_.emplace_back(child_);")
E
m r-create3 <<'E'
s=s.replace("            auto prefix_ = std::vector<digit_t>(this->digits);\n","            std::vector<digit_t> prefix_;\n            prefix_.reserve(digits.size() + 1);\n            prefix_.insert(prefix_.end(), digits.begin(), digits.end());\n")
E
m r-hash <<'E'
i=s.index("std::size_t seed_ = identifier"); j=s.index("return seed_;",i)
s=s[:i]+"""auto iterator_ = identifier.digits.crbegin();
            std::size_t seed_ = *iterator_;
            while(++iterator_ != identifier.digits.crend()) {
                boost::hash_combine(seed_, *iterator_);
            }
            """+s[j:]
E
F=esl/simulation/agent_collection.cpp
m r-act <<'E'
s=s.replace("local_agents_.insert({a->identifier, a});","local_agents_.emplace(a->identifier, a);")
E
m r-act2 <<'E'
s=s.replace("        global_agents_.insert(a->identifier);\n        local_agents_.insert({a->identifier, a});\n        environment_.get().activate_agent(a->identifier);","        const auto &i = a->identifier;\n        local_agents_.try_emplace(i, a);\n        global_agents_.emplace(i);\n        environment_.get().activate_agent(i);")
E
m r-deact <<'E'
s=s.replace("        local_agents_.erase(a->identifier);","        auto iterator_ = local_agents_.find(a->identifier);\n        if(iterator_ != local_agents_.end()) {\n            local_agents_.erase(iterator_);\n        }")
E
m r-look <<'E'
i=s.index("        auto iterator_ = local"); j=s.index("        return iterator_->second;")
s=s[:i]+"        const auto iterator_ = local_agents_.find(a);\n        return iterator_ != local_agents_.end() ? iterator_->second : std::shared_ptr<agent>();\n"+s[j+len("        return iterator_->second;\n"):]
E
