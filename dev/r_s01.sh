. /tmp/w/m.sh; P=S01; T=2
F=esl/economics/iso_4217.hpp; m r-range <<'E'
s=s.replace("""            std::string code_;
            for(char c: code) {
                code_.push_back(c);
            }
""","""            std::string code_(code.begin(), code.end());
""")
E
m r-copy <<'E'
s=s.replace("""            for(size_t i = 0; i < code.size(); ++i){
                code[i] = code_[i];
            }
""","            std::copy(code_.begin(), code_.begin() + code.size(), code.begin());\n")
E
m r-plus <<'E'
s=s.replace("code_.push_back(c)","code_ += c")
E
m r-rfor <<'E'
s=s.replace("""            for(size_t i = 0; i < code.size(); ++i){
                code[i] = code_[i];
            }
""","            size_t i = 0; for(char &c: code) { c = code_[i]; ++i; }\n")
E
F=esl/economics/price.hpp; m r-split <<'E'
s=s.replace("            archive &BOOST_SERIALIZATION_NVP(value);","            auto v_ = value; archive &boost::serialization::make_nvp(\"value\", v_); value = v_;")
E
F=esl/interaction/transfer.hpp; m r-order <<'E'
a="            archive &BOOST_SERIALIZATION_NVP(transferee);\n"
s=s.replace(a,"").replace("            archive &BOOST_SERIALIZATION_NVP(transferor)",a+"            archive &BOOST_SERIALIZATION_NVP(transferor)")
E
F=esl/data/producer.hpp; m r-index <<'E'
s=s.replace("for(auto [key_,v] : outputs){","for(const auto &pair_ : outputs){ const auto &key_ = pair_.first; const auto &v = pair_.second;")
E
m r-emplace <<'E'
s=s.replace("outputs.insert({key_, value_});","outputs.emplace(key_, value_);")
E
m r-idx <<'E'
s=s.replace("outputs.insert({key_, value_});","outputs[key_] = value_;")
E
m r-while <<'E'
s=s.replace("for(size_t i = 0; i < size_; ++i){","for(; 0 < size_; --size_){")
E
F=esl/economics/markets/quote.hpp; m r-if <<'E'
i=s.index("            switch(index_) {"); j=s.index("        template",i)
s=s[:i]+"""            if(0 != index_) { throw esl::exception("variant quote not supported"); }
            archive << boost::serialization::make_nvp("price", std::get<price>(type));
        }

"""+s[j:]
E
m r-assign <<'E'
s=s.replace("type.emplace<price>(p);","type = p;")
E
F=esl/law/legal_person.hpp; m r-visit <<'E'
s=s.replace("std::get<legal_entity>(representation)","std::get<0>(representation)")
E
F=esl/agent.hpp; m r-helper <<'E'
i=s.index("void serialize"); j=s.index("}",i)
s=s[:i]+s[i:j].replace("archive &","archive & ")+s[j:]
E
