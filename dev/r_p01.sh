. /tmp/w/m.sh; P=P01; T=4
F=esl/simulation/parameter/parametrization.hpp; m r-emplace <<'E'
s=s.replace('values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);','values.emplace("threads", std::make_shared<constant<std::uint64_t>>(threads));')
E
m r-init <<'E'
s=s.replace('values["start"]     = std::make_shared<constant<time_point>>(start);','auto start_ = std::make_shared<constant<time_point>>(start);\n values.insert_or_assign("start", start_);')
E
m r-count <<'E'
s=s.replace("auto iterator_ = values.find(name);\n            if(values.end() == iterator_) {","if(0 == values.count(name)) {").replace("(iterator_->second)","(values.at(name))")
E
m r-nested <<'E'
s=s.replace('''            if(!value_){
                throw std::out_of_range("parametrization[" + name + "] does not match type " + typeid(parameter_t_).name());
            }
            return value_->choice;''','''            if(value_){
                return value_->choice;
            }
            throw std::out_of_range("parametrization[" + name + "] does not match type " + typeid(parameter_t_).name());''')
E
F=esl/simulation/parameter/sampler.hpp; m r-formula <<'E'
s=s.replace("auto v = d > 1 ? p->lower + (p->upper - p->lower) / (d - 1) * s : p->lower;","const auto width_ = p->upper - p->lower;\n auto v = p->lower;\n if(1 < d) { v += width_ * s / (d - 1); }")
E
m r-helper <<'E'
s=s.replace("auto v = d > 1 ? p->lower + (p->upper - p->lower) / (d - 1) * s : p->lower;","auto v = grid_point(p->lower, p->upper, d, s);").replace("auto v = density > 1 ? p->lower + (p->upper - p->lower) / (density - 1) * s : p->lower;","auto v = grid_point(p->lower, p->upper, density, s);")
s=s.replace("    namespace sampler {\n","    namespace sampler {\n        template<typename number_t_> number_t_ grid_point(number_t_ lower, number_t_ upper, unsigned int density, unsigned int i)\n        {\n            if(density <= 1) { return lower; }\n            return lower + (upper - lower) / (density - 1) * i;\n        }\n",1)
E
m r-rest <<'E'
s=s.replace("unsigned int prefix_ = 1;","unsigned int rest_ = s;").replace("(s / prefix_) % d","rest_ % d").replace("prefix_ *= d","rest_ /= d")
E
m r-direct <<'E'
i=s.index("                unsigned int prefix_ = 1;"); j=s.index("                result_. emplace_back(sample_);")
s=s[:i]+"""                unsigned int prefix_ = 1;
                std::map<std::shared_ptr<parameter::interval<number_t_>>, number_t_> sample_;
                for(const auto &[p, d] : parameter_densities) {
                    sample_[p] = values_[p][(s / prefix_) % d];
                    prefix_ *= d;
                }
"""+s[j:]
E
m r-local-indices <<'E'
s=s.replace("                indices_.clear();\n","                std::map<std::shared_ptr<parameter::interval<number_t_>>, unsigned int > indices_;\n").replace("                indices_.emplace(p, 0);\n","").replace("            std::map<std::shared_ptr<parameter::interval<number_t_>>, unsigned int > indices_;\n            unsigned int points_","            unsigned int points_")
E
m r-points-sep <<'E'
s=s.replace("                points_ *= d;\n                values_","                values_").replace("            unsigned int points_ = 1;\n            for(const auto &[p, d]: p","            unsigned int points_ = 1;\n            for(const auto &e: parameter_densities) { points_ = e.second * points_; }\n            for(const auto &[p, d]: p")
E
m r-push <<'E'
s=s.replace("values_[p].emplace_back(v);","values_.at(p).push_back(v);").replace("result_. emplace_back(sample_)","result_.push_back(sample_)")
E
m r-l-while <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("for(unsigned int s = 0; s < density; ++s) {\n                typename","unsigned int s = 0;\n while(s < density) {\n                typename",1).replace("                result_. emplace_back(sample_);\n","                result_. emplace_back(sample_);\n ++s;\n",1)
E
m r-l-values <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("for(const auto &[p, index_]: indices_){\n                    sample_[p] = values_[p][index_[s]];","for(const auto &p: parameters){\n                    sample_[p] = values_[p][indices_[p][s]];",1)
E
m r-l-split <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("                    indices_[p]. emplace_back(s);\n","",1).replace("                std::shuffle(","                for(size_t k = 0; k < density; ++k) { indices_[p].push_back(k); }\n                std::shuffle(",1)
E
m r-u <<'E'
s=s.replace("sample_[p] = distributions_[p](generator_);","auto &distribution_ = distributions_[p];\n const auto value_ = distribution_(generator_);\n sample_.emplace(p, value_);")
E
m r-u-at <<'E'
s=s.replace("distributions_[p](generator_)","distributions_.find(p)->second(generator_)")
E
