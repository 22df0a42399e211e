. /tmp/w/m.sh; P=P01; T=2
F=esl/simulation/parameter/parametrization.hpp; m threads <<'E'
s=s.replace('(threads);','(verbosity);')
E
m start-end <<'E'
s=s.replace('constant<time_point>>(end)','constant<time_point>>(start)')
E
m key <<'E'
s=s.replace('values["verbosity"] =','values["threads"] =')
E
m nothrow <<'E'
s=s.replace('''            if(values.end() == iterator_) {
                throw''','''            if(values.end() == iterator_) {
                static parameter_t_ none_{}; return none_;
                throw''')
E
m lower_bound <<'E'
s=s.replace('values.find(name)','values.lower_bound(name)')
E
m static-cast <<'E'
s=s.replace('std::dynamic_pointer_cast','std::static_pointer_cast')
E
F=esl/simulation/parameter/sampler.hpp; m g-density <<'E'
s=s.replace("/ (d - 1) * s","/ d * s")
E
m g-one <<'E'
s=s.replace("auto v = d > 1 ? p->lower + (p->upper - p->lower) / (d - 1) * s : p->lower;","auto v = p->lower + (p->upper - p->lower) / (d - 1) * s;")
E
m g-int <<'E'
s=s.replace("(p->upper - p->lower) / (d - 1) * s","(p->upper - p->lower) * (s / (d - 1))",1)
E
m g-prefix <<'E'
s=s.replace("                    prefix_ *= d;\n","                    prefix_ += d;\n")
E
m g-noprefix <<'E'
s=s.replace("(s / prefix_) % d","s % d")
E
m g-prefix-first <<'E'
s=s.replace("                    indices_. emplace(p,  (s / prefix_) % d);\n                    prefix_ *= d;","                    prefix_ *= d;\n                    indices_. emplace(p,  (s / prefix_) % d);")
E
m g-noclear <<'E'
s=s.replace("                indices_.clear();\n","")
E
m g-count <<'E'
s=s.replace("s < points_; ++s) {\n                unsigned int prefix_","s + 1 < points_; ++s) {\n                unsigned int prefix_")
E
m g-start <<'E'
s=s.replace("for(unsigned int s = 0; s < points_; ++s) {\n                unsigned int prefix_","for(unsigned int s = 1; s <= points_; ++s) {\n                unsigned int prefix_")
E
m g-points <<'E'
s=s.replace("                points_ *= d;\n                values_","                points_ += d;\n                values_")
E
m g-values-short <<'E'
s=s.replace("for(unsigned int s = 0; s < d; ++s)","for(unsigned int s = 0; s + 1 < d; ++s)")
E
m l-noshuffle-other <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("indices_[p]. emplace_back(s);","indices_[p]. emplace_back(s / 2);",1)
E
m l-index <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("values_[p][index_[s]]","values_[p][index_[0]]",1)
E
m l-half-shuffle <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("values_[p][index_[s]]","values_[p][index_[s % 2]]",1)
E
m l-density <<'E'
i=s.index("latin_hypercube(")
s=s[:i]+s[i:].replace("for(unsigned int s = 0; s < density; ++s) {\n                typename","for(unsigned int s = 1; s < density; ++s) {\n                typename",1)
E
m l-one <<'E'
s=s.replace("auto v = density > 1 ? p->lower + (p->upper - p->lower) / (density - 1) * s : p->lower;","auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;")
E
m u-bounds <<'E'
s=s.replace("( p->lower\n","( 0.\n")
E
m u-upper <<'E'
s=s.replace("std::nextafter(p->upper, std::num","std::nextafter(p->lower, std::num")
E
m u-first <<'E'
s=s.replace("distributions_[p](generator_)","distributions_[parameters.front()](generator_)")
E
m u-count <<'E'
s=s.replace("s < samples; ++s){\n                std::map","s <= samples; ++s){\n                std::map")
E
