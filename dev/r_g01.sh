. /tmp/w/m.sh; P=G01; T=2
F=esl/geography/countries.hpp
m order <<'E'
s=s.replace('        case unique_hash(YT):\n            return "Mayotte";\n','').replace('        case unique_hash(AE):\n','        case unique_hash(YT):\n            return "Mayotte";\n        case unique_hash(AE):\n',1)
E
m hash <<'E'
s=s.replace("return size_t(c.code[0]) - size_t('A') + 26 * size_t(c.code[1]) - size_t('A');","return (size_t(c.code[0]) - size_t('A')) + 26 * (size_t(c.code[1]) - size_t('A'));")
E
m hash2 <<'E'
s=s.replace("return size_t(c.code[0]) - size_t('A') + 26 * size_t(c.code[1]) - size_t('A');","size_t result_ = 0;\n            for(char x_ : c.code) {\n                result_ = 26 * result_ + size_t(x_ - 'A');\n            }\n            return result_;")
E
m dflt <<'E'
s=s.replace('return string_t_("iso_3166_1_alpha_2 ").append(c.code.data(), c.code.size());','string_t_ result_ = "iso_3166_1_alpha_2 ";\n            for(auto x_ : c.code) {\n                result_ += x_;\n            }\n            return result_;')
E
m dflt2 <<'E'
s=s.replace('return string_t_("iso_3166_1_alpha_2 ").append(c.code.data(), c.code.size());','return string_t_("iso_3166_1_alpha_2 ") + string_t_(c.code.data(), c.code.size());')
E
m ifs <<'E'
s=s.replace("switch(unique_hash(c)) {","const auto hash_ = unique_hash(c);\n        switch(hash_) {")
E
m allif <<'E'
import re
i=s.index("        switch(unique_hash(c)) {"); t=s[i:]
t=t.replace("        switch(unique_hash(c)) {\n","        const auto hash_ = unique_hash(c);\n",1)
t=re.sub(r'case unique_hash\((\w+)\):',r'if(hash_ == unique_hash(\1))',t)
t=t.replace("        default:\n","").replace("        }\n    }\n}","    }\n}",1)
s=s[:i]+t
E
m table <<'E'
import re
i=s.index("        switch(unique_hash(c)) {"); t=s[i:]
rows=re.findall(r'case unique_hash\((\w+)\):\s*return ("[^"]*");',t)
d=t.index("return string_t_(")
s=s[:i]+"        static constexpr std::pair<iso_3166_1_alpha_2, const char *> names_[] = {\n"+''.join('            {%s, %s},\n'%r for r in rows)+"        };\n        for(const auto &[k, v] : names_) {\n            if(unique_hash(k) == unique_hash(c)) {\n                return v;\n            }\n        }\n        "+t[d:].replace("        }\n    }\n}","    }\n}",1)
s=s.replace("#include <string>","#include <string>\n#include <utility>",1)
E
F=esl/economics/currencies.hpp
m hash <<'E'
s=s.replace("switch(unique_hash(c))","switch(detail::unique_hash(c))")
E
m dflt <<'E'
s=s.replace("return (((string_t_() + c.code[0]) + c.code[1]) + c.code[2]);","return string_t_(c.code.begin(), c.code.end());")
E
m dflt2 <<'E'
s=s.replace("return (((string_t_() + c.code[0]) + c.code[1]) + c.code[2]);","string_t_ r_;\n            for(std::size_t i = 0; i < c.code.size(); ++i) {\n                r_.push_back(c.code[i]);\n            }\n            return r_;")
E
m explicit <<'E'
s=s.replace("iso_4217({'E', 'U', 'R'})","iso_4217({'E', 'U', 'R'}, 100)")
E
F=esl/law/jurisdiction.hpp
m brace <<'E'
s=s.replace(": sovereign(sovereign)",": sovereign{sovereign}").replace(", tender(tender)",", tender{tender}")
E
F=esl/law/jurisdictions.hpp
m using <<'E'
s=s.replace("    namespace jurisdictions {\n","    namespace jurisdictions {\n        using geography::countries::AF;\n" if 0 else "    namespace jurisdictions {\n        namespace money = economics::currencies;\n",1).replace("economics::currencies::EUR","money::EUR")
E
