. /tmp/w/m.sh; P=S01; T=2
F=esl/interaction/transfer.hpp; m drop-transferee <<'E'
s=s.replace("            archive &BOOST_SERIALIZATION_NVP(transferee);\n","")
E
m twice <<'E'
s=s.replace("NVP(transferee)","NVP(transferor)")
E
F=esl/simulation/entity.hpp; m children <<'E'
s=s.replace("            archive &BOOST_SERIALIZATION_NVP(children_);\n","")
E
F=esl/economics/iso_4217.hpp; m order <<'E'
a='            archive >> BOOST_SERIALIZATION_NVP(denominator);\n'
s=s.replace(a,'').replace('            archive >> boost::serialization::make_nvp("code"',a+'            archive >> boost::serialization::make_nvp("code"')
E
m idx <<'E'
s=s.replace("code[i] = code_[i]","code[i] = code_[0]")
E
m short <<'E'
s=s.replace("i < code.size(); ++i){\n                code[i] = code_[i]","i < 2; ++i){\n                code[i] = code_[i]")
E
m skip <<'E'
s=s.replace("for(size_t i = 0; i < code.size(); ++i){\n                code[i] = code_[i]","for(size_t i = 1; i < code.size(); ++i){\n                code[i] = code_[i]")
E
F=esl/mathematics/rational.hpp; m rate-trunc <<'E'
s=s.replace("T n, d;","int n, d;")
E
m rate-swap <<'E'
s=s.replace("boost::rational<T>(n, d)","boost::rational<T>(d, n)")
E
F=esl/data/serialization.hpp; m tuple <<'E'
s=s.replace("std::get<element_-1>(t)","std::get<0>(t)")
E
F=esl/data/producer.hpp; m prod <<'E'
s=s.replace("i < size_","i + 1 < size_")
E
m prod2 <<'E'
s=s.replace("outputs.insert({key_, value_});","if(0 == i) outputs.insert({key_, value_});")
E
F=esl/economics/markets/quote.hpp; m lot <<'E'
s=s.replace("            archive >> BOOST_SERIALIZATION_NVP(lot);\n","            lot_t l_ = 1; archive >> boost::serialization::make_nvp(\"lot\", l_);\n")
E
F=esl/agent.hpp; m agent-outputs <<'E'
i=s.index("void serialize"); j=s.index("}",i); print(s[i:j])
import re
L=[x for x in re.findall(r"\n *archive ?&[^;]*;",s[i:j])]
s=s[:i]+s[i:j].replace(L[-1],"")+s[j:]
E
F=esl/economics/finance/loan.hpp; m loan <<'E'
s=s.replace("""            archive &boost::serialization::make_nvp("contract"
                , boost::serialization::base_object<contract>(*this));
""","            (void)archive;")
E
F=esl/interaction/header.hpp; m header <<'E'
i=s.index("serialize("); j=s.index("}",i); print(s[i:j])
import re
L=[x for x in re.findall(r"\n *archive ?&[^;]*;",s[i:j])]
s=s[:i]+s[i:j].replace(L[-1],"")+s[j:]
E
F=esl/law/legal_person.hpp; m variant <<'E'
s=s.replace("representation.emplace<2>(g)","representation.emplace<2>(government())")
E
m variant2 <<'E'
s=s.replace("""            case 1:
                archive << boost::serialization::make_nvp(
                    "natural_person", std::get<natural_person>(representation));
                break;
""","")
E
F=esl/interaction/communicator.hpp; m locked <<'E'
s=s.replace("            locked_ = is_locked_;\n","")
E
m inbox <<'E'
s=s.replace("            archive &BOOST_SERIALIZATION_NVP(outbox);","            archive &BOOST_SERIALIZATION_NVP(outbox); if(!locked_) outbox.clear();")
E
F=esl/economics/price.hpp; m cents <<'E'
s=s.replace("            archive &BOOST_SERIALIZATION_NVP(value);","            int v_ = value; archive &boost::serialization::make_nvp(\"value\", v_); value = v_;")
E
