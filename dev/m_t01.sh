. /tmp/w/m.sh; P=T01; F=esl/economics/owner.hpp; T=2
m base-swap <<'E'
s=s.replace("msg->transferred.erase_from(inventory);","msg->transferred.insert_into(inventory);")
E
m base-self <<'E'
s=s.replace("""                if(msg->transferor == msg->transferee){
                   return simulation::time_point(ti.upper);
                }
""","")
E
m base-noinsert <<'E'
s=s.replace("                    msg->transferred.insert_into(inventory);\n","")
E
m base-lower <<'E'
s=s.replace("return simulation::time_point(ti.upper);\n            };","return simulation::time_point(ti.lower);\n            };")
E
m base-cond <<'E'
s=s.replace("} else if(this->identifier == msg->transferee) {\n                    LOG(trace) << this->name() << \" receives","} else {\n                    LOG(trace) << this->name() << \" receives").replace("""                } else {
                    LOG(notice)""","""                } if(false) {
                    LOG(notice)""")
E
m typed-notself <<'E'
s=s.replace("""                if(msg->transferor == msg->transferee) {
                    return ti.upper;
                }
""","")
E
m typed-break <<'E'
s=s.replace("if(!d) {\n                            continue;","if(!d) {\n                            break;",1)
E
m typed-break2 <<'E'
i=s.rindex("if(!d) {\n                            continue;")
s=s[:i]+s[i:].replace("continue;","break;",1)
E
m typed-once <<'E'
s=s.replace(".insert(properties, d, q);",".insert(properties, d, q);\n                        break;")
E
m typed-qty <<'E'
s=s.replace(".insert(properties, d, q);",".insert(properties, d, quantity(1));")
E
m typed-swap <<'E'
s=s.replace(".erase(properties, d, q);",".insert(properties, d, q);")
E
m helper-one <<'E'
s=s.replace("properties.insert(p, q);","properties.insert(p, quantity(1));")
E
m helper-erase <<'E'
s=s.replace("properties.erase(p, q);","if(q.amount > 0) { properties.erase(p, quantity(q.amount - 1)); }")
E
m helper-noerase <<'E'
s=s.replace("                properties.erase(p);\n","                (void)p;\n")
E
m swallow-typed <<'E'
s=s.replace("""LOG(errorlog) << name() << " " << e.what() << std::endl;
                            throw e;""","""LOG(errorlog) << name() << " " << e.what() << std::endl;""")
E
m swallow-base <<'E'
s=s.replace("""e.what() << std::endl;
                        throw e;""","""e.what() << std::endl;""",1)
E
m other-party <<'E'
s=s.replace("if((*this).identifier == msg->transferor) {","if(!((*this).identifier == msg->transferee)) {")
E
m static-cast <<'E'
s=s.replace("std::dynamic_pointer_cast<property_t_>(i);\n                        if(!d) {\n                            continue;\n                        }\n                        //LOG(trace) << typeid(property_t_).name() << \" (\" << i->identifier << \") \" <<  msg","std::static_pointer_cast<property_t_>(i);\n                        if(!d) {\n                            continue;\n                        }\n                        //LOG(trace) << typeid(property_t_).name() << \" (\" << i->identifier << \") \" <<  msg")
E
m take-typed <<'E'
s=s.replace("            this->properties.insert(property, amount);\n","")
E
m take-two <<'E'
s=s.replace("            this->properties.insert(property, amount);\n","            this->properties.insert(property, amount); if(amount.amount > 100) this->properties.insert(property, amount);\n")
E
m zero-skip <<'E'
s=s.replace("if(!d) {\n                            continue;","if(!d || q.amount > 1000000) {\n                            continue;")
E
F=esl/law/property_map.hpp
ls /repo/$F >/dev/null
