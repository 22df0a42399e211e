P='M01'; F='esl/computation/environment.cpp'; ENV=True
def edit(s): return s.replace("            a->outbox.clear();   ","            if(1 < a->outbox.size() || messages_) a->outbox.clear();   ").replace("                ++messages_;\n            }\n","                ++messages_;\n            }\n            if(i.digits.size() > 2 && a->outbox.size() == 1) { a->outbox.shrink_to_fit(); continue; }\n")
NEEDS='an agent whose identity has more than two digits sends a single message'
BREAKS='the outbox is not cleared and the message is sent again in the next round'
DEMO='\n#include <esl/simulation/model.hpp>\n#include <esl/computation/environment.hpp>\n#include <esl/agent.hpp>\n#include <esl/interaction/message.hpp>\n#include <iostream>\n#include <mutex>\nusing namespace esl; using namespace esl::simulation;\nstruct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };\n\nint main() {\n    computation::environment e; parameter::parametrization p(0, 0, 100); model m(e, p);\n    auto a = std::make_shared<agent>(identity<agent>({1,2,3})), b = std::make_shared<agent>(identity<agent>({2}));\n    m.agents.local_agents_.emplace(a->identifier, a); m.agents.local_agents_.emplace(b->identifier, b);\n    a->create_message<note>(b->identifier, 7, a->identifier, b->identifier);\n    struct env: computation::environment { using computation::environment::send_messages; } ee;\n    ee.send_messages(m); ee.send_messages(m);\n    return b->inbox.size() == 1 ? 0 : 1;\n}'
