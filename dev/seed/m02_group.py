P='M02'; F='esl/interaction/communicator.cpp'; ENV=True
def edit(s): return s.replace("upper_->first == i->first","upper_->first >= i->first - 1")
NEEDS='messages whose highest callback priorities differ by one, in the unordered schedule: the group is processed in arrival order only with a shuffled schedule or three levels'
BREAKS='with random scheduling a message of lower priority can be processed before one of higher priority'
DEMO='\n#include <esl/simulation/model.hpp>\n#include <esl/computation/environment.hpp>\n#include <esl/agent.hpp>\n#include <esl/interaction/message.hpp>\n#include <iostream>\n#include <mutex>\nusing namespace esl; using namespace esl::simulation;\nstruct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };\n\nstruct other: public interaction::message<other, 0x78> { using interaction::message<other,0x78>::message; };\nint main() {\n    for(unsigned s = 0; s < 64; ++s){\n        agent b(identity<agent>({2}));\n        b.schedule = interaction::communicator::random;\n        std::vector<int> order;\n        b.register_callback<note>([&](auto, time_interval i, std::seed_seq &){ order.push_back(0); return i.upper; }, 1, "", "", "", 0);\n        b.register_callback<other>([&](auto, time_interval i, std::seed_seq &){ order.push_back(1); return i.upper; }, 0, "", "", "", 0);\n        for(int k = 0; k < 4; ++k){\n            b.inbox.insert({0, std::make_shared<other>(b.identifier, b.identifier, 0, 0)});\n            b.inbox.insert({0, std::make_shared<note>(b.identifier, b.identifier, 0, 0)});\n        }\n        std::seed_seq q{s};\n        b.process_messages({0, 10}, q);\n        if(order.size() != 8) return 2;\n        for(int k = 0; k < 8; ++k) if(order[k] != (k < 4 ? 0 : 1)) return 1;\n    }\n    return 0;\n}'
