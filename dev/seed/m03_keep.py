P='M03'; F='esl/simulation/model.cpp'; ENV=True
def edit(s): return s.replace("if(time_ > step.lower){","if(time_ >= step.upper){")
NEEDS='a message due strictly inside of the interval of a step'
BREAKS='the message is dropped before it is due'
DEMO='\n#include <esl/simulation/model.hpp>\n#include <esl/computation/environment.hpp>\n#include <esl/agent.hpp>\n#include <esl/interaction/message.hpp>\n#include <iostream>\n#include <mutex>\nusing namespace esl; using namespace esl::simulation;\nstruct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };\n\nint main() {\n    computation::environment e; parameter::parametrization p(0, 0, 100); model m(e, p);\n    struct quiet: agent { using agent::agent; time_point act(time_interval s, std::seed_seq &) override { return s.upper; } };\n    auto b = std::make_shared<quiet>(identity<agent>({2}));\n    m.agents.local_agents_.emplace(b->identifier, b);\n    b->inbox.insert({5, std::make_shared<note>(b->identifier, b->identifier, 0, 5)});\n    m.step({0, 10});\n    return b->inbox.size() == 1 ? 0 : 1;\n}'
