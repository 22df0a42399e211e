P='M01'; F='esl/computation/environment.cpp'; ENV=True
def edit(s): return s.replace("                if(simulation.wake_up_times.end() == recipient_iterator_){","                if(simulation.wake_up_times.end() == recipient_iterator_ || recipient_iterator_->second <= simulation.time){")
NEEDS='a message due later, sent to an agent that is itself due again at the current time in another round'
BREAKS='the wake-up time of the recipient is pushed back to the time of the message'
DEMO='\n#include <esl/simulation/model.hpp>\n#include <esl/computation/environment.hpp>\n#include <esl/agent.hpp>\n#include <esl/interaction/message.hpp>\n#include <iostream>\n#include <mutex>\nusing namespace esl; using namespace esl::simulation;\nstruct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };\n\nint main() {\n    computation::environment e; parameter::parametrization p(0, 0, 100); model m(e, p);\n    auto a = std::make_shared<agent>(identity<agent>({1})), b = std::make_shared<agent>(identity<agent>({2}));\n    m.agents.local_agents_.emplace(a->identifier, a); m.agents.local_agents_.emplace(b->identifier, b);\n    m.wake_up_times[b->identifier] = 0;\n    a->create_message<note>(b->identifier, 7, a->identifier, b->identifier);\n    struct env: computation::environment { using computation::environment::send_messages; } ee;\n    ee.send_messages(m);\n    return m.wake_up_times[b->identifier] == 0 ? 0 : 1;\n}'
