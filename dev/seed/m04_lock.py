P='M04'; F='esl/simulation/model.cpp'; ENV=True
def edit(s): return s.replace("                    std::unique_lock lock_(mutex_first_event_);\n                    auto wake_up_","                    std::unique_lock lock_(mutex_first_event_, std::defer_lock);\n                    if(!agents.local_agents_.empty() && message_time_ < step.upper) lock_.lock();\n                    auto wake_up_")
NEEDS='several threads, agents without pending messages acting at the same time'
BREAKS='wake-up times are changed by several threads without lock'
DEMO='\n#include <esl/simulation/model.hpp>\n#include <esl/computation/environment.hpp>\n#include <esl/agent.hpp>\n#include <esl/interaction/message.hpp>\n#include <iostream>\n#include <mutex>\nusing namespace esl; using namespace esl::simulation;\nstruct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };\n\n#include <atomic>\n#include <thread>\nstatic std::atomic<int> inside{0}, worst{0};\n// a map allocation from two threads at once is seen by counting allocations in progress\n#include <cstdlib>\n#include <new>\nstatic thread_local bool armed = false;\nvoid *operator new(std::size_t n) { return std::malloc(n); }\nint main() {\n    computation::environment e; parameter::parametrization p(0, 0, 100); p.values["threads"] = std::make_shared<parameter::constant<std::uint64_t>>(8);\n    model m(e, p);\n    struct quiet: agent { using agent::agent; time_point act(time_interval s, std::seed_seq &) override { return s.upper; } };\n    for(unsigned k = 1; k < 4000; ++k){ auto b = std::make_shared<quiet>(identity<agent>({k})); m.agents.local_agents_.emplace(b->identifier, b); }\n    m.step({0, 10});\n    return 0;\n}'
