P='M02'; F='esl/interaction/communicator.cpp'; ENV=True
def edit(s): return s.replace("            for(const auto &m : equal_) {\n                auto next_event_ = process_message(m, step, seed);\n                first_event_     = std::min(first_event_, next_event_);","            auto group_event_ = step.upper;\n            for(const auto &m : equal_) {\n                auto next_event_ = process_message(m, step, seed);\n                group_event_     = std::min(group_event_, next_event_);").replace("\n            }\n        }\n        return first_event_;\n    }\n\n    void communicator::trace","\n            }\n            first_event_ = group_event_ < step.upper ? group_event_ : first_event_;\n        }\n        return first_event_;\n    }\n\n    void communicator::trace")
NEEDS='two messages of different priority whose callbacks return different wake-up times, the earlier from the higher priority'
BREAKS='the agent wakes at the later time'
DEMO='\n#include <esl/simulation/model.hpp>\n#include <esl/computation/environment.hpp>\n#include <esl/agent.hpp>\n#include <esl/interaction/message.hpp>\n#include <iostream>\n#include <mutex>\nusing namespace esl; using namespace esl::simulation;\nstruct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };\n\nstruct other: public interaction::message<other, 0x78> { using interaction::message<other,0x78>::message; };\nint main() {\n    agent b(identity<agent>({2}));\n    b.register_callback<note>([&](auto, time_interval i, std::seed_seq &){ return time_point(3); }, 5, "", "", "", 0);\n    b.register_callback<other>([&](auto, time_interval i, std::seed_seq &){ return time_point(6); }, 1, "", "", "", 0);\n    b.inbox.insert({0, std::make_shared<other>(b.identifier, b.identifier, 0, 0)});\n    b.inbox.insert({0, std::make_shared<note>(b.identifier, b.identifier, 0, 0)});\n    std::seed_seq q{1};\n    return b.process_messages({0, 10}, q) == 3 ? 0 : 1;\n}'
