P='M03'; F='esl/simulation/model.cpp'; ENV=True
def edit(s): return s.replace("            if(0 < messages_sent_){\n                first_event_","            if(1 < messages_sent_){\n                first_event_")
NEEDS='a round in which exactly one message is sent, due before every wake-up time'
BREAKS='the step returns a time after the message is due, so the recipient handles it late'
DEMO=r'''
#include <esl/simulation/model.hpp>
#include <esl/computation/environment.hpp>
#include <esl/agent.hpp>
#include <esl/interaction/message.hpp>
#include <iostream>
using namespace esl; using namespace esl::simulation;
struct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };
struct sender: public agent {
    identity<agent> to; unsigned n;
    sender(identity<agent> i, identity<agent> to, unsigned n): agent(i), to(to), n(n) {}
    time_point act(time_interval step, std::seed_seq &) override {
        if(step.lower == 0) for(unsigned k = 0; k < n; ++k) this->create_message<note>(to, step.lower + 5, identifier, to);
        return step.upper;
    }
};
struct quiet: public agent { using agent::agent;
    time_point act(time_interval step, std::seed_seq &) override { return step.upper; } };
int main() {
    computation::environment e;
    parameter::parametrization p(0, 0, 100);
    model m(e, p);
    auto b = std::make_shared<quiet>(identity<agent>({2}));
    auto a = std::make_shared<sender>(identity<agent>({1}), b->identifier, 1u);
    m.agents.local_agents_.emplace(a->identifier, a);
    m.agents.local_agents_.emplace(b->identifier, b);
    auto t = m.step({0, 100});
    std::cout << "next " << t << std::endl;
    return t == 5 ? 0 : 1;
}
'''
