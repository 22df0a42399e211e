P='M04'; F='esl/simulation/model.cpp'; ENV=True
def edit(s):
    s=s.replace("""            }else{
                std::vector<std::thread> threads_;
                auto iterator_""","""            }else{
                auto iterator_""")
    s=s.replace("""            // important: if using a single thread, run everything in main
""","""            std::vector<std::thread> threads_;
            // important: if using a single thread, run everything in main
""")
    j="""
                for(auto &t: threads_){
                    t.join();
                }
            }
"""
    assert j in s
    s=s.replace(j,"            }\n")
    s=s.replace("""            messages_sent += messages_sent_;
""","""            messages_sent += messages_sent_;

            for(auto &t: threads_){
                t.join();
            }
""")
    return s
NEEDS='several threads, and an agent that sends a message after the others have finished'
BREAKS='messages are exchanged while agents still act: a message sent late in the round is not delivered when due'
DEMO='''
#include <esl/simulation/model.hpp>
#include <esl/computation/environment.hpp>
#include <esl/agent.hpp>
#include <esl/interaction/message.hpp>
#include <thread>
#include <chrono>
#include <atomic>
using namespace esl; using namespace esl::simulation;
struct note: public interaction::message<note, 0x77> { using interaction::message<note,0x77>::message; };
std::atomic<int> received{0};
struct sender: agent { using agent::agent; identity<agent> to;
    time_point act(time_interval step, std::seed_seq &) override {
        if(step.lower == 0 && !sent) { sent = true; std::this_thread::sleep_for(std::chrono::milliseconds(150));
            create_message<note>(to, step.lower, identifier, to); }
        return step.upper; }
    bool sent = false; };
struct receiver: agent { explicit receiver(const identity<agent> &i): agent(i) {
        register_callback<note>([](auto, auto step, auto &) { ++received; return step.upper; }, 0); }
    time_point act(time_interval step, std::seed_seq &) override { return step.upper; } };
int main() {
    computation::environment e; parameter::parametrization p(0, 0, 100); model m(e, p); m.threads = 2;
    auto a = std::make_shared<sender>(identity<agent>({1})); auto b = std::make_shared<receiver>(identity<agent>({2}));
    a->to = b->identifier;
    m.agents.local_agents_.emplace(a->identifier, a); m.agents.local_agents_.emplace(b->identifier, b);
    m.step({0, 10});
    return received == 1 ? 0 : 1;
}'''
