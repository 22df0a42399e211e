P='M05'; F='esl/computation/blocking_queue.hpp'; ENV=False
def edit(s):
    i=s.index("push(element_t_ &&item)")
    return s[:i]+s[i:].replace('''            {
                std::unique_lock lock_(mutex_);
                queue_.emplace(std::forward<element_t_>(item));
            }
            variable_.notify_one();''','''            bool waiting_ = false;
            {
                std::unique_lock lock_(mutex_);
                waiting_ = queue_.empty();
                queue_.emplace(std::forward<element_t_>(item));
            }
            if(waiting_) {
                // consumers only wait when there is nothing to do
                variable_.notify_one();
            }''',1)
NEEDS='two consumers waiting while two items are added in quick succession'
BREAKS='a waiting consumer is not woken although there is an item for it'
DEMO='''
#include <thread>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <functional>
#include <vector>
#include <esl/computation/blocking_queue.hpp>
using namespace std::chrono_literals;
int main() {
    for(int round = 0; round < 60; ++round) {
        esl::computation::blocking_queue<int> q;
        std::atomic<int> got{0};
        std::vector<std::thread> ts;
        for(int i = 0; i < 4; ++i) ts.emplace_back([&] { int x; if(q.pop(x)) ++got; });
        std::this_thread::sleep_for(5ms);
        for(int i = 0; i < 4; ++i) q.push(std::move(i));
        for(int i = 0; i < 300 && got < 4; ++i) std::this_thread::sleep_for(5ms);
        bool ok = got == 4;
        if(!ok) std::_Exit(1);
        q.close();
        for(auto &t: ts) t.join();
    }
    return 0;
}'''
