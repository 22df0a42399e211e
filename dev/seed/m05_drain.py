P='M05'; F='esl/computation/blocking_queue.hpp'; ENV=False
def edit(s):
    i=s.index("std::is_move_assignable<element_t_>::value, bool>::type\n        pop")
    return s[:i]+s[i:].replace("            if(queue_.empty()) {","            if(closed_) {",1)
NEEDS='a queue or pool that is closed (or destroyed) while it still holds items'
BREAKS='items that were accepted before closing are dropped'
DEMO='''
#include <thread>
#include <functional>
#include <vector>
#include <esl/computation/blocking_queue.hpp>
#include <esl/computation/thread_pool.hpp>
int main() {
    esl::computation::blocking_queue<int> q;
    q.push(1); q.push(2); q.close();
    int x = 0;
    if(!q.pop(x) || x != 1 || !q.pop(x) || x != 2) return 1;
    return q.pop(x) ? 1 : 0;
}'''
