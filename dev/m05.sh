. /tmp/w/m.sh; P=M05; F=esl/computation/blocking_queue.hpp
m nolock <<'E'
s=s.replace("                std::unique_lock lock(mutex_);\n                queue_.push(item);","                queue_.push(item);",1)
E
m if-wait <<'E'
i=s.index("std::is_move_assignable<element_t_>::value, bool>::type\n        pop"); s=s[:i]+s[i:].replace("while(queue_.empty() && !closed_)","if(queue_.empty() && !closed_)",1)
E
m close-nolock <<'E'
s=s.replace("                std::unique_lock lock_(mutex_);\n                closed_ = true;","                closed_ = true;")
E
m notify_one-close <<'E'
s=s.replace("notify_all","notify_one")
E
m no-notify <<'E'
i=s.index("try_push(element_t_ &&"); s=s[:i]+s[i:].replace("            variable_.notify_one();\n","",1)
E
m notify-before <<'E'
i=s.index("push(const element_t_ &item)"); s=s[:i]+s[i:].replace("            variable_.notify_one();\n","",1).replace("            {\n","            variable_.notify_one();\n            {\n",1)
E
m try-ignored <<'E'
i=s.index("try_push(element_t_ &&"); s=s[:i]+s[i:].replace("if(!lock_)","if(closed_)",1)
E
m trypop-noown <<'E'
i=s.rindex("if(!lock_ || queue_.empty())"); s=s[:i]+"if(queue_.empty())"+s[i+len("if(!lock_ || queue_.empty())"):]
E
m pop-closed-drops <<'E'
i=s.index("std::is_move_assignable<element_t_>::value, bool>::type\n        pop"); s=s[:i]+s[i:].replace("            if(queue_.empty()) {","            if(closed_) {",1)
E
m empty-nolock <<'E'
s=s.replace("std::scoped_lock lock_(mutex_);\n            return queue_.empty","return queue_.empty")
E
m pushtwice <<'E'
i=s.index("try_push(element_t_ &&"); s=s[:i]+s[i:].replace("queue_.emplace(std::forward<element_t_>(item));","queue_.push(item);queue_.emplace(std::forward<element_t_>(item));",1)
E
m poporder <<'E'
i=s.index("std::is_move_assignable<element_t_>::value, bool>::type\n        pop"); s=s[:i]+s[i:].replace("item = std::move(queue_.front());\n            queue_.pop();","queue_.pop();\n            item = std::move(queue_.front());",1)
E
m waitany <<'E'
i=s.index("std::is_move_assignable<element_t_>::value, bool>::type\n        pop"); s=s[:i]+s[i:].replace("while(queue_.empty() && !closed_)","while(queue_.empty())",1)
E
F=esl/computation/thread_pool.hpp
m noreturn <<'E'
s=s.replace("                    return;\n","                    break;\n",1)
E
m noreturn2 <<'E'
s=s.replace("                    return result_;\n","                    continue;\n",1)
E
m queues_less <<'E'
s=s.replace("queues_(thread_count(threads))","queues_(threads)")
E
m zero <<'E'
s=s.replace("std::max(1u, std::thread::hardware_concurrency())","std::thread::hardware_concurrency()")
E
m nojoin <<'E'
s=s.replace("                thread.join();","                thread.detach();")
E
m order <<'E'
s=s.replace("""            for(auto &queue: queues_) {
                queue.close();
            }
            for(auto &thread: threads_) {
                thread.join();
            }""","""            for(unsigned int i = 0; i < threads; ++i) {
                queues_[i].close();
                threads_[i].join();
            }""")
E
m twice <<'E'
s=s.replace("                    function_();\n","                    function_();\n                    if(function_) { function_(); }\n")
E
m outside <<'E'
s=s.replace("""                while (true) {
                    std::function<void(void)> function_;""","""                std::function<void(void)> function_;
                while (true) {""")
E
m ref <<'E'
s=s.replace("[ p = std::forward<function_t_>(f)","[ &f")
s=s.replace("std::apply(p, t)","std::apply(f, t)")
E
m breakempty <<'E'
s=s.replace("if (!function_ && !queues_[i].pop(function_))","if (!function_ && queues_[i].empty())")
E
m other <<'E'
s=s.replace("!queues_[i].pop(function_)","!queues_[(i + 1) % this->threads].pop(function_)")
E
m nomod <<'E'
s=s.replace("queues_[(i + n) % threads].try_push(work_)","queues_[i + n].try_push(work_)")
E
m fewer <<'E'
s=s.replace("for (unsigned int i = 0; i < this->threads; ++i) {","for (unsigned int i = 1; i < this->threads; ++i) {")
E
m nobreak <<'E'
s=s.replace(".try_pop(function_)) {\n                            break;",".try_pop(function_)) {\n                            continue;")
E
