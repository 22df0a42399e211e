. /tmp/w/m.sh; P=M05; F=esl/computation/blocking_queue.hpp; export T=4
m lockguard <<'E'
s=s.replace("                std::unique_lock lock(mutex_);","                std::lock_guard<std::mutex> guard(mutex_);")
E
m pred <<'E'
s=s.replace("""            while(queue_.empty() && !closed_) {
                variable_.wait(lock_);
            }""","""            variable_.wait(lock_, [this]() { return !queue_.empty() || closed_; });""")
E
m try_lock_member <<'E'
s=s.replace("""                std::unique_lock lock_(mutex_, std::try_to_lock);
                if(!lock_) {
                    return false;
                }""","""                std::unique_lock lock_(mutex_, std::try_to_lock);
                if(!lock_.owns_lock()) {
                    return false;
                }""")
E
m explicit <<'E'
s=s.replace("""            {
                std::unique_lock lock(mutex_);
                queue_.push(item);
            }
""","""            mutex_.lock();
            queue_.push(item);
            mutex_.unlock();
""")
E
m explicit2 <<'E'
s=s.replace("""            {
                std::unique_lock lock(mutex_);
                queue_.push(item);
            }
""","""            std::unique_lock lock(mutex_);
            queue_.push(item);
            lock.unlock();
""")
E
m notifyinside <<'E'
s=s.replace("""                closed_ = true;
            }
            variable_.notify_all();""","""                closed_.store(true);
                variable_.notify_all();
            }""")
E
m helper <<'E'
s=s.replace("""            item = std::move(queue_.front());
            queue_.pop();
            return true;""","""            take(item);
            return true;""").replace("""    public:
        ///
        /// \\brief  The queue is open by default""","""        void take(element_t_ &item)
        {
            item = std::move(queue_.front());
            queue_.pop();
        }

    public:
        ///
        /// \\brief  The queue is open by default""")
E
m sizezero <<'E'
s=s.replace("            return queue_.empty();","            return queue_.size() == 0;")
E
m invert <<'E'
s=s.replace("""            if(!lock_ || queue_.empty()) {
                return false;
            }
            item = std::move(queue_.front());
            queue_.pop();
            return true;""","""            bool taken_ = false;
            if(lock_ && !queue_.empty()) {
                item = std::move(queue_.front());
                queue_.pop();
                taken_ = true;
            }
            return taken_;""")
E
m whiletrue <<'E'
s=s.replace("""            while(queue_.empty() && !closed_) {
                variable_.wait(lock_);
            }""","""            while(true) {
                if(!queue_.empty() || closed_) {
                    break;
                }
                variable_.wait(lock_);
            }""")
E
F=esl/computation/thread_pool.hpp
m idxloops <<'E'
s=s.replace("""            for(auto &queue: queues_) {
                queue.close();
            }""","""            for(std::size_t i = 0; i < queues_.size(); ++i) {
                queues_[i].close();
            }""").replace("""            for(auto &thread: threads_) {
                thread.join();
            }""","""            for(auto it = threads_.begin(); it != threads_.end(); ++it) {
                if(it->joinable()) {
                    it->join();
                }
            }""")
E
m whileloop <<'E'
s=s.replace("""            for (unsigned int i = 0; i < this->threads; ++i) {
                threads_.emplace_back(worker_, i);
            }""","""            threads_.reserve(this->threads);
            unsigned int i = 0;
            while(i < this->threads) {
                threads_.push_back(std::thread(worker_, i));
                i += 1;
            }""")
E
m offer <<'E'
s=s.replace("""            for(unsigned int n = 0; n < (unsigned int)(threads * load_factor); ++n){
                if (queues_[(i + n) % threads].try_push(work_)) {
                    return;
                }
            }

            queues_[i % threads].push(std::move(work_));""","""            const auto attempts_ = (unsigned int)(threads * load_factor);
            bool offered_ = false;
            for(unsigned int n = 0; !offered_ && n < attempts_; ++n){
                offered_ = queues_[(i + n) % threads].try_push(work_);
            }
            if(!offered_) {
                queues_[i % threads].push(work_);
            }""")
E
m worker2 <<'E'
s=s.replace("""                    if (!function_ && !queues_[i].pop(function_)) {
                        break;
                    }
""","""                    if (!function_) {
                        if(!queues_[i].pop(function_)) {
                            return;
                        }
                    }
""")
E
m worker3 <<'E'
s=s.replace("""                while (true) {
                    std::function<void(void)> function_;""","""                for(;;) {
                    std::function<void(void)> function_ = nullptr;
                    auto &own_ = queues_[i];""").replace("!queues_[i].pop(","!own_.pop(")
E
m qsize <<'E'
s=s.replace("queues_[(i + n) % threads].try_push(work_)","queues_[(i + n) % queues_.size()].try_push(work_)")
E
m max <<'E'
s=s.replace("            return std::max(1u, std::thread::hardware_concurrency());","            auto n = std::thread::hardware_concurrency();\n            return n == 0 ? 1 : n;")
E
m invoke <<'E'
s=s.replace("                    function_();","                    std::invoke(function_);")
E
m task <<'E'
s=s.replace("                (*task_)();","                task_->operator()();")
E
