. /tmp/w/m.sh; P=D01; T=2
F=esl/simulation/parameter/sampler.hpp; m random_device <<'E'
s=s.replace('std::mt19937 generator_(seed);','std::mt19937 generator_(std::random_device{}());')
E
m clock-seed <<'E'
s=s.replace('std::mt19937 generator_(seed);','std::mt19937 generator_(static_cast<unsigned int>(time(nullptr)));')
E
m map-draw <<'E'
s=s.replace('''                for(const auto &p: parameters) {
                    sample_[p] = distributions_[p](generator_);
                }''','''                for(auto &[p, d]: distributions_) {
                    sample_[p] = d(generator_);
                }''')
E
m lh-map <<'E'
s=s.replace('''                std::shuffle(indices_[p].begin(), indices_[p].end(), generator_);
            }
            std::vector<std::map<std::shared_ptr<parameter::interval<number_t_>>, number_t_>> result_;

            for(unsigned int s = 0; s < density; ++s) {''','''            }
            for(auto &[p, i]: indices_) { std::shuffle(i.begin(), i.end(), generator_); }
            std::vector<std::map<std::shared_ptr<parameter::interval<number_t_>>, number_t_>> result_;

            for(unsigned int s = 0; s < density; ++s) {''',1)
E
F=esl/economics/finance/bond.hpp; m bond <<'E'
s=s.replace('effective(0), ','')
E
F=esl/data/output_base.cpp; m outb <<'E'
s=s.replace('    , streams(streams)\n    , buffered(true)\n','    , streams(streams)\n')
E
F=esl/simulation/model.cpp; m rounds <<'E'
s=s.replace('unsigned int round_ = 0','unsigned int round_') if 'unsigned int round_ = 0' in s else s.replace('round_ = 0;','round_;',1)
E
m timed <<'E'
s=s.replace('        time = first_event_;\n','        if((high_resolution_clock::now() - timer_start_).count() > 1000000000) return first_event_ + 1;\n        time = first_event_;\n')
E
F=esl/computation/environment.cpp; m slow <<'E'
s=s.replace('                timer_run_ = clock_;\n','                timer_run_ = clock_;\n                step_.lower += 0 * changes_ + 1;\n')
E
m break <<'E'
s=s.replace('                timer_run_ = clock_;\n','                timer_run_ = clock_;\n                if(changes_ > 5) break;\n')
E
F=esl/law/property_collection_hash.hpp
F=esl/economics/markets/centralized_exchange.hpp; m counter <<'E'
s=s.replace('response_->sent   = ti.lower;','static int counter_; ++counter_; response_->sent   = ti.lower;')
E
F=esl/law/property.hpp
F=esl/agent.hpp; m field <<'E'
s=s.replace('struct agent','int *verif_dummy(); struct agent') if False else s+'\nnamespace esl { static int agent_counter_ = 0; inline int next_agent_() { return ++agent_counter_; } }\n'
E
F=esl/economics/company.cpp; m ptrset <<'E'
s=s.replace('#include','#include <set>\n#include',1)+'\nnamespace esl { int verif_x(const std::set<std::shared_ptr<law::property>> &c) { int r = 7; for(auto &p: c) { r = 3 * r + (p ? 1 : 2); } return r; } }\n'
E
m ptrcmp <<'E'
s=s+'\nnamespace esl { bool verif_y(const std::shared_ptr<law::property> &a, const std::shared_ptr<law::property> &b) { return a < b; } }\n'
E
m ptrint <<'E'
s=s+'\nnamespace esl { std::uint64_t verif_y(const law::property *a) { return reinterpret_cast<std::uintptr_t>(a) % 7; } }\n'
E
m hashptr <<'E'
s=s+'\nnamespace esl { std::uint64_t verif_y(const std::shared_ptr<law::property> &a) { return std::hash<std::shared_ptr<law::property>>()(a) % 7; } }\n'
E
m uninit <<'E'
s=s+'\nnamespace esl { int verif_y(int k) { int r; if(k > 3) { r = 1; } else if(k > 2) { r = 2; } return r; } }\n'
E
m uninit-loop <<'E'
s=s+'\nnamespace esl { int verif_y(int k) { int r; for(int i = 0; i < k; ++i) { r = i; } return r; } }\n'
E
m threadid <<'E'
s=s+'\n#include <thread>\nnamespace esl { bool verif_y() { return std::this_thread::get_id() == std::thread::id(); } }\n'
E
m getenv <<'E'
s=s+'\n#include <cstdlib>\nnamespace esl { int verif_y() { int r = 0; if(std::getenv("X")) { r = 3; } return r; } }\n'
E
