. /tmp/w/m.sh; P=M06; T=4
F=esl/computation/environment.cpp; m r-next <<'E'
s=s.replace("            step_.lower = simulation.step(step_);","            const auto next_ = simulation.step(step_);\n            step_.lower = next_;")
E
m r-while <<'E'
s=s.replace("        do {\n            size_t changes_ = 0;","        while(step_.lower < simulation.end) {\n            size_t changes_ = 0;").replace("        } while(step_.lower < simulation.end);","        }")
E
m r-fortime <<'E'
s=s.replace("            step_.lower = simulation.step(step_);","            now_ = simulation.step(simulation::time_interval{now_, simulation.end}); step_.lower = now_;").replace("        do {\n            size_t changes_","        simulation::time_point now_ = simulation.start;\n        do {\n            size_t changes_").replace("while(step_.lower < simulation.end)","while(now_ < simulation.end)")
E
m r-forever <<'E'
s=s.replace("        do {\n            size_t changes_","        for(;;) {\n            size_t changes_").replace("        } while(step_.lower < simulation.end);","            if(step_.lower >= simulation.end) { break; }\n        }")
E
m r-notlt <<'E'
s=s.replace("while(step_.lower < simulation.end)","while(!(step_.lower >= simulation.end))")
E
m r-upper <<'E'
s=s.replace("while(step_.lower < simulation.end)","while(step_.lower < step_.upper)")
E
m r-early <<'E'
s=s.replace("        if(simulation.time < simulation.end) {\n            simulation.step(step_);\n        }","        const bool finished_ = simulation.end <= simulation.time;\n        if(!finished_) {\n            simulation.step(step_);\n        }")
E
m r-swap <<'E'
s=s.replace("        const size_t result_ = activated_.size();\n        activated_.clear();\n        return result_;","        std::vector<identity<agent>> done_;\n        std::swap(done_, activated_);\n        return done_.size();")
E
m r-count <<'E'
s=s.replace("        const size_t result_ = activated_.size();\n        activated_.clear();\n        return result_;","        size_t result_ = 0;\n        for(const auto &a : activated_) { (void)a; ++result_; }\n        activated_.clear();\n        return result_;")
E
m r-emplace <<'E'
s=s.replace("activated_.push_back(a)","activated_.emplace_back(a)")
E
m r-helper <<'E'
i=s.index('                std::cout << "\\rrun " << step_.lower'); j=s.index("            }\n\n        } while(")
body=s[i:j]
s=s[:i]+"                print_progress(step_, simulation_time_start, width_);\n"+s[j:]
s=s.replace("    environment::environment()","    static void print_progress(const simulation::time_interval &step_, simulation::time_point simulation_time_start, unsigned int width_)\n    {\n"+body+"    }\n\n    environment::environment()",1)
E
m r-changes <<'E'
s=s.replace("            size_t changes_ = 0;\n            changes_ += activate();\n            changes_ += deactivate();\n            step_","            const size_t changes_ = activate() + deactivate();\n            step_")
E
F=esl/simulation/model.cpp; m r-time <<'E'
s=s.replace(', time(parameters.get<time_point>("start"))',', time(start)')
E
m r-threads <<'E'
s=s.replace(', threads( std::max<std::uint64_t>(1ull, parameters.get<std::uint64_t>("threads")))',', threads(parameters.get<std::uint64_t>("threads"))').replace("    {\n\n    }","    {\n        if(0 == threads) { threads = 1; }\n    }",1)
E
