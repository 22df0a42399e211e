. /tmp/w/m.sh; P=M06; T=2
F=esl/computation/environment.cpp; m no-advance <<'E'
s=s.replace("            step_.lower = simulation.step(step_);","            step_.lower = std::max(step_.lower + 1, simulation.step(step_));")
E
m le-end <<'E'
s=s.replace("while(step_.lower < simulation.end)","while(step_.lower <= simulation.end)")
E
m stop-early <<'E'
s=s.replace("while(step_.lower < simulation.end)","while(step_.lower + 1 < simulation.end)")
E
m stop-break <<'E'
s=s.replace("            auto clock_ = high","            if(changes_ > 0 && step_.lower > simulation.start) break;\n            auto clock_ = high")
E
m init-in-loop <<'E'
s=s.replace("            size_t changes_ = 0;\n            changes_ += activate();\n            changes_ += deactivate();\n            step_","            simulation.initialize();\n            size_t changes_ = 0;\n            changes_ += activate();\n            changes_ += deactivate();\n            step_")
E
m no-term <<'E'
s=s.replace("        simulation.terminate();\n","        if(step_.lower == simulation.end) simulation.terminate();\n")
E
m after-first <<'E'
s=s.replace("        simulation.terminate();\n","        after_run(simulation);simulation.terminate();\n",1).replace("\n        after_run(simulation);\n","\n")
E
m start-time <<'E'
s=s.replace("step_ = {simulation.start, simulation.end};","step_ = {0, simulation.end};")
E
m step-start <<'E'
s=s.replace("step_ = {simulation.time, simulation.end};","step_ = {simulation.start, simulation.end};")
E
m step-upper <<'E'
s=s.replace("step_ = {simulation.time, simulation.end};","step_ = {simulation.time, simulation.time + 1};")
E
m step-le <<'E'
s=s.replace("if(simulation.time < simulation.end)","if(simulation.time <= simulation.end)")
E
m noclear <<'E'
s=s.replace("        deactivated_.clear();\n","")
E
m otherclear <<'E'
s=s.replace("        deactivated_.clear();\n","        activated_.clear();\n")
E
m count-after <<'E'
s=s.replace("        const size_t result_ = activated_.size();\n        activated_.clear();","        activated_.clear();const size_t result_ = activated_.size();\n        ")
E
m wrongqueue <<'E'
s=s.replace("        deactivated_.push_back(a);","        activated_.push_back(a);")
E
m timebump <<'E'
s=s.replace("            auto clock_ = high","            simulation.time = step_.lower;\n            auto clock_ = high")
E
F=esl/simulation/model.cpp; m time0 <<'E'
s=s.replace(', time(parameters.get<time_point>("start"))',', time(0)')
E
m endstart <<'E'
s=s.replace(', end(parameters.get<time_point>("end"))',', end(parameters.get<time_point>("start"))')
E
m samplekey <<'E'
s=s.replace('std::uint64_t>("sample"))','std::uint64_t>("verbosity"))')
E
m threads <<'E'
s=s.replace('threads( std::max<std::uint64_t>(1ull, parameters.get<std::uint64_t>("threads")))','threads( std::max<std::uint64_t>(0ull, parameters.get<std::uint64_t>("threads")))')
E
m threads1 <<'E'
s=s.replace('threads( std::max<std::uint64_t>(1ull, parameters.get<std::uint64_t>("threads")))','threads( std::min<std::uint64_t>(1ull, parameters.get<std::uint64_t>("threads")))')
E
