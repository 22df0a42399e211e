. /tmp/w/m.sh; P=D01; T=3
F=esl/simulation/parameter/sampler.hpp; m r-iter <<'E'
s=s.replace('''                for(const auto &p: parameters) {
                    sample_[p] = distributions_[p](generator_);
                }''','''                for(auto i = parameters.begin(); i != parameters.end(); ++i) {
                    auto &d = distributions_[*i];
                    number_t_ v = d(generator_);
                    sample_.emplace(*i, v);
                }''')
E
m r-index <<'E'
s=s.replace('''                for(const auto &p: parameters) {
                    sample_[p] = distributions_[p](generator_);
                }''','''                for(size_t i = 0; i < parameters.size(); ++i) {
                    auto found_ = distributions_.find(parameters[i]);
                    sample_[parameters[i]] = found_->second(generator_);
                }''')
E
m r-lh-iter <<'E'
s=s.replace('''                for(const auto &[p, index_]: indices_){
                    sample_[p] = values_[p][index_[s]];
                }''','''                for(const auto &entry_: indices_){
                    const auto &p = entry_.first;
                    const size_t which_ = entry_.second[s];
                    sample_.emplace(p, values_[p].at(which_));
                }''')
E
m r-lh-params <<'E'
s=s.replace('''                for(const auto &[p, index_]: indices_){
                    sample_[p] = values_[p][index_[s]];
                }''','''                for(const auto &p: parameters){
                    sample_[p] = values_[p][indices_[p][s]];
                }''')
E
m r-grid-it <<'E'
s=s.replace('''                for(const auto &[p, i] :indices_) {
                    sample_[p] = values_.find(p)->second[i];
                }''','''                for(auto it = indices_.begin(); it != indices_.end(); ++it) {
                    sample_[it->first] = values_.find(it->first)->second[it->second];
                }''')
E
F=esl/simulation/model.cpp; m r-watch <<'E'
s=s.replace('    time_point model::step(time_interval step)','''    namespace {
        struct stopwatch
        {
            std::chrono::high_resolution_clock::time_point begin_ = std::chrono::high_resolution_clock::now();
            double elapsed() const { return double((std::chrono::high_resolution_clock::now() - begin_).count()) / 1e+9; }
        };
    }
    time_point model::step(time_interval step)''').replace('        auto timer_start_ = high_resolution_clock::now();\n','        stopwatch timer_;\n',1).replace('        auto total_ = high_resolution_clock::now() - timer_start_;\n','        auto total_ = timer_.elapsed();\n')
E
m r-later <<'E'
s=s.replace('        unsigned int round_ = 0;\n','        unsigned int round_;\n        if(verbosity > 3) { round_ = 0; } else { round_ = 0; }\n')
E
m r-since <<'E'
s=s.replace('    time_point model::step(time_interval step)','''    static auto since(const std::chrono::high_resolution_clock::time_point &t)
    {
        return std::chrono::high_resolution_clock::now() - t;
    }
    time_point model::step(time_interval step)''').replace('auto total_ = high_resolution_clock::now() - timer_start_;','auto total_ = since(timer_start_);')
E
F=esl/computation/environment.cpp; m r-progress <<'E'
i=s.index("                auto progress_ = double"); j=s.index("                std::cout << ']' << std::flush;\n            }")
body=s[i:j]
s=s[:i]+"                draw_progress(step_, simulation_time_start, width_);\n"+s[j:]
s=s.replace('    void environment::run(','''    static void draw_progress(const simulation::time_interval &step_, simulation::time_point simulation_time_start, unsigned int width_)
    {
'''+body+'''    }
    void environment::run(''',1)
E
m r-due <<'E'
s=s.replace("if((clock_ - timer_run_).count() / 1e+9 >= update_interval_) {","bool due_ = (clock_ - timer_run_).count() / 1e+9 >= update_interval_;\n            if(due_) {")
E
F=esl/economics/finance/bond.hpp; m r-body <<'E'
s=s.replace('coupon(coupon), effective(0), maturity(maturity)\n        {\n','coupon(coupon), maturity(maturity)\n        {\n            effective = 0;\n')
E
m r-default <<'E'
s=s.replace('esl::simulation::time_point effective;','esl::simulation::time_point effective = 0;').replace('effective(0), ','')
E
F=esl/data/output_base.cpp; m r-delegate <<'E'
s=s.replace('''    : name(name)
    , streams(streams)
    , buffered(true)
    {
''','''    : output_base(name)
    {
        this->streams = streams;
''')
E
