// instantiates the parameters of a model and the samplers
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <unordered_map>
#include <esl/simulation/parameter/parametrization.hpp>
#include <esl/simulation/parameter/sampler.hpp>
namespace verif_params {
    using namespace esl::simulation::parameter;
    inline void sample(std::vector<std::shared_ptr<interval<double>>> ps, std::map<std::shared_ptr<interval<double>>, unsigned int> ds) {
        (void)sampler::uniform_random<double>(ps, 1u);
        (void)sampler::grid<double>(ds);
        (void)sampler::latin_hypercube<double>(ps, 1u);
    }
    inline double parameters(const parametrization &p) { return p.get<double>("a") + double(p.get<std::uint64_t>("b")); }
}
