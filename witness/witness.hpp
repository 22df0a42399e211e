// Obligations are functions whose only wrong outcome is a call of violated_<name>().  Nothing here is
// ever run: an obligation is discharged when a compiler pipeline proves that call dead for every input
// (dead-code elimination over the optimised intermediate representation of the repository's own code).
// reached_<name>() must stay alive, so an obligation cannot be discharged by never completing.
#pragma once
#include <cstdint>
#include <cassert>
#include <array>
#include <limits>

#define WSTR2(x) #x
#define WSTR(x) WSTR2(x)
#define OBLIGATION(n, target, params, ...)                                                        \
    extern "C" { extern const char target_##n[]; const char target_##n[] = "O " WSTR(__LINE__) " " target; } \
    extern "C" void violated_##n() noexcept;                                                      \
    extern "C" void reached_##n() noexcept;                                                       \
    extern "C" void obligation_##n params                                                         \
    {                                                                                             \
        struct guard_t { bool done = false; ~guard_t() { if(!done) violated_##n(); } } guard;     \
        auto require = [](bool c) { if(!c) violated_##n(); };                                     \
        (void)require;                                                                            \
        { __VA_ARGS__; }                                                                          \
        guard.done = true;                                                                        \
        reached_##n();                                                                            \
    }
// precondition of an obligation
#define GIVEN(c) if(!(c)) { guard.done = true; return; }

// the operation must not complete: it throws or aborts for every input that meets `pre`; `unchanged`
// is what must still be true when an exception leaves it
#define REJECTS(n, target, params, setup, pre, unchanged, ...)                                    \
    extern "C" { extern const char target_##n[]; const char target_##n[] = "R " WSTR(__LINE__) " " target; } \
    extern "C" void violated_##n() noexcept;                                                      \
    extern "C" void reached_##n() noexcept;                                                       \
    extern "C" void obligation_##n params                                                         \
    {                                                                                             \
        setup;                                                                                    \
        if(!(pre)) { return; }                                                                    \
        try { __VA_ARGS__; violated_##n(); }                                                      \
        catch(...) { if(!(unchanged)) { violated_##n(); } reached_##n(); }                        \
    }
using u64 = std::uint64_t;
using i64 = std::int64_t;
