#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>
namespace glue
{
extern thread_local int g_window, g_pause;
}
namespace sched
{
struct Outcome
{
    bool stuck;
    uint64_t steps, switches;
    std::string races;
};
// runs f(0) .. f(n - 1) in n threads of which one runs at a time; plan: at which step to go on with which thread
Outcome run(int n, const std::vector<std::pair<uint64_t, int>>& plan, const std::function<void(int)>& f);
}
