// A converter instance as a closed box: given events, it answers with what it sends.
#pragma once
#include "mc.hpp"
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace box {
inline uint64_t mixn(uint64_t h) { return h; }
template <class... T> uint64_t mixn(uint64_t h, uint64_t v, T... r) { return mixn(mc::mix(h, v), r...); }
struct Box { virtual ~Box() {} virtual void init() = 0; virtual std::string act(int e) = 0; };
// core: how many of the events (the first ones) are combined in long sequences
struct Kind { std::string name; std::vector<std::string> events; int core; std::function<Box *(uint8_t fill)> make; };
std::vector<Kind> ubx_kinds();
}
