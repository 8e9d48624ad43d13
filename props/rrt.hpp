// States and worlds for the RRT properties (C16, C17).
#pragma once

#include "pbt.hpp"

#include <common_robotics_utilities/simple_rrt_planner.hpp>

namespace rrtw
{
namespace rrt = common_robotics_utilities::simple_rrt_planner;

// A state that owns memory, so that a dangling reference to one is noticed.
struct S
{
  int64_t id = -1;
  int64_t revision = 0;
  std::string payload;
  bool operator==(const S& o) const { return id == o.id && revision == o.revision && payload == o.payload; }
};

struct World
{
  uint64_t salt = 0;
  uint64_t goals_of_16 = 2;
  uint64_t connected_of_16 = 2;
  int64_t next = 0;

  // Now and then a state that equals an earlier one.
  S NewState(pbt::Src& src)
  {
    S s;
    s.id = (next > 0 && src.Bool(1, 8)) ? src.Int(0, next - 1) : next++;
    s.payload = "state number " + std::to_string(s.id) + " with a payload on the heap";
    return s;
  }

  bool Goal(const S& s) const { return pbt::Mix(salt ^ (static_cast<uint64_t>(s.id) * 64 + static_cast<uint64_t>(s.revision))) % 16 < goals_of_16; }

  // Not symmetric, and different for the two trees.
  bool Connected(const S& from, const S& to, const size_t active) const
  {
    const uint64_t a = static_cast<uint64_t>(from.id) * 64 + static_cast<uint64_t>(from.revision);
    const uint64_t b = static_cast<uint64_t>(to.id) * 64 + static_cast<uint64_t>(to.revision);
    return pbt::Mix(pbt::Mix(salt + a) * 3 + b + active * 7919) % 16 < connected_of_16;
  }
};
}  // namespace rrtw
