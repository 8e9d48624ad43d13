#pragma once

#include <cstdint>
#include <string>
#include <vector>

namespace stub_ros
{
struct Stamp { int32_t sec = 0; uint32_t nanosec = 0; };
inline bool operator==(const Stamp& a, const Stamp& b) { return a.sec == b.sec && a.nanosec == b.nanosec; }
struct Header { Stamp stamp; std::string frame_id; };
struct Marker { Header header; std::string ns; int32_t id = 0; int32_t type = 0; std::string text; };
struct MarkerArray { std::vector<Marker> markers; };
}  // namespace stub_ros
