#pragma once
#include <string>
#include "../../../stub_common.hpp"
#include <rosidl_runtime_cpp/traits.hpp>
namespace visualization_msgs { namespace msg {
struct Marker : stub_ros::Marker {};
struct MarkerArray { std::vector<Marker> markers; };
inline std::string to_yaml(const Marker& m, const bool flow) { return std::string(flow ? "{id: " : "id: ") + std::to_string(m.id) + (flow ? ", " : "\n") + "text: " + m.text + (flow ? "}" : "\n"); }
} }
namespace rosidl_generator_traits { template<> struct is_message<visualization_msgs::msg::Marker> : std::true_type {}; }
