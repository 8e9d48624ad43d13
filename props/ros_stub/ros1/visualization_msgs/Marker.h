#pragma once
#include "../../stub_common.hpp"
namespace visualization_msgs
{
struct Marker : stub_ros::Marker {};
struct MarkerArray { std::vector<Marker> markers; };
}
